#!/opt/venv/bin/python
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") is None or sys.flags.dont_write_bytecode == 0:
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__), *sys.argv[1:]])
sys.path.insert(0, here)
sys.setswitchinterval(1000)
from sim import runner
cmd = sys.argv[1]
if cmd == "replay":
    sys.exit(runner.replay(sys.argv[2]))
if cmd == "determinism":
    sys.exit(runner.determinism(sys.argv[2], int(sys.argv[3])))
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(runner.check(cmd, tier, int(sys.argv[3]) if len(sys.argv) > 3 else None))
