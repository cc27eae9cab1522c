"""Faults between two source lines of the code under test (sys.monitoring)."""
import sys

from . import core, loader

TOOL = 4
_codes = None
_state = None


def _cb(code, line):
    global _state
    st = _state
    if st is None:
        return sys.monitoring.DISABLE
    sim = core.ACTIVE
    if sim.current is not st["node"]:
        return None
    st["count"] -= 1
    if st["count"] > 0:
        return None
    _state = None
    disarm()
    sim.tr("linefault", st["what"], code.co_name, line)
    sim.rec("linefault", what=st["what"], at=f"{code.co_filename.split('/repo/')[-1]}:{code.co_qualname}")
    st["action"](st["node"])
    return None


def arm(node, count, what, action, only=None):
    """After `count` more executed lines of ekosis code in `node`, run action(node) there."""
    global _codes, _state
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "sim")
        m.register_callback(TOOL, m.events.LINE, _cb)
    if _codes is None:
        _codes = loader.code_objects([loader.REPO])
    _state = {"node": node, "count": count, "what": what, "action": action}
    for c in _codes:
        if only is None or only(c):
            m.set_local_events(TOOL, c, m.events.LINE)
    m.restart_events()


def armed():
    return _state is not None


def disarm():
    global _state
    _state = None
    m = sys.monitoring
    if m.get_tool(TOOL) is not None and _codes is not None:
        for c in _codes:
            m.set_local_events(TOOL, c, 0)
