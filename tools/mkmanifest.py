"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
LEVEL = {
 "C01": "Real queue and SQLite code on a simulated disk; every return value compared with a plain FIFO model, over seeded histories with restarts and disk errors. Sampled, not exhaustive. Trusts SQLite's own logic and the reference model.",
 "C02": "Real application and SQLite on a simulated disk with kill/power-loss at seeded line and disk-write instants; judged by what is re-delivered. Sampled. Assumes directory operations are durable and fsync works.",
 "C03": "Real application ended by signals at seeded instants (also between any two lines of its code) with disk errors on one queue; restart and drain; conservation oracle. Sampled.",
 "C04": "Real application and clients in one process; linearizability of the observed history against a two-map model of each queue, plus attempt counts, order and overlap. Sampled.",
 "C05": "Real buffered senders, with the real clients against a real or scripted server under network and process faults, and with a scripted client for exact attempt counts. Sampled.",
 "C06": "Five real clients on the simulated network against real and scripted servers; each result carries a token of the request that produced it. Sampled.",
 "C07": "Five real clients under connection and server faults; bounded time, documented errors, bounded attempts and recovery are checked on every call. Sampled.",
 "C08": "Real TCP/UDS/UDP servers fed arbitrary bytes in arbitrary segmentation by several simulated peers; responses compared with a reference answer per line. Sampled.",
 "C09": "Real application; pause epochs derived from management responses; every attempt, refusal and reported flag is checked against them, and the history must be linearizable. Sampled.",
 "C10": "Real application; history of management operations and attempts must be linearizable against the two-map model. Sampled.",
 "C11": "Real application with recording middleware; every attempt is compared with what was pushed, across retries, error round trips and restarts. Sampled.",
 "C12": "Real application on a simulated clock; statistics responses compared with a count of completed requests and gathering periods. Sampled.",
 "C13": "Real logging on a scratch file system; log files re-read and compared with the records the handlers emitted. Sampled.",
 "C14": "Real C++ shipper with its system calls and HTTP client behind a simulated file system, clock and collector; delivered lines compared with written lines. Sampled.",
 "C15": "As C14 with hostile files and collectors: the shipper must survive and catch up. Sampled.",
 "C16": "Real application start-up on a simulated process table with kills between any two lines; overlapping and repeated starts. Sampled.",
 "C17": "Real scraper and real metric registry against simulated targets of every failure kind. Sampled.",
 "C21": "Real tools, each a simulated process of its own, against real applications; every byte they send, their output and exit code compared with a table of options. Sampled.",
 "C19": "Real applications of one simulated machine, started and restarted under a changing environment and configuration files; each judged by where it answers and what it writes. Sampled.",
 "C20": "Real cache shared by tasks of a simulated application; every answer and the whole content compared with an ordered-dictionary model. Sampled.",
 "C22": "Real application with concurrent handlers and clients; the history of increments, clears and answers must be linearizable against counters. Sampled.",
 "C23": "Real application with recording middlewares that wait, replace, reroute and raise; every hook call and response compared with the chain the request should take. Sampled.",
 "C24": "Several real applications that call one another through all kinds of senders; every key, content and response of every hop compared with the call it belongs to. Sampled.",
 "C25": "A real application with background tasks, started, ended at arbitrary points and started again; its tasks, endpoints, queues and end judged from the recorded history. Sampled.",
 "C18": "Real tracing middleware and a recording exporter in the real application; exported spans compared with the requests and attempts observed. Sampled.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(here, "props", i.lower() + ".py")):
        checks.append({"property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i} quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search over schedules and fault sequences)",
            "level": "exploration", "level_note": LEVEL[i]})
    else:
        na.append({"property": i, "reason": "Not claimed yet: the simulation for it is not finished."})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sqlalchemy, pydantic\"", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the simulator replaces the event loop, clocks, sockets, randomness, process table and SQLite's file layer from outside. Replay: check.py replay FILE."},
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
