"""Writes MANIFEST.json from the list of finished checks (sim/props/cNN.py)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: seeded random search over "
WHAT = {
    "C01": "record types, values, network behaviour and task schedules, against an independent reference codec",
    "C02": "conversations over streams that deliver nothing early, with deadlock detection, sizes against a reference codec",
    "C03": "stream failures at every byte of random records, with bounded steps",
    "C04": "failing destinations and values that do not fit, against a reference codec",
    "C05": "histories of appends, syncs and torn-write crashes on a simulated disk",
    "C06": "peek patterns, variants and stream failures, against a reference decoder",
    "C07": "access histories, instruction-level thread schedules and interruptions, lazy against eager reference",
    "C08": "instruction-level thread schedules of operations on shared declarations, against a reference codec",
    "C09": "bit flips in random records, against a reference decoder",
    "C10": "asynchronous exceptions at instructions of operations, followed by operations checked against a reference",
    "C11": "operation histories over pools of records, against a reference model",
    "C12": "packet layouts and datagram loss, duplication, reordering and delay, against an independent reference codec",
    "C13": "packets cut off at random bytes, against a reference decoder, with bounded steps",
    "C14": "histories of receive-buffer reuse, against a reference model",
    "C15": "failing application callbacks at every call, followed by operations checked against a reference",
    "C16": "instruction-level thread schedules of operations on shared layouts, against a reference codec",
    "C17": "operation histories with failed unpacks, against a reference model",
    "C18": "dependency graphs and names, counting application callbacks, with bounded steps",
    "C20": "damage to packets in transit, against a reference decoder, with bounded steps",
    "C19": "operation histories with failing sources, against a bit-list model",
}
have = [p for p in sorted(WHAT) if os.path.exists(os.path.join(HERE, "sim", "props", p.lower() + ".py"))]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p,
                 "technique": TECH + WHAT[p], "level": "exploration",
                 "level_note": "seeded search over simulated runs; not exhaustive"} for p in have],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(WHAT) if p not in have]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
