#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.plan import make_plan
def P(*a, **k): return dict(k, h=a[0])
plan = make_plan(P, "/repo", HERE)
TECH = {
 "h_math": "runtime monitoring: public math functions on generated inputs, oracle = extended-precision series",
 "h_filter": "runtime monitoring: online step monitor of the real estimator against an extended-precision reference filter",
 "h_state": "runtime monitoring: trace monitor (queues, published states, times) of the real estimator against an executable model",
 "h_log": "runtime monitoring: offline checker of log files and published-state history",
 "h_gyro": "runtime monitoring: online step monitor of the real gyro filter against a reference filter and queue model",
 "h_kin": "runtime monitoring: geometry and derivative oracles on generated joint configurations",
 "h_data": "runtime monitoring: container operation histories against a shadow model",
 "h_conc": "runtime monitoring under stress: multi-threaded workload, history checkers",
 "h_mem": "AddressSanitizer + UndefinedBehaviorSanitizer on operation histories",
 "h_wheel": "runtime monitoring: trajectory log of the real baseline against a reference",
 "h_ros": "runtime monitoring: message/measurement histories of the real bridge code over stub ROS transport",
}
OVER = {"C01": "ThreadSanitizer (races, lock-order) on the real pipeline under multi-threaded stress with injected delays",
        "C02": "AddressSanitizer + UndefinedBehaviorSanitizer + valgrind memcheck on random public-API programs and on the workloads of all other checks"}
NOTE = "Held on the executions of this run, nothing more; counts, largest deviations and samples are in the evidence file. "
EXTRA = {
 "h_math": "Trusts the 80-bit reference series and the rounding allowances.",
 "h_filter": "Trusts the extended-precision reference filter (written from the model, not the code) and its rounding allowances.",
 "h_ros": "Trusts hand-written stand-ins for the ROS headers.",
 "h_conc": "Only the interleavings that occurred; delays are injected around and inside every lock, in producers, consumers and measurement objects.",
 "h_mem": "Only what the sanitizers and memcheck can see (no intra-object overflow, no reads of padding).",
 "h_wheel": "Trusts the harness's reference trajectory and log reader.",
}
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan:
        h = plan[i]["h"]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=OVER.get(i, TECH[h]), level="exploration", level_note=NOTE + EXTRA.get(h, "Trusts the harness's model of the documented behaviour.")))
    else:
        na.append(dict(property=i, reason="Check not built yet."))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: every monitor sits at public interfaces."), open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
