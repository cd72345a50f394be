#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
SIM=("runtime monitoring: API-level simulator with online and offline oracles",
 "Held on the executions observed (randomized protocols, schedules and faults; real library code, ideal signatures). No guarantee beyond them.")
T={
"C01":("runtime monitoring: authenticity oracle over hostile simulated executions (splices, replays, relabelling)",SIM[1]),
"C02":("runtime monitoring: exactly-once/conservation oracle over event logs of simulated executions",SIM[1]),
"C03":("runtime monitoring: results of randomly scheduled executions compared with a reference evaluation",SIM[1]),
"C04":("runtime monitoring: agreement oracle over executions with equivocation and forged echoes",SIM[1]),
"C05":("runtime monitoring: attribution oracle over reports of hostile executions",SIM[1]),
"C06":("runtime monitoring: evidence from reports verified, transferred, and compared with the event log",SIM[1]),
"C07":("runtime monitoring: evidence forged from honest material in serialized form must be rejected",SIM[1]),
"C08":("runtime monitoring: crash/local-error monitor over hostile executions",SIM[1]),
"C09":("runtime monitoring: ban and error-persistence monitors over hostile executions",SIM[1]),
"C10":("runtime monitoring: online model of finalizability verdicts and reports",SIM[1]),
"C11":("runtime monitoring: tokio runners under injected delays, tiny channels, cancellation, closure; quiescence-based hang detection",SIM[1]),
"C12":("runtime monitoring: chained executions against the reference evaluation of the parts, all oracles",SIM[1]),
"C13":("runtime monitoring: differential runs of extended and plain protocols; expected verdicts of the evidence helper",SIM[1]),
"C14":("runtime monitoring: round-trip and corruption fuzzing of serialized messages and evidence",SIM[1]),
"C15":("sanitizers: Miri (undefined behavior, leaks, races) and ThreadSanitizer over session workloads","No report on the executions observed; Miri interprets a few small executions per run, TSan a few hundred."),
"C16":("runtime monitoring: creation, broadcast-identity and nonce-reuse monitors, sequential and parallel",SIM[1]),
"C17":("runtime monitoring: injected protocol mistakes and local failures in simulated executions",SIM[1]),
}
import sys
ready=sys.argv[1].split(",") if len(sys.argv)>1 else sorted(T)
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",technique=T[p][0],level="exploration",level_note=T[p][1]) for p in props if p in ready]
na=[dict(property=p,reason="check under construction") for p in props if p not in ready]
json.dump(dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na),open("/verif/MANIFEST.json","w"),indent=1)
