"""Write MANIFEST.json from the checks present in checks/."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
    "default": "Held on every generated workload step; the inputs are an "
               "infinite set, so this is exploration, not proof.",
}
TECH = {
    "default": "runtime monitoring: the real library runs under generated "
               "workloads while a monitor compares every observed result "
               "with an independent reference model",
    "C22": "runtime monitoring: histories of calls with byte snapshots of all "
           "arguments, read-only and refilled arrays, overwritten results and "
           "the state of the random generators watched around every call",
    "C25": "runtime monitoring of concurrent executions: two threads under a "
           "controlled scheduler with seeded pre-emption points (line "
           "events), plus free-running threads; every result compared with "
           "the call alone",
    "C26": "runtime monitoring: process-wide state, descriptors, files, "
           "output and warnings watched around every call; leak detection by "
           "traced memory over series of calls",
    "C29": "runtime monitoring: the same recorded workload is executed in "
           "fresh interpreters with different hash seeds, flags, threads, "
           "locales, import and call orders, and the records are compared",
    "C32": "runtime monitoring: the example programs are executed as separate "
           "processes, some with another system put in by interception, and "
           "the energies they print are compared with independent programs",
    "C31": "runtime monitoring of traced peak memory during calls on "
           "problems of proportional dimensions",
    "C24": "runtime monitoring: the same recorded workload is executed in two "
           "processes, with and without the optional package, and the "
           "recorded results are compared",
}
checks = []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        continue
    src = open(os.path.join(here, "checks", pid.lower() + ".py")).read()
    checks.append(dict(
        property=pid,
        quick_cmd="bash run.sh %s quick" % pid,
        thorough_cmd="bash run.sh %s thorough" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique=TECH.get(pid, TECH["default"]),
        level="exploration",
        level_note=NOTE.get(pid, NOTE["default"])))
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
           not_applicable=[],
           notes="No source hooks: all monitors observe the public interface. "
                 "Known findings: see known-findings.txt. Replay a violation "
                 "with: bash run.sh <id> --replay <file>.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
