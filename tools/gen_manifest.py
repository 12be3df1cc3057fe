"""Write MANIFEST.json from the list of check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "reference": "Observed calls replayed in an independent float64 model",
    "state": "Snapshots of state before and after each call",
    "trace": "Event log of evaluations and steps checked against a state machine",
    "stat": "Goodness-of-fit of observed draws plus exact checks",
    "cert": "Returned solutions compared with an independent optimum",
}
KIND = {
    "C01": "reference", "C02": "reference", "C03": "reference", "C04": "reference",
    "C05": "state", "C06": "reference", "C07": "reference", "C08": "reference", "C09": "stat",
    "C10": "reference", "C11": "reference", "C12": "reference", "C13": "reference",
    "C14": "trace", "C15": "trace", "C16": "reference", "C17": "state", "C18": "state",
    "C19": "cert", "C20": "cert", "C21": "cert", "C22": "cert", "C23": "reference",
    "C24": "reference", "C25": "reference", "C26": "reference", "C27": "reference",
    "C28": "trace", "C29": "reference", "C30": "state", "C31": "cert", "C32": "trace",
    "C33": "trace", "C34": "state", "C35": "trace",
    "C36": "reference", "C37": "reference", "C38": "trace", "C39": "reference", "C40": "reference",
    "C41": "cert",
}
TECH = {"reference": "runtime monitoring with a reference model",
        "state": "runtime state sanitizer", "trace": "runtime trace monitoring",
        "stat": "statistical runtime monitoring",
        "cert": "runtime certificate checking of returned solutions"}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "lib/vp/checks/%s.py" % p.lower())):
        continue
    cmd = "/opt/venv/bin/python /verif/run_check.py " + p
    kind = KIND.get(p, "reference")
    checks.append({
        "property": p, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
        "technique": TECH[kind], "level": "exploration",
        "level_note": NOTES[kind] + "; decides the executions of the generated workload, no more."})
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python /verif/tools/selftest.py",
    "checks": checks,
    "hooks": {"guard": "none", "enable": "no hooks: the monitors attach from outside the code",
              "source_commits": []},
    "not_applicable": [],
    "notes": "See DESIGN.md. Known and fixed findings are in KNOWN_FINDINGS.txt."},
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
