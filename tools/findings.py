"""Writes the 'fixed' entries of known_findings.jsonl from the fix: commits of /repo and the table below (which property each one belongs to)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = ("C03 C01 C28 C24 C24 C16 C16 C25 C22 C22 C22 C23 C29 C30 C30 C01 C25 C25 C04 C04 C37 C05 C09 C04 C07 C12 C09 C09 C09 C08 "
        "C11 C11 C11 C11 C11 C07 C11 C12 C12 C14 C15 C16 C16 C17 C17 C18 C18 C18 C19 C19 C19 C20 C36 C36 C36 C20 C21 C28 C31 C28 "
        "C31 C32 C33 C33 C33 C33 C33 C30 C34 C34 C34 C35 C35 C34 C34 C34 C22 C25 C01 C19 C39 C40 C40 C41 C42 C40 C20 C19 C32 C43 C43 C43 C43 C43 C43 C39 C16 C17 C03 C21 C41 C34 C44 C44 C44 C29 C07 C08 C08").split()
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True, check=True).stdout.splitlines()
assert len(log) >= len(PROP) - 1, (len(log), len(PROP))
p = os.path.join(HERE, "known_findings.jsonl")
keep = [l for l in open(p) if '"status": "known"' in l]
with open(p, "w") as f:
    f.writelines(keep)
    for prop, l in zip(PROP, log):
        h, s = l.split(" ", 1)
        f.write(json.dumps({"status": "fixed", "property": prop, "commit": h, "what": "fixed: property=%s %s %s" % (prop, h, s[len("fix: "):])}) + "\n")
print(len(log), len(PROP))
