"""python3 tools/fixed.py PROP COMMIT [WHAT]: records a fix commit of /repo in known_findings.json."""
import json
import subprocess
import sys

P = "/verif/known_findings.json"


def add(prop, commit, what=None):
    d = json.load(open(P))
    if what is None:
        what = subprocess.getoutput(f"git -C /repo log -1 --format=%s {commit}").removeprefix("fix: ")
        what = "was broken before: " + what
    commit = subprocess.getoutput(f"git -C /repo log -1 --format=%h {commit}")
    line = f"fixed: property={prop} {commit} {what}"
    if not any(f" {commit} " in x for x in d["fixed"]):
        d["fixed"].append(line)
    json.dump(d, open(P, "w"), indent=1)


if __name__ == "__main__":
    add(*sys.argv[1:])
