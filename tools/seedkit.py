"""Making and trying planted changes (never used by a check).

python3 tools/seedkit.py try ID...   demo without/with the patch, stable tests with it, the property's check with it
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")  # a scratch copy may be used to write the changes
DEMO_SH = """#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
PYTHONPATH="$HERE:$PYTHONPATH" timeout 250 /opt/venv/bin/python "$HERE/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original(id, diff):
    """Warn when a change touches lines that are not those of the original repository."""
    base = sh(f"git -C {REPO} log --format=%h --reverse").stdout.split()[0]
    file, removed = None, 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            file = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m and m.group(2) != "0":
            a, n = int(m.group(1)), int(m.group(2) or 1)
            removed += n
            for b in sh(f"git -C {REPO} blame -s -L {a},{a + n - 1} HEAD -- {file}").stdout.splitlines():
                if base[:6] not in b.split()[0]:
                    print(f"WARNING {id}: not an original line: {b}")
    if not removed:
        print(f"WARNING {id}: no line is changed")


def seed(id, prop, edits, needs, breaks, demo, standins=True, helpers=()):
    """edits: [(file below ros_bt_py/ros_bt_py, old, new)]"""
    assert not sh(f"git -C {REPO} status --short").stdout.strip(), "dirty"
    try:
        for file, old, new in edits:
            path = os.path.join(REPO, "ros_bt_py/ros_bt_py", file)
            s = open(path).read()
            assert s.count(old) == 1, (id, file, s.count(old), old)
            open(path, "w").write(s.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
        original(id, sh(f"git -C {REPO} diff -U0").stdout)
    finally:
        sh(f"git -C {REPO} checkout -- .")
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.py", "w").write(demo)
    if standins:
        shutil.copy(ROOT + "/mc/standins.py", d + "/standins.py")
    for name in helpers:
        os.makedirs(d + "/mc", exist_ok=True)
        shutil.copy(f"{ROOT}/mc/{name}.py", f"{d}/mc/{name}.py")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def attempt(id, check=True, tests=True):
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh(f"git -C {REPO} status --short").stdout.strip(), "dirty"
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    out = [f"clean={r.returncode}"]
    if r.returncode:
        out.append((r.stdout + r.stderr)[-1500:])
    a = sh(f"git -C {REPO} apply {d}/patch.diff")
    if a.returncode:
        return id, prop, False, "patch does not apply: " + a.stderr
    good = r.returncode == 0
    caught = None
    try:
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        out.append(f"patched={r.returncode}")
        good &= r.returncode != 0
        out.append((r.stdout + r.stderr).strip()[-200:])
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json", cwd=REPO)
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = json.load(open("/tmp/seedtest.json"))
            passed = set(res["passed"] if "passed" in res else [])
            missing = stable - passed
            out.append(f"stable tests failing: {sorted(missing)[:3]}")
            good &= not missing
        if check:
            c = sh(f"bash run.sh {prop}", cwd=ROOT)
            caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
            out.append("check: " + ("CAUGHT " if caught else "MISSED ") + c.stdout.strip()[:300])
    finally:
        sh(f"git -C {REPO} checkout -- .")
    return id, prop, good and caught is not False, "\n   ".join(out)


def develop(id):
    """Try a change in the scratch copy SEED_REPO, without the stable tests."""
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    env = f'. /opt/vp/env.sh; export PYTHONPATH="{{}}:{REPO}/ros_bt_py:$PREFIX/lib/python3.12/site-packages";'
    demo = env.format(d) + f"timeout 250 /opt/venv/bin/python {d}/demo.py"
    clean = sh(demo)
    a = sh(f"git -C {REPO} apply {d}/patch.diff")
    try:
        patched = sh(demo)
        c = sh("cd /verif;" + env.format(ROOT) + f"VERIF_STOP=1 timeout 800 /opt/venv/bin/python -m mc.main {prop}") if "--demo" not in sys.argv else None
    finally:
        sh(f"git -C {REPO} checkout -- .")
    ok = clean.returncode == 0 and a.returncode == 0 and patched.returncode != 0
    print("OK " if ok else "BAD", id, clean.returncode, patched.returncode, (patched.stdout + patched.stderr).strip()[-120:], "|",
          c and {0: "MISSED", 1: "CAUGHT"}.get(c.returncode, c.returncode), flush=True)
    if clean.returncode:
        print((clean.stdout + clean.stderr)[-1200:])


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if a[:2] != "--"] or sorted(os.listdir(ROOT + "/seeded"))
    for i in ids if sys.argv[1] == "dev" else ():
        develop(i)
    for i in ids if sys.argv[1] == "try" else ():
        id, prop, good, text = attempt(i)
        print("OK " if good else "BAD", id, prop, text, flush=True)
