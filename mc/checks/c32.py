"""C32: saves that fail or are interrupted."""

import errno
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import files, standins  # noqa: F401
from mc.checks import c31
from mc.core import ROOT, Violation

ID = "C32"
TECHNIQUE = "exhaustive fault injection into the real save path: an I/O error, a kill or a power failure at every file-changing system call (and within every write), one or two faults per save, against the reference 'old or new'"
NOTE = "files are changed through the C library (interposed); after a power failure what was not synchronised is lost while folder changes persist in order; failing look-ups (stat) are not injected"

FAIL, BEFORE, AFTER, SHORT, SHORT_CRASH = range(1, 6)
ERRORS = (errno.ENOSPC, errno.EIO, errno.EACCES)
OVERWRITE, RENAME, NEITHER = (True, False), (False, True), (False, False)
# what is there, the request, the tree
SCENARIOS = {
    "overwrite": ({"w/s/a.yaml": 1, "w/s/b.yaml": 4}, "a.yaml", OVERWRITE, 2),
    "shorter": ({"w/s/a.yaml": 5, "w/s/b.yaml": 4}, "a.yaml", OVERWRITE, 3),
    "below": ({"w/s/sub/a.yaml": 1, "w/s/a.yaml": 4}, "sub/a.yaml", OVERWRITE, 3),
    "rename": ({"w/s/a.yaml": 1, "w/s/b.yaml": 4}, "a.yaml", RENAME, 2),
    "refused": ({"w/s/a.yaml": 1, "w/s/b.yaml": 4}, "a.yaml", NEITHER, 2),
    "new": ({"w/s/b.yaml": 4}, "new/a.yaml", NEITHER, 2),
    "same": ({"w/s/a.yaml": 2, "w/s/b.yaml": 4}, "a.yaml", OVERWRITE, 2),
}
AGAIN = 6


def BOUNDS(tier):
    return (f"{len(SCENARIOS)} scenarios, trees of 0 to 2 nodes (and 60 in one), {len(ERRORS)} error codes, every operation, "
            f"{'every byte' if tier == 'thorough' else 'every 16th byte'} of each write, one fault or two (the second: an error or a kill), a later save after each")


def shards(tier):
    return [(s, k) for s in SCENARIOS for k in range(8)]


def text(i):
    """The content of a stored file with tree i."""
    return "version: 1.0.0\n" + standins.message_to_yaml(tree(i))


def tree(i):
    t = _tree(i)
    if i == 5:
        t.nodes = list(_tree(2).nodes) * 30
    t.path = ""
    return t


_tree = c31.tree


class Server:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="mcfaults")
        lib = os.path.join(self.dir, "faults.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", lib, os.path.join(ROOT, "mc", "faults.c"), "-ldl"], check=True, capture_output=True)
        env = dict(os.environ, LD_PRELOAD=lib)
        self.p = subprocess.Popen([sys.executable, "-m", "mc.savefork"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, cwd=ROOT)

    def ask(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the save server ended")
        return json.loads(line)

    def drop(self):
        self.p.stdin.close()
        self.p.wait(20)
        shutil.rmtree(self.dir, ignore_errors=True)


def run(shard, ctx):
    server = Server()
    try:
        explore(server, ctx, *shard)
    finally:
        server.drop()


def explore(server, ctx, scenario, part):
    have, name, flags, i = SCENARIOS[scenario]
    stored = {p: text(k) for p, k in have.items()} | {"w/t/a.yaml": "x", "w/missing/x": "x", "w/sealed/x": "x"}
    base = dict(files=stored, request=dict(folder="w/s", name=name, flags=flags, tree=i), again=dict(folder="w/s", name=name, flags=OVERWRITE, tree=AGAIN))
    seen = []

    def go(plan, power=False):
        key = (scenario, tuple(map(tuple, plan)), power)
        res = {}

        def body():
            res.update(server.ask(base | dict(plan=plan, power=power)))
            judge(ctx, scenario, have, stored, name, flags, i, plan, power, res)
            return [plan, res["log"][:12], res.get("answer", "killed")]
        ctx.case(key, body)
        return res

    free = go([])
    if not free:
        return
    seen.append(free)
    n = -1
    for k, (op, path, size, done) in enumerate(free["log"]):
        for plan, power in faults(op, k, size, ctx.thorough):
            n += 1
            if n % 8 != part:
                continue
            res = go([plan], power)
            if not res or power or plan[1] in (BEFORE, AFTER, SHORT_CRASH) or plan[1] == SHORT and plan[2] not in (0, 1, size // 2, size - 1):
                continue
            for j in range(k + 1, len(res["log"])):  # a second fault in what follows the first one
                op2, _, size2, _ = res["log"][j]
                for second in ((FAIL, errno.EIO), (FAIL, errno.EACCES), (BEFORE, 0), (AFTER, 0)):
                    go([plan, [j, *second]])


def faults(op, k, size, every):
    out = [([k, FAIL, e], False) for e in ERRORS]
    out += [([k, BEFORE, 0], p) for p in (False, True)] + [([k, AFTER, 0], p) for p in (False, True)]
    if op == "write":
        step = 1 if every and size < 4000 else 16 if size < 4000 else 997
        for cut in sorted({1, size - 1, *range(0, size, step)}):
            if 0 <= cut < size:
                out.append(([k, SHORT, cut], False))
                out.append(([k, SHORT_CRASH, cut], False))
    return out


def judge(ctx, scenario, have, stored, name, flags, i, plan, power, res):
    title = f"{scenario} {plan}{' power failure' if power else ''} in {[e[0] for e in res['log']][:8]}"
    target = "w/s/" + name
    stored = {p: c.encode().decode("latin-1") for p, c in stored.items()}
    after, last = res["files"], res["at last"]
    ctx.step(len(res["log"]))
    ctx.state((scenario, repr(sorted(after.items())), repr(res.get("answer")), [e[0] for e in res["log"]]))
    for path, content in stored.items():
        if path == target:
            continue
        if after.get(path) != content or last.get(path) != content:
            raise Violation(f"{title}: another stored file changed", path)
    answer = res.get("answer")

    def good(content, k):
        return content is not None and c31.holds(content.encode("latin-1"), k)

    if answer is not None:
        if "exception" in answer:
            raise Violation(f"{title}: the failure escapes as an exception", answer["exception"])
        where = answer["path"]
        if answer["success"] and not good(after.get(where), i):
            raise Violation(f"{title}: success is reported, but the tree is not there", repr(after.get(where)))
        if not answer["success"] and not answer["message"]:
            raise Violation(f"{title}: failure without a reason")
        if not plan and answer["success"] != (scenario != "refused"):
            raise Violation(f"{title}: unexpected answer", repr(answer))
    if target in stored:
        now = after.get(target)
        if now != stored[target] and not good(now, i):
            raise Violation(f"{title}: the stored file is neither the old nor the new one", repr(now)[:300])
        if flags != OVERWRITE and now != stored[target]:
            raise Violation(f"{title}: the stored file changed", repr(now)[:300])
    again = res["again"]
    if not again.get("success") or not good(last.get(target), AGAIN):
        raise Violation(f"{title}: a later save does not work", f"{again} {str(last.get(target))[:300]}")
    ctx.outcome((scenario, repr(answer), len(after)))
