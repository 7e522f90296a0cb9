"""C28: the registry of subtrees."""

import uuid

from mc import execution, sched  # noqa: F401  (installs the scheduler)
from mc.core import Violation

import ros_bt_py_interfaces.msg as bm
from ros_bt_py.subtree_manager import SubtreeManager

ID = "C28"
TECHNIQUE = "explicit-state exploration of all operation sequences on real nested registries against a map model, and all schedules of pairs of operations up to a preemption bound, switching at every source line"
NOTE = "reports are compared as sets; what get_subtree_data reports does not depend on data publishing, as in the code"

A, B_ = uuid.UUID(int=1), uuid.UUID(int=2)
OWN = {"a": A, "b": B_}
KINDS = {"structures": (bm.TreeStructure, "add_subtree_structure", "get_subtree_structures"), "states": (bm.TreeState, "add_subtree_state", "get_subtree_states"),
         "data": (bm.TreeData, "add_subtree_data", "get_subtree_data")}


def BOUNDS(tier):
    return (f"root registry, two nested ones and one nested twice, 2 owners, 2 versions per entry, sequences up to depth {6 if tier == 'thorough' else 4} merged by state; "
            f"all pairs of operations from 4 states with {2 if tier == 'thorough' else 1} preemption(s) at every source line")


def actions():
    out = []
    for where in ("R", "N"):
        for owner in OWN:
            for kind in KINDS:
                out.append(("add", where, kind, owner, 1))
            out.append(("remove", where, owner))
        out.append(("add", where, "structures", "a", 2))
        out.append(("add", where, "states", "b", 2))
        out.append(("clear", where))
    out += [("nest", "R", "a", "N"), ("nest", "R", "b", "N2"), ("nest", "N", "a", "D"), ("nest", "R", "a", "N2")]
    out += [("publish", "R", v) for v in (True, False)] + [("data", "R", v) for v in (True, False)] + [("publish", "N", False), ("data", "N", True)]
    out += [("add", "D", "data", "a", 1), ("add", "N2", "states", "a", 1), ("spoil", "R"), ("rewrite", "R")]
    return out


ACTIONS = actions()
STARTS = [[], [("add", "R", "structures", "a", 1), ("nest", "R", "a", "N"), ("add", "N", "structures", "b", 1)],
          [("nest", "R", "a", "N"), ("add", "N", "states", "a", 1), ("publish", "R", False)],
          [("add", "R", "data", "a", 1), ("add", "R", "states", "b", 1), ("nest", "R", "b", "N2"), ("nest", "N", "a", "D"), ("add", "D", "data", "a", 1), ("data", "R", True)]]


def shards(tier):
    return [("seq", i) for i in range(len(ACTIONS))] + [("pair", s, i) for s in range(len(STARTS)) for i in range(len(ACTIONS))]


def run(shard, ctx):
    if shard[0] == "seq":
        ctx.explore(lambda ch: sequence(ch, ctx, 6 if ctx.thorough else 4), "seq", (shard[1],))
        return
    calls = [a for a in ACTIONS if a[0] not in ("spoil", "rewrite")] + [("get", w, k) for w in "RN" for k in KINDS]
    a = ACTIONS[shard[2]]
    if a[0] in ("spoil", "rewrite"):
        return
    for b in calls:
        ctx.explore(lambda ch: pair(ch, ctx, shard[1], a, b), f"{shard[1]} {a} {b}")


# ---------------------------------------------------------------- reference


class Ref:
    def __init__(self):
        self.entries = {(w, k): {} for w in ("R", "N", "N2", "D") for k in KINDS}
        self.nested = {w: {} for w in ("R", "N", "N2", "D")}
        self.publish = dict.fromkeys(self.nested, True)
        self.data = dict.fromkeys(self.nested, False)

    def do(self, a):
        op, w = a[:2]
        if op == "add":
            self.entries[w, a[2]][a[3]] = f"{w}{a[2]}{a[3]}{a[4]}"
        elif op == "remove":
            for k in KINDS:
                self.entries[w, k].pop(a[2], None)
            self.nested[w].pop(a[2], None)
        elif op == "clear":
            for k in KINDS:
                self.entries[w, k].clear()
            self.nested[w].clear()
        elif op == "nest":
            self.nested[w][a[2]] = a[3]
            self.switch(a[3], "publish", self.publish[w])
            self.switch(a[3], "data", self.data[w])
        elif op in ("publish", "data"):
            self.switch(w, op, a[2])

    def switch(self, w, op, value):
        getattr(self, op)[w] = value
        for x in self.nested[w].values():
            self.switch(x, op, value)

    def report(self, w, kind):
        if not self.publish[w]:
            return []
        out = list(self.entries[w, kind].values())
        for x in self.nested[w].values():
            out += self.report(x, kind)
        return out

    def key(self):
        return repr((sorted(self.entries.items()), sorted(self.nested.items()), self.publish, self.data))


class Real:
    def __init__(self):
        self.m = {w: SubtreeManager() for w in ("R", "N", "N2", "D")}
        self.given = []

    def do(self, a):
        op, w = a[:2]
        m = self.m[w]
        if op == "add":
            cls, add, _ = KINDS[a[2]]
            msg = cls(tree_id=f"{w}{a[2]}{a[3]}{a[4]}")
            getattr(m, add)(OWN[a[3]], msg)
        elif op == "remove":
            m.remove_subtree(OWN[a[2]])
        elif op == "clear":
            m.clear_subtrees()
        elif op == "nest":
            m.add_nested_manager(OWN[a[2]], self.m[a[3]])
        elif op == "publish":
            m.publish_subtrees = a[2]
        elif op == "data":
            m.set_publish_data(a[2])
        elif op == "spoil":  # change what was reported
            for kind in KINDS:
                got = getattr(m, KINDS[kind][2])()
                for msg in got:
                    msg.tree_id = "spoilt"
                got.append("spoilt")
        elif op == "rewrite":
            for kind in KINDS:
                for msg in getattr(m, KINDS[kind][2])():
                    for f in ("nodes", "node_states", "wiring_data"):
                        if hasattr(msg, f):
                            getattr(msg, f).append(None)
        elif op == "get":
            return sorted(x.tree_id for x in getattr(m, KINDS[a[2]][2])())

    def look(self):
        return {(w, k): sorted(x.tree_id for x in getattr(self.m[w], KINDS[k][2])()) for w in self.m for k in KINDS} | {
            (w, "flags"): (m.get_publish_subtrees(), m.publish_subtrees, m.get_publish_data()) for w, m in self.m.items()}


def expected(ref):
    return {(w, k): sorted(ref.report(w, k)) for w in ref.nested for k in KINDS} | {
        (w, "flags"): (ref.publish[w], ref.publish[w], ref.data[w]) for w in ref.nested}


def legal(ref, a):
    """Registries are nested in one place at a time, without cycles."""
    return a[0] != "nest" or all(a[3] != x or (w, o) == (a[1], a[2]) for w in ref.nested for o, x in ref.nested[w].items())


def sequence(ch, ctx, depth):
    real, ref = Real(), Ref()
    trace = []
    for step in range(depth):
        a = ch.choose(ACTIONS)
        if not legal(ref, a):
            return
        trace.append(a)
        try:
            real.do(a)
        except Exception as ex:
            raise Violation(f"exception after {trace}", repr(ex))
        ref.do(a)
        ctx.step()
        got, want = real.look(), expected(ref)
        if got != want:
            raise Violation(f"wrong report after {trace}", repr({k: (v, want[k]) for k, v in got.items() if want[k] != v}))
        key = ref.key() + ("s" if a[0] in ("spoil", "rewrite") else "")
        ctx.state(key)
        if ctx.visited(ch, key, depth - step):
            return
    return trace


def pair(ch, ctx, start, a, b):
    want = []
    for order in ((a, b), (b, a)):
        ref = Ref()
        for x in STARTS[start]:
            ref.do(x)
        res = {}
        ok = True
        for x in order:
            ok = ok and legal(ref, x)
            ref.do(x)
            if x[0] == "get":
                res[x] = sorted(ref.report(x[1], x[2]))
        if not ok:
            return
        want.append((res, expected(ref)))
    real = Real()
    for x in STARTS[start]:
        real.do(x)
    s = sched.Scheduler(ch, 2 if ctx.thorough else 1, FILES)
    title = f"{STARTS[start]} then {a} || {b}"
    got = {}

    def script(x):
        def do():
            try:
                r = real.do(x)
            except Exception as ex:
                raise Violation(f"{title}: exception", f"{ex!r} {s.trail}")
            if x[0] == "get":
                got[x] = r
        return do

    s.spawn(script(a), "A")
    s.spawn(script(b), "B")
    s.run()
    look = real.look()
    ctx.step(s.points)
    ctx.state((title, repr(look), s.points))
    ctx.outcome((title, repr(got)))
    if (got, look) not in want:
        raise Violation(f"{title}: neither order leads to this", f"{got} {look} {want} {s.trail}")
    return title


FILES = sched.files("ros_bt_py.subtree_manager")
