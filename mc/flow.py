"""Lock-step conformance of a real control-flow tree with the reference interpreter."""

from mc import ref
from mc.core import Violation
from mc.treekit import Env, IDLE, RUNNING, SUCC, FAIL, expect

OUT = (SUCC, FAIL, RUNNING)


class Pair:
    """A real tree and its reference twin. `build(env, feed)` returns (real root, reference root)."""

    def __init__(self, build, ch, ctx, outcomes=OUT, check_ops=True):
        self.ch = ch
        self.ctx = ctx
        self.outcomes = outcomes
        self.env = Env(self.answer)
        self.feed = ref.Feed()
        self.real, self.model = build(self.env, self.feed)
        self.history = []
        self.check_ops = check_ops
        self.reals = list(self.real.get_children_recursive())
        self.models = list(self.model.all())

    def answer(self, node, op):
        if op == "tick":
            return self.ch.choose(self.outcomes)
        return None

    def bad(self, what, detail=""):
        raise Violation(f"{self.model.name}: {what} after {self.history}", detail)

    def op(self, name):
        """Perform one root operation on both sides and compare."""
        before = {n.name: n.state for n in self.reals}
        self.env.take()
        result = getattr(self.real, name)()
        log = self.env.take()
        self.history.append(name if name != "tick" else "tick" + str([(n, r[0]) for o, n, r in log if o == "tick"]))
        if result.is_err():
            self.bad(f"{name} failed", repr(result.err()))
        if name == "setup":
            self.model.setup()
        else:
            self.feed.load(log)
            try:
                getattr(self.model, name)()
                if name == "tick":
                    self.feed.finish()
            except Violation as v:
                self.bad(v.key, v.detail)
        if name != "tick" and any(o == "tick" for o, _, _ in log):
            self.bad(f"ticks a child in {name}", log)
        if result.ok() != self.model.state:
            self.bad(f"{name} returned {result.ok()} instead of {self.model.state}", log)
        states = [n.state for n in self.reals]
        want = [m.state for m in self.models]
        if states != want:
            self.bad(f"states {states} instead of {want}", log)
        if self.check_ops:
            reached = {}
            for o, n, _ in log:
                reached.setdefault(n, []).append(o)
            for n, m in zip(self.reals, self.models):
                if n.children or not isinstance(m, ref.Leaf):
                    continue
                if name == "reset" and self.expects_reset(m) and "reset" not in reached.get(n.name, []):
                    self.bad(f"reset does not reach {n.name}", log)
                if before[n.name] == RUNNING and m.state == IDLE and not (
                    {"untick", "reset", "setup"} & set(reached.get(n.name, []))
                ):
                    self.bad(f"{n.name} was not halted", log)
        self.ctx.step()
        self.ctx.state((type(self.real).__name__, tuple(states), self.ctx.shard))
        return result.ok()

    def expects_reset(self, leaf):
        return True

    def walk(self, depth, ops=("tick", "untick", "reset"), between=None):
        """All histories of `depth` root operations."""
        self.op("setup")
        for _ in range(depth):
            if between is not None:
                between(self)
            self.op(self.ch.choose(ops))
        self.ctx.outcome(tuple(self.history))
        return list(self.history)


OPS = ("tick", "untick", "reset")


def explore(ctx, make, depth, first, between=None, ops=OPS, outcomes=OUT, cls=Pair, restart=2, after=2):
    """All histories of `depth` operations starting with the operations `first`; and, for shorter
    histories, shutdown and a second life, which has to start from scratch."""

    def body(ch):
        pair = cls(make, ch, ctx, outcomes)
        pair.op("setup")
        for i in range(depth):
            if between is not None:
                between(pair)
            pair.op(first[i] if i < len(first) else ch.choose(ops))
        ctx.outcome(tuple(pair.history))
        return pair.history

    def again(ch):
        pair = cls(make, ch, ctx, outcomes)
        pair.op("setup")
        for i in range(restart):
            if between is not None:
                between(pair)
            pair.op(first[i] if i < len(first) else ch.choose(ops))
        res = pair.real.shutdown()
        if res.is_err() or any(x.state != "SHUTDOWN" for x in pair.reals):
            pair.bad("shutdown", str([x.state for x in pair.reals]))
        for model in pair.models:
            model.state = "SHUTDOWN"
        pair.history.append("shutdown")
        pair.op("setup")
        for i in range(after):
            if between is not None:
                between(pair)
            pair.op(ch.choose(ops))
        ctx.outcome(tuple(pair.history))
        return pair.history

    ctx.explore(body, "walk")
    if restart and all(op == ops[0] for op in first[restart:]):
        ctx.explore(again, "restart")


def firsts(tier, n):
    """The first two operations (one shard each). Quick runs of larger nodes start with a tick: histories that
    start with untick or reset of a fresh node are covered for the smaller ones."""
    return [[a, b] for a in (OPS if n < 2 or tier == "thorough" else OPS[:1]) for b in OPS]
