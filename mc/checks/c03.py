from mc import flow, ref
from mc.core import Violation
from mc.treekit import Env, add, configured, probe
from ros_bt_py.nodes.parallel import Parallel, ParallelFailureTolerance

TECHNIQUE = "explicit-state model checking of the real nodes in lock-step with a reference model"
NOTE = "Complete for the stated histories and child results; trusts the reference model (mc/ref.py) and the ROS stand-ins."
ID = "C03"
DEPTH = {"quick": (4, 4, 3, 2), "thorough": (6, 8, 5, 4)}


def BOUNDS(tier):
    return (f"histories of tick/untick/reset of depth {DEPTH[tier]} for 0..3 children, needed successes 1..n+1, "
            "tolerated failures none,0..n, all child results; shutdown and restart")


def shards(tier):
    out = []
    for n, depth in enumerate(DEPTH[tier]):
        for need in range(1, n + 2):
            for tol in [None] + list(range(0, n + 1 if tier == 'thorough' else n)):
                if need > n:
                    out.append([n, need, tol, 0, []])
                    continue
                for first in flow.firsts(tier, n):
                    out.append([n, need, tol, depth, first])
    return out


def weight(shard):
    return shard[0] * shard[3] * (1 + shard[4].count("tick"))


def build(n, need, tol):
    def make(env, feed):
        values = {"needed_successes": need}
        cls = Parallel
        if tol is not None:
            values["tolerate_failures"] = tol
            cls = ParallelFailureTolerance
        real = configured(cls, "par", static_values=values)
        add(real, *[probe(env, f"c{i}", i + 1) for i in range(n)])
        leaves = [ref.Leaf(feed, f"c{i}") for i in range(n)]
        return real, ref.Parallel(feed, "par", *leaves, need=need, tolerate=tol)

    return make


def run(shard, ctx):
    n, need, tol, depth, first = shard
    make = build(n, need, tol)
    if need > n:
        def refused(ch):
            env = Env()
            real, _ = make(env, ref.Feed())
            res = real.setup()
            ctx.step()
            if res.is_ok() or real.state == "IDLE":
                raise Violation(f"setup accepted with {n} children and {need} needed successes")
            return [str(res)]

        ctx.explore(refused, "refused")
        return
    flow.explore(ctx, make, depth, first, restart=2 if n < 3 else 1,
                 after=1 if n >= 2 and not ctx.thorough else 2)
