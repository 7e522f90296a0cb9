from mc import flow, ref
from mc.treekit import add, nid, probe
from ros_bt_py.nodes.sequence import Sequence
from ros_bt_py.nodes.fallback import Fallback

TECHNIQUE = "explicit-state model checking of the real nodes in lock-step with a reference model"
NOTE = "Complete for the stated histories and child results; trusts the reference model (mc/ref.py) and the ROS stand-ins."
ID = "C01"
KINDS = {"Sequence": (Sequence, ref.Sequence), "Fallback": (Fallback, ref.Fallback)}
DEPTH = {"quick": (6, 6, 5, 4), "thorough": (8, 8, 6, 5, 4)}


def BOUNDS(tier):
    return (f"histories of tick/untick/reset of depth {DEPTH[tier]} for 0,1,.. children, all child results; "
            "shutdown and restart after every history of depth 2")


def shards(tier):
    return [[kind, n, depth, first]
            for kind in KINDS
            for n, depth in enumerate(DEPTH[tier])
            for first in flow.firsts(tier, n)]


def weight(shard):
    return shard[1] * shard[2] + shard[3].count("tick")


def build(kinds, kind, n):
    def make(env, feed):
        cls, refcls = kinds[kind]
        real = cls(node_id=nid(0), name=kind)
        add(real, *[probe(env, f"c{i}", i + 1) for i in range(n)])
        model = refcls(feed, kind, *[ref.Leaf(feed, f"c{i}") for i in range(n)])
        return real, model

    return make


def run(shard, ctx):
    kind, n, depth, first = shard
    flow.explore(ctx, build(KINDS, kind, n), depth, first, restart=2 if n < 3 or ctx.thorough else 1)
