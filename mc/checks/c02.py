from mc import flow, ref
from mc.checks.c01 import BOUNDS, DEPTH, build, weight  # noqa: F401
from ros_bt_py.nodes.sequence import MemorySequence
from ros_bt_py.nodes.fallback import MemoryFallback

TECHNIQUE = "explicit-state model checking of the real nodes in lock-step with a reference model"
NOTE = "Complete for the stated histories and child results; trusts the reference model (mc/ref.py) and the ROS stand-ins."
ID = "C02"
KINDS = {
    "MemorySequence": (MemorySequence, ref.MemorySequence),
    "MemoryFallback": (MemoryFallback, ref.MemoryFallback),
}


def shards(tier):
    return [[kind, n, depth, first]
            for kind in KINDS
            for n, depth in enumerate(DEPTH[tier])
            for first in flow.firsts(tier, n)]


def run(shard, ctx):
    kind, n, depth, first = shard
    flow.explore(ctx, build(KINDS, kind, n), depth, first, restart=2 if n < 3 or ctx.thorough else 1)
