from mc import flow, ref
from mc.treekit import IDLE, SUCC, FAIL, add, configured, nid, probe
from ros_bt_py.nodes import decorators as d
from ros_bt_py.nodes.sequence import Sequence

TECHNIQUE = "explicit-state model checking of the real nodes in lock-step with a reference model"
NOTE = ("Complete for the stated histories, counts and child results; trusts the reference model (mc/ref.py) and the "
        "ROS stand-ins. What a Repeat does with its count when it is ticked on after it ended is left open.")
ID = "C06"
KINDS = (
    [["Retry", n] for n in range(4)]
    + [["Repeat", n] for n in range(1, 4)]
    + [["RepeatNoAutoReset", n] for n in range(1, 4)]
    + [[k, 0] for k in ("RepeatAlways", "RepeatUntilFail", "RepeatIfFail")]
)
DEPTH = {"quick": (2, 6, 4), "thorough": (4, 8, 6)}


def BOUNDS(tier):
    return (f"counts 0..3; histories of tick/untick/reset of depth {DEPTH[tier]} (in part one or two less) with no child / a leaf / a Sequence of "
            "two leaves as child, all child results, RepeatNoAutoReset with its reset input on or off at each tick; "
            "shutdown and restart")


def shards(tier):
    out = []
    for kind, n in KINDS:
        for size in range(3):
            depth = DEPTH[tier][size] - (kind == "RepeatNoAutoReset") - (n != 2 and size == 1 and tier == "quick")
            out += [[kind, n, size, depth, first] for first in flow.firsts(tier, size)]
    return out


def weight(shard):
    return shard[2] * shard[3] + (shard[0] == "RepeatNoAutoReset")


def build(kind, n, size, flag):
    def make(env, feed):
        if size == 0:
            kids, models = [], []
        elif size == 1:
            kids, models = [probe(env, "c", 1)], [ref.Leaf(feed, "c")]
        else:
            kids = [add(Sequence(node_id=nid(1), name="seq"), probe(env, "a", 2), probe(env, "b", 3))]
            models = [ref.Sequence(feed, "seq", ref.Leaf(feed, "a"), ref.Leaf(feed, "b"))]
        cls = getattr(d, kind)
        if kind == "Retry":
            real = configured(cls, kind, static_values={"num_retries": n})
            model = ref.Retry(feed, kind, *models, n=n)
        elif kind == "Repeat":
            real = configured(cls, kind, static_values={"num_repeats": n})
            model = ref.Repeat(feed, kind, *models, n=n)
        elif kind == "RepeatNoAutoReset":
            real = configured(cls, kind, static_values={"num_repeats": n})
            model = ref.RepeatNoAutoReset(feed, kind, *models, n=n, flag=lambda: flag[0])
        else:
            real = cls(node_id=nid(0), name=kind)
            model = getattr(ref, kind)(feed, kind, *models)
        add(real, *kids)
        return real, model

    return make


class Over(Exception):
    pass


class Pair(flow.Pair):
    def expects_reset(self, leaf):
        return self.kind != "RepeatNoAutoReset"

    def op(self, name):
        if self.kind == "RepeatNoAutoReset" and name == "tick":
            self.flag[0] = self.ch.choose((False, True))
            res = self.real.node_config.inputs["reset"].set_value(self.flag[0])
            if res.is_err():
                self.bad("reset input refuses a value", str(res))
            self.history.append("with reset" if self.flag[0] else "no reset")
        if self.kind == "Repeat" and name in ("tick", "untick") and self.model.state == SUCC:
            # Ended by success: whether a new round starts without a reset is not specified
            name = "reset"
        return super().op(name)


def run(shard, ctx):
    kind, n, size, depth, first = shard
    flag = [False]
    cls = type("P", (Pair,), {"kind": kind, "flag": flag})
    flow.explore(ctx, build(kind, n, size, flag), depth, first, cls=cls,
                 after=2 if ctx.thorough or size < 2 else 1)
