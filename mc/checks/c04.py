from mc import flow, ref
from mc.treekit import add, configured, probe
from ros_bt_py.nodes.fallback import NameSwitch
from ros_bt_py.ros_nodes.enum_switch import EnumSwitch
from ros_bt_py_interfaces.msg import NodeState as NodeStateMsg
import example_interfaces.msg as eim

TECHNIQUE = "explicit-state model checking of the real nodes in lock-step with a reference model"
NOTE = ("Complete for the stated histories, selections and child results; trusts the reference model (mc/ref.py) "
        "and the ROS stand-ins.")
ID = "C04"

# kind -> (child names, [(input value, selected child or None)])
KINDS = {
    "name0": ((), [("a", None), ("", None)]),
    "name1": (("a",), [("a", "a"), ("A", None)]),
    "name2": (("a", "b"), [("a", "a"), ("b", "b"), ("ab", None)]),
    "name3": (("a", "", "b"), [("a", "a"), ("", ""), ("b", "b"), (" a", None)]),
    "level3": (("HIGH", "LOW", "MID"), [(7, "HIGH"), (0, "LOW"), (1, "MID"), (2, None)]),
    "level2": (("MID", "x.LOW"), [(7, None), (0, "x.LOW"), (1, "MID"), (-1, None)]),
    "state2": (("RUNNING", "my.FAILED"), [("RUNNING", "RUNNING"), ("FAILED", "my.FAILED"), ("IDLE", None)]),
    "state1": (("SUCCEEDED",), [("SUCCEEDED", "SUCCEEDED"), ("nothing", None)]),
}
DEPTH = {"quick": {0: 4, 1: 5, 2: 4, 3: 3}, "thorough": {0: 5, 1: 7, 2: 5, 3: 5}}


def BOUNDS(tier):
    return (f"histories of tick/untick/reset of depth {DEPTH[tier]} per number of children, before every tick any "
            "selection (each child and at least one unknown value); shutdown and restart")


def shards(tier):
    return [[kind, DEPTH[tier][len(names)], first] for kind, (names, _) in KINDS.items()
            for first in flow.firsts(tier, len(names))]


def weight(shard):
    return len(KINDS[shard[0]][0]) * shard[1] + shard[2].count("tick")


def build(kind, sel):
    names, values = KINDS[kind]

    def make(env, feed):
        if kind.startswith("name"):
            real = configured(NameSwitch, "switch")
        else:
            real = configured(EnumSwitch, "switch", static_values={
                "ros_message_type": eim.Level if kind.startswith("level") else NodeStateMsg})
        add(real, *[probe(env, name, i + 1) for i, name in enumerate(names)])
        return real, ref.Switch(feed, "switch", *[ref.Leaf(feed, n) for n in names], sel=lambda: sel[0])

    return make


class Pair(flow.Pair):
    def op(self, name):
        if name == "tick":
            value, child = self.ch.choose(self.values)
            key = "name" if self.kind.startswith("name") else "case"
            res = self.real.node_config.inputs[key].set_value(value)
            if res.is_err():
                self.bad(f"input refuses {value!r}", str(res))
            self.sel[0] = child
            self.history.append(f"select {value!r}")
        return super().op(name)


def run(shard, ctx):
    kind, depth, first = shard
    sel = [None]
    cls = type("P", (Pair,), {"values": KINDS[kind][1], "sel": sel, "kind": kind})
    flow.explore(ctx, build(kind, sel), depth, first, cls=cls,
                 restart=2 if len(KINDS[kind][0]) < 3 or ctx.thorough else 1, after=2 if ctx.thorough or len(KINDS[kind][0]) < 2 else 1)
