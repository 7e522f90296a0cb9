import array
import copy

from mc import standins, zoo  # noqa: F401
from mc.core import Violation
from mc.treekit import Env, IDLE, RUNNING, SHUTDOWN, SUCC, nid

import example_interfaces.msg as em
from ros_bt_py import data_types as dt
from ros_bt_py.data_flow_manager import DataFlowManager
from ros_bt_py.node import Leaf, Node, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import NodeDataLocation, Wiring

TECHNIQUE = "explicit-state model checking: all histories of handing over, reading and changing values, against immutable copies"
NOTE = ("Complete for the stated histories and types. Every value handed in or out is changed in place, at every depth, and "
        "all holders are compared with immutable copies after each step.")
ID = "C12"


def BOUNDS(tier):
    return ("13 container types with mutable values x histories of 3 (thorough: 5) writes, pushes, reads with in-place change "
            "and restarts over a producer, two consumers, public data and further instances; every registered class: "
            "values given, ticked, read and changed")


def message(a, b):
    return em.Int32List(values=a, label=b)


I = dt.IntType
TYPES = {
    "list": (lambda: dt.ListType(element_type=I()), [1]),
    "list default elements": (lambda: dt.ListType(), [1]),
    "list of lists": (lambda: dt.ListType(element_type=dt.ListType(element_type=I())), [[1]]),
    "list of dicts": (lambda: dt.ListType(element_type=dt.DictType(element_type=I())), [{"a": 1}]),
    "dict": (lambda: dt.DictType(element_type=I()), {"a": 1}),
    "dict of lists": (lambda: dt.DictType(element_type=dt.ListType(element_type=I())), {"a": [1]}),
    "message": (lambda: dt.RosMessageType(message_type=em.Int32List), message([1], "x")),
    "nested message": (lambda: dt.RosMessageType(message_type=em.Nested), em.Nested(inner=message([1], "x"), names=["a"])),
    "list of messages": (lambda: dt.ListType(element_type=dt.RosMessageType(message_type=em.Int32List)), [message([1], "x")]),
    "dict of messages": (lambda: dt.DictType(element_type=dt.RosMessageType(message_type=em.Int32List)),
                         {"a": message([1], "x")}),
    "reference": (lambda: dt.ReferenceType(reference="t"), [True]),
    "reference list": (lambda: dt.ReferenceListType(reference="t"), [[True]]),
    "reference dict": (lambda: dt.ReferenceDictType(reference="t"), {"a": [True]}),
}


def scramble(v, seen=None):
    """Change `v` in place wherever it can be changed; True if anything changed."""
    if isinstance(v, list):
        for i, x in enumerate(v):
            if not scramble(x):
                v[i] = other(x)
        v.append(copy.deepcopy(v[-1]) if v else 0)
        return True
    if isinstance(v, array.array):
        for i in range(len(v)):
            v[i] += 1
        v.append(1)
        return True
    if isinstance(v, dict):
        for k, x in list(v.items()):
            if not scramble(x):
                v[k] = other(x)
        v["new"] = copy.deepcopy(next(iter(v.values()))) if v else 0
        return True
    if hasattr(v, "get_fields_and_field_types") and not isinstance(v, type):
        for f in v.get_fields_and_field_types():
            x = getattr(v, f)
            if isinstance(x, list) and len(x) < 3 or not isinstance(x, list) and scramble(x):
                if isinstance(x, list):
                    x.append("z" if not x or isinstance(x[0], str) else x[0])
                continue
            if not isinstance(x, (list, dict)) and not hasattr(x, "get_fields_and_field_types"):
                try:
                    setattr(v, f, other(x))
                except Exception:
                    pass
        return True
    return False


def other(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, (int, float)):
        return x + 1
    if isinstance(x, str):
        return x + "!"
    if isinstance(x, bytes):
        return b"\x07"
    return x


def frozen(v):
    if isinstance(v, (list, tuple, array.array)):
        return tuple(frozen(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, frozen(x)) for k, x in v.items()))
    if hasattr(v, "get_fields_and_field_types") and not isinstance(v, type):
        return (type(v).__name__, *(frozen(getattr(v, f)) for f in v.get_fields_and_field_types()))
    return repr(v)


class Hand:
    def _do_setup(self):
        return Ok(IDLE)

    def _do_tick(self):
        if self.give is not None:
            self.outputs.set_value("out", self.give).unwrap()
        return Ok(SUCC)

    def _do_untick(self):
        return Ok(IDLE)

    def _do_reset(self):
        return Ok(IDLE)

    def _do_shutdown(self):
        return Ok(SHUTDOWN)

    give = None


def make_class(make):
    t = dt.GenericType()
    t.set_value(dt.GENERIC_TYPE_MAP[list]).unwrap()
    a, b, d = make(), make(), make()
    a.is_static = False
    d.is_static = False
    config = NodeConfig(inputs={"t": t, "in": a, "default": d}, outputs={"out": b}, max_children=0)
    before = Node.node_classes
    Node.node_classes = type(before)(before)  # these classes are nobody else's business
    try:
        return define_bt_node(config)(type("Holder", (Hand, Leaf), {}))
    finally:
        Node.node_classes = before


def shards(tier):
    return [["flow", t, i] for t in TYPES for i in range(len(MOVES))] + [["class", label] for label in zoo.labels()]


MOVES = ["tick", "mutate given", "out get", "in get", "in get_as", "in2 get", "in put", "public get", "default get",
         "serialise", "restart"]


def run(shard, ctx):
    if shard[0] == "class":
        return classes(shard[1], ctx)
    _, name, first = shard
    make, value = TYPES[name]
    cls = make_class(make)
    cls0 = {k: frozen(c.get_value().ok()) for k, c in cls._node_config.inputs.items()}

    def body(ch):
        public = make()
        public.is_static = False
        if isinstance(public, dt.ReferenceContainer):
            public.set_type_map(cls._node_config.inputs).unwrap()
        public.reset_value()
        dfm = DataFlowManager(incoming_data={}, outgoing_data={f"{nid(0)}.out": public})
        nodes = [cls(node_id=nid(i), name=f"n{i}", data_flow_manager=dfm) for i in range(3)]
        extra = cls(node_id=nid(8), name="extra")
        wire = [Wiring(source=NodeDataLocation(node_id=str(nid(0)), data_key="out"),
                       target=NodeDataLocation(node_id=str(nid(i)), data_key="in")) for i in (1, 2)]
        dfm.initialize({n.node_id: n for n in nodes}, wire).unwrap()
        trace = []
        given = copy.deepcopy(value)
        nodes[0].give = given

        def bad(what, detail=""):
            raise Violation(f"{name}: {what}: {trace}", detail)

        holders = {"n0.out": nodes[0].node_config.outputs["out"], "n1.in": nodes[1].node_config.inputs["in"],
                   "n2.in": nodes[2].node_config.inputs["in"], "n0.in": nodes[0].node_config.inputs["in"],
                   "public": public,
                   **{f"{n.name}.default": n.node_config.inputs["default"] for n in (*nodes, extra)},
                   **{f"{n.name}.t": n.node_config.inputs["t"] for n in (*nodes, extra)},
                   "class.default": cls._node_config.inputs["default"], "class.in": cls._node_config.inputs["in"],
                   "class.out": cls._node_config.outputs["out"]}

        def see():
            return {k: frozen(c.get_value().ok()) for k, c in holders.items()}

        for n in nodes:
            if n.setup().is_err():
                bad("setup")
        for n in nodes:
            for key in ("in", "default"):
                if n.node_config.inputs[key].set_value(copy.deepcopy(value)).is_err():
                    bad("value refused")
        model = see()
        for i in range(ctx.pick(3, 5)):
            if i == 0 and first is not None:
                op = MOVES[first]
            else:
                op = ch.choose(MOVES)
            trace.append(op)
            if op == "tick":
                old = model["n0.out"]
                now = frozen(given)
                if nodes[0].tick().is_err():
                    bad("tick failed")
                model["n0.out"] = now
                if now != old:
                    for k in ("n1.in", "n2.in", "public"):
                        model[k] = now
            elif op == "mutate given":
                scramble(given)
            elif op == "serialise":
                for c in holders.values():
                    c.serialize_value()
                    c.get_runtime_type()
                if nodes[1].to_structure_msg() is None:
                    bad("no message")
            elif op == "restart":
                if nodes[1].shutdown().is_err() or nodes[1].setup().is_err():
                    bad("restart failed")
                model["n1.in"] = model["n1.default"] = frozen(None)
            elif op == "in put":
                mine = copy.deepcopy(value)
                scramble(mine)
                scramble(mine)
                if holders["n1.in"].set_value(mine).is_err():
                    bad("value refused")
                model["n1.in"] = frozen(mine)
                scramble(mine)
            else:
                key = {"out get": "n0.out", "in get": "n1.in", "in2 get": "n2.in", "public get": "public",
                       "in get_as": "n1.in", "default get": "n0.default"}[op]
                res = holders[key].get_value()
                if op == "in get":
                    res = nodes[1].inputs.get_value("in")
                elif op == "in get_as":
                    res = nodes[1].inputs.get_value_as("in", type(value))
                if res.is_ok():
                    scramble(res.unwrap())
            ctx.step()
            seen = see()
            if seen != model:
                wrong = [k for k in seen if seen[k] != model[k]]
                bad(f"{wrong} changed", f"{[(k, seen[k], model[k]) for k in wrong]}")
            ctx.state((name, sorted(model.items())))
        fresh = cls(node_id=nid(9), name="fresh")
        for k, c in fresh.node_config.inputs.items():
            if frozen(c.get_value().ok()) != cls0[k]:
                bad(f"default {k} of a new instance changed", f"{c.get_value()} {cls0[k]}")
        ctx.outcome((name, trace))
        return trace

    ctx.explore(body)


def classes(label, ctx):
    """A real node: neither what it was given nor what it handed out connects it with anything else."""

    def body(ch):
        env = Env(lambda node, op: ch.choose((SUCC, RUNNING)) if op == "tick" else None)
        rig = zoo.make(label, env=env)
        twin = zoo.make(label, env=Env())
        cls = rig.cls
        trace = []

        def bad(what, detail=""):
            raise Violation(f"{label}: {what}: {trace}", detail)

        def see(node):
            return {f"{side}.{k}": frozen(c.get_value().ok()) for side in ("inputs", "outputs")
                    for k, c in getattr(node.node_config, side).items()}

        def declared():
            return ({f"{side}.{k}": frozen(c.get_value().ok()) for side in ("inputs", "outputs")
                     for k, c in getattr(cls._node_config, side).items()}, frozen({str(k): v for k, v in
                                                                                 dt.GENERIC_TYPE_MAP.items()}))

        first = declared()
        if rig.node.setup().is_err() or twin.node.setup().is_err():
            bad("setup")
        twin.provide(0)
        other_node = see(twin.node)

        def untouched(before, what):
            now = see(rig.node)
            if now != before:
                bad(f"{[k for k in now if now[k] != before[k]]} changed by {what}", f"{before}\n{now}")
            if see(twin.node) != other_node:
                bad(f"another instance changed by {what}")
            if declared() != first:
                bad(f"declaration of the class changed by {what}")

        values = []
        for i in range(ctx.pick(2, 3)):
            n = ch.choose(len(rig.dynamic))
            values.append({k: copy.deepcopy(v) for k, v in rig.dynamic[n].items()})
            for k, v in values[-1].items():
                if rig.node.node_config.inputs[k].set_value(v).is_err():
                    bad(f"{k} refused")
            if rig.events:
                ev = ch.choose(("", *rig.events))
                if ev:
                    rig.events[ev]()
            given = see(rig.node)
            res = rig.node.tick()
            trace.append(("tick", n, str(res.ok())))
            ctx.step()
            now = see(rig.node)
            changed = [k for k in now if k.startswith("inputs.") and now[k] != given[k]]
            if changed:
                bad(f"{changed} changed by the tick")
            for side in ("inputs", "outputs"):
                for c in getattr(rig.node.node_config, side).values():
                    scramble(c.get_value().ok())
            untouched(now, "changing what was read")
            for vs in values:
                for v in vs.values():
                    scramble(v)
            untouched(now, "changing what was given")
            ctx.state((label, sorted(now.items())))
        ctx.outcome((label, trace))
        return trace

    ctx.explore(body)
