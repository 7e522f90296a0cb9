import itertools

from mc import standins, zoo
from mc.core import Violation
from mc.treekit import Env, Probe, SUCC, nid

from ros_bt_py import node as node_module
from ros_bt_py.data_types import GENERIC_TYPE_MAP, GenericType, IntType, ListType, ReferenceType, StringType
from ros_bt_py.exceptions import NodeConfigError
from ros_bt_py.node import Decorator, FlowControl, Leaf, Node, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Ok

TECHNIQUE = "explicit-state model checking: all pairs of declarations, all class hierarchies over them, all histories over two instances of every class"
NOTE = ("Complete for the stated declarations and histories. Configurations are compared entry by entry: class, type description, value, "
        "updated flag, static flag.")
ID = "C49"

# name -> (kind, maker)
ENTRIES = {
    "a": lambda: IntType(value=3), "b": lambda: StringType(), "t": lambda: GenericType(valid_types=[int, str]),
    "r": lambda: ReferenceType(reference="t"), "li": lambda: ListType(element_type=IntType(), value=[1]),
}
LIMITS = (None, 0, 1)


def combos(tier):
    ins = [(), ("a",), ("b",), ("a", "b"), ("t",), ("t", "r"), ("li", "a")]
    outs = [(), ("a",), ("b",), ("a", "li"), ("q",)]
    out = []
    for i, o, limit in itertools.product(ins, outs, LIMITS):
        if "q" in o and "t" not in i:
            continue
        out.append((i, o, limit))
    return out


def config(spec, tags=None):
    i, o, limit = spec
    outs = {k: (ReferenceType(reference="t") if k == "q" else ENTRIES[k]()) for k in o}
    return NodeConfig(inputs={k: ENTRIES[k]() for k in i}, outputs=outs, max_children=limit, tags=tags)


def dump_one(c):
    try:
        kind = repr(c.serialize_type())
    except Exception as ex:
        kind = type(ex).__name__
    return (type(c).__name__, kind, repr(c.get_value()), c.is_updated(), c.is_static, c.allow_static, c.allow_dynamic)


def dump(conf):
    return {"inputs": {k: dump_one(c) for k, c in conf.inputs.items()}, "outputs": {k: dump_one(c) for k, c in conf.outputs.items()},
            "max_children": conf.max_children, "tags": list(conf.tags)}


def expected(parts):
    """Merge of dumps, or None if they contradict each other."""
    out = {"inputs": {}, "outputs": {}, "max_children": parts[0]["max_children"]}
    for p in parts:
        if p["max_children"] != out["max_children"]:
            return None
        for kind in ("inputs", "outputs"):
            if set(p[kind]) & set(out[kind]):
                return None
            out[kind].update(p[kind])
    return out


def differs(got, want):
    return [k for k in ("inputs", "outputs", "max_children") if got[k] != want[k]]


def BOUNDS(tier):
    return (f"all pairs of {len(combos(tier))} declarations over 5 inputs, 5 outputs and 3 child limits, merged and defined as class and subclass, "
            f"and all pairs of bases; {len(labels())} rigs of the registered classes: all histories of {3 if tier == 'thorough' else 2} of "
            f"{len(OPS)} changes of one instance with another one before and one made afterwards")


def labels():
    return zoo.labels()


def shards(tier):
    n = len(combos(tier))
    return [["merge", i] for i in range(0, n, 8)] + [["define", i] for i in range(0, n, 8)] + [["instances", x] for x in labels()]


def weight(shard):
    return 3 if shard[0] == "instances" else 1


def run(shard, ctx):
    if shard[0] == "instances":
        ctx.explore(lambda ch: instances(ch, ctx, shard[1]), shard[1])
        return
    everything = combos(None)
    for first in everything[shard[1]:shard[1] + 8]:
        for second in everything:
            if shard[0] == "merge":
                ctx.case(f"merge {first} {second}", lambda: merge(ctx, first, second))
            else:
                for form in ("child", "bases", "kind"):
                    if form == "kind" and second is not everything[0]:
                        continue
                    ctx.case(f"{form} {first} {second}", lambda: define(ctx, form, first, second))


def merge(ctx, first, second):
    key = f"extending {first} by {second}"
    one, two = config(first, ["x"]), config(second, ["y"])
    a, b = dump(one), dump(two)
    want = expected([a, b])
    res = one.extend(two)
    ctx.step()
    if want is None:
        if not res.is_err() or not isinstance(res.err(), NodeConfigError):
            raise Violation(f"{key}: accepted", str(res))
    elif res.is_err():
        raise Violation(f"{key}: refused", str(res))
    elif differs(dump(one), want):
        raise Violation(f"{key}: gives {differs(dump(one), want)} {dump(one)}", f"expected {want}")
    if differs(dump(two), b) or dump(two)["tags"] != ["y"]:
        raise Violation(f"{key}: the second one was changed to {dump(two)}")
    twin = one.copy()
    before = dump(one)
    if dump(twin) != before or (want is not None and not (twin == one and one == twin)):
        raise Violation(f"{key}: a copy is {dump(twin)}", f"expected {before}")
    spoil(twin)
    if dump(one) != before:
        raise Violation(f"{key}: changing a copy changes it to {dump(one)}", f"was {before}")
    ctx.state((first, second))
    ctx.outcome((first, second, want is None))
    return first, second, want is None


def spoil(conf):
    """Everything one can do to a configuration."""
    for c in list(conf.inputs.values()) + list(conf.outputs.values()):
        for value in (8, "eight", [8], int, {"k": 8}, 1.5, True):
            try:
                c.set_value(value)
            except Exception:
                pass
        v = c.get_value().ok()
        if isinstance(v, list):
            v.append(99)
        elif isinstance(v, dict):
            v["spoilt"] = 1
        c.is_static = not c.is_static
        c.flag_updated()
    conf.inputs["spoilt"] = IntType()
    conf.outputs["spoilt"] = IntType()
    conf.tags.append("spoilt")
    conf.max_children = 77


class Steps:
    def _do_setup(self):
        return Ok("IDLE")

    def _do_tick(self):
        return Ok(SUCC)

    _do_untick = _do_reset = _do_setup

    def _do_shutdown(self):
        return Ok("SHUTDOWN")


KINDS = {None: FlowControl, 0: Leaf, 1: Decorator}


def define(ctx, form, first, second):
    key = f"{form} {first} {second}"
    module = "mc_c49_generated"
    registry = Node.node_classes
    registry.pop(module, None)
    try:
        def make(name, bases, spec):
            cls = type(Node)(name, bases, {"__module__": module})
            conf = config(spec)
            want = dump(conf)
            return define_bt_node(conf)(cls), want

        base_kind = KINDS[first[2]]
        parent, own = make("First", (Steps, base_kind), first)
        if form == "kind":
            wants = [own]
            cls = parent
        elif form == "child":
            before = dump(parent._node_config)
            cls, more = make("Second", (parent,), second)
            wants = [more, own]
        else:
            if KINDS[second[2]] is not base_kind:
                return None
            other, more = make("Other", (Steps, base_kind), second)
            before = dump(parent._node_config)
            third = ((), (), first[2])
            try:
                cls, none = make("Second", (parent, other), third)
            except TypeError:
                return None
            wants = [none, own, more]
        ctx.step()
        want = expected(wants)
        found = cls.__name__ in registry.get(module, {}) and registry[module][cls.__name__] is cls
        if want is None:
            if found:
                raise Violation(f"{key}: contradicting declarations are accepted", str(dump(cls._node_config)))
        else:
            if not found:
                raise Violation(f"{key}: is not available")
            if differs(dump(cls._node_config), want):
                raise Violation(f"{key}: declares {dump(cls._node_config)}", f"expected {want}")
            static = {"t": GENERIC_TYPE_MAP[int]}
            try:
                wanted = zoo.make_inputs(cls, {k: v for k, v in static.items() if k in cls._node_config.inputs})
                node = cls(node_id=nid(1), new_inputs=wanted)
            except NodeConfigError as ex:
                raise Violation(f"{key}: cannot be instantiated", repr(ex))
            got = dump(node.node_config)
            if list(got["inputs"]) != list(want["inputs"]) or list(got["outputs"]) != list(want["outputs"]) or \
                    got["max_children"] != want["max_children"]:
                raise Violation(f"{key}: an instance has {got}", f"expected {want}")
            spoil(node.node_config)
            if differs(dump(cls._node_config), want):
                raise Violation(f"{key}: an instance changes the declaration to {dump(cls._node_config)}", f"expected {want}")
        if form != "kind" and dump(parent._node_config) != before:
            raise Violation(f"{key}: defining it changes its base class to {dump(parent._node_config)}", f"was {before}")
        ctx.state((form, first, second))
        ctx.outcome((form, first, second, want is None))
        return form, first, second, want is None
    finally:
        registry.pop(module, None)


OPS = ("provide", "setup", "tick", "untick", "reset", "shutdown", "event", "child", "spoil")


def instances(ch, ctx, label):
    env = Env(lambda node, op: SUCC if op == "tick" else None)
    cls = zoo.table()[label][0]
    declared = dump(cls._node_config)
    bases = {b: dump(b._node_config) for b in cls.__mro__[1:] if "_node_config" in vars(b)}
    other = zoo.make(label, env)
    start = dump(other.node.node_config)
    kids = len(other.node.children)
    rig = zoo.make(label, env)
    if dump(rig.node.node_config) != start:
        raise Violation(f"{label}: two instances differ from the start")
    trace = []
    limit = declared["max_children"]
    for _ in range(ctx.pick(2, 3)):
        op = ch.choose(OPS + ("end",))
        if op == "end":
            break
        trace.append(op)
        ctx.step()
        node = rig.node
        if op == "provide":
            rig.provide(ch.choose(len(rig.dynamic)))
        elif op == "event":
            if not rig.events:
                break
            name = ch.choose(sorted(rig.events))
            trace[-1] = name
            rig.events[name]()
        elif op == "child":
            extra = Probe(node_id=nid(90 + len(trace)), name=f"x{len(trace)}")
            res = node.add_child(extra)
            full = limit is not None and len(node.children) - (0 if res.is_err() else 1) >= limit
            if res.is_ok() == full:
                raise Violation(f"{label} after {trace}: {'accepts' if res.is_ok() else 'refuses'} a child with limit {limit}")
        elif op == "spoil":
            spoil(node.node_config)
            node.name = "spoilt"
        else:
            getattr(node, op)()
        if dump(cls._node_config) != declared:
            raise Violation(f"{label}: the declaration changes after {trace}", f"{dump(cls._node_config)} was {declared}")
        for b, was in bases.items():
            if dump(b._node_config) != was:
                raise Violation(f"{label}: the declaration of {b.__name__} changes after {trace}", f"{dump(b._node_config)} was {was}")
        if dump(other.node.node_config) != start or len(other.node.children) != kids:
            raise Violation(f"{label}: another instance changes after {trace}", f"{dump(other.node.node_config)} was {start}")
        if op == "spoil":
            break
    new = zoo.make(label, env)
    if dump(new.node.node_config) != start or len(new.node.children) != kids:
        raise Violation(f"{label}: a new instance differs after {trace}", f"{dump(new.node.node_config)} was {start}")
    ctx.state((label, tuple(trace), repr(dump(rig.node.node_config))))
    ctx.outcome((label, tuple(trace)))
    return label, trace
