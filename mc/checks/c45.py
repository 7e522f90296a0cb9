import copy
import glob
import importlib
import os
import re
import sys

from mc import leaf, standins, zoo
from mc.core import Violation
from mc.leaf import BAD, FAIL, SUCC

import example_interfaces.msg as em
import numpy
import rosidl_runtime_py.utilities as ru
from rclpy.parameter import Parameter
from ros_bt_py.data_types import GENERIC_TYPE_MAP as G
from ros_bt_py.ros_nodes import enum, message_converters, param

TECHNIQUE = "explicit-state model checking: every message type x field values and every short parameter history, split, rebuilt and compared"
NOTE = ("Complete for the installed message packages and the stated field values; floating point fields are compared as Python numbers.")
ID = "C45"

PACKAGES = ["action_msgs", "builtin_interfaces", "diagnostic_msgs", "geometry_msgs", "lifecycle_msgs", "rcl_interfaces", "rosgraph_msgs",
            "std_msgs", "unique_identifier_msgs", "type_description_interfaces", "example_interfaces", "ros_bt_py_interfaces"]
INTS = {f"{u}int{b}": ((0, 2**b - 1) if u else (-(2 ** (b - 1)), 2 ** (b - 1) - 1)) for u in ("", "u") for b in (8, 16, 32, 64)}


def messages(package):
    m = importlib.import_module(package + ".msg")
    return {k: c for k, c in sorted(vars(m).items()) if isinstance(c, type) and hasattr(c, "get_fields_and_field_types")}


def alphabet(ftype, deep=2):
    """Values of a field, the first one being its default."""
    seq = re.fullmatch(r"sequence<(.*?)(?:, (\d+))?>", ftype)
    arr = re.fullmatch(r"(.*)\[(\d+)\]", ftype)
    if seq:
        inner, bound = alphabet(seq[1], deep - 1), int(seq[2] or 3)
        out = [[], [inner[-1]], [inner[0], inner[-1]], list(inner[:3])]
        return [x for x in out if len(x) <= bound]
    if arr:
        inner, n = alphabet(arr[1], deep - 1), int(arr[2])
        return [[inner[0]] * n, [inner[-1]] * n, (inner * n)[:n]]
    if ftype == "boolean":
        return [False, True]
    if ftype == "octet":
        return [b"\x00", b"\x01", b"\xff"]
    if ftype in INTS:
        lo, hi = INTS[ftype]
        return list(dict.fromkeys([0, 1, lo, hi]))
    if ftype == "float":
        return [0.0, 1.0, -0.5, 3.0e38]
    if ftype == "double":
        return [0.0, 1.0, -0.1, 1e308]
    text = re.fullmatch(r"w?string(?:<(\d+)>)?", ftype)
    if text:
        return ["", "a", "\u00e9\n\"" if not text[1] else "x" * int(text[1])]
    cls = ru.get_message(ftype)
    out = [cls()]
    if deep > 0:
        for field, t in cls.get_fields_and_field_types().items():
            vals = alphabet(t, deep - 1)
            if len(vals) > 1:
                out.append(with_fields(cls, {field: vals[-1]}))
    return out[:4]


def with_fields(cls, values):
    msg = cls()
    for k, v in values.items():
        setattr(msg, k, copy.deepcopy(v))
    return msg


def plain(v):
    if hasattr(v, "get_fields_and_field_types"):
        return {f: plain(getattr(v, f)) for f in v.get_fields_and_field_types()}
    if isinstance(v, numpy.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)) or type(v).__name__ == "array":
        return [plain(x) for x in v]
    return v


def variants(cls, thorough):
    fields = cls.get_fields_and_field_types()
    doms = {f: alphabet(t) for f, t in fields.items()}
    out = [{}]
    for f, vals in doms.items():
        out += [{f: v} for v in vals[1:]]
    names = list(doms)
    for i, f in enumerate(names):
        for g in names[i + 1:]:
            for v in doms[f][1:] if thorough else doms[f][-1:]:
                for w in doms[g][1:] if thorough else doms[g][-1:]:
                    out.append({f: v, g: w})
    out.append({f: v[-1] for f, v in doms.items()})
    out.append({f: v[min(1, len(v) - 1)] for f, v in doms.items()})
    return out


def BOUNDS(tier):
    n = sum(len(messages(p)) for p in PACKAGES)
    return (f"all {n} message types of {len(PACKAGES)} packages: the default message, every field at each of its values, every pair of fields "
            "and all fields at extreme values, split and rebuilt one after the other through the same two nodes; the constants of every type; "
            f"all parameter histories of {4 if tier == 'thorough' else 3} ticks")


def shards(tier):
    out = []
    for p in PACKAGES:
        out += [["convert", p, k] for k in messages(p)]
        out += [["enum", p]]
    return out + [["param", t] for t in PARAMS]


def weight(shard):
    return {"param": 10, "enum": 5}.get(shard[0], 1)


def run(shard, ctx):
    {"convert": convert, "enum": enums, "param": params}[shard[0]](ctx, *shard[1:])


def convert(ctx, package, name):
    cls = messages(package)[name]
    fields = list(cls.get_fields_and_field_types())
    todo = variants(cls, ctx.thorough)

    def pair():
        split = zoo.Rig(message_converters.MessageToFields, values={"input_type": cls}, dynamic=[{"in": None}])
        join = zoo.Rig(message_converters.FieldsToMessage, values={"output_type": cls}, dynamic=[{f: None for f in fields}])
        for rig in (split, join):
            res = rig.node.setup()
            if res.is_err():
                raise Violation(f"{package}/{name}: setup of {rig.cls.__name__} fails", str(res))
        if set(split.node.node_config.outputs) != set(fields):
            raise Violation(f"{package}/{name}: splits into {sorted(split.node.node_config.outputs)}")
        return split, join

    kept = {}  # the pair in use -> the message it assembled last

    def send(split, join, values, last):
        key = f"{package}/{name} {values!r:.200}" + (f" after {last!r:.100}" if last is not None else "")
        msg = with_fields(cls, values)
        given = copy.deepcopy(msg)
        assert split.node.node_config.inputs["in"].set_value(given).is_ok()
        res = split.node.tick()
        ctx.step()
        if res.is_err() or res.ok() != SUCC:
            raise Violation(f"{key}: splitting does not succeed", str(res))
        for f in fields:
            value = split.node.node_config.outputs[f].get_value().ok()
            if plain(value) != plain(getattr(msg, f)):
                raise Violation(f"{key}: field {f} is {value!r:.100}", f"expected {getattr(msg, f)!r}")
            res = join.node.node_config.inputs[f].set_value(value)
            if res.is_err():
                raise Violation(f"{key}: field {f} cannot be assembled", str(res))
        res = join.node.tick()
        if res.is_err() or res.ok() != SUCC:
            raise Violation(f"{key}: assembling does not succeed", str(res))
        out = join.node.node_config.outputs["out"].get_value().ok()
        before = kept.get(id(join))
        if before is not None:
            if plain(before[0]) != before[1]:
                raise Violation(f"{key}: the message assembled before changes", f"{before[1]} became {before[0]!r}")
            if not join.node.node_config.outputs["out"].is_updated() and before[1] != plain(msg):
                raise Violation(f"{key}: the new message is not reported as new")
        kept.clear()
        kept[id(join)] = (out, plain(msg))
        if type(out) is not cls or plain(out) != plain(msg):
            raise Violation(f"{key}: comes back as {out!r:.200}", f"expected {msg!r}")
        if plain(given) != plain(msg):
            raise Violation(f"{key}: the message given was modified")
        ctx.state((key, repr(plain(out))))

    def fresh(values):
        split, join = pair()
        send(split, join, values, None)
        ctx.outcome((package, name, repr(values)))
        return name, values

    for values in todo[: len(todo) if ctx.thorough else 4]:
        ctx.case(f"fresh {values!r}", lambda: fresh(values))

    def chain():
        """All of them, one after the other, then back to the first."""
        split, join = pair()
        last = None
        for values in todo + todo[:2] + todo[::-1]:
            send(split, join, values, last)
            last = values
        ctx.outcome((package, name))
        return name, len(todo)

    ctx.case("chain", chain)


def constants(cls):
    """From the generated class, as rosidl writes it."""
    return dict(getattr(type(cls), f"_{type(cls).__name__}__constants", {}))


def enums(ctx, package):
    for name, cls in messages(package).items():
        want = constants(cls)

        def body():
            try:
                rig = zoo.Rig(enum.EnumFields, values={"ros_message_type": cls})
            except Exception as ex:
                raise Violation(f"EnumFields {package}/{name} cannot be created", repr(ex))
            if set(rig.node.node_config.outputs) != set(want):
                raise Violation(f"EnumFields {package}/{name} offers {sorted(rig.node.node_config.outputs)}", f"expected {sorted(want)}")
            rig.node.setup().unwrap()
            for op in ("tick", "tick", "untick", "tick", "reset", "tick"):
                res = getattr(rig.node, op)()
                ctx.step()
                if op == "tick":
                    if res.is_err() or res.ok() != SUCC:
                        raise Violation(f"EnumFields {package}/{name} does not succeed", str(res))
                    for k, (v, _) in leaf.outputs(rig.node).items():
                        if not leaf.same(v, want[k]):
                            raise Violation(f"EnumFields {package}/{name}.{k} is {v!r}", f"expected {want[k]!r}")
            ctx.outcome((package, name, repr(want)))
            return name, want

        ctx.case(f"enum {name}", body)


LI = dict(G[list], element_type=G[int])
#  type -> (declared, default, values of that type, a value of another type)
PARAMS = {
    "bool": (G[bool], False, [True, False], "text"),
    "int": (G[int], -1, [0, 7], "text"),
    "float": (G[float], 0.5, [1.25, 0.0], "text"),
    "bytes": (G[bytes], b"d", [[b"x"]], 3),
    "list[int]": (LI, [9], [[1, 2], []], "text"),
}


class Model:
    def __init__(self, world, default, good):
        self.world, self.default, self.good = world, default, good

    def reset(self):
        pass

    untick = reset

    def tick(self, inputs, updated):
        if inputs["param_name"] not in self.world:
            return FAIL, None
        value = self.world[inputs["param_name"]]
        if value is None:
            return SUCC, {"param": self.default}
        return (SUCC, {"param": value}) if any(leaf.same(value, g) for g in self.good) else (BAD, None)


def params(ctx, t):
    typ, default, good, wrong = PARAMS[t]
    values = [None] + [v for v in good if t != "bytes"] + [wrong]

    def body(ch):
        world = {}
        rig_ros = []

        def change(ch):
            name = ("p", "q")[ch.choose(2)]
            i = ch.choose(len(values) + 1)
            ros = rig_ros[0]
            if i == len(values):
                world.pop(name, None)
                ros.params.pop(name, None)
            else:
                world[name] = values[i]
                ros.params[name] = Parameter(name, value=values[i])

        original = zoo.Rig.__init__
        made = zoo.Rig

        class Rig(made):
            def __init__(self, *args, **kw):
                super().__init__(*args, **kw)
                rig_ros.append(self.ros)
                change(ch)

        zoo.Rig = Rig
        try:
            return leaf.walk(ch, ctx, f"RosParam[{t}]", param.RosParam, {"param_type": typ, "default_value": default}, {"param_name": ["p", "q"]},
                             lambda: Model(world, default, good), ctx.pick(3, 4), ("tick", "change"), events={"change": change},
                             compare=lambda a, b: leaf.same(plain(a), plain(b)))
        finally:
            zoo.Rig = made

    ctx.explore(body, "param")
