import copy

from mc import decl, standins
from mc.checks.c14 import REFS, attempt, decls, make
from mc.core import Violation

from ros_bt_py import data_types as dt
from ros_bt_py_interfaces.msg import NodeDataType

TECHNIQUE = "explicit-state model checking: every type term is described, restored and compared; every single deviation is restored"
NOTE = "Complete for the stated types, flags and deviations. Restored types are compared on about 150 values."
ID = "C15"


def BOUNDS(tier):
    return ("all type terms up to nesting depth 2 (thorough: 3) over all container kinds, bounds and flags, and references; all "
            "single deviations (thorough: pairs) of each field of each description")


def terms(tier):
    out = decls()
    if tier == "thorough":
        out += [(d, None) for d in decl.nested(3) if d[0] in ("list", "dict")]
    return out


FLAGS = [(True, True, False), (True, True, True), (True, False, False), (False, True, True)]


def shards(tier):
    n = len(terms(tier))
    return [["type", i] for i in range(n)] + [["wrong", i] for i in range(n)]


def described(c, key):
    try:
        return c.serialize_type()
    except Exception as ex:
        raise Violation("cannot be described: " + key, repr(ex))


def restore(msg, key):
    try:
        return dt.get_iotype_for_msg(msg)
    except Exception as ex:
        raise Violation("exception escapes: " + key, repr(ex))


def type_of(i):
    t = dt.RosTopicType() if i == 3 else dt.GenericType()
    t.set_value(REFS[i]).unwrap()
    return t


ATTRS = ("allow_dynamic", "allow_static", "is_static", "min_value", "max_value", "max_length", "strict_length", "valid_values",
         "valid_types", "interface_id", "interface_kind", "message_type", "_reference", "type_identifier")


def shape(c):
    out = [type(c).__name__] + [(a, getattr(c, a)) for a in ATTRS if hasattr(c, a)]
    if hasattr(c, "_element_type"):
        e = c._element_type
        out.append([x for x in shape(e) if x[0] not in ("allow_dynamic", "allow_static", "is_static")])
    return out


def run(shard, ctx):
    entry = terms(ctx.tier)[shard[1]]
    d, ref = entry
    label = decl.name(d) + (f" by {ref[0]}" if ref else "")
    typed = d[0] == "generic" or d[0].endswith("_type")
    if shard[0] == "wrong":
        return wrong(entry, label, typed, ctx)
    pool = decl.values()
    for fl in FLAGS:
        if typed and fl[0]:
            continue

        def body():
            c = make(entry, allow_dynamic=fl[0], allow_static=fl[1], is_static=fl[2])
            key = f"{label} {fl}"
            msg = described(c, key)
            first = copy.deepcopy(msg)
            got = restore(msg, key)
            if got.is_err():
                raise Violation("not restored: " + key, str(got))
            r = got.unwrap()
            if msg != first:
                raise Violation("restoring changed the description: " + key)
            if ref is not None:
                if r.set_type_map({"t": type_of(ref[1])}).is_err():
                    raise Violation("restored reference cannot be resolved: " + key)
            again = described(r, key)
            if again != msg:
                raise Violation("description changes: " + key, f"{msg}\n{again}")
            if (type(r), r.allow_dynamic, r.allow_static, r.is_static) != (type(c), *fl):
                raise Violation("other kind: " + key, f"{type(r)} {r.allow_dynamic} {r.allow_static} {r.is_static}")
            if not c.is_compatible(r) or not r.is_compatible(c):
                raise Violation("restored type is not compatible: " + key)
            for v in pool:
                want = decl.accepts(d, v)
                if want is None:
                    continue
                for what, x in (("restored", restore(msg, key).unwrap()), ("runtime", c.get_runtime_type())):
                    if what == "restored" and ref is not None:
                        x.set_type_map({"t": type_of(ref[1])}).unwrap()
                    if attempt(x, v) != want:
                        raise Violation(f"{what} type {'refuses' if want else 'accepts'} {decl.name_(v)!r}: " + key)
                    ctx.step()
            run_ = c.get_runtime_type()
            if (run_.allow_dynamic, run_.allow_static, run_.is_static) != (not fl[2], fl[2], fl[2]):
                raise Violation("runtime type of another kind: " + key)
            ctx.state(str(msg))
            ctx.outcome(key)
            return key

        ctx.case(f"{fl}", body)


def deviations(msg):
    """Single changes of a description."""
    out = []

    def change(field, value):
        out.append((f"{field}={value!r}"[:80], field, value))

    for t in [0, *range(1, 16), 16, 200, 255]:
        change("type_identifier", t)
    for f in ("allow_dynamic", "allow_static", "is_static"):
        change(f, not getattr(msg, f))
    for f in ("min_value", "max_value"):
        for v in ("", "x", "1e3", "9" * 400, "-5", "nan", "[]"):
            change(f, v)
    for v in ([], [0], [200], [5], [2, 5], [5, 2], [4], list(msg.value_type_identifier) + [5], [7], [13], [12]):
        change("value_type_identifier", v)
    for f in ("iterable_max_length", "iterable_strict_length"):
        for v in ([], [1], [0, 1], [1, 1, 1, 1]):
            change(f, v if f == "iterable_max_length" else [bool(x) for x in v])
    change("string_max_length", 0)
    change("string_max_length", 1)
    for v in ([], ["x"], ["{}"], ["[]"], ["null"], ['{"type": "int"}'], ['{"type": "print", "value": {}}'],
              ['{"type": "nothing", "value": {}}'], ['{"type": 3, "value": {}}'], ['{"value": {}}'], ['{"type": "set"}']):
        change("serialized_value_options", v)
    for v in ("", "other", "t"):
        change("reference_target", v)
    for v in (0, 1, 2, 3, 4, 9):
        change("ros_interface_kind", v)
    for v in ("", "x", "a/b", "no_package/msg/X", "example_interfaces/msg/Nothing", "example_interfaces/msg/Int64",
              "example_interfaces/srv/AddTwoInts", "//", "os/path/join"):
        change("ros_msg_type", v)
    change("interface_id", 3)
    return out


def wrong(entry, label, typed, ctx):
    base = described(make(entry, **({} if not typed else {"is_static": True})), label)
    devs = deviations(base)

    def body(ch):
        msg = copy.deepcopy(base)
        names = []
        pick = ch.choose(len(devs))
        names.append(devs[pick][0])
        setattr(msg, devs[pick][1], devs[pick][2])
        if ctx.thorough and len(devs) < 200:
            second = ch.choose(len(devs))
            if second <= pick:
                return None
            names.append(devs[second][0])
            setattr(msg, devs[second][1], devs[second][2])
        key = f"{label} with {names}"
        got = restore(msg, key)
        ctx.step()
        ctx.outcome((key, got.is_ok()))
        if got.is_err():
            return key
        r = got.unwrap()
        if r.type_identifier != msg.type_identifier:
            raise Violation("restored as another type: " + key, str(r))
        if not r.allow_dynamic and not r.allow_static or r.is_static and not r.allow_static or \
                not r.is_static and not r.allow_dynamic:
            raise Violation("inconsistent flags accepted: " + key)
        again = described(r, key)
        got2 = restore(again, key)
        if got2.is_err() or repr(shape(got2.unwrap())) != repr(shape(r)):
            raise Violation("accepted description is not stable: " + key, f"{shape(r)}\n{got2}")
        if again.ros_msg_type and again.ros_msg_type != msg.ros_msg_type.replace("example_interfaces/Int", "example_interfaces/msg/Int"):
            raise Violation("restored with another message type: " + key, again.ros_msg_type)
        return key

    ctx.explore(body)
