import copy
import glob
import itertools
import struct
import uuid

from mc import standins  # noqa: F401
from mc.core import Violation
from mc.checks.c45 import PACKAGES
import importlib

import example_interfaces.msg as em
from ros_bt_py import helpers, ros_helpers
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py_interfaces.msg import Wiring, NodeDataLocation

TECHNIQUE = "explicit-state model checking: every text, wiring, attribute history and interface within the bound against independent definitions"
NOTE = ("Complete for the stated texts, wirings and objects. Other notations that Python itself accepts for a UUID (braces, urn:, no hyphens, other decimal digits, "
        "separators between digits) are not judged; the float limit is compared after rounding to the named type.")
ID = "C47"

HEX = "0123456789abcdef"
BASES = ["12345678-1234-5678-abcd-123456789abc", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff"]
JUNK = ["", " ", "0", "uuid", "None", "-", "{}", "urn:uuid:", "g" * 32, "12345678-1234-5678-abcd-123456789ab", "x" * 36, "\x00",
        "12345678-1234-5678-abcd-123456789abcd", "0x12345678-1234-5678-abcd-1234567", "12345678_1234_5678_abcd_123456789abc"]


def BOUNDS(tier):
    n = 2 if tier == "thorough" else 1
    return (f"all identifiers differing from 3 bases in {n} digit(s), all single-character deletions, insertions and replacements by non-digits; "
            "all wirings over 6 texts per end; "
            "all histories of 3 reads and writes of existing and missing attributes of nested objects; all named limits; all interfaces of "
            f"{len(PACKAGES)} packages")


def shards(tier):
    return [["uuid"], ["text"], ["wiring"], ["limits"], ["names"]] + [["attr", i] for i in range(len(OBJECTS))]


def run(shard, ctx):
    {"uuid": ids, "text": texts, "wiring": wirings, "limits": limits, "names": names, "attr": attributes}[shard[0]](ctx, *shard[1:])


def ids(ctx):
    def one(value):
        text = ros_helpers.uuid_to_ros(value)
        digits = f"{value.int:032x}"
        want = "-".join([digits[:8], digits[8:12], digits[12:16], digits[16:20], digits[20:]])
        if text != want:
            raise Violation(f"{want} is written as {text!r}")
        for form in (text, text.upper()):
            back = ros_helpers.ros_to_uuid(form)
            ctx.step()
            if back.is_err() or type(back.ok()) is not uuid.UUID or back.ok().int != value.int:
                raise Violation(f"{form} is read as {back}")
        ctx.outcome(text)
        ctx.state(text)
        return text

    places = range(32)
    for base in BASES:
        digits = base.replace("-", "")
        for group in itertools.combinations(places, ctx.pick(1, 2)):
            for repl in itertools.product(HEX, repeat=len(group)):
                new = list(digits)
                for i, c in zip(group, repl):
                    new[i] = c
                value = uuid.UUID(int=int("".join(new), 16))
                ctx.case(str(value), lambda: one(value))


def texts(ctx):
    def refused(text):
        try:
            res = ros_helpers.ros_to_uuid(text)
        except Exception as ex:
            raise Violation(f"{text!r} raises {ex!r}")
        ctx.step()
        if not res.is_err() or not isinstance(res.err(), str) or not res.err():
            raise Violation(f"{text!r} is read as {res}")
        ctx.outcome(text)
        return text

    bad = list(JUNK)
    for base in BASES:
        for i, c in enumerate(base):
            if c != "-":
                bad.append(base[:i] + base[i + 1:])  # a digit missing
                bad += [base[:i] + x + base[i + 1:] for x in "gG.,:/é?"]
                bad += [base[:i] + x + base[i:] for x in "0agG/"]  # a digit too many
            bad.append(base[:i])
    for text in dict.fromkeys(bad):
        ctx.case(repr(text), lambda: refused(text))


def wirings(ctx):
    a, b = uuid.UUID(BASES[0]), uuid.UUID(BASES[2])
    ends = [BASES[0], BASES[0].upper(), BASES[2], BASES[1], "", "no id"]
    means = [a, a, b, uuid.UUID(int=0), None, None]
    for (i, s), (j, t), node in itertools.product(enumerate(ends), enumerate(ends), (a, b, uuid.UUID(int=0), uuid.UUID(int=1))):
        def body():
            w = Wiring(source=NodeDataLocation(node_id=s, data_kind="outputs", data_key="k"),
                       target=NodeDataLocation(node_id=t, data_kind="inputs", data_key="k"))
            before = repr(w)
            got = ros_helpers.wiring_has_id(w, node)
            ctx.step()
            if got is not (node in (means[i], means[j])):
                raise Violation(f"wiring {s!r} -> {t!r}: has id {node}: {got}")
            if repr(w) != before:
                raise Violation(f"wiring {s!r} -> {t!r} was changed")
            ctx.outcome((s, t, str(node)))
            return s, t, str(node), got

        ctx.case(repr((s, t, str(node))), body)


class Thing:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Falsy(Thing):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


OBJECTS = [
    lambda: Thing(a=1, b=Thing(a=2, b=Thing(a=3, c=None), c=0)),
    lambda: Thing(a=None, b=Falsy(a=0, b=Falsy(a="", c=[]), c=False)),
    lambda: em.Nested(inner=em.Int32List(values=[1], label="l"), flag=True, ratio=0.5, names=["x"]),
]
PATHS = [["a", "b", "c", "b.a", "b.b", "b.c", "b.b.a", "b.b.c", "b.b.x", "a.a", "x", "x.a", "b.x.a", ""]] * 2 + \
    [["inner", "flag", "ratio", "names", "inner.label", "inner.x", "x", "flag.real", ""]]
MISSING = object()


def snapshot(obj):
    if isinstance(obj, Thing):
        return {"__class__": type(obj).__name__, **{k: snapshot(v) for k, v in vars(obj).items()}}
    if hasattr(obj, "get_fields_and_field_types"):
        return {"__class__": type(obj).__name__, **{k: snapshot(getattr(obj, k)) for k in obj.get_fields_and_field_types()}}
    return copy.copy(obj)


def look(tree, path):
    for word in path:
        if not isinstance(tree, dict) or word not in tree:
            return MISSING
        tree = tree[word]
    return tree


def attributes(ctx, index):
    paths = PATHS[index]
    values = [7, None, "new"] if index < 2 else [em.Int32List(values=[2], label="m"), False, 1.5, "text"]
    actions = [("get", p, None) for p in paths] + [("set", p, v) for p in paths for v in values]
    for history in itertools.product(actions, repeat=ctx.pick(2, 3)):
        ctx.case(repr([(a, p, snapshot(v)) for a, p, v in history]), lambda: attribute_history(ctx, index, history))


def attribute_history(ctx, index, history):
    obj = OBJECTS[index]()
    tree = snapshot(obj)
    trace = []
    for action, path, value in history:
        words = path.split(".")
        trace.append((action, path, snapshot(value)))
        key = f"{trace} of object {index}"
        if action == "get":
            want = look(tree, words)
            if path == "flag.real":
                want = int(tree["flag"]) if isinstance(tree["flag"], (bool, int)) else MISSING
            try:
                got = snapshot(helpers.rgetattr(obj, path))
            except AttributeError:
                got = MISSING
            ctx.step()
            if got != want or type(got) is not type(want):
                raise Violation(f"{key}: reads {got!r} instead of {want!r}")
            for default in (None, 0, "d"):
                try:
                    got = snapshot(helpers.rgetattr(obj, words[0], default))
                except AttributeError:
                    got = MISSING
                want = look(tree, words[:1])
                want = default if want is MISSING else want
                if got != want or type(got) is not type(want):
                    raise Violation(f"{key}: reads {words[0]} with default {default!r} as {got!r}")
        else:
            parent = look(tree, words[:-1])
            fits = isinstance(parent, dict)
            if index == 2 and fits:
                fields = (em.Nested if len(words) == 1 else em.Int32List).get_fields_and_field_types()
                kind = {"inner": em.Int32List, "flag": bool, "ratio": float, "names": list, "label": str}
                fits = words[-1] in fields and isinstance(value, kind[words[-1]])
            given = copy.deepcopy(value)
            try:
                helpers.rsetattr(obj, path, given)
                worked = True
            except Exception:
                worked = False
            ctx.step()
            if worked != bool(fits):
                raise Violation(f"{key}: {'writes' if worked else 'cannot write'} {path}")
            if fits:
                parent[words[-1]] = snapshot(value)
        if snapshot(obj) != tree:
            raise Violation(f"{key}: object is {snapshot(obj)}", f"expected {tree}")
    ctx.state((index, repr(tree)))
    ctx.outcome((index, repr(trace)))
    return trace


def limits(ctx):
    codes = {8: "b", 16: "h", 32: "i", 64: "q"}

    def integer(bits, unsigned):
        name = f"{'u' if unsigned else ''}int{bits}"
        code = "<" + (codes[bits].upper() if unsigned else codes[bits])
        got = helpers.int_limits_dict(name)
        if set(got) != {"min_value", "max_value"} or type(got["min_value"]) is not int or type(got["max_value"]) is not int:
            raise Violation(f"limits of {name}: {got}")
        for value, step in ((got["min_value"], -1), (got["max_value"], 1)):
            struct.pack(code, value)  # the limit itself can be represented, the next one cannot
            try:
                struct.pack(code, value + step)
            except struct.error:
                pass
            else:
                raise Violation(f"limits of {name}: {got}")
        got["min_value"] = 5  # the caller's own copy
        if helpers.int_limits_dict(name)["min_value"] == 5:
            raise Violation(f"limits of {name} are shared")
        ctx.outcome((name, repr(got)))
        ctx.step()
        return name, got

    def real(name, code, bits):
        got = helpers.float_limits_dict(name)
        want = struct.unpack("<" + code, bytes.fromhex(bits))[0]
        rounded = {k: struct.unpack("<" + code, struct.pack("<" + code, v))[0] for k, v in got.items()}
        if rounded != {"min_value": -want, "max_value": want}:
            raise Violation(f"limits of {name}: {got}")
        ctx.outcome((name, repr(got)))
        ctx.step()
        return name, got

    for bits in codes:
        for unsigned in (False, True):
            ctx.case(f"int {bits} {unsigned}", lambda: integer(bits, unsigned))
    ctx.case("float", lambda: real("float", "f", "ffff7f7f"))
    ctx.case("double", lambda: real("double", "d", "ffffffffffffef7f"))


def names(ctx):
    def one(package, kind, name, cls):
        got = ros_helpers.get_interface_name(cls)
        ctx.step()
        if got != f"{package}/{kind}/{name}":
            raise Violation(f"{package}/{kind}/{name} is called {got!r}")
        ctx.outcome(got)
        ctx.state(got)
        return got

    def constants(package, name, cls):
        res = ros_helpers.get_message_constant_fields(cls)
        want = dict(getattr(type(cls), f"_{type(cls).__name__}__constants", {}))
        ctx.step()
        if res.is_err() or sorted(res.ok()) != sorted(want):
            raise Violation(f"constants of {package}/msg/{name}: {res} instead of {sorted(want)}")
        ctx.outcome((package, name, tuple(sorted(want))))
        return package, name, sorted(want)

    for package in PACKAGES:
        for kind in ("msg", "srv", "action"):
            try:
                module = importlib.import_module(f"{package}.{kind}")
            except ImportError:
                continue
            for name, cls in sorted(vars(module).items()):
                if not isinstance(cls, type):
                    continue
                ctx.case(f"{package}/{kind}/{name}", lambda: one(package, kind, name, cls))
                if kind == "msg" and hasattr(cls, "get_fields_and_field_types"):
                    ctx.case(f"constants {package}/{kind}/{name}", lambda: constants(package, name, cls))
    for thing in (3, "text", None, em.Int64()):
        def bad():
            res = ros_helpers.get_message_constant_fields(thing)
            if not res.is_err():
                raise Violation(f"constants of {thing!r}: {res}")
            return repr(thing)

        ctx.case(f"constants of {thing!r}", bad)
