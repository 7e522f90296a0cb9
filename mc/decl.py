"""Descriptions of data types, independent of the code: ("int", lo, hi), ("list", element, max, strict), ...

build(d) makes the real container, accepts(d, v) says whether v is one of its values (None: not specified),
values(d) lists the alphabet of candidate values.
"""

import array

from mc import standins  # noqa: F401

import example_interfaces.action as ea
import example_interfaces.msg as em
import example_interfaces.srv as es
from ros_bt_py import data_types as dt

BIG = 2**64 - 1616
I64 = (-(2**63), 2**63 - 1)
F64 = (-1.7976931348623157e308, 1.7976931348623157e308)

CODE = {"bool": 1, "int": 2, "float": 3, "string": 4}  # not used for deciding, only for names

FLAT = [
    ("bool",),
    ("int", None, None), ("int", 0, 5), ("int", -3, -1), ("int", 3, 3), ("int", I64[0], I64[1]),
    ("float", None, None), ("float", 0.0, 1.5), ("float", -2.0, -0.5), ("float", -3.4028235e38, 3.4028235e38),
    ("str", None, None), ("str", 2, None), ("str", 0, None), ("str", None, ("a", "bb")), ("str", 1, ("a", "bb")),
    ("str", None, ("a",)), ("str", None, ("a", "bb", "c")),
    ("path", None, None), ("path", 12, None),
    ("bytes", None), ("bytes", 2),
    ("msg", em.Int32List), ("msg", em.Nested), ("msg", em.Int64), ("msg", em.Empty), ("msg", em.Level),
]
TYPES = [
    ("generic", (bool, int, float, str, bytes, list, dict, object)), ("generic", (int, str)), ("generic", (list, int)),
    ("topic_type",), ("service_type",), ("action_type",), ("component_type",),
    ("topic_name", 0), ("topic_name", 1), ("service_name", 0), ("action_name", 0),
]


def nested(depth):
    out = list(FLAT)
    if depth == 0:
        return out
    inner = nested(depth - 1) if depth > 1 else [("int", 0, 5), ("int", None, None), ("str", 2, None), ("float", 0.0, 1.5),
                                                 ("bool",), ("bytes", None), ("msg", em.Int32List), ("path", None, None),
                                                 ("str", None, ("a", "bb"))]
    if depth > 1:
        inner = [d for d in inner if d[0] in ("list", "dict")]
    for d in inner:
        for kind in ("list", "dict"):
            for n, strict in ((None, False), (2, False), (1, True)):
                if depth > 1 and n == 2:
                    continue
                out.append((kind, d, n, strict))
    if depth > 1:
        out += [d for d in nested(depth - 1) if d[0] in ("list", "dict")]
    return out


def name(d):
    return repr(tuple(name_(x) for x in d))


def name_(x):
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, tuple):
        return tuple(name_(y) for y in x)
    return x


def build(d, **kw):
    k = d[0]
    if k == "bool":
        return dt.BoolType(**kw)
    if k in ("int", "float"):
        return (dt.IntType if k == "int" else dt.FloatType)(min_value=d[1], max_value=d[2], **kw)
    if k == "str":
        return dt.StringType(max_length=d[1], valid_values=list(d[2]) if d[2] is not None else None, **kw)
    if k == "path":
        return dt.PathType(max_length=d[1], valid_values=list(d[2]) if d[2] is not None else None, **kw)
    if k == "bytes":
        return dt.BytesType(max_length=d[1], **kw)
    if k in ("list", "dict"):
        return (dt.ListType if k == "list" else dt.DictType)(element_type=build(d[1]), max_length=d[2], strict_length=d[3],
                                                             **kw)
    if k == "msg":
        return dt.RosMessageType(message_type=d[1], **kw)
    if k == "generic":
        return dt.GenericType(valid_types=list(d[1]), **kw)
    if k.endswith("_type"):
        return {"topic_type": dt.RosTopicType, "service_type": dt.RosServiceType, "action_type": dt.RosActionType,
                "component_type": dt.RosComponentType}[k](**kw)
    return {"topic_name": dt.RosTopicName, "service_name": dt.RosServiceName,
            "action_name": dt.RosActionName}[k](interface_id=d[1], **kw)


# --------------------------------------------------------------- values

N, L, S = 0, 0, 0
T = dt.GENERIC_TYPE_MAP
SCALARS = [
    None, True, False, 0, 1, 2, 3, 5, 6, -1, -2, -3, -4, I64[0], I64[0] - 1, I64[1], I64[1] + 1, 2**64 - 1, 2**64, 10**400,
    0.0, 0.5, 1.5, 1.6, -0.5, -2.0, -2.1, 1e-300, 3.4028235e38, 3.5e38, 1e308, float("inf"), float("-inf"),
    "", "a", "bb", "c", "abc", "\u00e9\n\"", "file://", "file://a", "file:///abcd", "file:///abcdef", "package://p/x", "/foo",
    "http://x", b"", b"\x00", b"\xff", b"ab", b"abc",
]


def messages():
    return [em.Int64(data=3), em.Int64(data=I64[0]), em.Empty(), em.Level(value=7),
            em.Int32List(values=[1, -2], label="x"), em.Int32List(),
            em.Nested(inner=em.Int32List(values=[7], label="\u00e9"), flag=True, ratio=0.1, names=["a", "b"]), em.Nested()]


def generics():
    out = [dict(T[t]) for t in T]
    out += [dict(T[int], min_value=0, max_value=3), dict(T[str], max_length=3), dict(T[float], min_value=-1.0, max_value=1.0)]
    out += [dict(T[list], element_type=dict(T[t])) for t in (int, str, list, object)]
    out += [dict(T[dict], element_type=dict(T[list], element_type=dict(T[int])))]
    # wrong ones: unknown kind, missing and extra entries, broken elements
    out += [{}, {"type_identifier": 200}, {"min_value": 1}, dict(T[bool], extra=1),
            {k: v for k, v in T[int].items() if k != "min_value"}, dict(T[list], element_type={}),
            dict(T[list], element_type=3), dict(T[list], element_type=dict(T[int], extra=1))]
    return out


CLASSES = [em.Int64, em.Nested, es.AddTwoInts, es.AddTwoInts.Request, ea.Countdown, ea.Countdown.Goal, int, dict]
CONTAINERS = [
    [], [1], [1, 5], [1, 6], [1, 2, 3], ["a"], ["a", "bb"], ["abc"], [1, "a"], [0.5], [1.5, 0], [1.6], [True], [b"a"], [b"ab"],
    ["file://a"], [None], [[]], [[1]], [[1], [2]], [[1], ["a"]], [[[1]]], [{}], [{"a": 1}], [{"a": "x"}], [[1, 2, 3]],
    {}, {"a": 1}, {"a": 1, "b": 6}, {"a": 1, "b": 2, "c": 3}, {"a": "bb"}, {"a": 0.5}, {"a": True}, {"a": b"a"}, {"a": [1]},
    {"a": {}}, {"a": {"b": 1}}, {"a": {"b": 9}}, {"a": "file://a"}, {"a": [1, "x"]}, {"a": None},
    [["a"]], [["abc"], ["a"]], {"a": ["a"]}, {"x": {"y": "a"}},
]


def containers():
    out = list(CONTAINERS)
    out += [[em.Int32List(values=[1])], [em.Int32List(), em.Int64()], {"m": em.Int32List(label="q")}, [[em.Int32List()]]]
    return out


def values(d=None):
    return SCALARS + messages() + generics() + CLASSES + containers() + [array.array("i", [1, 2])]


def accepts(d, v):
    """True, False, or None where nothing is specified (booleans as numbers, not-a-number)."""
    k = d[0]
    if k == "bool":
        return isinstance(v, bool)
    if k in ("int", "float"):
        if isinstance(v, bool):
            return None
        if isinstance(v, float) and v != v:
            return None if k == "float" else False
        if not isinstance(v, int if k == "int" else (int, float)):
            return False
        lo, hi = d[1], d[2]
        if k == "int":
            lo, hi = (I64[0] if lo is None else lo), (2**64 - 1 if hi is None else hi)
        else:
            lo, hi = (F64[0] if lo is None else lo), (F64[1] if hi is None else hi)
        return lo <= v <= hi
    if k in ("str", "path"):
        if not isinstance(v, str):
            return False
        if len(v) > (BIG if d[1] is None else d[1]) or d[2] is not None and v not in d[2]:
            return False
        return k == "str" or v.startswith("file://") or v.startswith("package://")
    if k == "bytes":
        return isinstance(v, bytes) and len(v) <= (1 if d[1] is None else d[1])
    if k in ("list", "dict"):
        if k == "list":
            if not isinstance(v, (list, array.array)):
                return False
            items = list(v)
        else:
            if not isinstance(v, dict):
                return False
            items = list(v.values())
        n = BIG if d[2] is None else d[2]
        if len(items) > n or d[3] and len(items) != n:
            return False
        inner = [accepts(d[1], x) for x in items]
        return False if False in inner else None if None in inner else True
    if k == "msg":
        return isinstance(v, d[1])
    if k == "generic":
        return generic(d[1], v)
    if k == "topic_type" or k == "component_type":
        return isinstance(v, type) and hasattr(v, "get_fields_and_field_types")
    if k == "service_type":
        return isinstance(v, type) and v is es.AddTwoInts
    if k == "action_type":
        return isinstance(v, type) and v is ea.Countdown
    return isinstance(v, str)


def generic(valid, v):
    """A dict with the entries of one of the valid types, whose element (if any) is again one."""
    if not isinstance(v, dict) or "type_identifier" not in v:
        return False
    for t in valid:
        if T[t]["type_identifier"] == v["type_identifier"]:
            if T[t].keys() != v.keys():
                return False
            return "element_type" not in v or generic(valid, v["element_type"])
    return False


def equal(d, a, b):
    """Read back equal: numbers by value, lists and dicts element-wise, dict keys as strings."""
    if d[0] in ("list", "dict"):
        if d[0] == "dict":
            a = {str(k): v for k, v in a.items()}
            return a.keys() == b.keys() and all(equal(d[1], a[k], b[k]) for k in a)
        return len(a) == len(b) and all(equal(d[1], x, y) for x, y in zip(a, b))
    if d[0] in ("bool", "str", "path", "bytes") and type(a) is not type(b):
        return False
    if d[0] == "float":
        return float(a) == float(b)  # integers are converted
    return bool(a == b)
