import copy
import json

from mc import decl, standins
from mc.core import Violation

import example_interfaces.msg as em
from ros_bt_py import data_types as dt
from typeguard import TypeCheckError

TECHNIQUE = "explicit-state model checking: every type x accepted value x second value, and every type x malformed text"
NOTE = "Complete for the stated types and values. Not judged: NaN, and what a message with missing fields is read as."
ID = "C14"


def BOUNDS(tier):
    return ("all container types of the alphabet nested up to depth 2 and references to them x all accepted values of a mixed "
            "alphabet written over each other (round trip) x about 250 texts, among them the serialised form of every value "
            "of every other type")


REFS = [dt.GENERIC_TYPE_MAP[int], dt.GENERIC_TYPE_MAP[str], dict(dt.GENERIC_TYPE_MAP[list],
                                                               element_type=dt.GENERIC_TYPE_MAP[int]), em.Int32List]
REF_DECL = [("int", *decl.I64), ("str", decl.BIG, None), ("list", ("int", *decl.I64), None, False), ("msg", em.Int32List)]


def decls():
    out = [(d, None) for d in decl.nested(2) + decl.TYPES]
    for i, d in enumerate(REF_DECL):
        out += [(d, ("ReferenceType", i)), (("list", d, None, False), ("ReferenceListType", i)),
                (("dict", d, None, False), ("ReferenceDictType", i))]
    return out


def make(entry, **kw):
    d, ref = entry
    if ref is None:
        return decl.build(d, **kw)
    t = dt.RosTopicType() if ref[1] == 3 else dt.GenericType()
    t.set_value(REFS[ref[1]]).unwrap()
    c = getattr(dt, ref[0])(reference="t", **kw)
    c.set_type_map({"t": t}).unwrap()
    return c


def shards(tier):
    return [["type", i] for i in range(len(decls()))]


def texts():
    out = ["", " ", "null", "{", "}", "[", "nonsense", "'a'", "NaN", "Infinity", "1e999", "[1,]", "{1: 2}", '{"a"}', "\x00", "true false",
           '"\\ud800"', "[" * 3000, "-", "0x10", "1.5", "1.0", "-0", '"zz"', '"0"', '"00"', '"0000"', '{"values": "x"}',
           '{"values": [99999999999]}', '{"values": [1], "label": 3}', '{"values": null}', '{"nofield": 1}', '{"inner": 3}',
           '{"inner": {"values": {}}}', '{"names": ["a","b","c","d"]}', '{"flag": 1}', '"example_interfaces/msg/Nothing"',
           '"no_package/msg/X"', '"x"', '"a/b"', '"example_interfaces/msg/Int64"', '"example_interfaces/srv/AddTwoInts"',
           '{"type_identifier": 2}', '{"type_identifier": 2, "min_value": "x", "max_value": "3"}', '{"type_identifier": "2"}',
           '{"type_identifier": 5, "element_type": 3}', '{"type_identifier": null}', '{"min_value": "3"}']
    for v in decl.values():
        try:
            out.append(json.dumps(v))
        except (TypeError, OverflowError):
            pass
    for d in decl.FLAT + decl.TYPES:
        for v in decl.values():
            if decl.accepts(d, v):
                c = decl.build(d)
                if attempt(c, v):
                    try:
                        out.append(c.serialize_value())
                    except Exception:
                        pass  # reported by the round trip
    return list(dict.fromkeys(out))


def attempt(c, v):
    try:
        return c.set_value(copy.deepcopy(v)).is_ok()
    except TypeCheckError:
        return False


def run(shard, ctx):
    entry = decls()[shard[1]]
    d, ref = entry
    label = decl.name(d) + (f" by {ref[0]}" if ref else "")
    kinds = [True] if d[0] == "generic" or d[0].endswith("_type") else [False, True]
    good = [v for v in decl.values() if decl.accepts(d, v)]
    for is_static in kinds:
        def round_trip(ch):
            a, b = make(entry, is_static=is_static), make(entry, is_static=is_static)
            v, w = ch.choose(good), good[-1 - ch.choose(min(4, len(good)))]
            key = f"{label}: {decl.name_(v)!r}"[:300]
            if not is_static and b.set_value(copy.deepcopy(w)).is_err():
                raise Violation("refused " + key)
            b.reset_updated()
            if a.set_value(copy.deepcopy(v)).is_err():
                raise Violation("refused " + key)
            text = a.serialize_value()
            res = b.deserialize_value(text)
            if res.is_err():
                raise Violation("cannot be read back: " + key, f"{text} {res}")
            now = b.get_value().ok()
            if now is None or not decl.equal(d, v, now):
                raise Violation("read back differently: " + key, f"{text} {now!r}")
            if b.serialize_value() != text and not isinstance(v, (int, float)):
                raise Violation("serialises differently after reading: " + key, f"{text} {b.serialize_value()}")
            ctx.step(3)
            ctx.state((label, text))
            ctx.outcome((label, is_static, repr(v)))
            return key

        if good:
            ctx.explore(round_trip, tag=f"round {is_static}")
        every = texts()
        starts = [None] + good[:1] + good[-1:]

        def malformed(ch):
            text, start = ch.choose(every), starts[ch.choose(1 if is_static else len(starts))]
            c = make(entry, is_static=is_static)
            if start is not None:
                c.set_value(copy.deepcopy(start)).unwrap()
            c.reset_updated()
            before = (repr(c.get_value().ok()), c.is_updated())
            key = f"{label}: {text[:80]!r}"
            try:
                res = c.deserialize_value(text)
            except Exception as ex:
                raise Violation("exception escapes: " + key, repr(ex))
            after = (repr(c.get_value().ok()), c.is_updated())
            if res.is_err():
                if before != after:
                    raise Violation("changed by a refused text: " + key, f"{before} {after}")
            else:
                now = c.get_value().ok()
                if decl.accepts(d, now) is False:
                    raise Violation("accepted text holds a value outside the type: " + key, repr(now))
                try:
                    json.loads(text)
                except ValueError:
                    raise Violation("accepted what is not JSON: " + key, repr(now))
            ctx.step()
            ctx.outcome((label, text, res.is_ok()))
            return key

        ctx.explore(malformed, tag=f"malformed {is_static}")
