import random

from mc import leaf, standins, zoo
from mc.core import Violation
from mc.leaf import ERR, FAIL, RUNNING, SUCC, Fn

import example_interfaces.msg as em
from ros_bt_py.data_types import GENERIC_TYPE_MAP as G
from ros_bt_py.nodes import compare, constant, io, list as nlist, passthrough_node, random_number

TECHNIQUE = "explicit-state model checking: all value pairs and all short input histories against the relation named"
NOTE = ("Complete for the stated alphabets and lengths; the random source is enumerated bit by bit. 'Newly provided' means "
        "changed to a different value, as for every input.")
ID = "C41"

DOM = {
    "bool": (G[bool], [True, False]),
    "int": (G[int], [0, 1, -1, 2, 3, 2**31, 2**63 - 1, -(2**63)]),
    "float": (G[float], [0.0, 1.0, -1.5, 0.1, 0.30000000000000004, 0.3, 1e308, -1e-300]),
    "str": (G[str], ["", "a", "A", "aa", "b", "\u00e9", " a"]),
    "bytes": (G[bytes], [b"", b"a", b"b"]),
    "list[int]": (dict(G[list], element_type=G[int]), [[], [0], [1], [1, 2], [2, 1]]),
    "list[str]": (dict(G[list], element_type=G[str]), [[], [""], ["a"], ["a", "b"], ["b", "a"]]),
    "list[list]": (dict(G[list], element_type=dict(G[list], element_type=G[int])), [[], [[]], [[1]], [[1], []]]),
    "dict[int]": (dict(G[dict], element_type=G[int]), [{}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": 1, "b": 2}]),
}
SMALL = 3


def new(fn):
    return lambda: Fn(fn)


class NewOnly:
    def reset(self):
        pass

    untick = reset

    def tick(self, inputs, updated):
        if not updated & {"a", "b"}:
            return RUNNING, None
        return (SUCC if inputs["a"] == inputs["b"] else FAIL), None


def less(i):
    return (SUCC if i["b"] > i["a"] else FAIL), None


def inside(i):
    for x in i["list"]:
        if x == i["in"]:
            return SUCC, None
    return FAIL, None


def cases():
    """label -> (class, static inputs, dynamic domains, model)"""
    out = {}
    for t, (typ, dom) in DOM.items():
        ct = {"compare_type": typ}
        eq = new(lambda i: ((SUCC if i["a"] == i["b"] else FAIL), None))
        out[f"Compare:{t}"] = (compare.Compare, ct, {"a": dom, "b": dom}, eq)
        out[f"CompareNewOnly:{t}"] = (compare.CompareNewOnly, ct, {"a": dom, "b": dom}, NewOnly)
        out[f"Compare:{t}:static"] = (compare.Compare, dict(ct, b=dom[0]), {"a": dom}, eq)
        out[f"CompareNewOnly:{t}:static"] = (compare.CompareNewOnly, dict(ct, b=dom[0]), {"a": dom}, NewOnly)
        lists = [[], [dom[0]], [dom[1]], [dom[1], dom[0]], [dom[-1], dom[1]], [dom[-1]] * 3, list(dom)]
        out[f"IsInList:{t}"] = (nlist.IsInList, ct, {"list": lists, "in": dom}, new(inside))
        out[f"IsInList:{t}:static"] = (nlist.IsInList, dict(ct, list=[dom[0], dom[-1]]), {"in": dom}, new(inside))
        out[f"ListLength:{t}"] = (nlist.ListLength, {"element_type": typ}, {"list": lists},
                                  new(lambda i: (SUCC, {"length": sum(1 for _ in i["list"])})))
        same = new(lambda i: (SUCC, {"out": i["in"]}))
        out[f"Passthrough:{t}"] = (passthrough_node.PassthroughNode, {"passthrough_type": typ}, {"in": dom}, same)
        out[f"IOInput:{t}"] = (io.IOInput, {"io_type": typ}, {"in": dom}, same)
        out[f"IOOutput:{t}"] = (io.IOOutput, {"io_type": typ}, {"in": dom}, same)
        for n, v in enumerate(dom):
            out[f"Constant:{t}:{n}"] = (constant.Constant, {"constant_type": typ, "constant_value": v}, {},
                                        new(lambda i: (SUCC, {"constant": i["constant_value"]})))
    for t in ("int", "float"):
        typ, dom = DOM[t]
        out[f"ALessThanB:{t}"] = (compare.ALessThanB, {"operand_type": typ}, {"a": dom, "b": dom}, new(less))
        for n, v in enumerate(dom[:4]):
            out[f"ALessThanB:{t}:static{n}"] = (compare.ALessThanB, {"operand_type": typ, "b": v}, {"a": dom}, new(less))
    return out


RANDOM = [(0, 1), (0, 3), (-2, 2), (3, 4), (-5, -4), (0, 6), (2**63 - 3, 2**63 - 1), (-(2**63), -(2**63) + 2), (1, 1), (2, 1), (5, -5)]


def BOUNDS(tier):
    return (f"{len(cases())} configurations: every value pair of {len(DOM)} types (2-8 values, lists up to 8 elements); every "
            f"history of {3 if tier == 'thorough' else 2} ticks over all values and of {4 if tier == 'thorough' else 3} ticks over "
            f"2-{SMALL} values with untick and reset between; RandomInt: {len(RANDOM)} ranges x every outcome of the random bits")


def shards(tier):
    out = [[label] for label in cases()]
    return out + [["random", lo, hi] for lo, hi in RANDOM]


def weight(shard):
    return 3 if shard[0].startswith(("Compare", "IsIn")) else 1


def run(shard, ctx):
    if shard[0] == "random":
        return numbers(ctx, *shard[1:])
    cls, static, domains, model = cases()[shard[0]]
    one = len(domains) < 2
    ctx.explore(lambda ch: leaf.walk(ch, ctx, shard[0], cls, static, domains, model, ctx.pick(2, 3) if one else 2,
                                     keep=one), "wide")
    small = {k: v[:SMALL if ctx.thorough else 2] for k, v in domains.items()}
    ctx.explore(lambda ch: leaf.walk(ch, ctx, shard[0], cls, static, small, model, ctx.pick(4, 5) if one else 3,
                                     ("tick", "untick", "reset")), "long")


def numbers(ctx, lo, hi):
    seen = set()
    used = []

    def body(ch):
        rig = zoo.Rig(random_number.RandomInt, values={"min": lo, "max": hi})
        rig.node.setup().unwrap()
        saved = random._inst.getrandbits, random.getrandbits, random.random

        def bits(k):
            used.append(1)
            for _ in range(3):  # a rejected draw is repeated at most twice
                got = ch.choose(1 << k)
                return got

        tries = []

        def limited(k):
            got = bits(k)
            tries.append(got)
            return got if len(tries) < 3 else 0

        random._inst.getrandbits = limited
        random.getrandbits = limited
        random.random = random._inst.random = lambda: limited(3) / 8.0
        try:
            res = rig.node.tick()
        finally:
            del random._inst.getrandbits
            del random._inst.random
            random.getrandbits, random.random = saved[1:]
        value, updated = rig.outputs()["random_number"]
        ctx.step()
        ctx.outcome((lo, hi, value))
        if lo >= hi:
            if res.is_ok() and res.ok() == SUCC and value != lo or updated and not lo <= value <= hi:
                raise Violation(f"RandomInt({lo}, {hi}) gives {value} {res}")
            if lo > hi and res.is_ok() and res.ok() == SUCC:
                raise Violation(f"RandomInt({lo}, {hi}) succeeds with {value}")
            return None
        if res.is_err() or res.ok() != SUCC:
            raise Violation(f"RandomInt({lo}, {hi}) does not succeed", str(res))
        if type(value) is not int or not lo <= value <= hi:
            raise Violation(f"RandomInt({lo}, {hi}) gives {value!r}")
        seen.add(value)
        return value

    ctx.explore(body, "bits")
    if ctx.only is None and lo < hi and used and not ctx.violations and seen != set(range(lo, hi + 1)):
        ctx.fail(f"RandomInt({lo}, {hi}) never gives {sorted(set(range(lo, hi + 1)) - seen)}")
