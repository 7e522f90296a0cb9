import copy

from mc import leaf, standins, zoo
from mc.leaf import BAD, FAIL, RUNNING, SUCC, Fn

import example_interfaces.msg as em
from ros_bt_py.data_types import GENERIC_TYPE_MAP as G
from ros_bt_py.nodes import getters, list as nlist, setters

TECHNIQUE = "explicit-state model checking: all objects x places x values and all short histories against an element-wise model"
NOTE = ("Complete for the stated alphabets and lengths. Inserting beyond the end of a list is taken to append; an element that does "
        "not fit the declared type makes the node fail or report an error.")
ID = "C43"

LI = dict(G[list], element_type=G[int])
DI = dict(G[dict], element_type=G[int])
ROS = dict(G[object], interface_id="") if "interface_id" in G[object] else G[object]
MSGKEY = [k for k in G[object] if k != "type_identifier"][0]


def ros(name):
    return dict(G[object], **{MSGKEY: name})


LISTS = {
    "int": (G[int], [[], [4], [4, 5], [5, 4, 4, 0]], [9, 4, 0]),
    "str": (G[str], [[], ["a"], ["", "b"], ["b", "a", "a"]], ["x", ""]),
    "list": (LI, [[], [[]], [[1], [2, 3]], [[2], [], [1]]], [[7], []]),
    "dict": (DI, [[], [{"a": 1}], [{}, {"b": 2}]], [{"c": 3}]),
}
DICTS = {
    "int": (G[int], [{}, {"a": 1}, {"b": 2, "a": 3}, {"": 5, "a": 0}], [9, 0]),
    "list": (LI, [{}, {"a": [1]}, {"b": [], "a": [2]}], [[7]]),
}
NESTED = [em.Nested(), em.Nested(inner=em.Int32List(values=[1, 2], label="x"), flag=True, ratio=0.5, names=["a", "b"]),
          em.Nested(inner=em.Int32List(values=[], label="y"))]
FIELDS = {"flag": "bool", "ratio": "float", "names": "list[str]", "inner": "Int32List", "inner.label": "str", "inner.values": "list[int]"}
WRONG = ["nothing", "inner.nothing", "flag.x", "", "inner.", ".label", "inner..label"]
ATYPES = {"bool": G[bool], "float": G[float], "str": G[str], "list[int]": LI, "list[str]": dict(G[list], element_type=G[str]),
          "Int32List": ros("example_interfaces/msg/Int32List"), "int": G[int]}
AVALUES = {"bool": [True, False], "float": [0.25, -1.0], "str": ["new", ""], "list[int]": [[], [5, 6]],
           "list[str]": [[], ["q"]], "Int32List": [em.Int32List(label="n"), em.Int32List(values=[3])], "int": [1, 7]}


def attribute(obj, path):
    """The addressed field, written out from the message definition; KeyError if there is none."""
    for part in path.split("."):
        if not hasattr(type(obj), "get_fields_and_field_types") or part not in type(obj).get_fields_and_field_types():
            raise KeyError(path)
        obj = getattr(obj, part)
    return obj


class Getter:
    """read(inputs) -> value, or KeyError; fits(value, inputs)."""

    def __init__(self, out, read, on, stale, fits=lambda v, i: True):
        self.out, self.read, self.on, self.stale, self.fits = out, read, set(on), stale, fits

    def reset(self):
        pass

    untick = reset

    def own(self, inputs, updated):
        try:
            value = self.read(inputs)
        except (KeyError, IndexError):
            return FAIL, None
        if not (updated & self.on or self.stale):
            return RUNNING, None
        return (SUCC, {self.out: value}) if self.fits(value, inputs) else (BAD, None)

    def tick(self, inputs, updated, answers=None):
        if answers is None:
            return self.own(inputs, updated)

        def later():
            got = answers()
            if len(got) != 1:
                return f"ticks its child {len(got)} times", None
            return (got[0], None) if got[0] != SUCC else self.own(inputs, updated)

        return later


class Iterate:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pos, self.fresh = 0, True

    def untick(self):
        pass

    def tick(self, inputs, updated, answers=None):
        items = inputs["list"]
        if "list" in updated:
            self.reset()
        if not items:
            return (SUCC, None) if answers is None else lambda: (SUCC if not answers() else "ticks its child", None)
        value = {"list_item": items[self.pos]}
        self.item = items[self.pos]
        if answers is None:
            self.pos += 1
            if self.pos == len(items):
                self.reset()
                return SUCC, value
            return RUNNING, value
        if self.fresh:
            self.fresh = False
            return lambda: (RUNNING if not answers() else "ticks its child too early", value)

        def later():
            got = answers()
            if len(got) != 1:
                return f"ticks its child {len(got)} times", None
            if got[0] == SUCC:
                self.pos, self.fresh = self.pos + 1, True
                if self.pos == len(items):
                    self.reset()
                    return SUCC, value
                return RUNNING, value
            return got[0], value

        return later


def on_child(bad, rig, mod):
    shown = leaf.outputs(rig.node)["list_item"][0]
    if not leaf.same(shown, mod.item):
        bad(f"child is ticked while {shown!r} is presented", f"expected {mod.item!r}")


def type_of(obj):
    return {bool: "bool", float: "float", str: "str", int: "int"}.get(type(obj)) or type(obj).__name__


def attr_fits(atype):
    def fits(value, inputs):
        kind = FIELDS[inputs["attr_name"]]
        return kind == atype or (not value and kind.startswith("list") and atype.startswith("list"))

    return fits


def put_attr(i):
    obj = copy.deepcopy(i["object"])
    path = i["attr_name"].split(".")
    try:
        target = attribute(obj, ".".join(path[:-1])) if len(path) > 1 else obj
        attribute(target, path[-1])
        setattr(target, path[-1], copy.deepcopy(i["attr_value"]))
    except (KeyError, AssertionError):
        return FAIL, None
    return SUCC, {"new_object": obj}


def insert(i):
    li, n = list(i["list"]), i["index"]
    return SUCC, {"list": li[:n] + [i["element"]] + li[n:]}


def put_item(i):
    new = dict(i["object"])
    new[i["attr_name"]] = i["attr_value"]
    return SUCC, {"new_object": new}


def cases():
    """label -> (class, static, domains, model, kids)"""
    out = {}

    def both(label, cls, static, domains, make):
        for stale in (False, True):
            for kids in (0, 1):
                out[f"{label}:{'stale' if stale else 'new'}:{kids}"] = (
                    cls, dict(static, succeed_on_stale_data=stale), domains, lambda stale=stale: make(stale), kids)

    for t, (typ, lists, items) in LISTS.items():
        both(f"GetListItem:{t}", getters.GetListItem, {"list_type": typ}, {"list": lists, "index": [0, 1, 3]},
             lambda stale: Getter("item", lambda i: i["list"][i["index"]], ("list", "index"), stale))
        out[f"AppendListItem:{t}"] = (setters.AppendListItem, {"list_type": typ}, {"list": lists, "value": items},
                                      lambda: Fn(lambda i: (SUCC, {"new_list": list(i["list"]) + [i["value"]]})), 0)
        out[f"InsertInList:{t}"] = (nlist.InsertInList, {"element_type": typ}, {"list": lists, "index": [0, 1, 2, 5], "element": items},
                                    lambda: Fn(insert), 0)
        for kids in (0, 1):
            out[f"IterateList:{t}:{kids}"] = (nlist.IterateList, {"item_type": typ}, {"list": lists}, Iterate, kids)
    for t, (typ, dicts, items) in DICTS.items():
        both(f"GetDictItem:{t}", getters.GetDictItem, {"value_type": typ}, {"dict": dicts, "key": ["a", "b", ""]},
             lambda stale: Getter("value", lambda i: i["dict"][i["key"]], ("dict", "key"), stale))
        both(f"GetMultipleDictItems:{t}", getters.GetMultipleDictItems, {"value_type": typ},
             {"dict": dicts, "keys": [[], ["a"], ["a", "a"], ["b", "a"], ["c"]]},
             lambda stale: Getter("values", lambda i: [i["dict"][k] for k in i["keys"]], ("dict", "keys"), stale))
        out[f"SetDictItem:{t}"] = (setters.SetDictItem, {"attr_type": typ}, {"object": dicts, "attr_name": ["a", "b", ""], "attr_value": items},
                                   lambda: Fn(put_item), 0)
    for atype, typ in ATYPES.items():
        names = [f for f, t in FIELDS.items() if t == atype] + ["flag", "inner.label"] + WRONG[:ctx_wrong]
        if atype not in ("bool", "Int32List"):  # left to the run-time type checks
            names = [n for n in names if n in FIELDS and FIELDS[n] == atype or n in WRONG]
        names = list(dict.fromkeys(names))
        both(f"GetAttr:{atype}", getters.GetAttr, {"object_type": em.Nested, "attr_type": typ}, {"object": NESTED, "attr_name": names},
             lambda stale, atype=atype: Getter("attr", lambda i: attribute(i["object"], i["attr_name"]), ("object", "attr_name"), stale,
                                               attr_fits(atype)))
        out[f"SetAttr:{atype}"] = (setters.SetAttr, {"object_type": em.Nested, "attr_type": typ},
                                   {"object": NESTED, "attr_name": names, "attr_value": AVALUES[atype]}, lambda: Fn(put_attr), 0)
    return out


ctx_wrong = len(WRONG)


def BOUNDS(tier):
    return (f"{len(cases())} configurations of the getter, setter and list leaves (with and without child, succeed_on_stale_data on "
            f"and off): every combination of 3-4 objects, up to 10 places and 1-3 values for one tick; every history of "
            f"{3 if tier == 'thorough' else 2} ticks over two of each (lists to be iterated: {7 if tier == 'thorough' else 6} ticks, "
            "every child result) with untick and reset between")


def shards(tier):
    return [[label] for label in cases()]


def run(shard, ctx):
    label = shard[0]
    cls, static, domains, model, kids = cases()[label]

    def go(doms, depth, tag, ops, **kw):
        ctx.explore(lambda ch: leaf.walk(ch, ctx, label, cls, static, doms, model, depth, ops, kids, **kw), tag)

    if cls is nlist.IterateList:
        go(domains, ctx.pick(3, 4), "wide", ("tick",), on_child=on_child, answers=(SUCC, FAIL) if kids else ())
        go({"list": domains["list"][2:3]}, 4, "ops", ("tick", "untick", "reset"), on_child=on_child)
        go({"list": domains["list"][-1:]}, ctx.pick(6, 7), "long", ("tick",), on_child=on_child)
        return
    go(domains, 1, "wide", ("tick",))
    few = {k: v[-2:] if k in ("list", "dict", "object") else v[:2] for k, v in domains.items()}
    if "attr_name" in few and cls in (getters.GetAttr, setters.SetAttr):
        few["attr_name"] = [domains["attr_name"][0], "nothing"]
        few["object"] = domains["object"][:2]
    go(few, 2 if len(few) > 2 and not ctx.thorough else ctx.pick(2, 3), "long", ("tick", "untick", "reset"))
    if len(few) == 2 and kids and not ctx.thorough:
        go({k: v[:1] for k, v in few.items()}, 3, "three", ("tick", "reset"), keep=False)
    elif len(few) == 2:
        one = {k: v[:1] if k not in ("index", "key", "keys", "attr_name") else v for k, v in few.items()}
        go(one, 3, "three", ("tick", "reset"))
