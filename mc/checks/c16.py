"""C16: wiring and unwiring data."""

import itertools

from mc import decl, kinds_types, treemgr as tm
from mc.core import Violation
from mc.zoo import Rig

import ros_bt_py_interfaces.msg as bm

ID = "C16"
TECHNIQUE = ("explicit-state exploration of all wire and unwire request sequences on the real tree manager against a set model, "
             "and enumeration of all single wirings between nodes of every pair of data types")
NOTE = ("Between different types, an accepted wiring is judged by the values the source may hold; refusing a pair of "
        "different but compatible types is C13's matter.")

START = tm.Model([("0", "Flow", "0", ["1", "2", "3", "4"]), ("1", "Src", "int", []), ("2", "Src", "str", []),
                  ("3", "Mid", "0", []), ("4", "Snk", "0", [])])
GOOD = [("1", "o", "3", "a"), ("1", "n", "4", "a"), ("3", "b", "4", "a"), ("2", "o", "4", "t"), ("2", "n", "3", "a")]
BAD = [("2", "o", "4", "a"), ("1", "o", "4", "t"), ("1", "n", "4", "s"), ("1", "zz", "4", "a"), ("1", "n", "4", "zz"),
       ("?", "n", "4", "a"), ("1", "n", "?", "a"), ("!", "n", "4", "a"), ("1", "n", "!", "a"), ("1", "kind", "4", "a"),
       ("4", "a", "3", "a"), ("1", "n", "0", "x")]
PAIRS = 13


def BOUNDS(tier):
    return (f"{len(kinds_types.TYPES)}^2 pairs of data types x (dynamic, static target); all sequences of "
            f"{2 if tier == 'quick' else 3} requests of up to 2 wirings out of {len(GOOD) + len(BAD)}")


def shards(tier):
    n = len(kinds_types.TYPES)
    return [["types", i] for i in range(n)] + [["seq", i] for i in range(16 if tier == "quick" else 64)]


def requests():
    out = []
    for kind in ("wire", "unwire"):
        for lenient in (False, True):
            out.append((kind, (), lenient))
            out += [(kind, (w,), lenient) for w in GOOD + BAD]
            out += [(kind, p, lenient) for p in itertools.product(GOOD + BAD[:7], repeat=2)]
    return out


def run(shard, ctx):
    if shard[0] == "types":
        for j in range(len(kinds_types.TYPES)):
            ctx.case(f"{shard[1]} {j}", lambda: pair(ctx, shard[1], j))
        return
    sequences(ctx, shard[1], 16 if not ctx.thorough else 64)


# ---------------------------------------------------------------- types

_msgs = {}


def node_msg(i, node_id):
    if i not in _msgs:
        d = kinds_types.TYPES[i]
        value = next(v for v in decl.values() if decl.accepts(d, v) is True)
        _msgs[i] = Rig(kinds_types.CLASSES[i], {"s": value}, [{"d": value}]).node.to_structure_msg()
    m = _msgs[i]
    return bm.NodeStructure(module=m.module, node_class=m.node_class, name="n", node_id=node_id, child_ids=[],
                            max_children=0, inputs=m.inputs, outputs=m.outputs, tree_ref="")


def pair(ctx, i, j):
    s, d = kinds_types.TYPES[i], kinds_types.TYPES[j]
    run = tm.Run()
    a, b = "00000000-0000-0000-0000-00000000000a", "00000000-0000-0000-0000-00000000000b"
    res = run.call("load_tree", tree=bm.TreeStructure(nodes=[node_msg(i, a), node_msg(j, b)], tick_frequency_hz=10.0))
    if not res.success:
        raise Violation(f"a tree of two nodes cannot be loaded: {decl.name(s)} {decl.name(d)}", res.error_message)
    for key in ("s", "d"):
        res = run.call("wire_data", wirings=[tm.wiring(a, "o", b, key)], ignore_failure=False)
        ctx.step()
        where = f"{decl.name(s)} -> {'static' if key == 's' else 'dynamic'} {decl.name(d)}"
        got = run.structure["wirings"]
        ctx.outcome((res.success, key))
        if got != ([(a, "o", b, key)] if res.success else []):
            raise Violation(f"answer and wirings disagree: {where}", f"{res} {got}")
        if key == "s" and res.success:
            raise Violation(f"static input wired: {where}")
        if key == "d" and i == j and not res.success:
            raise Violation(f"equal types refused: {where}", res.error_message)
        if key == "d" and res.success and s[0] != d[0]:
            raise Violation(f"different types wired: {where}")
        if key == "d" and res.success:
            for v in decl.values():
                if decl.accepts(s, v) is True and decl.accepts(d, v) is False:
                    raise Violation(f"wired, though the target does not take every value: {where}", repr(v))
    ctx.state((i, j))


# ---------------------------------------------------------------- sequences

def sequences(ctx, part, parts):
    import ast

    if ctx.only is not None:
        path, r = ast.literal_eval(ctx.only[1][0])
        ctx.case(ctx.only[1][0], lambda: one(ctx, path, r))
        return
    depth = 3 if ctx.thorough else 2
    frontier, seen = [()], set()
    alphabet = requests()
    for level in range(depth):
        nxt = []
        for path in frontier:
            run, model = build(path)
            for r in alphabet[part::parts] if level == 0 else alphabet:
                if ctx.stop:
                    return
                out = {}
                ctx.step()
                ctx.case(repr((path, r)), lambda: out.update(m=judge(ctx, run, model, r)))
                m = out.get("m")
                if m is None or m.wires != model.wires:
                    if m is not None:
                        key = frozenset(m.wires)
                        ctx.state(key)
                        if key not in seen:
                            seen.add(key)
                            nxt.append(path + (r,))
                    run, model = build(path)
        frontier = nxt


def build(path):
    run, model = tm.Run(), START.copy()
    tm.load(run, model)
    for r in path:
        tm.send(run, model, r)
        model = model.apply(r) or model
    return run, model


def one(ctx, path, r):
    run, model = build(path)
    judge(ctx, run, model, r)


def judge(ctx, run, model, r):
    want = model.apply(r)
    res = tm.send(run, model, r)
    where = f"{r} with {sorted(model.wires)}"
    ctx.outcome((r[0], r[2], len(r[1]), res.success))
    if res.success and want is None:
        raise Violation(f"accepted: {where}", repr(run.shown()[1]))
    if not res.success and want is not None:
        raise Violation(f"refused: {where}", res.error_message)
    after = want if want is not None else model
    if run.shown()[:3] != after.shown():
        raise Violation(f"other wirings than asked for: {where}", f"{run.shown()[1]} want {after.shown()[1]}")
    return after
