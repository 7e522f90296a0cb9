"""C21: saving and loading trees."""

import ast
import glob
import os
import re

from mc import decl, editing, kinds_types, standins, treemgr as tm, zoo
from mc.checks import c22
from mc.core import Violation
from mc.treekit import Env, FAIL, RUNNING, SUCC

import ros_bt_py_interfaces.msg as bm
import ros_bt_py_interfaces.srv as bs
from ros_bt_py.node import Node
from ros_bt_py.package_manager import PackageManager

ID = "C21"
TECHNIQUE = ("exhaustive enumeration of bounded trees (one around every node class, option values of every data type, every tree one edit "
             "away from four others), each taken through a message and through a saved file, and all histories of the node "
             "operations in lockstep on the original and on the loaded node")
NOTE = ("A file is written by the real PackageManager; converting a message to YAML is a stand-in's work. Values that are "
        "unequal to themselves (NaN) and the character U+0085, which PyYAML loses, are left out.")

NAMES = ["", "x", "yes", "null", "~", "1e3", "0x10", "1_000", "2024-01-01", "12:30", "a: b", "# c", " x ", "x\ny", "x\n", "\ty", "'", '"', "\\", "ü",
         "\u2028", "\x7f", "😀", "- a", "[a]", "{a", "&a", "*a", "!a", "%a", "@a", "`a", "|", ">", "a" * 300, "?", "=", "<<", "a\r\nb", "\r"]
FREQUENCIES = [0.1, 1 / 3, 1.0, 9.5, 10.0, 100.0, 1e6, 1e-3, 1.7976931348623157e308]
ROOT = os.environ.get("VERIF_REPO", "/repo") + "/ros_bt_py/trees"


def BOUNDS(tier):
    return (f"{len(zoo.labels())} node configurations, {len(kinds_types.TYPES)} data types x their values, {len(NAMES)} names, {len(FREQUENCIES)} "
            f"frequencies, public data, all trees one edit away from 4 trees, the repository's own trees; histories of "
            f"{3 if tier == 'quick' else 4} operations for every node configuration")


def shards(tier):
    labels = zoo.labels()
    out = [["zoo", labels[i::4]] for i in range(4)] + [["types", i, 8] for i in range(8)] + [["names"], ["public"], ["repo", 0, 2], ["repo", 1, 2]]
    out += [["edited", s, i, 4] for s in editing.STARTS for i in range(4)]
    return out + [["behave", label] for label in labels]


def weight(shard):
    return 5 if shard[0] == "edited" else 1


def run(shard, ctx):
    kind = shard[0]
    if kind == "behave":
        behave(ctx, shard[1])
        return
    if kind == "edited":
        edited(ctx, *shard[1:])
        return
    for name, tree in {"zoo": zoo_trees, "types": typed_trees, "names": named_trees, "public": public_trees,
                       "repo": repo_trees}[kind](*shard[1:]):
        ctx.case(name, lambda: round_trip(ctx, name, tree))


# ---------------------------------------------------------------- trees


def zoo_trees(labels):
    for label in labels:
        yield label, c22.around(label)


def typed_trees(part, parts):
    for i in range(part, len(kinds_types.TYPES), parts):
        d = kinds_types.TYPES[i]
        values = [v for v in decl.values() + (NAMES if decl.accepts(d, "x") is True else []) if decl.accepts(d, v) is True and v == v]
        for j, v in enumerate(values):
            try:
                rig = zoo.Rig(kinds_types.CLASSES[i], {"s": v}, [{"d": values[0]}])
            except AssertionError:
                continue  # the declared type refuses it: another check's business
            yield f"{decl.name(d)} value {j} {v!r:.60}", bm.TreeStructure(nodes=[rig.node.to_structure_msg()], tick_frequency_hz=10.0)


def named_trees():
    for i, name in enumerate(NAMES):
        for what in ("tree", "node", "text"):
            tree = c22.message("small")
            if what == "tree":
                tree.name = name
            elif what == "node":
                tree.nodes[1].name = name
            else:
                rig = zoo.Rig(*_constant(name))
                tree.nodes = [rig.node.to_structure_msg()]
                tree.data_wirings = []
            yield f"{what} {name!r:.40}", tree
    for hz in FREQUENCIES:
        tree = c22.message("small")
        tree.tick_frequency_hz = hz
        yield f"{hz} Hz", tree
    for cap in (1, 2, 0):
        tree = c22.message("small")
        tree.nodes = tree.nodes[:1] + tree.nodes[1:][::-1]
        tree.nodes[0].child_ids = list(tree.nodes[0].child_ids)[:: -1 if cap else 1]
        yield f"order {cap}", tree


def _constant(text):
    from ros_bt_py.nodes.constant import Constant

    return Constant, {"constant_type": zoo.G[str], "constant_value": text}


def public_trees():
    base = c22.message("deep")
    ends = {side: [(n.node_id, io.key) for n in base.nodes for io in getattr(n, side)] for side in ("inputs", "outputs")}
    for side in ends:
        for a in ends[side]:
            for b in [None] + ends[side]:
                if a == b:
                    continue
                tree = c22.message("deep")
                setattr(tree, "public_" + side, [bm.NodeDataLocation(node_id=x, data_key=k) for x, k in ([a] if b is None else [a, b])])
                other = "inputs" if side == "outputs" else "outputs"
                if b is None:
                    for c in ends[other]:
                        setattr(tree, "public_" + other, [bm.NodeDataLocation(node_id=c[0], data_key=c[1])])
                        yield f"public {side} {_short(a)} {other} {_short(c)}", tree
                else:
                    yield f"public {side} {_short(a)} {_short(b)}", tree


def _short(end):
    return f"{end[0][-2:]}.{end[1]}"


def repo_trees(part, parts):
    for path in sorted(glob.glob(ROOT + "/*/*.yaml"))[part::parts]:
        run = tm.Run()
        res = run.call("load_tree", tree=bm.TreeStructure(path="file://" + path), permissive=False)
        if res.success:
            yield os.path.basename(path), run.m.structure_to_msg()


# ---------------------------------------------------------------- the round trip


def load(tree, what, ros=None):
    run = tm.Run()
    res = run.call("load_tree", tree=tree, permissive=False)
    if not res.success:
        raise Violation(f"cannot be loaded: {what}", res.error_message)
    return run


def picture(s):
    """What has to be preserved of a captured structure."""
    s = dict(s)
    del s["tree_id"], s["path"]
    below = {c for n in s["nodes"] for c in n[3]}
    if len([n for n in s["nodes"] if n[0] not in below]) != 1:
        s["root"] = None
    s["nodes"] = sorted(s["nodes"], key=repr)
    s["wirings"] = sorted(s["wirings"])
    for k in ("public_inputs", "public_outputs"):
        s[k] = sorted(s[k])
    return s


def asked(tree):
    """What has to be preserved of a message that is loaded."""
    s = picture(tm._structure(tree))
    if tree.tick_frequency_hz == 0.0:
        s["frequency"] = 10.0
    return s


def save(tree, what):
    folder = zoo.scratch()
    response = PackageManager([folder]).save_tree_to_path(
        bs.SaveTree.Request(storage_path=folder, filepath="round/trip.yaml", tree=tree, allow_overwrite=True), bs.SaveTree.Response())
    if not response.success:
        raise Violation(f"cannot be saved: {what}", response.error_message)
    with open(response.file_path) as f:
        return response.file_path, f.read()


def round_trip(ctx, name, tree):
    import copy

    ctx.step()
    first = load(copy.deepcopy(tree), f"the tree: {name}")
    before = picture(first.structure)
    same(asked(tree), before, f"loading changes the tree: {name}", named=True)
    published = copy.deepcopy(first.m.structure_to_msg())
    through = load(copy.deepcopy(published), f"what was published: {name}")
    same(before, picture(through.structure), f"passing on the published tree changes it: {name}")
    path, text = save(copy.deepcopy(published), name)
    third = load(bm.TreeStructure(path="file://" + path), f"the saved file: {name}")
    same(before, picture(third.structure), f"saving and loading changes the tree: {name}")
    _, again = save(copy.deepcopy(third.m.structure_to_msg()), name)
    ctx.state(text)
    a, b = (sorted(l for l in t.splitlines() if not l.strip().startswith(("tree_id", "tree_ref"))) for t in (text, again))
    if a != b:
        raise Violation(f"saving the loaded tree gives another file: {name}", repr([x for x in zip(a, b) if x[0] != x[1]][:3]))
    return first, through, third


def same(a, b, key, named=False):
    if named:
        # a node without a name gets one
        a["nodes"] = [n if n[1] else (n[0], None) + n[2:] for n in a["nodes"]]
        blank = {n[0] for n in a["nodes"] if n[1] is None}
        b = dict(b, nodes=[(n[0], None) + n[2:] if n[0] in blank else n for n in b["nodes"]])
        if a["root"] is None or a["root"] not in [n[0] for n in a["nodes"]]:
            a["root"] = b["root"]
        a["nodes"], b["nodes"] = (sorted(x["nodes"], key=repr) for x in (a, b))
        # limits of floating point types may be declared as integers
        a, b = (ast.literal_eval(re.sub(r"'(-?\d+)\.0'", r"'\1'", repr(x))) for x in (a, b))
    if a != b:
        raise Violation(key, "\n".join(f"{k}: {a[k]}\n   {b[k]}" for k in a if a[k] != b[k]))


# ---------------------------------------------------------------- trees from edits, executed side by side


def edited(ctx, start, part, parts):
    if ctx.only is not None:
        start, r = ast.literal_eval(ctx.only[1][0])
        ctx.case(ctx.only[1][0], lambda: _edited(ctx, start, r))
        return
    for r in editing.requests(editing.STARTS[start])[part::parts]:
        if ctx.stop:
            return
        ctx.case(repr((start, r)), lambda: _edited(ctx, start, r))


def _edited(ctx, start, r):
    run, model = editing.build(start, ())
    res = tm.send(run, model, r)
    if not res.success or not run.m.nodes:
        return
    name = repr((start, r))
    runs = round_trip(ctx, name, run.m.structure_to_msg())
    seen = []
    for one in runs:
        out = []
        for command in (1, 1, 5, 1, 6):
            res = one.control(command)
            out.append((command, res.success, one.state[1:] if one.state else None,
                        sorted(((w[0], w[1], w[2]) for w in one.data[1])) if one.data else None))
        seen.append(out)
    for way, out in zip(("published", "saved"), seen[1:]):
        if out != seen[0]:
            raise Violation(f"the {way} tree behaves differently: {name}", f"\n{seen[0]}\n{out}")


# ---------------------------------------------------------------- nodes in lockstep


def loaded(label, original, env):
    """The rig of a node that went through a file."""
    cls, args = zoo.table()[label]
    msg = original.node.to_structure_msg()
    msg.child_ids = []
    path, _ = save(bm.TreeStructure(nodes=[msg], tick_frequency_hz=10.0), label)
    run = load(bm.TreeStructure(path="file://" + path), label)
    node = Node.from_msg(run.m.structure_to_msg().nodes[0], run.ros)
    if node.is_err():
        raise Violation(f"cannot be made again from what was published: {label}", repr(node))
    node = node.unwrap()
    return zoo.Rig(cls, env=env, node=node, ros=run.ros, **args)


def behave(ctx, label):
    depth = 4 if ctx.thorough else 3

    def body(ch):
        rigs = [zoo.make(label, env=Env(None))]
        answers = []

        def answer(node, op):
            if op == "tick":
                if len(answers) == env_at[0]:
                    answers.append(ch.choose((SUCC, FAIL, RUNNING)))
                env_at[0] += 1
                return answers[env_at[0] - 1]

        env_at = [0]
        rigs.append(loaded(label, rigs[0], Env(None)))
        for rig in rigs:
            rig.env.answer = answer
        trace = []
        sides = [[], []]

        def both(op, fn):
            trace.append(op)
            start = env_at[0]
            for side, rig in zip(sides, rigs):
                env_at[0] = start
                res = fn(rig)
                side.append((res, rig.node.state, None if label == "RandomInt" else rig.outputs(), rig.effects(), rig.env.take()))
            ctx.step()
            if sides[0][-1] != sides[1][-1]:
                raise Violation(f"{label} behaves differently once loaded: {trace}", f"\noriginal {sides[0][-1]}\nloaded   {sides[1][-1]}")

        both("setup", lambda rig: _result(rig.node.setup))
        ops = [("tick", i) for i in range(len(rigs[0].dynamic))] + ["untick", "reset"] + [("event", e) for e in rigs[0].events]
        for _ in range(depth):
            op = ch.choose(ops)
            if op[0] == "tick":
                both(op, lambda rig: _tick(rig, op[1]))
            elif op[0] == "event":
                both(op, lambda rig: rig.events[op[1]]() and None)
            else:
                both(op, lambda rig: _result(getattr(rig.node, op)))
        both("shutdown", lambda rig: _result(rig.node.shutdown))

    ctx.explore(body, label)


def _tick(rig, i):
    try:
        rig.provide(i)
    except AssertionError as ex:
        return repr(ex)
    return _result(rig.node.tick)


def _result(fn):
    try:
        res = fn()
    except Exception as ex:
        return type(ex).__name__
    return ("err",) if res.is_err() else res.unwrap()
