"""C51: taking a part out of the loaded tree (GetSubtree, GenerateSubtree)."""

import ast
import itertools

from mc import editing, treemgr as tm
from mc.core import Violation

ID = "C51"
TECHNIQUE = ("exhaustive enumeration of loaded trees, wirings, editing and execution histories and requested nodes, executed on the "
             "real tree manager, each answer compared with an independent cut of the reference tree and loaded into a second manager")
NOTE = ("Which ancestors a generated subtree contains beyond the requested nodes is free; a request whose nodes and their parents do "
        "not form one tree may be refused. Names of the answered trees are not judged.")
LEAVES = ("Src", "Snk", "Mid")


def BOUNDS(tier):
    return (f"all ordered trees of up to {5 if tier == 'quick' else 6} nodes with every choice of leaf classes and every set of up to "
            f"{2 if tier == 'quick' else 3} wirings (every node as subtree; every set of nodes as request for the trees of up to 4 "
            "nodes, every set of at most 2 beyond), fresh, after a tick and after a shutdown; and from 4 trees (0 to 7 nodes) after "
            f"every {'single request' if tier == 'quick' else 'sequence of two requests'} of the editing alphabet")


def shapes(n):
    """All ordered trees of n nodes in preorder, as parent tuples."""
    if n == 1:
        return [(None,)]
    out = []
    for s in shapes(n - 1):
        x = n - 2  # the new last node hangs below a node of the rightmost path
        while x is not None:
            out.append(s + (x,))
            x = s[x]
    return out


def built(shape, leaves):
    kids = [[str(i) for i, p in enumerate(shape) if p == k] for k in range(len(shape))]
    leaves = iter(leaves)
    spec = []
    for i, k in enumerate(kids):
        if k:
            cls = {1: "Deco", 2: "Pair"}.get(len(k), "Flow") if i % 2 else "Flow"
        else:
            cls = next(leaves)
        spec.append((str(i), cls, tm.DEFAULT[cls], k))
    return spec


def wirings(spec, most):
    sources = [(x, k, "int") for x, c, _, _ in spec for k in tm.OUT.get(c, ())]
    sinks = [(x, k) for x, c, _, _ in spec for k, t in tm.IN.get(c, {}).items() if t == "int"]
    pairs = [(a, b, c, d) for a, b, _ in sources for c, d in sinks if a != c]
    for n in range(most + 1):
        for ws in itertools.combinations(pairs, n):
            if len({w[2:] for w in ws}) == n:
                yield ws


def shards(tier):
    out = [["trees", n, i, len(shapes(n))] for n in range(1, (6 if tier == "quick" else 7)) for i in range(len(shapes(n)))]
    if tier != "quick":
        out = [s + [k] for s in out for k in range(4 if s[1] == 6 else 1)]
    parts = {"empty": 1, "wide": 6, "deep": 6, "forest": 8}
    if tier != "quick":
        parts = {k: 8 * v for k, v in parts.items()}
    return out + [["edit", start, i, n] for start, n in parts.items() for i in range(n)]


def weight(shard):
    return shard[1] if shard[0] == "trees" else 6


# ---------------------------------------------------------------- judging

def cut(model, labels):
    """What is left of the tree when only these nodes stay."""
    new = tm.Model()
    for k, v in model.nodes.items():
        if k in labels:
            new.nodes[k] = v[:3] + [v[3] if v[3] in labels else None, [c for c in v[4] if c in labels]]
    new.wires = {w for w in model.wires if w[0] in labels and w[2] in labels}
    return new


def loadable(run, tree, want, where):
    other = tm.Run()
    other.ids = run.ids
    res = other.call("load_tree", tree=tree, permissive=False)
    if not res.success:
        raise Violation(f"the answer cannot be loaded: {where}", res.error_message)
    if other.shown()[:2] != want.shown()[:2]:
        raise Violation(f"the answer loads as another tree: {where}", f"\nloaded {other.shown()[:2]}\nwant   {want.shown()[:2]}")


def subtree(ctx, run, model, x, where, load):
    where = f"subtree {x} of {where}"
    res = run.call("get_subtree", root_id=run.id(x))
    if x not in model.nodes:
        if res.success:
            raise Violation(f"a subtree of a node that is not there: {where}", repr(res))
        return
    if not res.success:
        raise Violation(f"refused: {where}", res.error_message)
    inside = set(model.under(x))
    want = cut(model, inside)
    msg = tm._structure(res.subtree)
    got = run.canonical(msg)
    if got[0] != want.shown()[0] or got[6] != x:
        raise Violation(f"other nodes than those below: {where}", f"\ngot  {got}\nwant {want.shown()}")
    if got[1] != want.shown()[1]:
        raise Violation(f"other wirings than those inside: {where}", f"\ngot  {got[1]}\nwant {want.shown()[1]}")
    ins = tuple(sorted(w[2:] for w in model.wires if w[2] in inside and w[0] not in inside))
    outs = tuple(sorted({w[:2] for w in model.wires if w[0] in inside and w[2] not in inside}))
    if got[3] != ins or got[4] != outs:
        raise Violation(f"public data is not what is wired to the outside: {where}", f"{got[3]} {got[4]}, want {ins} {outs}")
    ctx.outcome(("subtree", len(inside), len(want.wires), len(ins), len(outs)))
    if load:
        loadable(run, res.subtree, want, where)


def generate(ctx, run, model, xs, where, load):
    where = f"tree of {','.join(xs)} from {where}"
    res = run.call("generate_subtree", node_ids=[run.id(x) for x in xs])
    asked = {x for x in xs if x in model.nodes}
    least = asked | {model.nodes[x][3] for x in asked if model.nodes[x][3] is not None}
    ctx.outcome(("generate", len(asked), res.success))
    if not res.success:
        if asked and len(model.roots()) == 1 and len(cut(model, least).roots()) == 1:
            raise Violation(f"refused: {where}", res.error_message)
        return
    got = run.canonical(tm._structure(res.tree))
    kept = {n[0] for n in got[0]}
    most = set(asked)
    for x in asked:
        p = model.nodes[x][3]
        while p is not None:
            most.add(p)
            p = model.nodes[p][3]
    if not asked <= kept:
        raise Violation(f"a requested node is missing: {where}", repr(sorted(kept)))
    if not kept <= most:
        raise Violation(f"a node that was not asked for: {where}", repr(sorted(kept - most)))
    want = cut(model, kept)
    if len(want.roots()) > 1:
        raise Violation(f"more than one root: {where}", repr(want.roots()))
    if got[:2] != want.shown()[:2]:
        raise Violation(f"not that part of the tree: {where}", f"\ngot  {got[:2]}\nwant {want.shown()[:2]}")
    if kept and got[6] != want.roots()[0]:
        raise Violation(f"another root is named: {where}", repr(got[6]))
    if load and kept:
        loadable(run, res.tree, want, where)


def judge(ctx, run, model, where, sets, load):
    run.m.publish_structure()
    before = editing.observe(run)
    for x in sorted(model.nodes) + ["?", "!"]:
        subtree(ctx, run, model, x, where, load)
        ctx.step()
    for xs in sets:
        generate(ctx, run, model, xs, where, load)
        ctx.step()
    run.m.publish_structure()
    after = editing.observe(run)
    if after != before:
        raise Violation(f"the loaded tree changed: {where}", f"\nbefore {before}\nafter  {after}")
    ctx.state(model.shown())


def subsets(labels, most):
    out = []
    for n in range(1, most + 1):
        out += list(itertools.combinations(labels, n))
    return out + [("?",), ("!", labels[-1]) if labels else ("!",), ()]


def part(ctx, model, where, after, sets, load):
    def body():
        run = tm.Run()
        tm.load(run, model)
        for command in after:
            run.control(command)
        judge(ctx, run, model, where, sets, load)

    ctx.case(repr(where), body)


def run(shard, ctx):
    if shard[0] == "trees":
        n, i = shard[1], shard[2]
        mine, of = (shard[4], 4 if n == 6 else 1) if len(shard) > 4 else (0, 1)
        shape = shapes(n)[i]
        leaves = sum(1 for k in range(n) if k not in shape)
        k = 0
        for classes in itertools.product(LEAVES, repeat=leaves):
            spec = built(shape, classes)
            for ws in wirings(spec, 2 if not ctx.thorough else 3):
                k += 1
                if k % of != mine:
                    continue
                if ctx.stop:
                    return
                model = tm.Model(spec, ws)
                labels = sorted(model.nodes)
                small = n <= 3 or ctx.thorough and n <= 4
                # the whole matrix for small trees; for larger ones alternate what is looked at beyond the subtrees
                if n <= 4 or ctx.thorough and n <= 5:
                    sets = subsets(labels, n)
                elif k % 5 == 0 or ctx.thorough:
                    sets = subsets(labels, 2)
                else:
                    sets = [tuple(labels[k % n:])]
                part(ctx, model, (shape, classes, ws), (), sets, small or k % 7 == 0)
                if small or k % 7 == 3:
                    for after in ((1,), (1, 6), (1, 4)):
                        part(ctx, model, (shape, classes, ws, after), after, sets[:3], False)
        return
    _, start, i, of = shard
    if ctx.only is not None:
        _, path = ast.literal_eval(ctx.only[1][0])
        edited(ctx, start, path)
        return
    seen = set()
    for path in paths(start, 1 if not ctx.thorough else 2, i, of):
        if ctx.stop:
            return
        edited(ctx, start, path, seen)


def paths(start, depth, i, of):
    model = editing.STARTS[start]
    for r in editing.requests(model)[i::of]:
        yield (r,)
        if depth > 1:
            after = model.apply(r)
            if after not in (None, "any", "same"):
                for q in editing.requests(after)[::3]:
                    yield (r, q)


def edited(ctx, start, path, seen=None):
    model = editing.STARTS[start]
    for r in path:
        after = model.apply(r)
        if after == "any" or r[0] == "generate":
            return
        model = model if after in (None, "same") else after

    def body():
        run, m = editing.build(start, ())
        for r in path:
            after = m.apply(r)
            try:
                res = tm.send(run, m, r)
            except Exception:
                return
            if res.success != (after is not None):
                return  # judged by C18 and C19
            m = m if after in (None, "same") else after
        run.m.publish_structure()
        if run.shown()[:3] != m.shown():
            return  # judged by C18 and C19
        labels = sorted(m.nodes)
        judge(ctx, run, m, (start, path), subsets(labels, 1) + [tuple(labels), tuple(labels[1:3])], ctx.thorough)

    if seen is not None:
        key = (model.shown(), path[-1][0])
        if key in seen:
            return
        seen.add(key)
    ctx.case(repr((start, path)), body)
