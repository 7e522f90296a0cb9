"""Breadth-first exploration of editing requests on a real TreeEditManager, shared by C17, C18, C19 (and C26)."""

import ast

from mc import treemgr as tm
from mc.core import Violation

STARTS = {
    "empty": tm.Model(),
    "wide": tm.Model([("0", "Flow", "0", ["1", "2", "3"]), ("1", "Src", "int", []), ("2", "Deco", "1", ["4"]),
                      ("3", "Snk", "0", []), ("4", "Mid", "0", [])],
                     [("1", "o", "4", "a"), ("4", "b", "3", "a")]),
    "deep": tm.Model([("0", "Deco", "0", ["1"]), ("1", "Pair", "0", ["2", "3"]), ("2", "Flow", "1", ["4"]),
                      ("3", "Snk", "1", []), ("4", "Src", "str", [])], [("4", "o", "3", "t"), ("4", "n", "3", "a")]),
    "forest": tm.Model([("0", "Pair", "0", ["1"]), ("1", "Flow", "0", []), ("2", "Deco", "0", []), ("3", "Src", "int", []),
                        ("4", "Flow", "0", ["5", "6"]), ("5", "Snk", "0", []), ("6", "Pair", "0", [])], [("3", "o", "5", "a")]),
}


def requests(model, rich=True, most=7):
    """The alphabet of requests in a state of the model."""
    labels = sorted(model.nodes)
    out = []
    grow = len(labels) < most
    if grow:
        for p in [None] + labels + ["?", "!"]:
            kids = len(model.nodes[p][4]) if p in model.nodes else 0
            for cls in ("Flow", "Deco", "Src", "Snk"):
                idx = [-1]
                if cls == "Flow":
                    idx += [0, kids + 3] + ([1, -2] if kids > 1 else [])
                out += [("add", p, cls, i) for i in idx]
            out.append(("addplain", p, "Pair"))
            out.append(("addbad", p, "option"))
        for what in ("class", "module", "emptymodule", "key", "type"):
            out.append(("addbad", labels[0] if labels else None, what))
        roots = model.roots()
        for p in [None] + labels[:1]:
            for cls in ("Flow", "Deco", "Src"):
                for x in labels[:1] + labels[-2:] + ["?", "!"]:
                    out.append(("add", p, cls, -1, (x,)))
            out.append(("add", p, "Flow", 0, tuple(roots[:2])))
            out.append(("add", p, "Flow", 0, (roots[0], "?") if roots else ("?",)))
            if roots:
                out.append(("add", p, "Flow", 0, (roots[0], roots[0])))
    for x in labels + ["?", "!"]:
        out += [("remove", x, False), ("remove", x, True)]
        for p in [None] + labels + ["?", "!"]:
            if x in "?!" and p not in (None, "0"):
                continue
            kids = len(model.nodes[p][4]) if p in model.nodes else 0
            out += [("move", x, p, i) for i in [-1, 0] + ([1, -2] if kids > 1 else []) + ([9] if kids else [])]
        for y in labels + ["?"]:
            if x in "?!" and y != "0":
                continue
            out.append(("replace", x, y))
        for cls in ("Flow", "Pair", "Deco", "Src", "Snk", "Mid") if x in model.nodes else ("Flow",):
            out.append(("morph", x, cls, f"n{x}"))
        out += [("morph", x, "Flow", ""), ("morph", x, "class", "b"), ("morph", x, "option", "b")]
        cls = model.nodes[x][0] if x in model.nodes else "Flow"
        out += [("opt", x, o, None) for c, o in tm.VALUES if c == cls and len([1 for d, _ in tm.VALUES if d == c]) > 1]
        out += [("opt", x, None, None), ("opt", x, "option", None), ("opt", x, "key", None)]
        out += [("opt", x, None, f"n{x}"), ("opt", x, None, f"m{x}"), ("opt", x, None, "")]
    out += wirings(model)
    out += [("name", "other"), ("reload",), ("clear",), ("load", "good"), ("generate", tuple(labels[:1])), ("generate", ("?",))]
    out += [("load", v) for v in tm.BAD_TREES]
    out += [("subtree", x) for x in labels[:2] + ["?", "!"]]
    return out


def wirings(model):
    labels = sorted(model.nodes)
    sources = [(x, k) for x in labels for k in tm.OUT.get(model.nodes[x][0], ())]
    sinks = [(x, k) for x in labels for k in {"Snk": ("a", "t", "s"), "Mid": ("a",)}.get(model.nodes[x][0], ())]
    pairs = [s + d for s in sources for d in sinks]
    odd = []
    if sources:
        odd.append(sources[0] + ("?", "a"))
        odd.append((sources[0][0], "zz") + (sinks[0] if sinks else ("?", "a")))
        odd.append(sources[0] + (sources[0][0], "kind"))
    if sinks:
        odd += [("?", "o") + sinks[0], ("!", "o") + sinks[0], (sources[0] if sources else ("?", "o")) + (sinks[0][0], "zz")]
    out = [("wire", (w,), False) for w in pairs[:8] + odd] + [("unwire", (w,), False) for w in pairs[:4] + odd[:2]]
    out += [("unwire", (w,), False) for w in sorted(model.wires) if w not in pairs[:4]]
    if pairs:
        good = [w for w in pairs if model.fits(w)][:2] or pairs[:1]
        for w in good:
            out += [("wire", (w, w), False), ("unwire", (w, w), False), ("wire", (w, w), True), ("unwire", (w, w), True)]
            if odd:
                out += [("wire", (w, odd[0]), False), ("wire", (odd[0], w), True), ("unwire", (w, odd[0]), False),
                        ("unwire", (odd[0], w), True)]
    return out


# ---------------------------------------------------------------- judging

def observe(run):
    """Everything a refused request must not change."""
    return run.shown()[:-1], run.loose_graph()


def judge(ctx, what, run, model, r, before):
    """Send r and judge it. -> the model after it (None: refused, "lost": go no further)"""
    want = model.apply(r)
    try:
        res = tm.send(run, model, r)
    except Violation:
        raise
    except Exception as ex:
        if what == "C18":
            raise Violation(f"exception {type(ex).__name__}: {r} in {model.shown()}", repr(ex))
        return "lost"
    success = res.success
    ctx.outcome((r[0], success))
    if r[0] == "generate":
        want = model if success else None
        model_after = model
    elif want == "any":
        model_after = "lost"
    elif want == "same":
        want, model_after = (model if success else None), model
    else:
        model_after = want
    where = f"{r} in {model.shown()}"
    if not success:
        if what == "C18":
            run.m.publish_structure()
            after = observe(run)
            if after != before:
                raise Violation(f"refused, but not without effect: {where}", f"{res}\nbefore {before}\nafter  {after}")
        if what == "C19" and want not in (None, "any"):
            raise Violation(f"refused, though it fits: {where}", repr(res))
        if what == "C17":
            structure(run, where)
        return None
    if what == "C17":
        structure(run, where)
    if want is None:
        if what == "C19":
            raise Violation(f"accepted, though it does not fit: {where}", f"{run.shown()}")
        return "lost"
    if model_after == "lost":
        return "lost"
    if what == "C19":
        shown = run.shown()
        if shown[:3] != model_after.shown():
            raise Violation(f"not what was asked: {where}", f"\nshown {shown}\nwant  {model_after.shown()}")
        if shown[5] != 10.0 or shown[3] or shown[4]:
            raise Violation(f"frequency or public data changed: {where}", repr(shown))
        if len(model_after.roots()) == 1 and shown[6] != model_after.roots()[0]:
            raise Violation(f"another root is published: {where}", f"{shown[6]} {model_after.roots()}")
        if r[0] == "subtree":
            subtree(run, model_after, r[1], res, where)
    return model_after


def subtree(run, model, x, res, where):
    got = run.canonical(tm._structure(res.subtree))
    want = Model_of(model, model.under(x)).shown()
    if got[0] != want[0] or got[6] != x:
        raise Violation(f"another subtree was answered: {where}", f"{got} {want}")


def Model_of(model, labels):
    part = model.copy()
    part.nodes = {k: v for k, v in part.nodes.items() if k in labels}
    return part


def structure(run, where):
    """C17: a forest of known nodes with consistent links, within limits, well wired, published as it is."""
    try:
        nodes, parents = run.graph()
    except Violation as v:
        raise Violation(f"{v.key}: {where}", v.detail)
    parent = dict(parents)
    seen = {}
    for label, _, shape, children in nodes:
        if shape[0] == "strange":
            cap = shape[5]
        else:
            cap = tm.CAP[shape[0]]
        if cap is not None and cap >= 0 and len(children) > cap:
            raise Violation(f"more children than allowed: {where}", repr((label, children)))
        for c in children:
            if c in seen:
                raise Violation(f"two places for one node: {where}", repr((c, label, seen[c])))
            seen[c] = label
            if parent.get(c) != label:
                raise Violation(f"parent and child links disagree: {where}", repr((c, label, parent.get(c))))
    for c, p in parents:
        if p is not None and seen.get(c) != p:
            raise Violation(f"parent and child links disagree: {where}", repr((c, p, seen.get(c))))
        x, n = c, 0
        while x is not None:
            x, n = parent.get(x), n + 1
            if n > len(parents) + 1:
                raise Violation(f"cycle: {where}", repr(parents))
    shown = run.shown()
    if shown[0] != nodes:
        raise Violation(f"published structure is not the tree: {where}", f"\npublished {shown[0]}\nexecuted  {nodes}")
    fed = set()
    config = {run.label(k): n.node_config for k, n in run.m.nodes.items()}
    for a, b, c, d in shown[1]:
        if a not in config or c not in config or b not in config[a].outputs or d not in config[c].inputs:
            raise Violation(f"wiring of something that is not there: {where}", repr((a, b, c, d)))
        if (c, d) in fed:
            raise Violation(f"two wirings feed one input: {where}", repr((a, b, c, d)))
        fed.add((c, d))


# ---------------------------------------------------------------- exploring

def build(start, path):
    run, model = tm.Run(), STARTS[start].copy()
    run.capture = False
    if model.nodes:
        tm.load(run, model)
    for r in path:
        tm.send(run, model, r)
        model = model.apply(r)
    run.capture = True
    run.m.publish_structure()
    return run, model


def explore(ctx, what, start, depth, part, parts):
    """All request sequences up to `depth` from `start` whose first request is in part `part`."""
    if ctx.only is not None:
        start, path, r = ast.literal_eval(ctx.only[1][0])
        ctx.case(ctx.only[1][0], lambda: _one(ctx, what, start, tuple(path), r))
        return
    frontier = [()]
    seen = {}
    for level in range(depth):
        nxt = []
        for path in frontier:
            run, model = build(start, path)
            todo = requests(model)
            if level == 0:
                todo = todo[part::parts]
            elif not ctx.thorough:
                todo = [r for i, r in enumerate(todo) if r[0] not in ("addbad", "add", "load") or i % 2 or "!" in r]
            before, cheap = (observe(run) if what == "C18" else None), observe_cheap(run)
            for r in todo:
                out = {}

                def body():
                    out["model"] = "lost"
                    out["model"] = judge(ctx, what, run, model, r, before)

                if ctx.stop:
                    return
                ctx.step()
                ctx.case(repr((start, path, r)), body)
                after = out["model"]
                if after is not None or what != "C18":
                    changed = True
                    if after is None:  # refused: whether it is without effect is another check's business
                        changed = observe_cheap(run) != cheap
                    elif after != "lost" and after.shown() == model.shown() and r[0] in ("subtree", "generate"):
                        changed = False
                    if changed:
                        if after not in (None, "lost") and level + 1 < depth:
                            key = (after.shown(), run.hidden())
                            ctx.state(key)
                            if key not in seen:
                                seen[key] = path
                                nxt.append(path + (r,))
                        run, model = build(start, path)
        frontier = nxt


def observe_cheap(run):
    return run.loose_graph(), tuple(map(repr, run.m.wirings)), run.m.name


def _one(ctx, what, start, path, r):
    run, model = build(start, path)
    judge(ctx, what, run, model, r, observe(run) if what == "C18" else None)
