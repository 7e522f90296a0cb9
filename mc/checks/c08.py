from mc import standins, zoo
from mc.core import Violation
from mc.treekit import Env, FAIL, IDLE, RUNNING, SHUTDOWN, SUCC

TECHNIQUE = "explicit-state model checking: exhaustive histories of all two-level trees of real nodes against state invariants"
NOTE = ("Complete for the stated trees and histories. A node that passes its child's running state off as a result by "
        "contract (IgnoreRunning) is excluded from the first clause.")
ID = "C08"
standins.fast_yaml()
SKIP = {"IgnoreRunning"}
CHANGE = {"NameSwitch", "EnumSwitch", "Watch", "RepeatNoAutoReset", "IterateList", "GetListItem:child"}
CLOCK = {"Throttle", "ThrottleSuccess"}


TWIN = {"Parallel", "ParallelFailureTolerance", "GetListItem:child"}


def labels():
    return [l for l in zoo.parents() if l not in SKIP]


def shapes(outer, inner):
    """Trees with `outer` at the root and `inner` as its first or last child."""
    n, m = zoo.parents()[outer], zoo.parents()[inner]
    sub = (inner, [None] * m)
    out = [(outer, [sub] + [None] * (n - 1))]
    if n > 1:
        out.append((outer, [None] * (n - 1) + [sub]))
    return out


def BOUNDS(tier):
    return (f"all {len(labels())}^2 pairs of a control-flow or decorator class inside another one (as first and as last "
            "child), two children each where possible: histories of setup, tick, any operation, "
            + ("any operation, any operation, " if tier == "thorough" else "any operation, ")
            + "shutdown; every leaf result; new inputs or time passing before each operation")


def shards(tier):
    pairs = [[o, i] for o in labels() for i in labels()]
    if tier == "quick":  # the two parallel classes share their code path
        pairs = [p for p in pairs if not ("ParallelFailureTolerance" in p and p[1 - p.index("ParallelFailureTolerance")] in TWIN)]
    return pairs


def weight(shard):
    return sum(zoo.parents()[s] for s in shard) + sum(s in CHANGE | CLOCK for s in shard)


def run(shard, ctx):
    outer, inner = shard
    two = zoo.parents()[outer] + zoo.parents()[inner]
    for number, spec in enumerate(shapes(outer, inner)):
        length = 4 if ctx.thorough else 3
        ctx.explore(lambda ch: walk(ch, ctx, spec, length, two > 3 and not ctx.thorough), f"{number}")


def walk(ch, ctx, spec, length, small):
    ticked = []
    last = [False]

    def answer(node, op):
        if op == "tick":
            ticked.append(node.node_id)
            # in the last step only what may leave others running matters
            return ch.choose((SUCC, FAIL) if last[0] else (SUCC, FAIL, RUNNING))

    tree = zoo.Tree(spec, env=Env(answer))
    root = tree.root
    trace = []

    def bad(what, detail=""):
        raise Violation(f"{spec}: {what} after {trace}", f"{[(n.name, n.state) for n in tree.nodes]} {detail}")

    def op(name):
        ticked.clear()
        res = getattr(root, name)()
        trace.append(name if name != "tick" else (name, [str(l) for l in ch.labels[mark:]]))
        ctx.step()
        states = {n.node_id: n.state for n in tree.nodes}
        ctx.state((spec, tuple(states.values())))
        if res.is_err():
            bad(f"{name} failed", res)
        if name == "tick":
            if len(set(ticked)) != len(ticked):
                bad("leaf ticked twice in one tick")
            for node in tree.nodes:
                if states[node.node_id] != RUNNING:
                    if any(states[d.node_id] == RUNNING for d in below(node)):
                        bad(f"{node.name} is {states[node.node_id]} with a running descendant")
        elif name == "untick":
            if RUNNING in states.values():
                bad("running after untick")
        elif name == "reset":
            if any(s != IDLE for s in states.values()):
                bad("not idle after reset")
        elif name == "shutdown":
            if any(s != SHUTDOWN for s in states.values()):
                bad("not shut down")

    def below(node):
        for c in node.children:
            yield c
            yield from below(c)

    mark = len(ch.labels)
    op("setup")
    for rig in tree.rigs:
        if rig.has_dynamic:
            rig.provide(0)
    for i in range(length):
        if i:
            moves = ["none"]
            moves += [f"give{j}" for j, rig in enumerate(tree.rigs) if rig.has_dynamic]
            moves += [f"late{j}" for j, rig in enumerate(tree.rigs) if "later" in rig.events]
            move = ch.choose(moves) if len(moves) > 1 else "none"
            if move.startswith("give"):
                tree.rigs[int(move[4:])].provide(1)
                trace.append(move)
            elif move.startswith("late"):
                tree.rigs[int(move[4:])].events["later"]()
                trace.append(move)
        mark = len(ch.labels)
        last[0] = i == length - 1 and small
        op("tick" if i == 0 or i == length - 1 and i > 1 else ch.choose(("tick", "untick", "reset")))
    op(ch.choose(("untick", "reset", "shutdown")) if i == 1 else "shutdown")
    ctx.outcome(trace)
    return trace
