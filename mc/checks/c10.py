from mc import standins, zoo
from mc.core import Violation
from mc.checks.c08 import shapes, CHANGE, CLOCK
from ros_bt_py.vendor.result import Err, Ok
from mc.treekit import BROKEN, Env, FAIL, RUNNING, SHUTDOWN, SUCC, failure

TECHNIQUE = "explicit-state model checking with exhaustive fault injection into every step of every leaf of trees of real nodes"
NOTE = ("Complete for the stated trees, histories and one fault before plus one fault during shutdown. A fault is an "
        "error result; exceptions are the subject of C25.")
ID = "C10"
standins.fast_yaml()


def labels():
    return list(zoo.parents())


def BOUNDS(tier):
    return ("all pairs of a control-flow or decorator class inside another one, two children each where possible: setup, "
            f"{3 if tier == 'thorough' else 2} of tick/untick/reset (new inputs or time passing in between), one error at any step of any leaf, "
            "then shutdown with no error or an error of any one node; also shutdown without setup; one tick with the outputs of any one node undeliverable")


def shards(tier):
    pairs = [[o, i] for o in labels() for i in labels()]
    if tier == "quick":
        twins = {"Parallel", "ParallelFailureTolerance"}
        pairs = [p for p in pairs if not set(p) <= twins or p == ["Parallel", "Parallel"]]
    return pairs


def weight(shard):
    return sum(zoo.parents()[s] for s in shard) + sum(s in CHANGE | CLOCK for s in shard)


def run(shard, ctx):
    for number, spec in enumerate(shapes(*shard)):
        ctx.explore(lambda ch: walk(ch, ctx, spec), f"{number}")
        ctx.explore(lambda ch: lost(ch, ctx, spec), f"lost {number}")


class Refusing:
    """A data flow that cannot deliver what one of the nodes puts out."""

    def __init__(self, victim):
        self.victim = victim
        self.refused = False

    def push_outputs(self, node_id):
        if node_id == self.victim.node_id:
            self.refused = True
            return Err("injected")
        return Ok(None)


def lost(ch, ctx, spec):
    """The outputs of one node cannot be delivered."""
    answers = []

    def answer(node, op):
        if op != "tick":
            return None
        answers.append(ch.choose((SUCC, FAIL, RUNNING)))
        return answers[-1]

    tree = zoo.Tree(spec, env=Env(answer))
    victim = ch.choose(tree.nodes)
    flow = Refusing(victim)

    def bad(what, detail=""):
        raise Violation(f"{spec}: {what}, outputs of {victim.name} undeliverable, leaves answer {answers}",
                        f"{[(n.name, n.state) for n in tree.nodes]} {detail}")

    if tree.root.setup().is_err():
        bad("setup refused")
    for rig in tree.rigs:
        if rig.has_dynamic:
            rig.provide(0)
    for n in tree.nodes:
        n.data_flow_manager = flow
    res = tree.root.tick()
    ctx.step()
    if flow.refused:
        if res.is_ok():
            bad("not reported")
        if victim.state != BROKEN:
            bad("the node is not broken")
    elif res.is_err():
        bad("tick reports an error of its own", res)
    tree.env.answer = None
    if tree.root.shutdown().is_err():
        bad("shutdown failed")
    if any(n.state != SHUTDOWN for n in tree.nodes):
        bad("not shut down")
    ctx.state((spec, victim.name, res.is_ok(), [n.state for n in tree.nodes]))
    ctx.outcome((victim.name, answers))


def walk(ch, ctx, spec):
    failed = []  # (leaf, op)
    reached = {}
    state = {"faults": True}

    def answer(node, op):
        reached.setdefault(op, []).append(node.name)
        if op == "tick":
            options = (SUCC, FAIL, RUNNING)
            if state["faults"] and not failed:
                options += ("err",)
            res = ch.choose(options)
        elif state["faults"] and not failed:
            res = ch.choose(("ok", "err"))
        else:
            return None
        if res == "err":
            failed.append((node, op))
            return failure("injected")
        return None if res == "ok" else res

    def shutdown_answer(node, op):
        if op == "shutdown":
            reached.setdefault(op, []).append(node.node_id)
            if down and down[0] is node:
                return failure("injected")
        else:
            bad(f"{op} during shutdown")

    tree = zoo.Tree(spec, env=Env(answer))
    root = tree.root
    trace = []
    down = []

    def bad(what, detail=""):
        raise Violation(f"{spec}: {what} after {trace}", f"{[(n.name, n.state) for n in tree.nodes]} {detail}")

    length = ch.choose(4 if ctx.thorough else 3)
    for i in range(-1, length):
        if failed:
            break
        if i > 0 and (len(tree.nodes) < 7 or ctx.thorough):
            moves = ["none"]
            moves += [f"give{j}" for j, rig in enumerate(tree.rigs) if rig.has_dynamic]
            moves += [f"late{j}" for j, rig in enumerate(tree.rigs) if "later" in rig.events]
            move = ch.choose(moves) if len(moves) > 1 else "none"
            if move != "none":
                rig = tree.rigs[int(move[4:])]
                rig.provide(1) if move.startswith("give") else rig.events["later"]()
                trace.append(move)
        # only the last operation of a history may fail: shorter ones are histories of their own
        state["faults"] = i == length - 1
        op = "setup" if i < 0 else "tick" if i == 0 else ch.choose(("tick", "untick", "reset"))
        mark = len(ch.labels)
        res = getattr(root, op)()
        trace.append((op, [str(x) for x in ch.labels[mark:]]))
        ctx.step()
        if i < 0:
            for rig in tree.rigs:
                if rig.has_dynamic:
                    rig.provide(0)
        if failed:
            leaf, where = failed[0]
            if res.is_ok():
                bad(f"error of {leaf.name} in {where} is not reported")
            if leaf.state != BROKEN:
                bad(f"{leaf.name} not broken")
        elif res.is_err():
            bad(f"{op} reports an error of its own", res)
    broken = [n for n in tree.leaves if n.state == BROKEN]
    was_set_up = [n.node_id for n in tree.leaves if n.state != "UNINITIALIZED"]
    inner = [n for n in tree.nodes if n not in tree.leaves]
    # in trees of that size inner nodes only fail after histories without a fault
    victims = tree.leaves + (inner if len(tree.nodes) < 7 or ctx.thorough or not failed else [])
    victim = ch.choose(len(victims) + 1)
    if victim:
        down.append(victims[victim - 1])
        if down[0] in inner:
            own = down[0]._do_shutdown

            def fails():
                reached.setdefault("shutdown", []).append(down[0].node_id)
                own()
                return failure("injected")
            down[0]._do_shutdown = fails
    tree.env.answer = shutdown_answer
    reached.clear()
    res = root.shutdown()
    trace.append(("shutdown", down[0].name if down else "ok"))
    ctx.step()
    called = reached.get("shutdown", [])
    for n in tree.nodes:
        if down and n is down[0] and n.node_id in called:
            if n.state != BROKEN:
                bad("not broken although its shutdown failed")
        elif n.state != SHUTDOWN:
            bad(f"{n.name} is {n.state}")
    if len(set(called)) != len(called):
        bad("shut down twice")
    for n in was_set_up:
        if n not in called:
            bad("a leaf that was set up is not shut down", n)
    if res.is_ok() and down and down[0].node_id in called:
        bad("failing shutdown is not reported")
    if res.is_err() and not down:
        bad("shutdown failed", f"{res} {broken}")
    ctx.state((spec, [n.state for n in tree.nodes], root.state))
    ctx.outcome(trace)
    return trace
