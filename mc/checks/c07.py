from mc import standins, zoo
from mc.core import Violation
from mc.treekit import (BROKEN, Env, FAIL, IDLE, PAUSED, RUNNING, SHUTDOWN, SUCC, UNINIT, BTNodeState, Probe, add, nid,
                        failure, probe)
from ros_bt_py import data_types as dt
from ros_bt_py.node import define_bt_node
from ros_bt_py.node_config import NodeConfig

TECHNIQUE = "explicit-state model checking: exhaustive operation histories of every real node class against the life-cycle automaton"
NOTE = ("Complete for the stated histories. The state left behind by an implementation that returns an impossible state "
        "is not specified and is adopted from the code.")
ID = "C07"
standins.fast_yaml()

OPS = ("setup", "tick", "untick", "reset", "shutdown")
ALLOWED = {
    "setup": {IDLE},
    "tick": {RUNNING, SUCC, FAIL, BTNodeState.ASSIGNED, BTNodeState.UNASSIGNED},
    "untick": {IDLE, PAUSED},
    "reset": {IDLE},
    "shutdown": {SHUTDOWN},
}
LONG = {"quick": 3, "thorough": 4}
DEPTH = {"quick": 4, "thorough": 5}


def BOUNDS(tier):
    return (f"a scripted leaf: all histories of {LONG[tier]} operations with every state or an error as answer, and of "
            f"{LONG[tier] + 2} operations with answers ok/error/impossible; every registered node class: all histories of "
            f"{DEPTH[tier]} (or one more) of setup/tick/untick/reset/shutdown/new inputs/each environment event; a leaf with unset inputs")


def shards(tier):
    out = [["script", a, b] for a in OPS for b in OPS]
    out += [["few", a, b] for a in OPS for b in OPS]
    for label in zoo.labels():
        out += [["zoo", label, first] for first in OPS]
    out += [["unset", a] for a in OPS]
    return out


def weight(shard):
    return {"script": 5, "few": 6, "zoo": 2, "unset": 1}[shard[0]]


ALL = (UNINIT, IDLE, RUNNING, SUCC, FAIL, BROKEN, PAUSED, SHUTDOWN, BTNodeState.ASSIGNED, BTNodeState.UNASSIGNED)


def legal(op, state):
    if op == "setup":
        return state in (UNINIT, SHUTDOWN)
    if op == "shutdown":
        return True
    return state not in (UNINIT, SHUTDOWN, BROKEN)


@define_bt_node(NodeConfig(inputs={"a": dt.IntType(allow_static=False), "b": dt.StringType(allow_static=False)}, outputs={"o": dt.IntType()},
                           max_children=0))
class Fed(Probe):
    def _do_tick(self):
        self.node_config.outputs["o"].set_value(1)
        return super()._do_tick()


def scripted(ch, ctx, firsts, depth, answers, node_cls=Probe, set_inputs=False):
    calls = []

    def answer(node, op):
        calls.append(op)
        res = ch.choose(answers(op))
        return failure() if res == "err" else res

    node = node_cls(node_id=nid(0), name="n")
    node.env = Env(answer)
    state = UNINIT
    given = set()
    trace = []
    for i in range(depth):
        if i < len(firsts):
            op = firsts[i]
        else:
            op = ch.choose(OPS + (("give a", "give b") if set_inputs else ()))
        if op.startswith("give"):
            key = op[-1]
            node.node_config.inputs[key].set_value(1 if key == "a" else "x").unwrap()
            given.add(key)
            trace.append(op)
            continue
        calls.clear()
        res = getattr(node, op)()
        n = node.state
        trace.append((op, calls[:], str(res.ok()) if res.is_ok() else "Err"))

        def bad(what):
            raise Violation(f"{what}: {trace} in state {state}", f"{res} now {n}")

        answers_given = node.env.take()
        ctx.step()
        if not legal(op, state):
            if res.is_ok():
                bad("accepted")
            if n != state or calls:
                bad("refused but not without effect")
        elif op == "shutdown" and state in (SHUTDOWN, UNINIT):
            # nothing to shut down (whether the implementation is asked is not specified for a fresh node)
            if not calls:
                if res.is_err() or n != SHUTDOWN:
                    bad("shutdown of an idle node")
                state = n
                ctx.state((op, state, n))
                continue
        if legal(op, state) and not (op == "shutdown" and state == SHUTDOWN):
            if op == "tick" and set_inputs and given != {"a", "b"}:
                if res.is_ok() or n != BROKEN or calls:
                    bad("tick with an unset input")
            else:
                if calls != [op]:
                    bad("implementation not called exactly once")
                got = answers_given[0][2]
                if got == "err":
                    if res.is_ok() or n != BROKEN:
                        bad("failing implementation")
                elif got in ALLOWED[op]:
                    if res.is_err() or res.ok() != got or n != got:
                        bad("normal answer")
                elif res.is_ok():
                    bad("impossible state accepted")
            if op == "setup":
                given = set()
        ctx.state((op, state, n))
        state = n
    ctx.outcome(trace)
    return trace


def run(shard, ctx):
    kind = shard[0]
    if kind == "script":
        ctx.explore(lambda ch: scripted(ch, ctx, shard[1:], LONG[ctx.tier], lambda op: ALL + ("err",)))
    elif kind == "few":
        def few(op):
            return {"setup": (IDLE, RUNNING, "err"), "tick": (SUCC, RUNNING, IDLE, "err"), "untick": (IDLE, PAUSED, RUNNING, "err"),
                    "reset": (IDLE, SUCC, "err"), "shutdown": (SHUTDOWN, IDLE, "err")}[op]
        ctx.explore(lambda ch: scripted(ch, ctx, shard[1:], LONG[ctx.tier] + 2, few))
    elif kind == "unset":
        ctx.explore(lambda ch: scripted(ch, ctx, shard[1:], LONG[ctx.tier] + 2,
                                        lambda op: {"setup": (IDLE,), "tick": (SUCC, RUNNING), "untick": (IDLE,), "reset": (IDLE,),
                                                    "shutdown": (SHUTDOWN,)}[op], Fed, True))
    else:
        run_zoo(shard[1], shard[2], ctx)


def run_zoo(label, first, ctx):
    def body(ch):
        def answer(node, op):
            if op == "tick":
                return ch.choose((SUCC, FAIL, RUNNING))

        rig = zoo.make(label, env=Env(answer))
        node = rig.node
        trace = []
        events = list(rig.events)
        extra = events + (["give0", "give1"] if rig.has_dynamic else [])
        for i in range(DEPTH[ctx.tier] + (first == "setup" and not extra) - (label == "Subtree" or len(rig.kids) > 1)):
            op = first if i == 0 else ch.choose(OPS + tuple(extra))
            trace.append(op)
            if op in rig.events:
                rig.events[op]()
                continue
            if op.startswith("give"):
                rig.provide(int(op[-1]) % len(rig.dynamic))
                continue
            state = node.state
            was_set = all(c.has_value() for c in node.node_config.inputs.values())
            rig.effects()
            rig.env.take()
            outputs = rig.outputs()
            marks = {k: c.is_updated() for k, c in node.node_config.inputs.items()}
            res = getattr(node, op)()
            now = node.state

            def bad(what):
                raise Violation(f"{label}: {what}: {trace} in state {state}", f"{res} now {now}")

            ctx.step()
            ctx.state((label, op, state, now, was_set))
            if not legal(op, state):
                if res.is_ok():
                    bad("accepted")
                if (now != state or rig.effects() or rig.env.take() or rig.outputs() != outputs
                        or marks != {k: c.is_updated() for k, c in node.node_config.inputs.items()}):
                    bad("refused but not without effect")
            elif res.is_ok():
                if res.ok() != now or now not in ALLOWED[op]:
                    bad("wrong state")
                if op == "tick" and not was_set:
                    bad("ticked with an unset input")
                if op == "shutdown" and any(k.state != SHUTDOWN for k in rig.kids):
                    bad("child not shut down")
            else:
                if now != BROKEN:
                    bad("error without being broken")
                if op == "tick" and was_set:
                    bad("cannot be ticked")
                if op != "tick":
                    bad(f"cannot {op}")
        ctx.outcome((label, trace))
        return trace

    ctx.explore(body, label)
