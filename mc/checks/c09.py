import random

from mc import standins, zoo
from mc.core import Violation
from mc.treekit import Env, FAIL, RUNNING, SUCC

TECHNIQUE = "explicit-state model checking: every history, reset or restart, compared in lock-step with a fresh real node"
NOTE = ("Complete for the stated histories. Compared are results, states, outputs with their updated marks, children "
        "ticked, messages, requests, goals and cancellations sent, and the endpoints that exist in the end.")
ID = "C09"
standins.fast_yaml()
SHORT = {"Parallel", "ParallelFailureTolerance", "Subtree", "Action", "TopicMemorySubscriber", "MemorySequence",
         "MemoryFallback", "RepeatNoAutoReset", "IterateList", "GetListItem:child", "Watch"}


def lengths(tier, label):
    before, after = (4, 3) if tier == "thorough" else (3, 2)
    if label.startswith("Parallel"):
        return before - 1, after
    return before, after + (tier == "quick" and label not in SHORT and not zoo.parents().get(label, 0) > 1)


def BOUNDS(tier):
    return ("every registered class: histories of 3 (thorough: 4) operations or environment events, then reset or shutdown "
            "with setup, then 2 or 3 further ones in lock-step with a fresh node; every child result; answers to requests "
            "and goals of the first life arriving in the second")


def shards(tier):
    return [[label, kind] for label in zoo.labels() for kind in ("reset", "restart")
            if (label, kind) != ("RepeatNoAutoReset", "reset")]


def weight(shard):
    return 3 if shard[0] in SHORT else zoo.parents().get(shard[0], 0)


def external(log, first_goal):
    out = []
    for e in log:
        if e[0] in ("publish", "call", "send_request", "send_goal", "cancel_goal", "get_result"):
            out.append(tuple(x - first_goal if e[0].endswith("goal") and isinstance(x, int) else repr(x) for x in e))
    return out


def alive(rig):
    ros = rig.ros
    return (sorted(s.topic for s in ros.subs if not s.destroyed), sorted(p.topic for p in ros.pubs if not p.destroyed),
            sorted(c.srv_name for c in ros.clients_made if not c.destroyed),
            sorted(c.action_name for c in ros.action_clients if not c.destroyed))


def run(shard, ctx):
    label, kind = shard
    before, after = lengths(ctx.tier, label)

    def body(ch):
        mode = ["first"]
        recorded = []

        def answer(node, op):
            if op == "tick":
                res = ch.choose((SUCC, FAIL, RUNNING))
                recorded.append((node.name, res))
                return res

        rig = zoo.make(label, env=Env(answer))
        trace = []
        given = 0
        happened = []

        def bad(what, detail=""):
            raise Violation(f"{label}: {what}: {trace}", detail)

        def move(r, op):
            if op in r.events:
                r.events[op]()
            elif op.startswith("give"):
                r.provide(int(op[-1]))
            elif op == "stale":
                r.stale()
            else:
                return getattr(r.node, op)()
            return None

        trace.append("setup")
        if rig.node.setup().is_err():
            bad("setup failed")
        rig.provide(0)
        gives = [f"give{i}" for i in range(len(rig.dynamic))] if rig.has_dynamic else []
        for _ in range(before):
            options = ["tick", "untick"] + [g for g in gives if g != f"give{given}"] + list(rig.events)
            op = ch.choose(options)
            trace.append(op)
            move(rig, op)
            if op.startswith("give"):
                given = int(op[-1])
            elif op in rig.events:
                happened.append(op)
            ctx.step()
        if kind == "reset":
            if rig.node.state == "BROKEN":
                return trace
            trace.append("reset")
            if rig.node.reset().is_err():
                bad("reset failed")
        else:
            trace.append("shutdown, setup")
            if rig.node.shutdown().is_err() or rig.node.setup().is_err():
                bad("restart failed")
            rig.provide(given)

        def twin_answer(node, op):
            if op == "tick":
                if not recorded or recorded[0][0] != node.name:
                    bad("child ticked that the reset node does not tick", str(recorded))
                return recorded.pop(0)[1]

        twin = zoo.make(label, env=Env(twin_answer))
        for op in happened:  # the same environment, with nothing of the first life in it
            if op not in ("answer", "accept", "result", "cancelled", "feedback", "msg"):
                twin.events[op]()
        if twin.node.setup().is_err():
            bad("setup of a new node failed")
        twin.provide(given)
        rig.renew()
        twin.renew()
        goal0 = (rig.ros.next_goal, twin.ros.next_goal)
        recorded.clear()

        def compare(where):
            a = (rig.node.state, [k.state for k in rig.kids], rig.outputs())
            b = (twin.node.state, [k.state for k in twin.kids], twin.outputs())
            if a != b:
                bad("differs from a new node" + where, f"{a}\n{b}")

        compare(" at once")
        rig.effects(), twin.effects()
        pending = bool(rig.ros.calls or rig.ros.goals)
        for _ in range(after):
            options = ["tick", "untick"] + [g for g in gives if g != f"give{given}"] + list(rig.events)
            if pending:
                options.append("stale")
            op = ch.choose(options)
            trace.append(op)
            if op.startswith("give"):
                given = int(op[-1])
            rig.env.take(), twin.env.take()
            random.seed(1)
            a = move(rig, op)
            random.seed(1)
            if op != "stale":
                b = move(twin, op)
                if (a is None) != (b is None) or a is not None and (a.is_ok(), a.ok()) != (b.is_ok(), b.ok()):
                    bad("result differs from a new node's", f"{a} {b}")
            if recorded:
                bad("ticked a child that a new node does not tick", str(recorded))
            ea, eb = external(rig.effects(), goal0[0]), external(twin.effects(), goal0[1])
            if op != "stale" and ea != eb:
                bad("effects differ from a new node's", f"{ea}\n{eb}")
            compare("")
            ctx.step(2)
        rig.stale()  # a client may have to wait for the answer to a goal it abandoned
        if any(x != y for x, y in zip(alive(rig), alive(twin))):
            bad("endpoints differ from a new node's", f"{alive(rig)} {alive(twin)}")
        ctx.state((label, rig.node.state, repr(rig.outputs())))
        ctx.outcome((label, kind, trace))
        return trace

    ctx.explore(body)
