from mc import leaf, standins, zoo
from mc.core import Violation
from mc.treekit import FAIL, IDLE, RUNNING, SUCC
from mc.zoo import Wrapped

import example_interfaces.action as ea
from ros_bt_py.ros_nodes.action import Action

TECHNIQUE = ("explicit-state model checking: every interleaving of node operations, goal changes, hand-shake answers, feedback, results and "
             "clock steps on the real node against a reference model, equal states merged")
NOTE = ("Complete up to the depth bound for the stated alphabets. The action server is a stand-in whose futures are rclpy's own. What a "
        "server that refuses to cancel does is not judged. Two histories are merged when the model, the node's attributes (counters "
        "excepted) and the goals that are still open agree.")
ID = "C37"
TIMEOUT = 2.0
NAMES = ("/one", "/two")
KINDS = {
    "Countdown": (ea.Countdown, {"start": (1, 2), "label": ("x",)}, lambda n: ea.Countdown.Feedback(current=n), {"feedback.current": lambda n: n},
                  lambda n: ea.Countdown.Result(done=n % 2 == 1), {"result.done": lambda n: n % 2 == 1}),
    "Fibonacci": (ea.Fibonacci, {"order": (1, 2)}, lambda n: ea.Fibonacci.Feedback(sequence=[n]), {"feedback.sequence": lambda n: [n]},
                  lambda n: ea.Fibonacci.Result(sequence=[n, n]), {"result.sequence": lambda n: [n, n]}),
}
OPS = ("tick", "untick", "reset", "restart", "goal", "name", "accept", "reject", "feedback", "succeed", "abort", "canceled", "cancel_ok",
       "exactly", "little", "old_accept", "old_feedback", "old_result", "old_cancel_ok")


def depth(tier, start="new"):
    return 7 if tier == "thorough" else 5 if start in ("new", "running") else 4


# hand-shakes the exploration starts from, so that the depth is spent where it matters
STARTS = {"new": (), "sent": ("tick",), "running": ("tick", "accept", "tick"), "changed": ("tick", "accept", "tick", "goal", "tick"),
          "late": ("tick", "accept", "tick", "exactly", "little", "tick"), "done": ("tick", "accept", "tick", "succeed", "tick"),
          "left": ("tick", "untick", "tick", "accept", "tick")}


def BOUNDS(tier):
    return (f"{len(KINDS)} action types, timeout {TIMEOUT} s, from {len(STARTS)} stages of the hand-shake: all histories of {depth(tier)} "
            f"({depth(tier) + 1} from a fresh node, {depth(tier, "done")} from the later stages) of {len(OPS)} operations and events")


def shards(tier):
    return [[k, s, op] for k in (KINDS if tier == "thorough" else ["Countdown"]) for s in STARTS for op in OPS] + \
        ([["Fibonacci", "running", op] for op in OPS] if tier != "thorough" else [])


def run(shard, ctx):
    kind, start, first = shard
    ctx.explore(lambda ch: history(ch, ctx, kind, start), f"{kind} {start}", start=(OPS.index(first),))


class Goal:
    """A goal at the server, as the environment sees it."""

    def __init__(self, entry):
        self.entry = entry
        self.handle = None
        self.refused = False
        self.ended = False
        self.abandoned = False

    def answer(self, ok):
        client = self.entry["client"]
        self.handle = standins.FakeGoalHandle(client, self.entry["number"], ok)
        self.refused = not ok
        self.entry["handle"] = self.handle
        self.entry["future"].set_result(self.handle)

    @property
    def answered(self):
        return self.handle is not None

    def key(self):
        return (self.answered, self.refused, self.ended, self.abandoned, self.handle and len(self.handle.cancel_requests),
                self.handle and [f.done() for f in self.handle.cancel_requests],
                self.handle and self.handle.result_future is not None and self.handle.result_future.done())


def history(ch, ctx, kind, start):
    atype, fields, make_feedback, show_feedback, make_result, show_result = KINDS[kind]
    values = {k: v[0] for k, v in fields.items()}
    values["action_name"] = NAMES[0]
    first = next(iter(fields))
    rig = zoo.Rig(Action, values={"action_type": atype, "timeout_seconds": TIMEOUT}, dynamic=[{k: None for k in values}])
    node, ros = rig.node, rig.ros
    trace = []

    def bad(what, detail=""):
        raise Violation(f"{kind}: {what} after {trace}", detail)

    def setup():
        if node.setup().is_err():
            bad("setup failed")
        for k in values:
            node.node_config.inputs[k].set_value(values[k]).unwrap()

    setup()
    goals = []
    phase, changed, again, state = "idle", True, False, IDLE
    current = None  # the goal the node drives
    began = feedback = result = None
    n = 0
    outputs = {k: None for k in node.node_config.outputs}
    left = depth(ctx.tier, start) + (start == "new")
    script = list(STARTS[start])
    while script or left:
        if script:
            op = script.pop(0)
        else:
            left -= 1
            op = ch.choose(OPS)
        trace.append(op)
        if op == "tick":
            before = len(ros.goals)
            asked = {id(g): len(g.handle.cancel_requests) for g in goals if g.handle}
            send, cancel, marked = False, None, {}
            again = (again or changed) if phase != "idle" else False
            if changed and phase == "running":
                phase = "cancel due"
            changed = False
            want = RUNNING
            if phase == "idle":
                send = True
                phase, feedback, result = "sent", None, None
            elif phase == "sent":
                if current.answered:
                    if current.refused:
                        phase, want = "done", RUNNING if again else FAIL
                    else:
                        phase, began = ("cancel due" if again else "running"), ros.now_ns
            elif phase == "cancel due":
                cancel, phase = current, "canceling"
            elif phase == "canceling":
                if current.handle.cancel_requests[-1].done():
                    phase, want = "done", RUNNING if again else FAIL
            elif phase == "running":
                if result is not None:
                    status, value = result
                    phase, want = "done", SUCC if status == 4 else FAIL
                    marked = {k: f(value) for k, f in show_result.items()}
                elif ros.now_ns - began > TIMEOUT * 1e9:
                    phase = "cancel due"
                elif feedback is not None:
                    marked = {k: f(feedback) for k, f in show_feedback.items()}
                    feedback = None
            elif phase == "done":
                if again:
                    phase = "idle"
                else:
                    want = state
            old = {k: v for k, v in outputs.items()}
            outputs.update(marked)
            res = node.tick()
            ctx.step()
            if res.is_err() or res.ok() != want or node.state != want:
                bad(f"tick is {res}, not {want}", f"{phase} {node.state}")
            state = want
            new = ros.goals[before:]
            if len(new) != int(send):
                bad(f"{len(new)} goals sent in one tick", f"expected {int(send)}")
            if send:
                current = Goal(new[0])
                goals.append(current)
                g = new[0]
                if g["client"].action_name != values["action_name"] or g["client"].action_type is not atype:
                    bad(f"the goal goes to {g['client'].action_name}", values["action_name"])
                if {k: getattr(g["goal"], k) for k in fields} != {k: values[k] for k in fields}:
                    bad(f"the goal is {g['goal']}", str(values))
            for g in goals:
                if g.handle is not None:
                    more = len(g.handle.cancel_requests) - asked.get(id(g), 0)
                    if more != int(g is cancel):
                        bad(f"goal {goals.index(g)} was canceled {more} times in this tick", f"expected {int(g is cancel)}")
            for k, (v, upd) in leaf.outputs(node).items():
                if v != outputs[k]:
                    bad(f"output {k} is {v!r}", f"expected {outputs[k]!r}")
                if upd and k not in marked:
                    bad(f"output {k} is marked as new", repr(v))
                if not upd and k in marked and old[k] != v:
                    bad(f"output {k} is not marked as new", repr(v))
        elif op in ("untick", "reset", "restart"):
            if op == "restart":
                if node.shutdown().is_err():
                    bad("shutdown failed")
            elif getattr(node, op)().is_err():
                bad(f"{op} failed")
            ctx.step()
            if phase in ("sent", "running", "cancel due") and not (current.refused and current.answered):
                current.abandoned = True
            if op != "untick":
                keep = {g.entry["client"] for g in goals if g.abandoned and not g.answered}
                if any(not c.destroyed and c not in keep for c in ros.action_clients):
                    bad(f"a client is left after {op}")
                outputs = {k: None for k in outputs}
                changed = True
            check(bad, goals)
            if op == "restart":
                setup()
            if node.state != IDLE:
                bad(f"{op} leaves the node {node.state}")
            phase, again, state, current, feedback, result = "idle", False, IDLE, None, None, None
        elif op in ("goal", "name"):
            k = first if op == "goal" else "action_name"
            dom = fields[first] if op == "goal" else NAMES
            values[k] = dom[1 - dom.index(values[k])]
            node.node_config.inputs[k].set_value(values[k]).unwrap()
            changed = True
        elif op in ("accept", "reject"):
            if current is None or current.answered:
                return None
            current.answer(op == "accept")
        elif op == "feedback":
            if current is None or current.refused or current.ended:
                return None
            n = n % 2 + 1
            current.entry["feedback"](Wrapped(feedback=make_feedback(n)))
            feedback = n
        elif op in ("succeed", "abort", "canceled"):
            if current is None or current.handle is None or current.handle.result_future is None or current.ended or \
                    current.handle.result_future.done():
                return None
            current.ended = True
            n = n % 2 + 1
            status = {"succeed": 4, "abort": 6, "canceled": 5}[op]
            result = (status, n)
            current.handle.result_future.set_result(Wrapped(result=make_result(n), status=status))
        elif op == "cancel_ok":
            waiting = [f for f in current.handle.cancel_requests if not f.done()] if current is not None and current.handle else []
            if not waiting:
                return None
            waiting[0].set_result(Wrapped(goals_canceling=[], return_code=0))
        elif op in ("exactly", "little"):
            if phase != "running":
                return None
            ros.advance(TIMEOUT if op == "exactly" else 0.001)
        elif op == "old_accept":
            waiting = [g for g in goals if g is not current and not g.answered]
            if not waiting:
                return None
            waiting[0].answer(True)
        elif op == "old_feedback":
            stale = [g for g in goals if g is not current]
            if not stale:
                return None
            stale[-1].entry["feedback"](Wrapped(feedback=make_feedback(9)))
        elif op == "old_result":
            stale = [g for g in goals if g is not current and g.handle and g.handle.result_future and not g.handle.result_future.done()]
            if not stale:
                return None
            stale[-1].handle.result_future.set_result(Wrapped(result=make_result(9), status=4))
        elif op == "old_cancel_ok":
            stale = [f for g in goals if g is not current and g.handle for f in g.handle.cancel_requests if not f.done()]
            if not stale:
                return None
            stale[0].set_result(Wrapped(goals_canceling=[], return_code=0))
        check(bad, goals)
        live = [c for c in ros.action_clients if not c.destroyed]
        keep = {g.entry["client"] for g in goals if g.abandoned and not g.answered}
        if len([c for c in live if c not in keep]) > 1:
            bad(f"{len(live)} clients exist")
        for g in goals:
            if not g.answered and g.entry["client"].destroyed:
                bad(f"the client of goal {goals.index(g)} was destroyed before the goal was answered")
        model = (kind, phase, changed, again, state, sorted(values.items()), sorted((k, str(v)) for k, v in outputs.items()), feedback, result, n,
                 None if phase != "running" else min(ros.now_ns - began, 10**10),
                 current and current.key(), sorted(str(g.key()) for g in goals if g is not current and (not g.answered or not g.ended)),
                 len(live))
        ctx.state(model)
        if not script and ctx.visited(ch, (model, repr(leaf.inside(node, ros))), left):
            return trace
    ctx.outcome(tuple(trace))
    return trace


def check(bad, goals):
    """An abandoned goal is canceled as soon as the server has accepted it."""
    active = []
    for i, g in enumerate(goals):
        if g.handle is None or g.refused:
            continue
        canceled = len(g.handle.cancel_requests)
        if g.abandoned and not canceled and not g.ended:
            bad(f"goal {i} was abandoned and not canceled")
        if canceled > 1:
            bad(f"goal {i} was canceled {canceled} times")
        done = g.handle.result_future is not None and g.handle.result_future.done()
        if not canceled and not done and not g.ended:
            active.append(i)
    if len(active) > 1:
        bad(f"goals {active} are active at the same time")
