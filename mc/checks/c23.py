"""C23: the execution state machine."""

from mc import execution as ex, sched, treemgr as tm
from mc.core import Violation
from mc.execution import B

ID = "C23"
TECHNIQUE = "explicit-state exploration of the real tree manager: all command histories to a depth, its ticking thread run by a controlled scheduler in virtual time, against a reference state machine"
NOTE = "commands one at a time (C24 interleaves them); node steps take no time; states merged by tree state, node states and the manager's plain attributes"

ACTIONS = [(ex.NOTHING, 0.0), (ex.ONCE, 0.0), (ex.PERIODIC, 0.0), (ex.PERIODIC, 20.0), (ex.PERIODIC, 5.0), (ex.UNTIL, 0.0),
           (ex.UNTIL, 20.0), (ex.STOP, 0.0), (ex.RESET, 0.0), (ex.SHUTDOWN, 0.0), (ex.SETUP, 0.0), (99, 0.0), ("wait", 1), ("wait", 4)]
ODD = (-1.0, float("nan"), float("inf"), 1e-300)
DEPTH = {"leaf": (4, 7), "pauser": (4, 6), "pair": (3, 5), "wired": (3, 5)}


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"trees of 1 and 3 nodes (one whose root pauses when it is unticked, loaded with another frequency), {len(ACTIONS)} actions (8 commands, 3 frequencies, unknown command, waiting 1 or 4 periods), histories up to depth "
            f"{ {k: v[t] for k, v in DEPTH.items()} }, leaf results all 3 at the first {3 if t else 2} ticks of an action and repeated then")


def shards(tier):
    out = [(tree, i) for tree in DEPTH for i in range(len(ACTIONS)) if ACTIONS[i][0] in (ex.ONCE, ex.PERIODIC, ex.UNTIL, ex.SETUP, ex.SHUTDOWN)]
    return out + [(tree, "rest") for tree in DEPTH] + [("leaf", "odd"), ("empty", "odd"), ("forest", "odd")]


def run(shard, ctx):
    tree, what = shard
    if what == "odd":
        odd(tree, ctx)
        return
    depth = DEPTH[tree][ctx.thorough]
    if what == "rest":
        for i, a in enumerate(ACTIONS):
            if a[0] not in (ex.ONCE, ex.PERIODIC, ex.UNTIL, ex.SETUP, ex.SHUTDOWN):
                ctx.explore(lambda ch: body(ch, ctx, tree, depth), f"{tree} {i}", (i,))
    else:
        ctx.explore(lambda ch: body(ch, ctx, tree, depth), f"{tree} {what}", (what,))


class Script:
    def __init__(self, ch, box, fresh):
        self.ch, self.box, self.fresh = ch, box, fresh
        self.left, self.last = 0, None
        self.pauses = False

    def start(self):
        self.left, self.last = self.fresh, None

    def answer(self, node, op):
        if op == "untick" and self.pauses:
            return B.PAUSED
        if op != "tick" or type(node).__name__ != "Src":
            return None
        if self.left > 0 or self.last is None:
            self.left -= 1
            self.last = self.ch.choose([B.SUCCEEDED, B.RUNNING, B.FAILED])
        return self.last


def body(ch, ctx, tree, depth):
    box = ex.Box("leaf", hz=40.0) if tree == "pauser" else ex.Box(tree)
    script = Script(ch, box, 3 if ctx.thorough else 2)
    script.pauses = tree == "pauser"
    box.answer = script.answer
    s = sched.Scheduler(ch, 0, ros=box.run.ros, free=False)
    trace = []

    def client():
        state = ex.EDITABLE
        for step in range(depth):
            action = ch.choose(ACTIONS)
            script.start()
            state = act(box, s, state, action, trace, script)
            ctx.step()
            key = (state, box.snapshot(), ex.phase(s))
            ctx.state(key)
            if ctx.visited(ch, key, depth - step):
                return

    s.spawn(client, "client")
    try:
        s.run()
    finally:
        box.drop()
    if s.crashed:
        raise Violation(f"the ticking thread died after {trace}", repr(s.crashed))
    return trace


def check(ok, what, trace, detail=""):
    if not ok:
        raise Violation(f"{what} after {name(trace)}", detail)


def name(trace):
    return " ".join(str(t) for t in trace)


def act(box, s, state, action, trace, script):
    command, arg = action
    hz = box.m.tick_frequency_hz
    box.take()
    before, nodes = box.snapshot(), box.states()
    if command == "wait":
        trace.append(f"wait{arg}")
        s.sleep(arg / hz)
        n = sum(1 for op, who in box.log if op == "tick" and who == box.root)
        if state == ex.TICKING and not box.until:
            check(abs(n - arg) <= 1, "a periodic run does not tick once per period", trace, f"{n} ticks in {arg} periods of {1 / hz} s")
        if state != ex.TICKING:
            check(not box.log, "nodes are active although nothing executes", trace, repr(box.log))
            return state
        return settled(box, s, state, trace, script)

    trace.append(ex.NAMES[command] if command < 8 else str(command))
    if arg:
        trace[-1] += f"@{arg:g}"
    want = ex.accepted(state, command)
    res = box.control(command, arg)
    s.sleep(0.25 / box.m.tick_frequency_hz if command in (ex.PERIODIC, ex.UNTIL) and want else 0.0)
    detail = f"in {state}: success={res.success} state={res.tree_state!r} message={res.error_message!r} now {box.m.state} {box.states()} {box.log}"
    check(bool(res.success) == want, "an allowed command is refused" if want else "a command is accepted where it is not defined", trace, detail)
    if not want or command == ex.NOTHING:
        now = box.snapshot()
        check(now[0] == before[0], "a command without effect changes the tree's state", trace, detail)
        if state != ex.TICKING:
            check(now[1:3] == before[1:3] and not box.log, "a command without effect changes the tree", trace, detail + repr(now) + repr(before))
        check(res.tree_state in (("",) if not want else ()) + (box.m.state,), "the answer does not tell the tree's state", trace, detail)
        return state

    ticks = sum(1 for op, who in box.log if op == "tick" and who == box.root)
    check(command == ex.RESET or all(op != "reset" for op, _ in box.log), "a node is reset", trace, detail)
    if command == ex.ONCE:
        check(ticks == 1, "not exactly one tick", trace, detail)
        new = ex.WAITING
    elif command in (ex.PERIODIC, ex.UNTIL):
        check(ticks == 1, "the first tick does not happen", trace, detail)
        check(box.m.tick_frequency_hz == (arg or hz), "the frequency is not the requested one", trace, detail)
        box.until = command == ex.UNTIL
        new = ex.TICKING
        check(res.tree_state in (ex.TICKING, box.m.state), "the answer does not tell the tree's state", trace, detail)
        return settled(box, s, new, trace, script)
    elif command == ex.STOP:
        new = ex.IDLE
        check(B.RUNNING not in dict(box.states()).values(), "a node is still running", trace, detail)
        if state in (ex.TICKING, ex.WAITING):
            check(("untick", box.root) in box.log, "the tree is not unticked", trace, detail)
    elif command == ex.RESET:
        new = ex.IDLE
        check(set(dict(box.states()).values()) == {B.IDLE}, "not every node is idle", trace, detail)
        check({who for op, who in box.log if op == "reset"} == {f"n{k}" for k, _ in nodes}, "not every node is reset", trace, detail)
    else:
        new = ex.EDITABLE
        final = {B.SHUTDOWN} if B.UNINITIALIZED not in dict(nodes).values() else {B.SHUTDOWN, B.UNINITIALIZED}
        check(set(dict(box.states()).values()) <= final, "not every node is shut down", trace, detail)
        live = {f"n{k}" for k, v in nodes if v not in (B.SHUTDOWN, B.UNINITIALIZED)}
        check(live <= {who for op, who in box.log if op == "shutdown"}, "not every node shuts down", trace, detail)
    check(res.tree_state == new, "the answer does not tell the tree's new state", trace, detail)
    check(box.m.state == new, "the tree is not in the state the command leads to", trace, detail)
    check(not box.alive(), "the ticking thread is still there", trace, detail)
    box.take()
    s.sleep(2.1 / box.m.tick_frequency_hz)
    check(not box.log, "nodes are active although nothing executes", trace, repr(box.log))
    s.sleep(0.4 / box.m.tick_frequency_hz)
    return new


def settled(box, s, state, trace, script):
    """While ticking: has the run ended by itself, and rightly so?"""
    detail = f"{box.m.state} {box.states()} {box.log} {box.results}"
    if box.until and any(r != B.RUNNING for r in box.results):
        check(all(r == B.RUNNING for r in box.results[:-1]), "ticked on after a result", trace, detail)
        check(box.m.state == ex.IDLE, "a run until a result does not end with it", trace, detail)
        check(not box.alive(), "the ticking thread is still there", trace, detail)
        check(set(dict(box.states()).values()) == {B.PAUSED if script.pauses else B.IDLE}, "not every node is unticked", trace, detail)
        check(all(op != "reset" for op, _ in box.log), "a node is reset", trace, detail)
        return ex.IDLE
    check(box.m.state == ex.TICKING and box.alive(), "the execution ended by itself", trace, detail)
    return ex.TICKING


def odd(tree, ctx):
    """Frequencies that are none, and trees that cannot be executed: nothing breaks, and shutdown leads back."""
    starts = {"leaf": ex.TREES["leaf"], "empty": None, "forest": tm.Model([("0", "Src", "int", []), ("1", "Flow", "0", ["2"]), ("2", "Src", "int", [])])}
    actions = [(c, hz) for c in (ex.ONCE, ex.PERIODIC, ex.UNTIL) for hz in ODD] if tree == "leaf" else [(c, 0.0) for c in list(range(8)) + [99]]

    def body(ch):
        box = ex.Box(starts[tree])
        s = sched.Scheduler(ch, 0, ros=box.run.ros, free=False)
        trace = []

        def client():
            for step in range(2):
                c, hz = ch.choose(actions)
                trace.append(f"{ex.NAMES[c] if c < 8 else c}@{hz:g}")
                res = box.control(c, hz)
                check(tree == "leaf" or not box.log, "a tree without a root is executed", trace, repr(box.log))
                check(not res.success or c not in (ex.PERIODIC, ex.UNTIL) or tree != "leaf" or box.m.state in (ex.TICKING, ex.IDLE), "accepted but not ticking", trace, box.m.state)
                s.sleep(0.35)
                ctx.step()
            res = box.control(ex.SHUTDOWN)
            detail = f"{res.success} {res.error_message} {box.m.state}"
            check(res.success and box.m.state == res.tree_state == ex.EDITABLE, "shutdown does not lead back", trace, detail)
            res = box.run.call("change_tree_name", name="other")
            check(res.success, "not editable after shutdown", trace, res.error_message)
            ctx.state((box.m.state, tuple(trace)))

        s.spawn(client, "client")
        try:
            s.run()
        finally:
            box.drop()
        if s.crashed:
            raise Violation(f"the ticking thread died after {name(trace)}", repr(s.crashed))
        return trace

    ctx.explore(body, tree)
