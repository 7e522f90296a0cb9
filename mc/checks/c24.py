"""C24: concurrent execution commands."""

from mc import execution as ex, sched
from mc.core import Violation
from mc.execution import B

ID = "C24"
TECHNIQUE = "stateless model checking of the real code: all schedules of two commands and the ticking thread up to a preemption bound, switching at every source line of the tree manager and every lock, thread and sleep operation"
NOTE = "virtual time passes only when every thread waits; switches inside one source line are not explored; two clients at most"

COMMANDS = [ex.ONCE, ex.PERIODIC, ex.UNTIL, ex.STOP, ex.RESET, ex.SHUTDOWN, ex.SETUP]
STARTS = {
    "editable": [], "shutdown": [ex.ONCE, ex.SHUTDOWN], "idle": [ex.ONCE, ex.STOP], "waiting": [ex.ONCE], "ticking": [ex.PERIODIC],
    "until": [ex.UNTIL], "ending": [ex.UNTIL],
}
FILES = sched.files("ros_bt_py.tree_exec_manager")
PERIOD = 0.1


def BOUNDS(tier):
    return (f"starting states {list(STARTS)}, all unordered pairs of {len(COMMANDS)} commands"
            + (", fast and slow ticks, 2 preemptions at lock/thread/sleep operations and in-tick points, and 1 preemption at every source line"
               if tier == "thorough" else ", 1 preemption: at every lock, thread and sleep operation (slow ticks); at every source line (fast ticks) "
               "for all pairs when editable, else for single commands"))


def shards(tier):
    out = []
    for start in STARTS:
        for i, a in enumerate(COMMANDS):
            for b in COMMANDS[i:]:
                modes = ["slow"] + (["line"] if start == "editable" else [])
                if tier == "thorough":
                    modes = ["line", "slow", "slowline", "coarse", "slowcoarse"]
                out += [(start, a, b, mode) for mode in modes]
            out.append((start, ex.NOTHING, a, "line"))
    return out


def run(shard, ctx):
    start, a, b, mode = shard
    ctx.explore(lambda ch: body(ch, ctx, start, (a, b), mode), f"{start} {ex.NAMES[a]} {ex.NAMES[b]} {mode}")


def body(ch, ctx, start, commands, mode):
    box = ex.Box("leaf")
    s = sched.Scheduler(ch, 0, FILES if "line" in mode else (), ros=box.run.ros, free=False)
    title = f"{start} {ex.NAMES[commands[0]]}||{ex.NAMES[commands[1]]}"
    events, inside = [], [0]
    ticks = [0]
    end_at = {"ending": 3}.get(start)

    def fail(what, detail=""):
        raise Violation(f"{title}: {what}", f"{detail} state {box.m.state} {box.states()} events {events} schedule {s.trail}")

    def answer(node, op):
        if op != "tick":
            return None
        inside[0] += 1
        events.append(("tick", s.current.name))
        ticks[0] += 1
        if inside[0] > 1:
            fail("two ticks overlap")
        s.point("in tick")
        if "slow" in mode:
            s.sleep(0.4 * PERIOD)
        inside[0] -= 1
        return B.SUCCEEDED if end_at is not None and ticks[0] >= end_at else B.RUNNING

    box.answer = answer

    def call(command, who):
        events.append(("call", who, ex.NAMES[command]))
        try:
            res = box.control(command)
        except Exception as err:
            fail(f"{ex.NAMES[command]} is not answered", repr(err))
        events.append(("answer", who, ex.NAMES[command], bool(res.success), res.tree_state, res.error_message))
        return res

    done = []

    def client(command, who):
        def script():
            call(command, who)
            done.append(who)
        return script

    def supervisor():
        s.quiet += 1
        for c in STARTS[start]:
            if not call(c, "setup").success:
                fail("cannot reach the starting state")
            if c in (ex.PERIODIC, ex.UNTIL):
                s.sleep(2 * PERIOD)  # when the next tick is due
        del events[:]
        s.quiet -= 1
        s.bound = 2 if "coarse" in mode else 1
        s.free = True
        s.spawn(client(commands[0], "A"), "A")
        s.spawn(client(commands[1], "B"), "B")
        s.block(lambda: len(done) == 2)
        s.bound, s.free = 0, False
        s.quiet += 1
        rest()

    def rest():
        s.sleep(4.2 * PERIOD)
        check_history()
        alive, n = box.alive(), ticks[0]
        s.sleep(4 * PERIOD)
        state = box.m.state
        if state == ex.TICKING:
            if ticks[0] == n and not alive:
                fail("the tree claims to tick, but nothing does")
            if ticks[0] - n > 5:
                fail("the tree ticks more often than once per period", ticks[0] - n)
        elif ticks[0] != n or box.alive():
            fail(f"the tree is said to be {state}, but it ticks")
        elif state not in (ex.EDITABLE, ex.IDLE, ex.WAITING):
            fail(f"the tree ends up in state {state}")
        elif state == ex.IDLE and B.RUNNING in dict(box.states()).values():
            fail("nodes of an idle tree are running")
        elif state == ex.EDITABLE and set(dict(box.states()).values()) - {B.SHUTDOWN, B.UNINITIALIZED}:
            fail("the tree is editable, but not shut down")
        outcome = (state, dict(box.states()), [e[2:5] for e in events if e[0] == "answer"])
        ctx.outcome(outcome)
        ctx.state((title, outcome, s.points))
        if state == ex.TICKING:
            res = call(ex.STOP, "end")
            n = ticks[0]
            s.sleep(4 * PERIOD)
            if not res.success or box.m.state != ex.IDLE or ticks[0] != n:
                fail("a ticking tree cannot be stopped", f"{res} {ticks[0] - n} ticks")
        res = call(ex.SHUTDOWN, "end")
        if not res.success or box.m.state != ex.EDITABLE or set(dict(box.states()).values()) - {B.SHUTDOWN, B.UNINITIALIZED}:
            fail("the tree cannot be shut down", res)
        n = ticks[0]
        res = call(ex.ONCE, "end")
        if not res.success or ticks[0] != n + 1 or box.m.state != ex.WAITING:
            fail("the tree cannot be started again", res)

    def check_history():
        calls = {}
        for i, e in enumerate(events):
            if e[0] == "call":
                calls[e[1]] = i
        answers = {e[1]: (i, e[2], e[3]) for i, e in enumerate(events) if e[0] == "answer"}
        for who, (i, command, success) in answers.items():
            if not success or command not in ("stop", "shutdown", "setup"):
                continue
            restarted = any(c in ("once", "periodic", "until") and ok and j > calls[who] for w, (j, c, ok) in answers.items() if w != who)
            if not restarted and any(e[0] == "tick" for e in events[i:]):
                fail(f"a node is ticked after {command} was answered")

    s.spawn(supervisor, "supervisor")
    try:
        s.run()
    finally:
        box.drop()
    if s.crashed:
        raise Violation(f"{title}: the ticking thread died", repr(s.crashed))
    ctx.step(s.points)
    return events
