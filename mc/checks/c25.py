"""C25: faults of nodes during an execution."""

from mc import execution as ex, sched
from mc.core import Violation
from mc.execution import B, Err

from ros_bt_py.exceptions import BehaviorTreeException

ID = "C25"
TECHNIQUE = "exhaustive fault injection on the real tree manager under a controlled scheduler: an error or exception at every single operation of every node in all command histories to a depth, then every recovery"
NOTE = "one fault per history (thorough: also a second one during the recovery); commands one at a time; any exception type stands for all"

ACTIONS = [(ex.ONCE, 0), (ex.PERIODIC, 0), (ex.UNTIL, 0), ("wait", 1), (ex.STOP, 0), (ex.RESET, 0), (ex.SHUTDOWN, 0), (ex.SETUP, 0)]
RECOVERY = ["shutdown", "others first", "edit first", "wait first"]
RESTART = [ex.ONCE, ex.PERIODIC, ex.UNTIL]


def BOUNDS(tier):
    return (f"trees {list(ex.TREES)}, command histories up to {4 if tier == 'thorough' else 3} actions of {len(ACTIONS)}, a fault (error or exception) at each "
            f"setup/tick/untick/reset/shutdown step of each node, {len(RECOVERY)} recoveries x {len(RESTART)} restarts"
            + (", a second fault during recovery" if tier == "thorough" else ""))


def shards(tier):
    return [(tree, i) for tree in ex.TREES for i in range(4)] + [(tree, "rest") for tree in ex.TREES]


def run(shard, ctx):
    tree, what = shard
    for i in range(len(ACTIONS)):
        if i == what or what == "rest" and i >= 4:
            ctx.explore(lambda ch: body(ch, ctx, tree), f"{tree} {i}", (i,))


class Fault(Exception):
    pass


def body(ch, ctx, tree):
    depth = (4 if ctx.thorough else 3) - (tree == "wired")
    box = ex.Box(tree)
    s = sched.Scheduler(ch, 0, ros=box.run.ros, free=False)
    trace, faults = [], []
    allowed = [1]

    def answer(node, op):
        leaf = op == "tick" and type(node).__name__ == "Src"
        normal = [B.SUCCEEDED, B.RUNNING] if leaf and len(faults) == 0 else [None]
        if len(faults) >= allowed[0]:
            return normal[0]
        pick = ch.choose(normal + ["err", "raise"])
        if pick in ("err", "raise"):
            faults.append((op, node.name, pick))
            trace.append(f"<{op} {node.name} {pick}>")
            return Err(BehaviorTreeException("fault")) if pick == "err" else Fault("fault")
        return pick

    box.answer = answer

    def check(ok, what, detail=""):
        if not ok:
            raise Violation(f"{what}: {' '.join(trace)}", detail)

    def do(command, hz=0.0):
        trace.append(ex.NAMES[command])
        try:
            return box.control(command, hz)
        except Fault as f:
            check(False, "a node's exception reaches the client", repr(f))

    def client():
        for step in range(depth):
            c, arg = ch.choose(ACTIONS)
            if step == 1 and ch.choices[0] >= 3 and not ctx.thorough and ch.choices[1] >= 3:
                return  # what changes nothing or next to nothing twice
            if c == "wait":
                trace.append("wait")
                s.sleep(1.3 / box.m.tick_frequency_hz)
                res = None
            else:
                res = do(c)
                if c in (ex.PERIODIC, ex.UNTIL) and res.success:
                    s.sleep(0.3 / box.m.tick_frequency_hz)
            ctx.step()
            if faults:
                recover(c, res)
                return
            key = (box.snapshot(), ex.phase(s))
            ctx.state(key)
            if ctx.visited(ch, key, depth - step):
                return

    def recover(c, res):
        op, who, kind = faults[0]
        detail = f"{box.m.state} {box.states()} {res and (res.success, res.tree_state, res.error_message)} {box.log} {s.crashed}"
        check(not s.crashed, "the ticking thread dies", detail)
        s.sleep(3 / box.m.tick_frequency_hz)
        detail += f" later {box.m.state} {box.states()}"
        check(not box.alive(), "the execution does not end", detail)
        check(box.m.state == ex.ERROR, "no error state", detail)
        check(box.run.state[1] == ex.ERROR, "the error state is not published", f"{box.run.state} {detail}")
        if res is not None and c in (ex.ONCE, ex.STOP, ex.RESET, ex.SHUTDOWN):
            check(not res.success, "a command whose work failed reports success", detail)
            check(bool(res.error_message), "the answer names no problem", detail)
            check(res.tree_state in ("", box.m.state), "the answer does not tell the tree's state", detail)
        key = (faults, c, res and (res.success, res.tree_state), box.snapshot())
        ctx.state(key)
        if ctx.visited(ch, key, 0):
            return
        way = ch.choose(RECOVERY)
        trace.append(way)
        box.take()
        if way == "wait first":
            s.sleep(1.0)
        elif way == "edit first" and box.m.state == ex.ERROR:
            r = box.run.call("change_tree_name", name="other")
            check(not r.success, "a tree with errors is edited", "")
        elif way == "others first" and box.m.state == ex.ERROR:
            for c2 in (ex.NOTHING, ex.ONCE, ex.PERIODIC, ex.UNTIL, ex.STOP, ex.RESET, ex.SETUP):
                r = do(c2)
                check(not r.success and box.m.state == ex.ERROR, "a command other than shutdown is accepted in the error state", f"{r} {box.m.state}")
        check(way == "shutdown" or not box.log or box.m.state != ex.ERROR, "nodes are active in the error state", repr(box.log))
        before = len(faults)
        allowed[0] = 2 if ctx.thorough else 1
        r = do(ex.SHUTDOWN)
        if len(faults) > before:
            check(box.m.state == ex.ERROR, "no error state", box.m.state)
            r = do(ex.SHUTDOWN)
        allowed[0] = 0
        detail = f"{r.success} {r.tree_state} {r.error_message!r} {box.m.state} {box.states()}"
        check(r.success and r.tree_state == box.m.state == ex.EDITABLE, "shutdown does not recover", detail)
        check(B.RUNNING not in dict(box.states()).values(), "a node is running after shutdown", detail)
        r = box.run.call("change_tree_name", name="other")
        check(r.success, "not editable after shutdown", r.error_message)
        again = ch.choose(RESTART)
        box.take()
        r = do(again)
        if again != ex.ONCE:
            s.sleep(1.3 / box.m.tick_frequency_hz)
        detail = f"{r.success} {r.error_message!r} {box.m.state} {box.states()} {box.log}"
        check(r.success and box.ticks() >= 1, "the tree cannot be started again", detail)
        check(box.m.state == {ex.ONCE: ex.WAITING, ex.PERIODIC: ex.TICKING, ex.UNTIL: ex.IDLE}[again], "the restarted tree does not run", detail)
        check(box.log[0][0] == "setup", "the nodes are not set up again", detail)
        ctx.count("faults recovered")

    s.spawn(client, "client")
    try:
        s.run()
    finally:
        box.drop()
    return trace
