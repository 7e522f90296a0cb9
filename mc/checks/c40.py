from mc import leaf, standins, zoo
from mc.core import Violation
from mc.treekit import Env, FAIL, IDLE, PAUSED, RUNNING, SUCC

from ros_bt_py.ros_nodes.throttle import Throttle, ThrottleSuccess
from ros_bt_py.ros_nodes.time import GetTimeNow
from ros_bt_py.ros_nodes.wait import Wait

TECHNIQUE = ("explicit-state model checking: every interleaving of node operations, clock steps and child results on the real nodes "
             "against reference models, equal states merged")
NOTE = ("Complete up to the depth bound for the stated alphabets. The clock is a stand-in that only moves when told to. Two histories "
        "are merged when the model and the node's attributes (counters excepted) agree.")
ID = "C40"
PERIODS = (0.0, 2.0, 0.3)
OPS = ("tick", "untick", "reset", "restart", "below", "exactly", "little", "long")
CLASSES = {"Wait": Wait, "Throttle": Throttle, "ThrottleSuccess": ThrottleSuccess, "GetTimeNow": GetTimeNow}


def depth(tier):
    return 9 if tier == "thorough" else 6


def BOUNDS(tier):
    return (f"{', '.join(CLASSES)} with periods {PERIODS} s and 0 or 1 children answering SUCCEEDED, FAILED or RUNNING: all histories of "
            f"{depth(tier)} of {len(OPS)} operations, clock steps of a period, a nanosecond less, a nanosecond, ten periods and a second")


def shards(tier):
    out = []
    for c in CLASSES:
        for p in PERIODS if c != "GetTimeNow" else (0.0,):
            for kids in (0, 1) if c.startswith("T") else (0,):
                out += [[c, p, kids, op] for op in OPS]
    return out


def run(shard, ctx):
    c, p, kids, op = shard
    ctx.explore(lambda ch: history(ch, ctx, c, p, kids), f"{c} {p} {kids}", start=(OPS.index(op),))


def history(ch, ctx, label, period, kids):
    trace = []

    def answer(node, op):
        return ch.choose((SUCC, FAIL, RUNNING)) if op == "tick" else None

    env = Env(answer)
    key = {"Wait": "seconds_to_wait", "GetTimeNow": None}.get(label, "tick_interval")
    rig = zoo.Rig(CLASSES[label], values={key: period} if key else {}, env=env, children=kids)
    node, ros = rig.node, rig.ros
    ros.now_ns = 1_000_000_000_123  # not a whole number of anything
    ns = round(period * 1e9)

    def bad(what, detail=""):
        raise Violation(f"{label} {period} {kids}: {what} after {trace}", detail)

    if node.setup().is_err():
        bad("setup failed")
    since, last, state = None, FAIL, IDLE  # start of the wait / time of the last result (success)
    shown = None
    left = depth(ctx.tier)
    while left:
        left -= 1
        op = ch.choose(OPS)
        trace.append(op)
        if op == "tick":
            mark = len(env.log)
            res = node.tick()
            ctx.step()
            got = None if res.is_err() else res.ok()
            ticks = [x[2] for x in env.log[mark:] if x[0] == "tick"]
            trace[-1] = ("tick", *ticks) if kids else "tick"
            if label == "Wait":
                since = ros.now_ns if since is None else since
                want, child = (SUCC if ros.now_ns - since >= ns else RUNNING), []
            elif label == "GetTimeNow":
                want, child = SUCC, []
                t = node.node_config.outputs["current_time"].get_value().ok()
                if (t.sec, t.nanosec) != divmod(ros.now_ns, 10**9):
                    bad(f"the time is {t}", str(ros.now_ns))
            elif since is not None and ros.now_ns - since <= ns:
                want, child = (last if label == "Throttle" else FAIL), []
            elif not kids:
                want, child = (last if label == "Throttle" else FAIL), []
            else:
                child = ticks[:1]
                if not child:
                    bad("the child was not ticked", f"last at {since}, now {ros.now_ns}")
                want = child[0]
                if want == SUCC or (want == FAIL and label == "Throttle"):
                    since, last = ros.now_ns, want
            if got != want or node.state != want:
                bad(f"tick is {res}, not {want}", node.state)
            if ticks != child:
                bad(f"the child was ticked {len(ticks)} times, not {len(child)}")
            if label == "GetTimeNow" and not node.node_config.outputs["current_time"].is_updated():
                if shown != ros.now_ns:
                    bad("the time is not marked as new")
            state, shown = want, ros.now_ns
        elif op in ("untick", "reset", "restart"):
            if op == "restart":
                if node.shutdown().is_err() or node.setup().is_err():
                    bad("shutdown and setup failed")
            elif getattr(node, op)().is_err():
                bad(f"{op} failed")
            if op != "untick":
                since, last, shown = None, FAIL, None
            state = node.state
            if state != IDLE and not (state == PAUSED and op == "untick"):
                bad(f"{op} leaves the node {state}")
            if any(k.state == RUNNING for k in rig.kids):
                bad(f"{op} leaves the child running")
        else:
            ros.now_ns += {"below": max(ns - 1, 0), "exactly": ns, "little": 1, "long": 10 * ns + 10**9}[op]
        model = (label, period, kids, state, last, None if since is None else min(ros.now_ns - since, 2 * ns + 2),
                 [k.state for k in rig.kids])
        ctx.state(model)
        if ctx.visited(ch, (model, repr(leaf.inside(node, ros)), shown == ros.now_ns), left):
            return trace
    ctx.outcome(tuple(map(str, trace)))
    return trace
