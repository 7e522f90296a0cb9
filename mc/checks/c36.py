from mc import leaf, standins, zoo
from mc.core import Violation
from mc.treekit import FAIL, IDLE, RUNNING, SUCC

import example_interfaces.srv as es
from ros_bt_py.ros_nodes.service import WaitForService

TECHNIQUE = ("explicit-state model checking: every interleaving of node operations, availability and name changes and clock steps on the "
             "real node against a reference model, equal states merged")
NOTE = ("Complete up to the depth bound for the stated alphabets. Availability and time come from a stand-in for the ROS graph. Two "
        "histories are merged when the model and the node's attributes (counters excepted) agree.")
ID = "C36"
NAMES = ("/one", "/two")
OPS = ("tick", "untick", "reset", "restart", "name", "toggle0", "toggle1", "exactly", "little", "half")


def depth(tier):
    return 10 if tier == "thorough" else 7


def BOUNDS(tier):
    return f"timeouts 0, 2.0 and 10.2 (default) s, name dynamic or static, two services: all histories of {depth(tier)} of {len(OPS)} operations"


def shards(tier):
    return [[t, static, op] for t in (0.0, 2.0, None) for static in (False, True) for op in OPS]


def run(shard, ctx):
    timeout, static, first = shard
    ctx.explore(lambda ch: history(ch, ctx, timeout, static), f"{timeout} {static}", start=(OPS.index(first),))


def history(ch, ctx, timeout, static):
    seconds = 10.2 if timeout is None else timeout
    fixed = {"service_type": es.AddTwoInts}
    if timeout is not None:
        fixed["wait_for_service_seconds"] = timeout
    if static:
        fixed["service_name"] = NAMES[0]
    rig = zoo.Rig(WaitForService, values=fixed, dynamic=[{} if static else {"service_name": None}])
    node, ros = rig.node, rig.ros
    up = {n: False for n in NAMES}
    ros.service_ready = lambda name: up[name]
    name = NAMES[0]
    trace = []

    def bad(what, detail=""):
        raise Violation(f"timeout {timeout}{' static' if static else ''}: {what} after {trace}", detail)

    def setup():
        if node.setup().is_err():
            bad("setup failed")
        if not static:
            node.node_config.inputs["service_name"].set_value(name).unwrap()

    setup()
    began, state, changed = None, IDLE, True
    left = depth(ctx.tier)
    while left:
        left -= 1
        op = ch.choose(OPS)
        trace.append(op)
        if op == "tick":
            if changed:
                began = None
            changed = False
            if up[name]:
                want = SUCC
            else:
                if began is None:
                    began = ros.now_ns
                want = FAIL if ros.now_ns - began > seconds * 1e9 else RUNNING
            res = node.tick()
            ctx.step()
            if res.is_err() or res.ok() != want or node.state != want:
                bad(f"tick is {res}, not {want}", node.state)
            state = want
            live = [c for c in ros.clients_made if not c.destroyed]
            if len(live) != 1 or live[0].srv_name != name or live[0].srv_type is not es.AddTwoInts:
                bad(f"clients {[c.srv_name for c in live]} exist, the name is {name}")
        elif op in ("untick", "reset", "restart"):
            if op == "restart":
                if node.shutdown().is_err():
                    bad("shutdown failed")
            elif getattr(node, op)().is_err():
                bad(f"{op} failed")
            if op != "untick" and any(not c.destroyed for c in ros.clients_made):
                bad(f"a client is left after {op}")
            if op == "restart":
                setup()
            began, state, changed = None, IDLE, changed or op != "untick"
            if node.state != IDLE:
                bad(f"{op} leaves the node {node.state}")
        elif op == "name":
            if static:
                return None
            name = NAMES[1 - NAMES.index(name)]
            node.node_config.inputs["service_name"].set_value(name).unwrap()
            changed = True
        elif op.startswith("toggle"):
            n = NAMES[int(op[-1])]
            up[n] = not up[n]
        else:
            ros.advance({"exactly": seconds, "little": 0.001, "half": seconds / 2}[op])
        model = (timeout, static, state, name, tuple(up.values()), changed, None if began is None else min(ros.now_ns - began, 10**11))
        ctx.state(model)
        if ctx.visited(ch, (model, repr(leaf.inside(node, ros))), left):
            return trace
    ctx.outcome(tuple(trace))
    return trace
