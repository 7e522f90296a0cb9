from mc import leaf, standins, zoo
from mc.core import Violation
from mc.treekit import IDLE, SUCC

import example_interfaces.msg as em
from rclpy.qos import QoSDurabilityPolicy, QoSReliabilityPolicy
from ros_bt_py.ros_nodes.topic import TopicPublisher

TECHNIQUE = ("explicit-state model checking: every interleaving of node operations, new messages, topic and QoS changes on the real node "
             "against a reference model, equal states merged")
NOTE = ("Complete up to the depth bound for the stated alphabets. Topics are a stand-in for the ROS graph. Two histories are merged when "
        "the model and the node's attributes (counters excepted) agree.")
ID = "C39"
NAMES = ("/one", "/two")
OPS = ("tick", "untick", "reset", "restart", "new", "same", "name", "transient_local", "depth")


def depth(tier):
    return 9 if tier == "thorough" else 7


def BOUNDS(tier):
    return (f"messages Int64 and Int32List, topic and QoS inputs dynamic and static: all histories of {depth(tier)} of {len(OPS)} operations")


KINDS = {"Int64": (em.Int64, lambda n: em.Int64(data=n)),
         "Int32List": (em.Int32List, lambda n: em.Int32List(values=[n], label="x"))}


def available(static):
    return [o for o in OPS if not (static and o in ("name", "transient_local", "depth"))]


def shards(tier):
    return [[k, static, op] for k in KINDS for static in (False, True) for op in available(static)]


def run(shard, ctx):
    kind, static, op = shard
    mine = available(static)
    ctx.explore(lambda ch: history(ch, ctx, kind, static, mine), f"{kind} {static}", start=(mine.index(op),))


def history(ch, ctx, kind, static, mine):
    mtype, make = KINDS[kind]
    values = {"topic_name": NAMES[0], "reliable": True, "transient_local": False, "depth": 1}
    fixed = {"topic_type": mtype}
    if static:
        fixed.update(values)
    rig = zoo.Rig(TopicPublisher, values=fixed, dynamic=[{"message": None} if static else {k: None for k in (*values, "message")}])
    node, ros = rig.node, rig.ros
    trace = []

    def bad(what, detail=""):
        raise Violation(f"{kind}{' static' if static else ''}: {what} after {trace}", detail)

    def give(k):
        if not static:
            node.node_config.inputs[k].set_value(values[k]).unwrap()

    def provide(m):
        node.node_config.inputs["message"].set_value(m).unwrap()

    def setup():
        if node.setup().is_err():
            bad("setup failed")
        for k in values:
            give(k)

    setup()
    held, n, fresh, advertised, changed, state = None, 0, True, None, True, IDLE
    record = []
    left = depth(ctx.tier)
    while left:
        left -= 1
        op = ch.choose(mine)
        trace.append(op)
        sent = len(ros.published)
        if op == "tick":
            res = node.tick()
            ctx.step()
            new = ros.published[sent:]
            if held is None:
                if res.is_ok() or new:
                    bad(f"tick without a message is {res}", str(new))
                break
            if changed:
                advertised = dict(values)
            if res.is_err() or res.ok() != SUCC or node.state != SUCC:
                bad(f"tick is {res}", node.state)
            want = [(values["topic_name"], repr(make(held)))] if fresh else []
            if [(t, repr(m)) for t, m in new] != want:
                bad(f"published {new}", f"expected {want}")
            record += want
            fresh = changed = False
            state = SUCC
        elif op in ("untick", "reset", "restart"):
            if op == "restart":
                if node.shutdown().is_err():
                    bad("shutdown failed")
            elif getattr(node, op)().is_err():
                bad(f"{op} failed")
            if op != "untick":
                if any(not p.destroyed for p in ros.pubs):
                    bad(f"a publisher is left after {op}")
                advertised, changed, fresh = None, True, True
            if op == "restart":
                setup()
                held = None
            state = IDLE
            if node.state != IDLE:
                bad(f"{op} leaves the node {node.state}")
        elif op == "new":
            n = n % 3 + 1
            fresh = fresh or held != n
            held = n
            provide(make(n))
        elif op == "same":
            if held is None:
                return None
            provide(make(held))
        else:
            if op == "name":
                values["topic_name"] = NAMES[1 - NAMES.index(values["topic_name"])]
                give("topic_name")
            else:
                values[op] = not values[op] if op == "transient_local" else 3 - values[op]
                give(op)
            changed = True
        if [(t, repr(m)) for t, m in ros.published] != record:
            bad(f"published so far: {ros.published}", f"expected {record}")
        live = [p for p in ros.pubs if not p.destroyed]
        if len(live) != (1 if advertised else 0):
            bad(f"{len(live)} publishers exist", f"expected {advertised}")
        for p in live:
            q = p.qos_profile
            real = {"topic_name": p.topic, "reliable": q.reliability == QoSReliabilityPolicy.RELIABLE,
                    "transient_local": q.durability == QoSDurabilityPolicy.TRANSIENT_LOCAL, "depth": q.depth}
            if real != advertised or p.msg_type is not mtype:
                bad(f"advertised {real}", f"expected {advertised}")
        model = (kind, static, state, sorted(values.items()), advertised and sorted(advertised.items()), changed, fresh, held, n)
        ctx.state(model)
        if ctx.visited(ch, (model, repr(leaf.inside(node, ros))), left):
            return trace
    ctx.outcome(tuple(trace))
    return trace
