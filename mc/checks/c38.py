from mc import leaf, standins, zoo
from mc.core import Violation
from mc.treekit import FAIL, IDLE, RUNNING, SUCC

import example_interfaces.msg as em
from rclpy.qos import QoSDurabilityPolicy, QoSReliabilityPolicy
from ros_bt_py.ros_nodes.topic import TopicMemorySubscriber, TopicSubscriber

TECHNIQUE = ("explicit-state model checking: every interleaving of node operations, message arrivals, topic and QoS changes and clock "
             "steps on the real nodes against a reference model, equal states merged")
NOTE = ("Complete up to the depth bound for the stated alphabets. Topics and time come from a stand-in for the ROS graph, which delivers "
        "to live subscriptions only: a delivery already under way in another thread when a subscription is destroyed is not modelled. "
        "Two histories are merged when the model, the node's attributes (counters excepted) and the subscriptions agree.")
ID = "C38"
NAMES = ("/one", "/two")
AGE = 2.0
SETTINGS = ("name", "back", "reliable", "transient_local", "depth")
BASE = ("tick", "untick", "reset", "restart", "msg0", "msg1") + SETTINGS
CLASSES = {"TopicSubscriber": TopicSubscriber, "TopicMemorySubscriber": TopicMemorySubscriber}


def ops(label):
    return BASE + (("exactly", "little") if label == "TopicMemorySubscriber" else ())


def depth(tier):
    return 9 if tier == "thorough" else 6


def BOUNDS(tier):
    return (f"both subscribers, inputs dynamic and static, age limits 0 and {AGE} s: all histories of {depth(tier)} of {len(BASE)}+ operations")


def shards(tier):
    return [[label, static, age, op] for label in CLASSES for static in (False, True) for age in
            ((AGE, 0.0) if label == "TopicMemorySubscriber" else (AGE,)) for op in ops(label)
            if not (static and op in SETTINGS)]


def run(shard, ctx):
    label, static, age, op = shard
    mine = [o for o in ops(label) if not (static and o in SETTINGS)]
    ctx.explore(lambda ch: history(ch, ctx, label, static, age, mine), f"{label} {static} {age}", start=(mine.index(op),))


def history(ch, ctx, label, static, age, mine):
    memory = label == "TopicMemorySubscriber"
    values = {"topic_name": NAMES[0], "reliable": True, "transient_local": False, "depth": 1}
    fixed = {"topic_type": em.Int64}
    if memory:
        fixed["memory_delay"] = age
    if static:
        fixed.update(values)
    rig = zoo.Rig(CLASSES[label], values=fixed, dynamic=[{} if static else {k: None for k in values}])
    node, ros = rig.node, rig.ros
    trace = []

    def bad(what, detail=""):
        raise Violation(f"{label}{' static' if static else ''} {age}: {what} after {trace}", detail)

    def give(k):
        if not static:
            node.node_config.inputs[k].set_value(values[k]).unwrap()

    def setup():
        if node.setup().is_err():
            bad("setup failed")
        for k in values:
            give(k)

    setup()
    subscribed, changed, state = None, True, IDLE  # what the node has subscribed to
    msg = stamp = out = None
    sent = 0
    left = depth(ctx.tier)
    while left:
        left -= 1
        op = ch.choose(mine)
        trace.append(op)
        if op == "tick":
            if changed:
                msg = stamp = None
                subscribed = dict(values)
            changed = False
            new = False
            if msg is None:
                want = RUNNING
            elif memory and ros.now_ns - stamp > age * 1e9:
                want = FAIL
            else:
                want, new = SUCC, out != msg
                out = msg
                if not memory:
                    msg = None
            res = node.tick()
            ctx.step()
            if res.is_err() or res.ok() != want or node.state != want:
                bad(f"tick is {res}, not {want}", node.state)
            got, upd = leaf.outputs(node)["message"]
            if (None if got is None else got.data) != out:
                bad(f"the message is {got}", f"expected {out}")
            if upd != new and (new or want != SUCC):
                bad(f"the message is {'' if upd else 'not '}marked as new")
            state = want
        elif op in ("untick", "reset", "restart"):
            if op == "restart":
                if node.shutdown().is_err():
                    bad("shutdown failed")
            elif getattr(node, op)().is_err():
                bad(f"{op} failed")
            if op != "untick":
                if any(not s.destroyed for s in ros.subs):
                    bad(f"a subscription is left after {op}")
                subscribed = msg = stamp = out = None
                changed = True
            if op == "restart":
                setup()
            state = IDLE
            if node.state != IDLE:
                bad(f"{op} leaves the node {node.state}")
        elif op.startswith("msg"):
            name = NAMES[int(op[-1])]
            sent = sent % 3 + 1
            ros.deliver(name, em.Int64(data=sent))
            if subscribed and subscribed["topic_name"] == name:
                msg, stamp = sent, ros.now_ns
        elif op in SETTINGS:
            if op in ("name", "back"):
                old = values["topic_name"]
                values["topic_name"] = NAMES[1 - NAMES.index(old)]
                give("topic_name")
                if op == "back":  # there and back between two ticks
                    values["topic_name"] = old
                    give("topic_name")
            else:
                values[op] = 3 - values[op] if op == "depth" else not values[op]
                give(op)
            changed = True
        else:
            ros.advance({"exactly": age, "little": 0.001}[op])
        live = [s for s in ros.subs if not s.destroyed]
        if len(live) != (1 if subscribed else 0):
            bad(f"{len(live)} subscriptions exist", f"expected {subscribed}")
        for s in live:
            q = s.qos_profile
            real = {"topic_name": s.topic, "reliable": q.reliability == QoSReliabilityPolicy.RELIABLE,
                    "transient_local": q.durability == QoSDurabilityPolicy.TRANSIENT_LOCAL, "depth": q.depth}
            if real != subscribed or s.msg_type is not em.Int64:
                bad(f"subscribed to {real}", f"expected {subscribed}")
        model = (label, static, age, state, sorted(values.items()), subscribed and sorted(subscribed.items()), changed, msg, out, sent,
                 None if stamp is None else min(ros.now_ns - stamp, 10**10))
        ctx.state(model)
        if ctx.visited(ch, (model, repr(leaf.inside(node, ros))), left):
            return trace
    ctx.outcome(tuple(trace))
    return trace
