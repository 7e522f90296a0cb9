import itertools

from mc import standins, zoo  # noqa: F401
from mc.core import Violation
from mc.treekit import Env, FAIL, Probe, RUNNING, SUCC, add, nid

import example_interfaces.msg as em
from ros_bt_py.nodes import decorators, fallback, parallel, sequence
from ros_bt_py.ros_nodes import enum_switch, topic
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py_interfaces.msg import UtilityBounds

TECHNIQUE = "explicit-state model checking: every one-run execution of every tree, executed by the real nodes, against the reported bounds"
NOTE = ("Complete for the stated trees and bound profiles. A leaf runs once and returns a result at once; a Parallel is charged for as many "
        "children as its result takes (as its code documents), a repeating decorator for one run of its child.")
ID = "C46"
KINDS = ("success", "failure")
# lower/upper success, lower/upper failure; None: no such bound
PROFILES = {
    "zero": (0, 0, 0, 0),
    "wide": (1, 3, 2, 5),
    "dear": (7, 7, 0, 1),
    "openup": (2, None, 1, 4),
    "openlow": (None, 4, 1, 2),
    "openfail": (1, 6, None, None),
    "open": (None, None, None, None),
    "unable": None,
}
PLAIN = {
    "Sequence": (sequence.Sequence, {}), "MemorySequence": (sequence.MemorySequence, {}),
    "Fallback": (fallback.Fallback, {}), "MemoryFallback": (fallback.MemoryFallback, {}),
    "NameSwitch": (fallback.NameSwitch, {}), "EnumSwitch": (enum_switch.EnumSwitch, {"ros_message_type": em.Level}),
}
DECO = {c.__name__: (c, v) for c, v in [
    (decorators.Inverter, {}), (decorators.IgnoreFailure, {}), (decorators.IgnoreSuccess, {}), (decorators.Optional, {}),
    (decorators.IgnoreRunning, {"running_is_success": True}), (decorators.UntilSuccess, {}), (decorators.RepeatUntilFail, {}),
    (decorators.Retry, {"num_retries": 1}), (decorators.RepeatIfFail, {})]}
NAMES = ("LOW", "MID", "HIGH")


class Leaf(Probe):
    bounds = None

    def _do_calculate_utility(self):
        return Ok(message(self.bounds))


def message(profile):
    out = UtilityBounds()
    if PROFILES[profile] is None:
        return out
    out.can_execute = True
    for side, value in zip(("lower_bound_success", "upper_bound_success", "lower_bound_failure", "upper_bound_failure"), PROFILES[profile]):
        if value is not None:
            setattr(out, "has_" + side, True)
            setattr(out, side, float(value))
    return out


def forms(kids):
    """Labels of the node classes (with their static inputs) that can have this many children."""
    out = list(PLAIN) if kids else [k for k in PLAIN if k not in ("NameSwitch", "EnumSwitch")]
    out += [f"Parallel {n}" for n in range(1, kids + 1)]
    out += [f"ParallelFailureTolerance {n} {t}" for n in range(1, kids + 1) for t in range(kids + 1)]
    return out + (list(DECO) if kids == 1 else [])


def make(label, kids, env, n):
    word = label.split()
    if word[0] in DECO or word[0] in PLAIN:
        cls, values = {**DECO, **PLAIN}[word[0]]
    elif word[0] == "Parallel":
        cls, values = parallel.Parallel, {"needed_successes": int(word[1])}
    else:
        cls, values = parallel.ParallelFailureTolerance, {"needed_successes": int(word[1]), "tolerate_failures": int(word[2])}
    dynamic = {"NameSwitch": [{"name": ""}], "EnumSwitch": [{"case": 0}]}.get(word[0])
    return zoo.Rig(cls, values=values, dynamic=dynamic, kids=kids, env=env, n=n).node


class Tree:
    def __init__(self, spec):
        self.answers = {}
        self.ran = set()
        self.env = Env(self.answer)
        self.leaves, self.inner, self.count = [], [], 0
        self.root = self.build(spec, "LOW")

    def answer(self, node, op):
        if op == "tick":
            self.ran.add(node.number)
            return self.answers[node.number]

    def build(self, spec, name):
        self.count += 1
        n = self.count
        if spec is None:
            node = Leaf(node_id=nid(n), name=name)
            node.env = self.env
            node.number = len(self.leaves)
            self.leaves.append(node)
            return node
        node = make(spec[0], [self.build(k, NAMES[i]) for i, k in enumerate(spec[1])], self.env, n)
        node.name = name
        self.inner.append((node, spec[0]))
        return node

    def switches(self):
        return [(node, label) for node, label in self.inner if "Switch" in label]

    def charges(self, node):
        """All sets of (leaf, kind of result) that the run of `node` may be charged for."""
        kind = "success" if node.state == SUCC else "failure"
        if isinstance(node, Leaf):
            return [frozenset([(node.number, kind)])]
        label = next(lab for n, lab in self.inner if n is node).split()
        done = [c for c in node.children if self.started(c)]
        groups = [done]
        if label[0].startswith("Parallel"):
            size = int(label[1]) if kind == "success" else \
                1 + (int(label[2]) if len(label) > 2 else len(node.children) - int(label[1]))
            counted = [c for c in done if c.state == node.state]
            if len(counted) < size:
                raise Violation(f"{label}: {node.state} with {[c.state for c in node.children]}")
            groups = itertools.combinations(counted, size)
        out = []
        for group in groups:
            for parts in itertools.product(*[self.charges(c) for c in group]):
                out.append(frozenset().union(*parts))
        return out

    def started(self, node):
        return node.state in (SUCC, FAIL)


def executions(ctx, spec):
    """{kind: set of sets of (leaf number, kind)} over all runs of the tree in one tick."""
    out = {"success": set(), "failure": set()}
    probe = Tree(spec)
    inputs = [range(len(node.children) + 1) for node, _ in probe.switches()]
    for answers in itertools.product((SUCC, FAIL), repeat=len(probe.leaves)):
        for cases in itertools.product(*inputs):
            tree = Tree(spec)
            for leaf, answer in zip(tree.leaves, answers):
                leaf.bounds = "wide"
                tree.answers[leaf.number] = answer
            if tree.root.setup().is_err():
                raise Violation(f"{spec}: setup fails")
            for (node, label), i in zip(tree.switches(), cases):
                key, value = ("name", (NAMES + ("nobody",))[i if i < len(node.children) else 3]) if label == "NameSwitch" else \
                    ("case", [0, 1, 7, 5][i if i < len(node.children) else 3])
                assert node.node_config.inputs[key].set_value(value).is_ok()
            res = tree.root.tick()
            ctx.step()
            if res.is_err():
                raise Violation(f"{spec}: tick fails", str(res))
            if res.ok() not in (SUCC, FAIL):
                if res.ok() != RUNNING:
                    raise Violation(f"{spec}: returns {res.ok()}")
                continue  # a repeating node that is not done after one run
            if any(node.state == RUNNING for node, _ in tree.inner):
                continue  # cut short by an IgnoreRunning
            kind = "success" if res.ok() == SUCC else "failure"
            for charge in tree.charges(tree.root):
                if {leaf for leaf, _ in charge} - tree.ran:
                    raise Violation(f"{spec}: charged for leaves that did not run")
                out[kind].add(charge)
    return out


def optional(spec, over=False):
    """For every leaf: is it below an Optional?"""
    if spec is None:
        return [over]
    return [x for k in spec[1] for x in optional(k, over or spec[0] == "Optional")]


def trees(shard):
    kind, outer = shard[0], shard[1]
    if kind == "flat":
        for n in range(0, 4):
            if outer in forms(n):
                yield (outer, [None] * n)
    elif kind == "nested":
        for n in (1, 2):
            if outer in forms(n):
                for m in (1, 2):
                    for inner in forms(m):
                        sub = (inner, [None] * m)
                        yield (outer, [sub] + [None] * (n - 1))
                        if n > 1:
                            yield (outer, [None, sub])
    else:
        for n in (1, 2):
            if outer in forms(n):
                for middle in forms(1) + forms(2):
                    for inner in forms(1) + forms(2):
                        for a in (1, 2):
                            for b in (1, 2):
                                if middle in forms(a) and inner in forms(b):
                                    yield (outer, [(middle, [(inner, [None] * b)] + [None] * (a - 1))] + [None] * (n - 1))


def BOUNDS(tier):
    return ("all control-flow nodes and result-changing decorators (Parallel nodes with every threshold) with up to 3 leaves, and every pair of "
            "them nested with up to 2 children each" + (", and every triple" if tier == "thorough" else "")
            + f"; every result of every leaf, every switch input, every combination of {len(PROFILES)} "
            "bound profiles of the leaves")


def shards(tier):
    labels = sorted({f for n in range(4) for f in forms(n)})
    out = [["flat", x] for x in labels] + [["nested", x] for x in sorted({f for n in (1, 2) for f in forms(n)})] + [["ros"]]
    if tier == "thorough":
        out += [["deep", x] for x in sorted({f for n in (1, 2) for f in forms(n)})]
    return out


def weight(shard):
    return {"flat": 3, "nested": 10}.get(shard[0], 1)


def run(shard, ctx):
    if shard == ["ros"]:
        return ros(ctx)
    profiles = ["wide", "dear", "openup", "openlow"] if shard[0] == "deep" else list(PROFILES)
    for spec in trees(shard):
        ctx.case(repr(spec), lambda: check(ctx, spec, profiles))


def check(ctx, spec, profiles):
    runs = executions(ctx, spec)
    tree = Tree(spec)
    below = optional(spec)
    for combo in itertools.product(profiles, repeat=len(tree.leaves)):
        for leaf, p in zip(tree.leaves, combo):
            leaf.bounds = p
        res = tree.root.calculate_utility()
        ctx.step()
        unable = [i for i, p in enumerate(combo) if p == "unable"]
        if any(not below[i] for i in unable):
            if res.is_ok() and res.ok().can_execute:
                raise Violation(f"{spec} {combo}: reported as executable although it cannot run")
            continue
        if res.is_err() or not res.ok().can_execute:
            raise Violation(f"{spec} {combo}: reported as not executable", str(res))
        if unable:
            continue
        b = res.ok()
        for kind in KINDS:
            for side, pick, worse in (("lower", 0, lambda got, cost: got > cost), ("upper", 1, lambda got, cost: got < cost)):
                if not getattr(b, f"has_{side}_bound_{kind}"):
                    continue
                got = getattr(b, f"{side}_bound_{kind}")
                for charge in runs[kind]:
                    costs = [PROFILES[combo[i]][pick + (0 if k == "success" else 2)] for i, k in charge]
                    text = f"{spec} {combo}: claims {side} bound {got} for {kind}"
                    if None in costs:
                        raise Violation(f"{text} although {sorted(charge)} has none")
                    if worse(got, sum(costs)):
                        raise Violation(f"{text} but {sorted(charge)} costs {sum(costs)}")
        ctx.state((repr(spec), combo))
    ctx.outcome((repr(spec), tuple(sorted(map(sorted, runs["success"]))), tuple(sorted(map(sorted, runs["failure"])))))
    return spec, len(runs["success"]), len(runs["failure"])


def ros(ctx):
    """The ROS leaves themselves: executable exactly if what they depend on is there."""
    from rclpy.qos import QoSDurabilityPolicy, QoSProfile, QoSReliabilityPolicy

    class Endpoint:
        def __init__(self, kind, qos):
            self.topic_type, self.qos_profile = kind, qos

    qos = QoSProfile(reliability=QoSReliabilityPolicy.RELIABLE, durability=QoSDurabilityPolicy.VOLATILE, depth=1)
    for cls in (topic.TopicSubscriber, topic.TopicMemorySubscriber):
        for setup in (False, True):
            for infos in ([], ["example_interfaces/msg/Int64"], ["example_interfaces/msg/String"],
                          ["example_interfaces/msg/String", "example_interfaces/msg/Int64"]):
                for wrapped in (False, True):
                    def body():
                        values = {"topic_name": "/t", "topic_type": em.Int64, "reliable": True, "transient_local": False, "depth": 1}
                        if cls is topic.TopicMemorySubscriber:
                            values["memory_delay"] = 1.0
                        rig = zoo.Rig(cls, values=values)
                        node = rig.node
                        if setup:
                            node.setup().unwrap()
                        rig.ros.publisher_infos[:] = [Endpoint(t, qos) for t in infos]
                        if wrapped:
                            node = add(sequence.Sequence(node_id=nid(9), name="s"), node)
                        res = node.calculate_utility()
                        ctx.step()
                        want = "example_interfaces/msg/Int64" in infos
                        got = res.is_ok() and res.ok().can_execute
                        if res.is_err() or got != want:
                            raise Violation(f"{cls.__name__} with publishers {infos}: executable {got}", str(res))
                        ctx.outcome((cls.__name__, tuple(infos), setup, wrapped))
                        return cls.__name__, infos

                    ctx.case(f"{cls.__name__} {infos} {setup} {wrapped}", body)
