from mc import flow, ref
from mc.core import Violation
from mc.treekit import (Env, FAIL, RUNNING, SUCC, BROKEN, Probe, add, configured, expect, failure, nid, probe)
from ros_bt_py.nodes import decorators as d
from ros_bt_py.nodes.sequence import Sequence
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import UtilityBounds

TECHNIQUE = "explicit-state model checking of the real nodes in lock-step with a reference model"
NOTE = ("Complete for the stated histories, child results and child errors; trusts the reference model (mc/ref.py) "
        "and the ROS stand-ins.")
ID = "C05"
PLAIN = {
    "IgnoreFailure": ref.IgnoreFailure,
    "IgnoreSuccess": ref.IgnoreSuccess,
    "Inverter": ref.Inverter,
    "UntilSuccess": ref.UntilSuccess,
}
KINDS = [*PLAIN, "IgnoreRunning+", "IgnoreRunning-", "Optional+", "Optional-", "Watch"]
DEPTH = {"quick": (3, 5, 4), "thorough": (5, 8, 6)}


def BOUNDS(tier):
    return (f"per decorator: histories of tick/untick/reset of depth {DEPTH[tier]} with no child / a leaf / a Sequence "
            "of two leaves as child, all child results, Watch with and without a new value before each tick; "
            "an error of the child at every operation of every history of depth 3; shutdown and restart")


def shards(tier):
    out = [["walk", kind, size, DEPTH[tier][size], first] for kind in KINDS for size in range(3)
           for first in flow.firsts(tier, size)]
    return out + [["error", kind] for kind in KINDS]


def weight(shard):
    return 99 if shard[0] == "error" else shard[2] * shard[3] + (shard[1] == "Watch")


class Costly(Probe):
    def _do_calculate_utility(self):
        return Ok(UtilityBounds(can_execute=self.can))


def decorator(kind, env, feed, watch, child, model):
    kids = [model] if model is not None else []
    if kind in PLAIN:
        real = getattr(d, kind)(node_id=nid(0), name=kind)
        twin = PLAIN[kind](feed, kind, *kids)
    elif kind.startswith("IgnoreRunning"):
        flag = kind.endswith("+")
        real = configured(d.IgnoreRunning, kind, static_values={"running_is_success": flag})
        twin = ref.IgnoreRunning(feed, kind, *kids, success=flag)
    elif kind.startswith("Optional"):
        real = d.Optional(node_id=nid(0), name=kind)
        twin = ref.Optional(feed, kind, *kids, can=kind.endswith("+"))
    else:
        real = d.Watch(node_id=nid(0), name=kind)
        twin = ref.Watch(feed, kind, *kids, updated=lambda: watch["new"])
    if child is not None:
        add(real, child)
    return real, twin


def build(kind, size, watch):
    def leaf(env, name, n):
        p = Costly(node_id=nid(n), name=name)
        p.env = env
        p.can = kind != "Optional-"
        return p

    def make(env, feed):
        if size == 0:
            child = model = None
        elif size == 1:
            child, model = leaf(env, "c", 1), ref.Leaf(feed, "c")
        else:
            child = add(Sequence(node_id=nid(1), name="seq"), leaf(env, "a", 2), leaf(env, "b", 3))
            model = ref.Sequence(feed, "seq", ref.Leaf(feed, "a"), ref.Leaf(feed, "b"))
        return decorator(kind, env, feed, watch, child, model)

    return make


class Pair(flow.Pair):
    """Watch: before a tick the watched value may change; inputs are cleared by setup."""

    value = 0

    def expects_reset(self, leaf):
        return not self.kind == "Optional-"

    def op(self, name):
        if self.kind == "Watch":
            if name == "tick":
                new = self.ch.choose((False, True)) if self.value else True
                if new:
                    self.value += 1
                    res = self.real.node_config.inputs["watch"].set_value(f"v{self.value}")
                    if res.is_err():
                        self.bad("watch refuses a value", str(res))
                    self.history.append("new")
                    self.watch["new"] = True
            result = super().op(name)
            if name == "tick":
                self.watch["new"] = False
            elif name == "reset":
                self.watch["new"] = True
            elif name == "setup":
                self.value = 0
                self.watch["new"] = True
            return result
        return super().op(name)


def run(shard, ctx):
    if shard[0] == "error":
        return errors(shard[1], ctx)
    _, kind, size, depth, first = shard
    watch = {"new": True}
    cls = type("P", (Pair,), {"kind": kind, "watch": watch})
    flow.explore(ctx, build(kind, size, watch), depth, first, cls=cls)


def errors(kind, ctx):
    """Whatever the child did before: if a step of it fails, the decorator's step fails too."""
    if kind == "Optional-":
        return
    ticks = (SUCC, FAIL, RUNNING)

    def body(ch):
        plan = {}

        def answer(node, op):
            if plan.get("fail") == op:
                plan["hit"] = True
                return failure()
            return ch.choose(ticks) if op == "tick" else None

        env = Env(answer)
        real, _ = build(kind, 1, {"new": True})(env, ref.Feed())
        history = []
        at = ch.choose(4)  # the operation at which the child fails
        ops = ["setup"] + [ch.choose(flow.OPS) for _ in range(at)]
        for i, op in enumerate(ops):
            if op == "tick" and kind == "Watch":
                real.node_config.inputs["watch"].set_value(f"v{i}")
            if i == at:
                plan["fail"] = op
            before = env.log[:]
            result = getattr(real, op)()
            history.append(op)
            ctx.step()
            if i < at and result.is_err():
                raise Violation(f"{kind}: {op} failed after {history}", str(result))
            if i == at:
                expect(plan.get("hit"), f"{kind}: {op} does not reach the child after {history}")
                expect(result.is_err(), f"{kind}: child error in {op} reported as {result} after {history}", str(env.log))
                expect(real.state not in (SUCC, FAIL, RUNNING), f"{kind}: state {real.state} after child error in {history}")
                expect(real.children[0].state == BROKEN, f"{kind}: child not broken after {history}")
        ctx.outcome((kind, tuple(env.log)))
        return env.log

    ctx.explore(body, "error")
