"""Exhaustive histories of one leaf (or decorator) against a model of what it computes."""

import copy
import math

from mc import standins, zoo  # noqa: F401
from mc.core import Violation
from mc.treekit import BROKEN, Env, FAIL, IDLE, RUNNING, SHUTDOWN, SUCC  # noqa: F401

BAD = "fails or reports an error"  # (BAD, None): FAIL, or an Err that leaves the node BROKEN
ERR = "reports an error"


def same(a, b):
    """Equal, of the same type, all the way down."""
    if hasattr(a, "get_fields_and_field_types"):
        return type(a) is type(b) and repr(a) == repr(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def differs(a, b):
    """Would set_value see a new value?"""
    try:
        return bool(a != b)
    except Exception:
        return True


class Fn:
    """Stateless model: fn(inputs) -> (state, outputs or None)."""

    def __init__(self, fn):
        self.fn = fn

    def reset(self):
        pass

    def untick(self):
        pass

    def tick(self, inputs, updated):
        return self.fn(inputs)


def inputs_of(node, keys):
    return {k: copy.deepcopy(node.node_config.inputs[k].get_value().ok()) for k in keys}


def outputs(node):
    return {k: (copy.deepcopy(c.get_value().ok()), c.is_updated()) for k, c in node.node_config.outputs.items()}


def walk(ch, ctx, name, cls, static, domains, model, depth, ops=("tick",), kids=0, answers=(SUCC, FAIL, RUNNING),
         untick_state=None, compare=same, keep=True, after=None, on_child=None, events=None):
    """One history: `domains` {input: values}, model() -> fresh model, `ops` chosen before each but the first tick."""
    def answer(node, op):
        if op == "tick":
            if on_child:
                on_child(bad, rig, mod)
            return ch.choose(answers)

    env = Env(answer)
    mod = model()
    keys = list(domains)
    now = dict(static)
    updated = set(keys) | set(static)
    trace = []
    rig = zoo.Rig(cls, values=static, dynamic=[{k: None for k in keys}], env=env, children=kids)
    node = rig.node
    given = {}

    def bad(what, detail=""):
        raise Violation(f"{name}: {what} after {trace!r:.300}".replace(zoo.scratch(), "SCRATCH"), detail)

    res = node.setup()
    if res.is_err():
        bad("setup failed", res)
    for step in range(depth):
        if step:
            op = ch.choose(ops) if len(ops) > 1 else ops[0]
            if op != "tick":
                trace.append(op)
                if op in (events or {}):
                    events[op](ch)
                    op = "untick"
                res = getattr(node, op)()
                if res.is_err():
                    bad(f"{op} failed", res)
                getattr(mod, op)()
                if op == "reset":
                    updated = set(now)
        moves = {}
        for k in keys:
            dom = domains[k]
            i = ch.choose(len(dom) + (1 if step and keep else 0))
            if i < len(dom):
                moves[k] = dom[i]
                if k not in now or differs(now[k], dom[i]):
                    updated.add(k)
                now[k] = dom[i]
                given[k] = copy.deepcopy(dom[i])
                res = node.node_config.inputs[k].set_value(given[k])
                if res.is_err():
                    bad(f"{k} does not accept {dom[i]!r}", res)
        before_in = inputs_of(node, keys)
        before_out = {k: v for k, (v, _) in outputs(node).items()}
        mark = len(env.log)
        if kids:
            want = mod.tick(dict(now), set(updated), lambda: [l[2] for l in env.log[mark:] if l[0] == "tick"])
        try:
            res = node.tick()
        except Exception as ex:
            trace.append(("tick", moves))
            bad(f"exception {type(ex).__name__}", repr(ex))
        trace.append(("tick", moves, [l[2] for l in env.log[mark:] if l[0] == "tick"]) if kids else ("tick", moves))
        if not kids:
            want = mod.tick(dict(now), set(updated))
        else:
            want = want()  # once the child's answer is known
        ctx.step()
        updated = set()
        out = outputs(node)
        state, values = want
        got = "ERR" if res.is_err() else res.ok()
        if state == BAD:
            if got not in (FAIL, "ERR"):
                bad(f"tick is {got}, not a failure", out)
        elif state == ERR:
            if got != "ERR":
                bad(f"tick is {got}, not an error", out)
        elif got != state:
            bad(f"tick is {got}, not {state}", f"{out} {res}")
        if got == "ERR" and node.state != BROKEN:
            bad(f"error leaves the node {node.state}")
        if got != "ERR" and node.state != got:
            bad(f"tick is {got} but the node is {node.state}")
        for k, (v, upd) in out.items():
            if values is not None and k in values:
                if not compare(values[k], v):
                    bad(f"output {k} is {v!r}", f"expected {values[k]!r}")
                if not upd and differs(before_out[k], v):
                    bad(f"output {k} is not marked as new", f"{before_out[k]!r} -> {v!r}")
            elif got != "ERR":
                if upd:
                    bad(f"output {k} is marked as new", repr(v))
                if not compare(before_out[k], v):
                    bad(f"output {k} changed", f"{before_out[k]!r} -> {v!r}")
        after_in = inputs_of(node, keys)
        for k in before_in:
            if k in rig.node.node_config.inputs and not compare(before_in[k], after_in[k]):
                bad(f"input {k} was modified", f"{before_in[k]!r} -> {after_in[k]!r}")
        for k in keys:
            if k in given and not compare(zoo.plain(given[k]), zoo.plain(now[k])):
                bad(f"the value given to {k} was modified", f"{given[k]!r}")
        if after:
            after(bad, rig, want)
        ctx.state((name, repr(sorted(now.items(), key=lambda e: e[0])), node.state, repr(out)))
        if got == "ERR":
            break
    for k, v in inputs_of(node, static).items():
        if not compare(static[k], v):
            bad(f"input {k} was modified", f"{static[k]!r} -> {v!r}")
    ctx.outcome((name, repr(trace), node.state, repr(rig.outputs())))
    return trace


# ------------------------------------------------------------------ merging histories of leaves that talk to ROS

SKIP = {"node_config", "inputs", "outputs", "parent", "children", "_ros_node", "debug_manager", "subtree_manager", "logging_manager",
        "data_flow_manager", "subscriptions", "subscribers", "node_id", "name"}


def hidden(x, now, depth=3):
    """What an object holds, as far as it matters for the future: times relative to now, no counters."""
    if isinstance(x, bool) or x is None or isinstance(x, (str, bytes, float)):
        return x
    if isinstance(x, int):
        return "int"
    if hasattr(x, "nanoseconds"):
        return ("time", max(-10**11, x.nanoseconds - now)) if abs(x.nanoseconds) > 10**11 else ("duration", x.nanoseconds)
    if isinstance(x, standins.FakeFuture):
        return ("future", x.done(), x.cancelled(), repr(x._result), len(x._callbacks))
    if isinstance(x, (standins.FakeClient, standins.FakeActionClient, standins.FakeEndpoint)):
        return (type(x).__name__, getattr(x, "srv_name", None) or getattr(x, "action_name", None) or getattr(x, "topic", None), x.destroyed)
    if isinstance(x, standins.FakeGoalHandle):
        return ("goal", x.accepted, x.status, hidden(x.result_future, now), [hidden(f, now) for f in x.cancel_requests])
    if hasattr(x, "get_fields_and_field_types"):
        return repr(x)
    if depth and isinstance(x, (list, tuple)):
        return [hidden(v, now, depth - 1) for v in x]
    if depth and isinstance(x, dict):
        return [(str(k), hidden(v, now, depth - 1)) for k, v in x.items()]
    return getattr(type(x), "__name__", "?") if not isinstance(x, type) else x.__name__


def inside(node, ros):
    mine = [(k, hidden(v, ros.now_ns)) for k, v in sorted(vars(node).items()) if k not in SKIP]
    data = [(k, repr(zoo.plain(c.get_value().ok())), c.is_updated())
            for k, c in list(node.node_config.inputs.items()) + list(node.node_config.outputs.items())]
    return node.state, mine, data
