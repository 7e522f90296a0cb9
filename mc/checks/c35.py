from copy import deepcopy

from mc import leaf, standins, zoo
from mc.core import Violation
from mc.treekit import BROKEN, FAIL, IDLE, RUNNING, SUCC

import example_interfaces.srv as es
from ros_bt_py.data_types import IntType
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.node import define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.ros_nodes.service import Service, ServiceBase
from ros_bt_py.vendor.result import Err, Ok

TECHNIQUE = ("explicit-state model checking: every interleaving of node operations, input changes, answers and clock steps on the real "
             "node against a reference model, equal states merged")
NOTE = ("Complete up to the depth bound for the stated alphabets. Service calls go to a stand-in for the ROS graph whose futures are "
        "rclpy's own. Two histories are merged when the model, the node's attributes (counters excepted) and the pending calls agree.")
ID = "C35"
TIMEOUT = 2.0


@define_bt_node(NodeConfig(inputs={"x": IntType()}, outputs={"y": IntType()}, max_children=0))
class Judge(ServiceBase):
    """A service class of its own: fails on negative sums, breaks on sum 0."""

    request_fields = ["x"]

    def get_request(self):
        return self.inputs.get_value_as("x", int).map(lambda x: es.AddTwoInts.Request(a=x, b=1))

    def get_service_type(self):
        return Ok(es.AddTwoInts)

    def set_outputs(self, response):
        if response.sum == 0:
            return Err(BehaviorTreeException("zero"))
        return self.outputs.set_value("y", response.sum).map(lambda _: FAIL if response.sum < 0 else SUCC)


def add_answer(n, _):
    return es.AddTwoInts.Response(sum=n)


# label -> (class, service type or None, {field: values}, request as dict, answers(n) -> [(response, state, outputs)])
KINDS = {
    "AddTwoInts": (Service, es.AddTwoInts, {"a": (1, 2), "b": (5,)}, lambda v: {"a": v["a"], "b": v["b"]},
                   lambda n: [(es.AddTwoInts.Response(sum=n), SUCC, {"sum": n})]),
    "Trigger": (Service, es.Trigger, {}, lambda v: {},
                lambda n: [(es.Trigger.Response(success=bool(n % 2), message=f"m{n}"), SUCC, {"success": bool(n % 2), "message": f"m{n}"})]),
    "SetBool": (Service, es.SetBool, {"data": (False, True)}, lambda v: {"data": v["data"]},
                lambda n: [(es.SetBool.Response(success=True, message=f"m{n}"), SUCC, {"success": True, "message": f"m{n}"})]),
    "Judge": (Judge, None, {"x": (1, 2)}, lambda v: {"a": v["x"], "b": 1},
              lambda n: [(es.AddTwoInts.Response(sum=n), SUCC, {"y": n}), (es.AddTwoInts.Response(sum=-n), FAIL, {"y": -n}),
                         (es.AddTwoInts.Response(sum=0), BROKEN, {})]),
}
NAMES = ("/one", "/two")
OPS = ("tick", "untick", "reset", "restart", "name", "answer", "old", "dropped", "exactly", "little", "late")


def ops(kind):
    return OPS + tuple(f"{k}" for k, v in KINDS[kind][2].items() if len(v) > 1)


def BOUNDS(tier):
    return (f"{len(KINDS)} service nodes, name and request inputs dynamic or static, timeout {TIMEOUT} s: all histories of "
            f"{depth(tier)} of {len(OPS)}+ operations after a first tick")


def depth(tier):
    return 7 if tier == "thorough" else 5


def shards(tier):
    return [[k, static, first] for k in KINDS for static in (False, True) for first in ops(k)]


def run(shard, ctx):
    kind, static, first = shard
    start = ops(kind).index(first)
    ctx.explore(lambda ch: history(ch, ctx, kind, static), f"{kind} {static}", start=(start,))


def fields_of(msg):
    return {k: getattr(msg, k) for k in msg.get_fields_and_field_types()}


def history(ch, ctx, kind, static):
    cls, stype, fields, request, answers = KINDS[kind]
    values = {k: v[0] for k, v in fields.items()}
    values["service_name"] = NAMES[0]
    fixed = {"wait_for_response_seconds": TIMEOUT}
    if stype:
        fixed["service_type"] = stype
    dynamic = [] if static else list(values)
    if static:
        dynamic = list(fields)  # the fields of a Service are dynamic; only its name can be fixed
        fixed["service_name"] = NAMES[0]
    rig = zoo.Rig(cls, values=fixed, dynamic=[{k: None for k in dynamic}])
    node, ros = rig.node, rig.ros
    trace = []

    def bad(what, detail=""):
        raise Violation(f"{kind}{' static' if static else ''}: {what} after {trace}", detail)

    def give(k):
        res = node.node_config.inputs[k].set_value(deepcopy(values[k]))
        if res.is_err():
            bad(f"{k} is not accepted", res)

    def setup():
        if node.setup().is_err():
            bad("setup failed")
        for k in dynamic:
            give(k)

    setup()
    state, fresh, changed = IDLE, True, True
    pending = sent = None  # the entry of the pending call; when it was sent
    outputs = {k: None for k in node.node_config.outputs}
    last = {"n": 0}
    todo = ["tick"]
    left = depth(ctx.tier)
    while todo or left > 0:
        if todo:
            op = todo.pop()
        else:
            left -= 1
            op = ch.choose(ops(kind))
        trace.append(op)
        marked = set()
        before = len(ros.calls)
        if op == "tick":
            want = None
            expect_call = False
            if changed or fresh:
                if pending is not None:
                    marked.add("abandoned")
                abandoned, pending = pending, None
                expect_call = True
                want = RUNNING
            elif pending is None:
                want = state
            else:
                future = pending["future"]
                if future.done() and not future.cancelled():
                    want, new = pending["want"]
                    pending = None
                    outputs.update(new)
                    marked = set(new)
                elif future.cancelled():
                    want, pending = FAIL, None
                elif ros.now_ns - sent > TIMEOUT * 1e9:
                    want, pending = FAIL, None
                else:
                    want = RUNNING
            changed = fresh = False
            before_out = {k: leaf.outputs(node)[k][0] for k in outputs}
            res = node.tick()
            ctx.step()
            got = BROKEN if res.is_err() else res.ok()
            if got != want:
                bad(f"tick is {got}, not {want}", f"{res}")
            if node.state != want:
                bad(f"tick is {got} but the node is {node.state}")
            new = ros.calls[before:]
            if len(new) != (1 if expect_call else 0):
                bad(f"{len(new)} calls sent in one tick", f"expected {int(expect_call)}")
            if expect_call:
                pending = new[0]
                sent = ros.now_ns
                if pending["name"] != values["service_name"] or pending["client"].destroyed:
                    bad(f"the call goes to {pending['name']}", f"name is {values['service_name']}, destroyed {pending['client'].destroyed}")
                if fields_of(pending["request"]) != request(values):
                    bad(f"the request is {pending['request']}", f"inputs are {values}")
                pending["sent"] = repr(pending["request"])
            now = leaf.outputs(node)
            if want != BROKEN:
                for k, v in outputs.items():
                    if now[k][0] != v:
                        bad(f"output {k} is {now[k][0]!r}", f"expected {v!r}")
                    if now[k][1] != (k in marked) and not (k in marked and before_out[k] == v):
                        bad(f"output {k} is{'' if now[k][1] else ' not'} marked as new", repr(v))
            state = want
        elif op in ("untick", "reset", "restart"):
            if op == "restart":
                if node.shutdown().is_err():
                    bad("shutdown failed")
                if any(not c.destroyed for c in ros.clients_made):
                    bad("a client is left after shutdown")
                pending = None
                check_calls(bad, ros, None)
                setup()
            else:
                res = getattr(node, op)()
                if res.is_err():
                    bad(f"{op} failed", res)
                if op == "reset" and any(not c.destroyed for c in ros.clients_made):
                    bad("a client is left after reset")
            ctx.step()
            if node.state != IDLE:
                bad(f"{op} leaves the node {node.state}")
            pending, fresh, state = None, True, IDLE
            if op != "untick":
                outputs = {k: None for k in outputs}
                changed = True
            for k, (v, updated) in leaf.outputs(node).items():
                if updated and op == "untick":
                    bad(f"output {k} is marked as new after untick")
                outputs[k] = v if op != "untick" else outputs[k]
        elif op == "answer":
            if pending is None or pending["future"].done() or pending["future"].cancelled():
                return None
            last["n"] = last["n"] % 3 + 1
            choices = answers(10 + last["n"])
            response, want, new = choices[ch.choose(len(choices))] if len(choices) > 1 else choices[0]
            pending["want"] = (want, new)
            pending["future"].set_result(response)
        elif op == "old":
            stale = [c for c in ros.calls if c is not pending and not c["future"].done() and not c.get("late")]
            if not stale:
                return None
            for c in stale:
                c["late"] = True
                c["future"].set_result(answers(99)[0][0])
        elif op == "dropped":
            if pending is None or pending["future"].done() or pending["future"].cancelled():
                return None
            pending["future"].cancel()
        elif op in ("exactly", "little", "late"):
            if pending is None:
                return None
            ros.advance({"exactly": TIMEOUT, "little": 0.001, "late": 50.0}[op])
        elif op == "name":
            if static:
                return None
            values["service_name"] = NAMES[1 - NAMES.index(values["service_name"])]
            give("service_name")
            changed = True
        else:
            dom = fields[op]
            values[op] = dom[1 - dom.index(values[op])]
            give(op)
            changed = True
        check_calls(bad, ros, pending)
        live = [c for c in ros.clients_made if not c.destroyed]
        if len(live) > 1:
            bad(f"{len(live)} clients exist")
        for c in ros.calls:
            if repr(c["request"]) != c.get("sent", repr(c["request"])):
                bad(f"the request of an earlier call became {c['request']}", c["sent"])
        model = (kind, static, state, fresh, changed, sorted(values.items()), sorted(outputs.items()), last["n"],
                 None if pending is None else (max(ros.now_ns - sent, 0), pending["future"].done(), pending["future"].cancelled()),
                 len(live), any(not c["future"].done() and not c.get("late") for c in ros.calls if c is not pending))
        ctx.state(model)
        if state == BROKEN:
            break
        if ctx.visited(ch, (model, repr(leaf.inside(node, ros))), left):
            return trace
    ctx.outcome(tuple(trace))
    return trace


def check_calls(bad, ros, pending):
    for c in ros.calls:
        f = c["future"]
        if c is not pending and not f.done() and not f.cancelled():
            bad("a call that is not wanted any more is still pending", str(c["request"]))
