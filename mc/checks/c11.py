import itertools
import uuid
from copy import deepcopy

from mc import editing, execution as ex, kinds, sched, standins, treemgr as tm  # noqa: F401
from mc.core import Violation
from mc.treekit import IDLE, SHUTDOWN, SUCC, nid

from ros_bt_py.data_flow_manager import DataFlowManager
from ros_bt_py import data_types as dt
from ros_bt_py.node import FlowControl, Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import NodeDataLocation, Wiring

TECHNIQUE = "explicit-state model checking: all wirings and histories of real wired nodes against a reference data-flow model"
NOTE = ("Complete for the stated wirings and histories. 'Set' means set to a value different from the one held: the code's "
        "documented meaning of the updated mark, which the reference model shares.")
ID = "C11"
VALUES = {"int": (1, 2), "list": ([1], [2, 3])}


def BOUNDS(tier):
    return ("three nodes with two inputs and two outputs each, direct or under one parent: every assignment of outputs to inputs "
            "out of the listed fan-outs, chains, self-loops and back edges; histories of 2 (thorough: 3) steps, and of 3 (5) with "
            "equal states merged, of ticks with every choice of outputs set, resets, unticks, restarts, public-data changes; a tree of 4 nodes with 2 wirings "
            f"executed 0 or 1 times and then changed by every editing request ({'two for each' if tier == 'thorough' else 'two after unwiring'}), against the same tree loaded afresh")


def port(kind):
    return dt.IntType(allow_static=False) if kind == "int" else dt.ListType(element_type=dt.IntType(), allow_static=False)


def config(kind):
    return NodeConfig(inputs={k: port(kind) for k in "xy"}, outputs={k: port(kind) for k in "uv"}, max_children=0)


class Ports:
    plan = ()
    seen = None

    def _do_setup(self):
        return Ok(IDLE)

    def _do_tick(self):
        self.seen = {k: (c.get_value().ok(), c.is_updated()) for k, c in self.node_config.inputs.items()}
        for key, value in self.plan:
            self.node_config.outputs[key].set_value(value).unwrap()
        return Ok(SUCC)

    def _do_untick(self):
        return Ok(IDLE)

    def _do_reset(self):
        return Ok(IDLE)

    def _do_shutdown(self):
        return Ok(SHUTDOWN)


@define_bt_node(config("int"))
class IntPorts(Ports, Leaf):
    pass


@define_bt_node(config("list"))
class ListPorts(Ports, Leaf):
    pass


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class Row(FlowControl):
    """Ticks its children in order and nothing else."""

    def each(self, op, state):
        for child in self.children:
            res = getattr(child, op)()
            if res.is_err():
                return res
        return Ok(state)

    def _do_setup(self):
        return self.each("setup", IDLE)

    def _do_tick(self):
        return self.each("tick", SUCC)

    def _do_untick(self):
        return self.each("untick", IDLE)

    def _do_reset(self):
        return self.each("reset", IDLE)

    def _do_shutdown(self):
        return Ok(SHUTDOWN)


EDGES = [  # (source node, key) for each wired input
    {(1, "x"): (0, "u")},
    {(1, "x"): (0, "u"), (1, "y"): (0, "u"), (2, "x"): (0, "u")},  # fan-out
    {(1, "x"): (0, "u"), (2, "x"): (0, "v")},
    {(1, "x"): (0, "u"), (2, "x"): (1, "u")},  # chain
    {(1, "x"): (0, "u"), (1, "y"): (0, "v"), (2, "y"): (1, "v")},
    {(0, "x"): (0, "u")},  # self-loop
    {(0, "x"): (1, "u"), (1, "x"): (0, "u")},  # back edge
    {(0, "x"): (2, "u"), (0, "y"): (2, "v"), (2, "x"): (0, "u")},
    {(0, "x"): (0, "v"), (1, "x"): (0, "v"), (2, "y"): (0, "u")},
    {},
]
PUBLIC = [  # incoming input, outgoing output
    (None, None), ((0, "y"), (0, "u")), ((1, "y"), (1, "u")), ((2, "y"), (0, "v")),
]


def shards(tier):
    return [["edited", w, before, part] for w in range(len(WIRED)) for before in range(2) for part in range(PARTS)] + \
        [[e, p, kind, how] for e in range(len(EDGES)) for p in range(len(PUBLIC))
            for kind, how in (("int", "direct"), ("int", "row"), ("list", "direct")) if kind == "int" or p in (0, 1)]


class Cell:
    def __init__(self, value=None, updated=False):
        self.value, self.updated = value, updated

    def set(self, value):
        if self.value != value:
            self.value, self.updated = value, True


def run(shard, ctx):
    if shard[0] == "edited":
        edited(ctx, *shard[1:])
        return
    e, p, kind, how = shard
    edges, (inc, outg) = EDGES[e], PUBLIC[p]
    if inc in edges:
        inc = None
    a, b = VALUES[kind]
    cls = IntPorts if kind == "int" else ListPorts
    ids = [nid(i) for i in range(3)]
    used = sorted({s for s in edges.values()} | ({outg} if outg else set()))

    def plans(n):
        keys = [k for m, k in used if m == n]
        out = [()]
        for k in keys:
            out += [((k, a),), ((k, b),)]
        if len(keys) == 2:
            out.append(((keys[0], b), (keys[1], a)))
        return out

    moves = []
    for n in range(3):
        if how == "direct":
            moves += [("tick", n, plan) for plan in plans(n)]
        moves += [("untick", n), ("reset", n)]
        if how == "direct":
            moves.append(("restart", n))
    if how == "row":
        every = list(itertools.product(*[plans(n) for n in range(3)]))
        moves = [("all", pl) for pl in every[:: max(1, len(every) // 20)]] + [("untick", "r"), ("reset", "r")]
    if inc:
        moves += [("incoming", a), ("incoming", b), ("incoming", None)]
    if outg:
        moves.append(("read",))

    def body(ch, depth, merge):
        extra = str(uuid.UUID(int=77)) + ".x"
        incoming = {extra: port(kind), "nonsense": port(kind), f"{ids[0]}.none": port(kind)}
        outgoing = {extra: port(kind), f"{ids[0]}.none": port(kind)}
        if inc:
            incoming[f"{ids[inc[0]]}.{inc[1]}"] = port(kind)
        if outg:
            outgoing[f"{ids[outg[0]]}.{outg[1]}"] = port(kind)
        for c in (*incoming.values(), *outgoing.values()):
            c.reset_value()
            c.reset_updated()
        for key in (extra, "nonsense", f"{ids[0]}.none"):
            incoming[key].set_value(a)
        dfm = DataFlowManager(incoming_data=incoming, outgoing_data=outgoing)
        nodes = [cls(node_id=ids[i], name=f"n{i}", data_flow_manager=dfm) for i in range(3)]
        wirings = [Wiring(source=NodeDataLocation(node_id=str(ids[s[0]]), data_key=s[1]),
                          target=NodeDataLocation(node_id=str(ids[t[0]]), data_key=t[1])) for t, s in edges.items()]
        table = {n.node_id: n for n in nodes}
        root = None
        if how == "row":
            root = Row(node_id=nid(9), name="r", data_flow_manager=dfm)
            for n in nodes:
                root.add_child(n)
            table[root.node_id] = root
        if dfm.initialize(table, wirings).is_err():
            raise Violation(f"initialize refused {edges}")
        ins = {(i, k): Cell() for i in range(3) for k in "xy"}
        outs = {(i, k): Cell() for i in range(3) for k in "uv"}
        inp, outp = Cell(), Cell()
        broken = [False] * 3
        trace = []

        def bad(what, detail=""):
            raise Violation(f"{kind} {how} wiring {edges} public {inc} {outg}: {what}: {trace}", detail)

        def m_setup(n):
            for k in "xy":
                ins[n, k] = Cell(None, True)
            for k in "uv":
                outs[n, k] = Cell()
            broken[n] = False

        def m_tick(n, plan):
            """True if the tick works."""
            if broken[n]:
                return False
            if any(ins[n, k].value is None for k in "xy"):
                broken[n] = True
                return False
            seen = {k: (ins[n, k].value, ins[n, k].updated) for k in "xy"}
            for k in "uv":
                outs[n, k].updated = False
            for k, v in plan:
                outs[n, k].set(v)
            for k in "xy":
                ins[n, k].updated = False
            for t, s in edges.items():
                if s[0] == n and outs[s].updated:
                    ins[t].set(outs[s].value)
            if outg and outg[0] == n and outs[outg].updated:
                outp.set(outs[outg].value)
            return seen

        def m_reset(n):
            for k in "xy":
                ins[n, k].updated = True
            for k in "uv":
                outs[n, k] = Cell()

        def compare():
            for (n, k), c in ins.items():
                r = nodes[n].node_config.inputs[k]
                if (r.get_value().ok(), r.is_updated()) != (c.value, c.updated):
                    bad(f"input n{n}.{k} differs", f"real {r.get_value()} {r.is_updated()}, model {c.value} {c.updated}")
            for (n, k), c in outs.items():
                r = nodes[n].node_config.outputs[k]
                if (r.get_value().ok(), r.is_updated()) != (c.value, c.updated):
                    bad(f"output n{n}.{k} differs", f"real {r.get_value()} {r.is_updated()}, model {c.value} {c.updated}")
            if outg:
                r = outgoing[f"{ids[outg[0]]}.{outg[1]}"]
                if (r.get_value().ok(), r.is_updated()) != (outp.value, outp.updated):
                    bad("outgoing data differs", f"real {r.get_value()} {r.is_updated()}, model {outp.value} {outp.updated}")
            if outgoing[extra].has_value() or outgoing[f"{ids[0]}.none"].has_value():
                bad("outgoing data of another name was set")

        if (root.setup() if root else Ok(0)).is_err():
            bad("setup failed")
        for n in range(3):
            if root is None and nodes[n].setup().is_err():
                bad("setup failed")
            m_setup(n)
        compare()
        for (n, k), c in ins.items():  # values from outside for what is not wired; wired ones only sometimes
            if (n, k) not in edges and (n, k) != inc or ch.choose(2):
                nodes[n].node_config.inputs[k].set_value(b)
                c.set(b)
                if (n, k) in edges:
                    trace.append(f"n{n}.{k} has a value")
        for left in reversed(range(depth)):
            move = ch.choose(moves)
            trace.append(move)
            if move[0] == "tick":
                _, n, plan = move
                nodes[n].plan, nodes[n].seen = plan, None
                res = nodes[n].tick()
                seen = m_tick(n, plan)
                if res.is_ok() != bool(seen) or seen and nodes[n].seen != seen:
                    bad("tick sees other inputs", f"{res} real {nodes[n].seen} model {seen}")
            elif move[0] == "all":
                for n in range(3):
                    nodes[n].plan, nodes[n].seen = move[1][n], None
                res = root.tick()
                good = True
                for n in range(3):
                    seen = m_tick(n, move[1][n])
                    if not seen:
                        good = False
                        break
                    if nodes[n].seen != seen:
                        bad("tick sees other inputs", f"{res} n{n} real {nodes[n].seen} model {seen}")
                if res.is_ok() != good:
                    bad("tick of the tree", f"{res}")
                if not good:
                    compare()
                    return trace
            elif move[0] in ("untick", "reset"):
                for n in (range(3) if move[1] == "r" else [move[1]]):
                    if not broken[n]:
                        if move[0] == "reset":
                            m_reset(n)
                        for k in "uv":
                            outs[n, k].updated = False
                res = getattr(root if move[1] == "r" else nodes[move[1]], move[0])()
                if move[1] != "r" and res.is_ok() == broken[move[1]]:
                    bad("refused", str(res))
            elif move[0] == "restart":
                if nodes[move[1]].shutdown().is_err() or nodes[move[1]].setup().is_err():
                    bad("restart failed")
                m_setup(move[1])
            elif move[0] == "incoming":
                c = incoming[f"{ids[inc[0]]}.{inc[1]}"]
                if move[1] is not None:
                    c.set_value(move[1])
                    inp.set(move[1])
                if dfm.push_incoming_data().is_err():
                    bad("push of public data refused")
                if inp.updated:
                    ins[inc].set(inp.value)
                c.reset_updated()
                inp.updated = False
            elif move[0] == "read":
                outgoing[f"{ids[outg[0]]}.{outg[1]}"].reset_updated()
                outp.updated = False
            ctx.step()
            compare()
            now = (shard, broken, [n.state for n in nodes],
                   [(c.value, c.updated) for c in (*ins.values(), *outs.values(), inp, outp)])
            ctx.state(now)
            if merge and ctx.visited(ch, now, left):
                return None
        ctx.outcome((trace))
        return trace

    ctx.explore(lambda ch: body(ch, ctx.pick(2, 3), False), tag="all")
    ctx.explore(lambda ch: body(ch, ctx.pick(3, 5), True), tag="merged")


# ---------------------------------------------------------------- trees that are edited between executions

TREE = [("0", "Flow", "0", ["1", "2", "3"]), ("1", "Src", "int", []), ("2", "Mid", "0", []), ("3", "Mid", "0", [])]
WIRED = [[("1", "n", "2", "a"), ("2", "b", "3", "a")], [("1", "o", "2", "a"), ("1", "o", "3", "a")]]
PARTS = 8


def edited(ctx, w, before, part):
    """Execute (or not), edit, execute: as the same tree does when it is loaded afresh."""
    first = editing.requests(tm.Model(TREE, WIRED[w]))[part::PARTS]
    ctx.explore(lambda ch: alike(ch, ctx, WIRED[w], before, first), f"edited {w} {before} {part}")


def alike(ch, ctx, wires, before, first):
    kinds.env.answer = None
    old, new = tm.Run(), tm.Run()
    s = sched.Scheduler(ch, 0, ros=old.ros, free=False)
    trace = [f"{wires} executed {before} times"]

    def client():
        model = tm.Model(TREE, wires)
        tm.load(old, model)
        for _ in range(before):
            for command in (ex.ONCE, ex.SHUTDOWN):
                if not old.control(command).success:
                    raise Violation(f"cannot execute: {trace}", command)
        requests = first
        while requests:
            r = ch.choose(requests)
            if r is None:
                break
            trace.append(r)
            if not tm.send(old, model, r).success:
                ctx.outcome("refused")
                return
            model = model.apply(r)
            if model is None or model == "any":
                return  # C19's matter
            requests = []
            if len(trace) == 2 and (ctx.thorough or r[0] == "unwire"):
                requests = [None] + [q for q in editing.wirings(model) if not q[2]]
                requests += [(k, x) + more for x in model.nodes for k, *more in (("remove", False), ("move", "0", 0)) for more in [tuple(more)]]
        if not new.call("load_tree", tree=deepcopy(old.m.structure_to_msg()), permissive=False).success:
            ctx.outcome("not loadable")
            return
        for node in old.m.nodes.values():
            if isinstance(node, kinds.Src):
                node.count = 0
        for tick in range(2):
            seen = []
            for run in (old, new):
                res = run.control(ex.ONCE)
                executes = run.m.state != "EDITABLE"
                seen.append((bool(res.success), run.m.state, {str(k): observed(n) for k, n in run.m.nodes.items() if executes}))
                ctx.step()
            if seen[0] != seen[1]:
                raise Violation(f"an edited tree does not execute like the same tree loaded afresh: {trace}", f"tick {tick + 1}: {seen[0]} instead of {seen[1]}")
        ctx.state([seen[0][:2]] + [v for _, v in sorted(seen[0][2].items())])
        ctx.outcome(seen[0][:2])

    s.spawn(client, "client")
    s.run()
    if s.crashed:
        raise Violation(f"the ticking thread died: {trace}", repr(s.crashed))
    return trace


def observed(node):
    return (node.name, node.state, [(k, c.get_value().ok()) for side in (node.node_config.inputs, node.node_config.outputs)
                                    for k, c in sorted(side.items()) if not isinstance(c, dt.GenericType)])
