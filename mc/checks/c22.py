"""C22: loading broken tree descriptions."""

import copy
import itertools
import os

from mc import editing, standins, treemgr as tm, zoo
from mc.core import Violation

import ros_bt_py_interfaces.msg as bm

ID = "C22"
TECHNIQUE = ("exhaustive fault injection into tree descriptions: every single mutation of valid tree messages and every truncation, "
             "byte and line corruption of a tree file, loaded into the real tree manager")
NOTE = ("Only mutations that are certain to be invalid are required to be refused; any other may be refused or accepted, and an "
        "accepted one has to yield a sound tree. A version newer than the package is not judged.")

MODELS = ("wide", "deep")
GARBAGE = ["", "nonsense", "null", "[]", "{}", "1", "1.5", "1e999", "-1", '"x"', "true", "[1, ]", '{"a": 1}', "NaN", "\\", "'",
           '{"__type": 1}', "!!python/none", "[" * 2000]


def BOUNDS(tier):
    return (f"every single mutation of 2 trees of the harness's nodes and of a tree around each node of the zoo; every truncation, "
            f"and every corruption of one byte by {2 if tier == 'quick' else 6} others and of one line in 8 ways, of a tree file"
            + ("" if tier == "quick" else "; all pairs of mutations of one tree, all pairs of line corruptions"))


def shards(tier):
    labels = zoo.labels()
    out = [["model", m] for m in MODELS] + [["zoo", labels[i::24]] for i in range(24)]
    out += [["cut", i, 8] for i in range(8)] + [["byte", i, 24] for i in range(24)] + [["line", i, 8] for i in range(8)] + [["whole"]]
    if tier == "thorough":
        out += [["pairs", i, 32] for i in range(32)] + [["lines", i, 16] for i in range(16)]
    return out


def run(shard, ctx):
    kind, rest = shard[0], shard[1:]
    load = Loader(ctx)
    if kind == "model":
        base = message(rest[0])
        for name, fn, verdict in mutations(base, True):
            load.message(f"{rest[0]}: {name}", mutated(base, fn), verdict)
    elif kind == "zoo":
        for label in rest[0]:
            base = around(label)
            load.message(f"{label}: as it is", copy.deepcopy(base), "accept")
            for name, fn, verdict in node_mutations(base, 0, False):
                load.message(f"{label}: {name}", mutated(base, fn), verdict)
    elif kind == "pairs":
        base = message("small")
        pairs = itertools.combinations(list(mutations(base, False)), 2)
        for i, ((a, f, v), (b, g, w)) in enumerate(pairs):
            if i % rest[1] == rest[0]:
                load.message(f"small: {a} + {b}", mutated(base, f, g), "any")
    else:
        text = file_text()
        load.file("the file as it is", text, "accept")
        for name, data, verdict in {"cut": cuts, "byte": bytes_ if ctx.thorough else two_bytes, "line": lines, "whole": wholes, "lines": line_pairs}[kind](text, *rest):
            load.file(name, data, verdict)
        if kind == "whole":
            for path in paths():
                load.message(f"path {path!r}", bm.TreeStructure(path=path), "refuse")


class Loader:
    """Keeps one manager, in which a known good tree is loaded before every attempt."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.run = None

    def fresh(self):
        self.run = tm.Run()
        self.run.ids = {}
        good(self.run)
        self.known = self.run.shown(), self.run.loose_graph()

    def message(self, name, tree, verdict):
        self.ctx.case(name, lambda: self.attempt(name, lambda run: run.call("load_tree", tree=tree, permissive=False), verdict))

    def file(self, name, data, verdict):
        def go(run):
            path = os.path.join(zoo.scratch(), "broken.yaml")
            with open(path, "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode())
            tree = bm.TreeStructure(path="file://" + path)
            return run.call("load_tree", tree=tree, permissive=False)

        self.ctx.case(name, lambda: self.attempt(name, go, verdict))

    def attempt(self, name, go, verdict):
        if self.run is None:
            self.fresh()
        run, known = self.run, self.known
        self.run = None
        self.ctx.step()
        try:
            res = go(run)
        except Exception as ex:
            raise Violation(f"exception {type(ex).__name__}: {name}", repr(ex)) from ex
        self.ctx.outcome((res.success, res.error_message[:20]))
        if res.success:
            if verdict == "refuse":
                raise Violation(f"accepted: {name}", "")
            editing.structure(run, name)
        else:
            if verdict == "accept":
                raise Violation(f"refused: {name}", res.error_message)
            if not res.error_message:
                raise Violation(f"refused without a reason: {name}", "")
            run.m.publish_structure()
            after = run.shown(), run.loose_graph()
            if after != known:
                raise Violation(f"refused, but not without effect: {name}", f"\nbefore {known}\nafter  {after}")
        try:
            good(run)
        except Exception as ex:
            raise Violation(f"afterwards a valid tree cannot be loaded: {name}", repr(ex)) from ex
        if (run.shown(), run.loose_graph()) != known:
            raise Violation(f"afterwards a valid tree is not loaded as it is: {name}", repr((run.shown(), known)))
        self.run = run


def good(run):
    helper = tm.Run()
    tree = tm.tree_msg(helper, tm.LOADED, 0x10AD0000)
    tree.path = "file:///somewhere"
    res = run.call("load_tree", tree=tree, permissive=False)
    if not res.success:
        raise Violation("a valid tree cannot be loaded", res.error_message)


# ---------------------------------------------------------------- messages


SMALL = tm.Model([("0", "Flow", "1", ["1", "2"]), ("1", "Src", "int", []), ("2", "Snk", "0", [])], [("1", "n", "2", "a")])


def message(name):
    return tm.tree_msg(tm.Run(), SMALL if name == "small" else editing.STARTS[name], 0xBA5E0000)


def around(label):
    """A tree around a node of the zoo, and its children."""
    rig = zoo.make(label)
    node = rig.node.to_structure_msg()
    count = len(node.child_ids)
    kids = [tm.new_node("Mid", "0", f"k{i}", [], f"00000000-0000-0000-0000-0000000000{i:02x}") for i in range(10, 10 + count)]
    node.child_ids = [k.node_id for k in kids]
    return bm.TreeStructure(name="around", nodes=[node] + kids, tick_frequency_hz=10.0)


def mutated(base, *fns):
    tree = copy.deepcopy(base)
    for fn in fns:
        try:
            fn(tree)
        except (IndexError, ValueError):
            pass  # the first mutation took away what the second one changes
    return tree


def mutations(base, rich):
    for i in range(len(base.nodes)):
        yield from node_mutations(base, i, True, rich)
    yield from tree_mutations(base)


def setter(path, value):
    def fn(tree):
        at = tree
        for p in path[:-1]:
            at = at[p] if isinstance(p, int) else getattr(at, p)
        p = path[-1]
        if isinstance(p, int):
            at[p] = value
        else:
            setattr(at, p, value)

    return fn


def changer(path, change):
    """Replace a list by change(list)."""
    def fn(tree):
        at = tree
        for p in path[:-1]:
            at = at[p] if isinstance(p, int) else getattr(at, p)
        setattr(at, path[-1], change(list(getattr(at, path[-1]))))

    return fn


def node_mutations(base, i, model, rich=True):
    n = base.nodes[i]
    where = f"node {i}"
    for value in ("", "mc.nowhere", "os", "mc.kinds_types", ".", "..", "a b"):
        yield f"{where} module {value!r}", setter(("nodes", i, "module"), value), "refuse"
    for value in ("", "Nothing", "Node", "Leaf", "__init__"):
        yield f"{where} class {value!r}", setter(("nodes", i, "node_class"), value), "refuse"
    for value in ("", "no id", "0", "\0", "00000000-0000-0000-0000-00000000000"):
        yield f"{where} id {value!r}", setter(("nodes", i, "node_id"), value), "refuse"
    for value in (tm.UNKNOWN, tm.ZERO):
        yield f"{where} id {value!r}", setter(("nodes", i, "node_id"), value), "any"
    for j, other in enumerate(base.nodes):
        if j != i:
            yield f"{where} id of node {j}", setter(("nodes", i, "node_id"), other.node_id), "refuse"
            yield f"{where} id of node {j}, in capitals", setter(("nodes", i, "node_id"), other.node_id.upper()), "refuse"
        taken = any(other.node_id in m.child_ids for m in base.nodes)
        verdict = "refuse" if j == i or taken else "any"
        yield f"{where} + child {j}", changer(("nodes", i, "child_ids"), lambda c, x=other.node_id: c + [x]), verdict
    for value in ("", "no id", tm.UNKNOWN):
        yield f"{where} + child {value!r}", changer(("nodes", i, "child_ids"), lambda c, v=value: c + [v]), "refuse"
        yield f"{where} + first child {value!r}", changer(("nodes", i, "child_ids"), lambda c, v=value: [v] + c), "refuse"
    for k in range(len(n.child_ids)):
        yield f"{where} - child {k}", changer(("nodes", i, "child_ids"), lambda c, k=k: c[:k] + c[k + 1:]), "any"
        yield f"{where} twice child {k}", changer(("nodes", i, "child_ids"), lambda c, k=k: c + [c[k]]), "refuse"
    for value in ("", "x" * 300, "\n", base.nodes[0].name):
        yield f"{where} name {value[:9]!r}", setter(("nodes", i, "name"), value), "any"
    for value in (-7, 0, 1, 99):
        yield f"{where} max_children {value}", setter(("nodes", i, "max_children"), value), "any"
    for value in ("no id", tm.UNKNOWN):
        yield f"{where} tree_ref {value}", setter(("nodes", i, "tree_ref"), value), "any"
    yield f"{where} missing", changer(("nodes",), lambda c: c[:i] + c[i + 1:]), (
        "refuse" if model and (any(n.node_id in m.child_ids for m in base.nodes) or wired(base, n)) or len(base.nodes) == 1 else "any")
    yield f"{where} twice", changer(("nodes",), lambda c: c + [c[i]]), "refuse"
    for side in ("inputs", "outputs"):
        yield from io_mutations(base, i, side, model, rich)


def wired(base, n):
    return any(n.node_id in (w.source.node_id, w.target.node_id) for w in base.data_wirings)


_types = None


def types():
    """Messages describing data types, valid or not."""
    global _types
    if _types is None:
        _types = [copy.deepcopy(i.type) for label in zoo.labels() for i in around(label).nodes[0].inputs]
        unique = {}
        for t in _types:
            unique.setdefault(repr(t), t)
        _types = list(unique.values())[:14] + [bm.NodeDataType(), bm.NodeDataType(type_identifier=250)]
    return _types


def io_mutations(base, i, side, model, rich):
    items = getattr(base.nodes[i], side)
    where = f"node {i} {side}"
    path = ("nodes", i, side)
    static = {k for k in range(len(items)) if items[k].serialized_value}
    extra = bm.NodeIO(key="zz", type=items[0].type, serialized_value="1") if items else bm.NodeIO(
        key="zz", type=bm.NodeDataType(type_identifier=1), serialized_value="1")
    yield f"{where} + zz", changer(path, lambda c: c + [extra]), "refuse" if side == "inputs" and model else "any"
    yield f"{where} none", changer(path, lambda c: []), "any"
    yield f"{where} backwards", changer(path, lambda c: c[::-1]), "any"
    for k, item in enumerate(items):
        at = f"{where} {item.key}"
        yield f"{at} missing", changer(path, lambda c, k=k: c[:k] + c[k + 1:]), "any"
        yield f"{at} twice", changer(path, lambda c, k=k: c + [c[k]]), "any"
        yield f"{at} key ''", setter(path + (k, "key"), ""), "refuse" if side == "inputs" and model else "any"
        for value in GARBAGE:
            # in the harness's own trees every static value is a number or a description of a type
            bad = model and side == "inputs" and k in static and value not in ("1", "-1", "1e999", "true", "1.5", "NaN")
            yield f"{at} value {value[:20]!r}", setter(path + (k, "serialized_value"), value), "refuse" if bad else "any"
        for t, kind in enumerate(types()):
            bad = model and side == "inputs" and kind.type_identifier == 250
            yield f"{at} type {t}", setter(path + (k, "type"), kind), "refuse" if bad else "any"
        if rich:
            for field in bm.NodeDataType.get_fields_and_field_types():
                for value in (flips(getattr(item.type, field))):
                    yield f"{at} type.{field} {value!r:.20}", setter(path + (k, "type", field), value), "any"


def flips(value):
    if isinstance(value, bool):
        return [not value]
    if isinstance(value, str):
        return ["", "x", "[1]", '{"a": 1}', "9" * 400]
    if isinstance(value, int):
        return [-1, 0, 3, 255]
    if isinstance(value, float):
        return [-1.0, float("nan"), float("inf")]
    if isinstance(value, bm.Type if hasattr(bm, "Type") else ()):
        return []
    try:
        n = len(value)
    except TypeError:
        return []
    return [value[:0]] if n else []


def tree_mutations(base):
    ids = [n.node_id for n in base.nodes]
    for k, w in enumerate(base.data_wirings):
        at = f"wiring {k}"
        yield f"{at} missing", changer(("data_wirings",), lambda c, k=k: c[:k] + c[k + 1:]), "any"
        yield f"{at} twice", changer(("data_wirings",), lambda c, k=k: c + [c[k]]), "refuse"
        yield f"{at} turned around", setter(("data_wirings", k), bm.Wiring(source=w.target, target=w.source)), "refuse"
        for end in ("source", "target"):
            for value in ("", "no id", tm.UNKNOWN, tm.ZERO, ids[0]):
                yield f"{at} {end} {value!r}", setter(("data_wirings", k, end, "node_id"), value), "refuse"
            for value in ("", "zz", "x", "s", "__class__"):
                yield f"{at} {end} key {value!r}", setter(("data_wirings", k, end, "data_key"), value), "refuse"
    for x in base.nodes:
        for o in x.outputs:
            for y in base.nodes:
                for i in y.inputs:
                    w = bm.Wiring(source=bm.NodeDataLocation(node_id=x.node_id, data_key=o.key),
                                  target=bm.NodeDataLocation(node_id=y.node_id, data_key=i.key))
                    verdict = "any" if w in base.data_wirings or i.serialized_value == "" and not any(
                        v.target == w.target for v in base.data_wirings) else "refuse"
                    yield f"+ wiring {x.name}.{o.key} {y.name}.{i.key}", changer(("data_wirings",), lambda c, w=w: c + [w]), verdict
    for value in ("", "no id", tm.UNKNOWN, ids[-1]):
        yield f"root {value!r}", setter(("root_id",), value), "any"
    for value in (0.0, -1.0, float("nan"), float("inf"), 1e-300, 1e300):
        yield f"frequency {value}", setter(("tick_frequency_hz",), value), "any"
    for key in ("tree_id", "name", "path"):
        for value in ("", "x" * 300, "\n\0", "file:///nowhere"):
            yield f"{key} {value[:9]!r}", setter((key,), value), "any"
    for side in ("public_inputs", "public_outputs"):
        for a, b in (("", ""), ("no id", "x"), (tm.UNKNOWN, "x"), (ids[0], "zz"), (ids[0], "x")):
            loc = bm.NodeDataLocation(node_id=a, data_key=b)
            yield f"{side} {a!r} {b!r}", changer((side,), lambda c, loc=loc: c + [loc]), "any"
    yield "no nodes", setter(("nodes",), []), "refuse"
    yield "nodes backwards", changer(("nodes",), lambda c: c[::-1]), "accept"
    yield "wirings backwards", changer(("data_wirings",), lambda c: c[::-1]), "accept"
    for a, b in itertools.permutations(range(len(ids)), 2):
        # the two nodes exchange their places as children: a cycle, a valid tree, or too many children
        def swap(tree, x=ids[a], y=ids[b]):
            for n in tree.nodes:
                n.child_ids = [y if c == x else x if c == y else c for c in n.child_ids]

        yield f"places of {a} and {b} exchanged", swap, "any"

        def adopt(tree, a=a, y=ids[b]):
            for n in tree.nodes:
                n.child_ids = [c for c in n.child_ids if c != y]
            tree.nodes[a].child_ids = list(tree.nodes[a].child_ids) + [y]

        yield f"{a} adopts {b}", adopt, "refuse" if below(base, ids[a], ids[b]) else "any"


def below(base, x, y):
    """x is y or below it."""
    kids = {n.node_id: n.child_ids for n in base.nodes}
    todo = [y]
    for t in todo:
        todo += kids[t]
    return x in todo


# ---------------------------------------------------------------- files


def file_text():
    with open(zoo.tree_file(message("small"), "good.yaml")[len("file://"):]) as f:
        return f.read()


def cuts(text, part, parts):
    data = text.encode()
    for i in range(part, len(data), parts):
        yield f"cut after {i} bytes", data[:i], "any"


def two_bytes(text, part, parts):
    return bytes_(text, part, parts, (b":", b"\n"))


def bytes_(text, part, parts, values=(b"\0", b"}", b":", b"\n", b"\t", b"\xff")):
    data = text.encode()
    for i in range(part, len(data), parts):
        for b in values:
            if data[i:i + 1] != b:
                yield f"byte {i} {b!r}", data[:i] + b + data[i + 1:], "any"


def line_edits(rows, i):
    row = rows[i]
    key = row.split(":")[0]
    yield "missing", []
    yield "twice", [row, row]
    yield "no value", [key + ":"]
    for value in ("[]", "{}", "[x]", "{x: 1}", "text", "3", "true", "2024-01-01", "*a", "&a [*a]", "!!binary x", "!x y", "-", "[[", "1e999",
                  "0x_", "1:60", "9" * 400):
        yield value[:20], [key + ": " + value]
    yield "indented", ["  " + row]
    if row.startswith(" "):
        yield "unindented", [row[2:]]
    yield "key", [row.replace(key.strip("- "), "zz", 1)]
    yield "key __class__", [row.replace(key.strip("- "), "__class__", 1)]
    yield "key get_fields_and_field_types", [row.replace(key.strip("- "), "get_fields_and_field_types", 1)]
    if i + 1 < len(rows):
        yield "moved down", None


def lines(text, part, parts):
    rows = text.splitlines()
    for i in range(part, len(rows), parts):
        for name, new in line_edits(rows, i):
            if new is None:
                out = rows[:i] + [rows[i + 1], rows[i]] + rows[i + 2:]
            else:
                out = rows[:i] + new + rows[i + 1:]
            yield f"line {i} {name}", "\n".join(out) + "\n", "any"


def line_pairs(text, part, parts):
    rows = text.splitlines()
    edits = {i: [(n, e) for n, e in line_edits(rows, i) if n in ("missing", "twice", "no value", "[]", "text", "3", "indented")]
             for i in range(len(rows))}
    for k, (i, j) in enumerate(itertools.combinations(range(len(rows)), 2)):
        if k % parts == part:
            for (a, x), (b, y) in itertools.product(edits[i], edits[j]):
                yield f"line {i} {a} + line {j} {b}", "\n".join(rows[:i] + x + rows[i + 1:j] + y + rows[j + 1:]) + "\n", "any"


def wholes(text):
    first, rest = text.split("\n", 1)
    yield "no version", rest, "any"
    for v in ("0.0.0", "0.0.1", "0.9.9", "''", "abc", "1.0", "null", "[]", "{}", "-1"):
        yield f"version {v}", f"version: {v}\n{rest}", "refuse"
    for v in ("1.0.0", "9.9.9"):
        yield f"version {v}", f"version: {v}\n{rest}", "any" if v == "9.9.9" else "accept"
    yield "twice", text + "---\n" + text, "refuse"
    yield "followed by an empty document", text + "---\n", "any"
    yield "preceded by an empty document", "---\n---\n" + text, "any"
    yield "followed by text", text + "---\nx\n", "refuse"
    yield "comment", "# x\n" + text, "accept"
    for name, data in (("nothing", b""), ("a newline", b"\n"), ("zeros", b"\0" * 100), ("a comment", b"# x"), ("a text", b"x"),
                       ("a number", b"3"), ("a list", b"- 1\n"), ("true", b"true"), ("empty documents", b"---\n---\n"),
                       ("not utf-8", b"\xff\xfe\x00"), ("utf-16", text.encode("utf-16")), ("only a version", first.encode()),
                       ("an own alias", b"version: 1.0.0\nnodes: &a [*a]\n"), ("a tag", b"!!python/object:os.system x"),
                       ("an unknown field", b"version: 1.0.0\nzz: 1\n"), ("no nodes", b"version: 1.0.0\nname: x\nnodes: []\n"),
                       ("a wrong key type", b"version: 1.0.0\n1: 2\n"), ("deep", b"version: 1.0.0\nnodes: " + b"[" * 3000 + b"]" * 3000),
                       ("deep, open", b"[" * 5000), ("huge number", b"version: 1.0.0\ntick_frequency_hz: " + b"9" * 400),
                       ("huge number 2", b"version: 1.0.0\ntick_frequency_hz: " + b"9" * 5000),
                       ("itself as path", b"version: 1.0.0\npath: file:///x\n")):
        yield name, data, "refuse"
    yield "utf-8 mark", b"\xef\xbb\xbf" + text.encode(), "any"
    yield "crlf", text.replace("\n", "\r\n"), "accept"


def paths():
    base = zoo.scratch()
    os.makedirs(os.path.join(base, "folder"), exist_ok=True)
    return ["", "x", "/etc/hostname", "file://", "file:///nowhere/x.yaml", "file://" + base, "file://" + base + "/folder", "file://\0",
            "file://" + "x" * 5000, "package://", "package:///", "package://nowhere", "package://nowhere/x.yaml", "package://no where/x",
            "package://../x", "package://./x", "package://ros_bt_py", "package://ros_bt_py/nowhere.yaml", "http://x/y.yaml", "FILE:///x", "file:/x",
            "package://\0/x", "file://" + base + "/good.yaml/x"]
