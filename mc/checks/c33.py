"""C33: listings and look-ups."""

import itertools
import json
import os
import shutil
import sys

from mc import files, sched, standins, treemgr as tm
from mc.core import Violation

import ros_bt_py_interfaces.msg as bm
import ros_bt_py_interfaces.srv as bs
from ros_bt_py.node import Node
from ros_bt_py.package_manager import PackageManager
from ros_bt_py.tree_exec_manager import load_tree_from_file

sched.install()

ID = "C33"
TECHNIQUE = "explicit enumeration of all folder shapes up to a depth and of all queries of an alphabet on the real file system against a reference listing, and all schedules of two concurrent requests up to a preemption bound"
NOTE = "symbolic links are not judged; the packages are found through a scratch ament index; unreadable folders are listed without content"

TREE = "version: 1.0.0\n" + standins.message_to_yaml(tm.tree_msg(tm.Run(), tm.LOADED, 0x33000000))
NAMES = ["a.yaml", ".h.yaml", "b", "c d.yaml", "\u00fc#?%41.yaml"]
DIRS = ["sub", ".git", "a.yaml.d"]


def shapes(thorough):
    """{name: content or a dict}"""
    inner = [{}, {"a.yaml": TREE}, {".h.yaml": TREE, "x": TREE}, {"deep": {"a.yaml": TREE, "sub": {}}}]
    inner += [{"sub": {"a.yaml": TREE}, "a.yaml": TREE}, {".x": {".y": {"z": TREE}}}] if thorough else []
    for k in range(len(NAMES) + 1) if thorough else (0, 1, len(NAMES)):
        for names in itertools.combinations(NAMES, k):
            for inside in itertools.product([None] + inner, repeat=len(DIRS)):
                yield {n: TREE for n in names} | {d: i for d, i in zip(DIRS, inside) if i is not None}


QUERIES = ["pkg", "other", "noshare", "empty", "nope", "", "a", "..", ".", "pkg/", "/pkg", "pkg/..", "pkg\\x", "p\0g", "PKG", " pkg", "pkg ", "x" * 300, "\u00fc", "packages", "a-b", "~", "*"]
FOLDERS = ["s", "t", "gone", "file", "s/", "s/sub", "s/..", "", ".", "/", "nope", "S", "~", "s\0", "$HOME", "x" * 5000]
MODULES = ["mc.kinds_diag", "mc.nowhere", "", ".", "..", ".x", "mc..kinds", "os", "os.path.join", "mc.kinds_broken", "mc.kinds_syntax", " ", "a b", "\u00fc", "1", "mc.kinds\0", "ros_bt_py.nodes"]


def BOUNDS(tier):
    return (f"{sum(1 for _ in shapes(tier == 'thorough'))} folder shapes (3 levels) as storage folder and as package, hidden files shown or not, every listed tree loaded; {len(QUERIES)} package, {len(FOLDERS)} folder and "
            f"{len(MODULES)} module queries (modules in pairs); pairs of concurrent requests with {2 if tier == 'thorough' else 1} preemption(s) at every source line")


def shards(tier):
    return [("shapes", i) for i in range(16)] + [("queries",), ("modules",)] + [("pair", a, b) for a in range(len(CALLS)) for b in range(a, len(CALLS))]


def run(shard, ctx):
    global area
    area = files.Area()
    os.environ["AMENT_PREFIX_PATH"] = os.path.join(area.root, "prefix")
    try:
        if shard[0] == "shapes":
            for n, shape in itertools.islice(enumerate(shapes(ctx.thorough)), shard[1], None, 16):
                ctx.case(("shape", n), lambda: listed(ctx, n, shape))
        elif shard[0] == "queries":
            queries(ctx)
        elif shard[0] == "modules":
            modules(ctx)
        else:
            ctx.explore(lambda ch: pair(ch, ctx, CALLS[shard[1]], CALLS[shard[2]]), repr(shard))
    finally:
        area.drop()


area = None
INDEX = "prefix/share/ament_index/resource_index/packages/"


def build(shape, storage="s", package="prefix/share/pkg"):
    plan = {storage: None, package: None, "t/only.yaml": TREE, "file": TREE, INDEX + "pkg": "", INDEX + "other": "", INDEX + "noshare": "", INDEX + "empty": "",
            "prefix/share/other/o.yaml": TREE, "prefix/share/empty": None}

    def put(where, content):
        for name, c in content.items():
            if isinstance(c, dict):
                plan[f"{where}/{name}"] = None
                put(f"{where}/{name}", c)
            else:
                plan[f"{where}/{name}"] = c
    put(storage, shape)
    put(package, shape)
    area.fresh(plan)


def manager():
    return PackageManager(tree_storage_directory_paths=[os.path.join(area.root, x) for x in ("s", "t", "gone", "file")])


def reference(name, shape, hidden):
    """What the listing has to say: (name, type, {children})"""
    out = []
    for n, c in shape.items():
        if n.startswith(".") and not hidden:
            continue
        out.append(reference(n, c, hidden) if isinstance(c, dict) else (n, "file", ()))
    return (name, "directory", tuple(sorted(out)))


def canonical(title, listing):
    """The listing in the same form; its ids and parent links must be right."""
    ids = []

    def walk(d, parent):
        if not isinstance(d, dict) or "item_id" not in d:
            raise Violation(f"{title}: strange entry", repr(d))
        ids.append(d["item_id"])
        if parent is not None and d.get("parent") != parent:
            raise Violation(f"{title}: {d['name']} names another parent than its own", repr(listing))
        kids = d.get("children", [])
        if d["type"] == "file" and kids:
            raise Violation(f"{title}: a file has children", repr(d))
        return (d["name"], d["type"], tuple(sorted(walk(c, d["item_id"]) for c in kids)))
    out = walk(listing, None)
    if len(set(ids)) != len(ids):
        raise Violation(f"{title}: items share an id", repr(listing))
    return out


def ask(m, call):
    kind, what, hidden = call
    if kind == "folder":
        return m.get_folder_structure(bs.GetFolderStructure.Request(storage_folder=what, show_hidden=hidden), bs.GetFolderStructure.Response())
    if kind == "package":
        return m.get_installed_package_structure(bs.GetPackageStructure.Request(package=what, show_hidden=hidden), bs.GetPackageStructure.Response())
    return m.get_available_nodes(bs.GetAvailableNodes.Request(node_modules=what), bs.GetAvailableNodes.Response())


def text(kind, res):
    return json.loads(res.storage_folder_structure if kind == "folder" else res.package_structure)


def listed(ctx, n, shape):
    build(shape)
    m = manager()
    for kind in ("folder", "package"):
        for hidden in (False, True):
            what = os.path.join(area.root, "s") if kind == "folder" else "pkg"
            title = f"shape {n} {kind} {'all' if hidden else 'visible'}"
            res = ask(m, (kind, what, hidden))
            if not res.success:
                raise Violation(f"{title}: fails", res.error_message)
            got = canonical(title, text(kind, res))
            want = reference("s" if kind == "folder" else "pkg", shape, hidden)
            ctx.step()
            ctx.state((kind, hidden, got))
            if got != want:
                raise Violation(f"{title}: wrong listing", f"{got} {want}")
            base = "file://" + what if kind == "folder" else "package://pkg"
            names = list(leaves(got[2], ""))
            for path in names if n % 8 == 0 else names[:1]:
                r = load_tree_from_file(bs.MigrateTree.Request(tree=bm.TreeStructure(path=base + path)), bs.MigrateTree.Response())
                ctx.step()
                if not r.success or [x.name for x in r.tree.nodes] != ["n0", "n1", "n2"]:
                    raise Violation(f"{title}: {path} is listed but cannot be loaded", r.error_message)
    ctx.outcome(len(shape))
    return n


def leaves(kids, above):
    for name, kind, inner in kids:
        if kind == "file":
            yield f"{above}/{name}"
        else:
            yield from leaves(inner, f"{above}/{name}")


def queries(ctx):
    shape = {"a.yaml": TREE, "sub": {"b.yaml": TREE}}
    for hidden in (False, True):
        for kind, values in (("package", QUERIES), ("folder", FOLDERS)):
            for q in values:
                ctx.case(("query", kind, q[:40], hidden), lambda: query(ctx, kind, q, hidden, shape))
    ctx.case(("folders",), lambda: folders(ctx))


def query(ctx, kind, q, hidden, shape):
    build(shape)
    m = manager()
    what = q
    if kind == "folder" and q in ("s", "t", "gone", "file", "s/", "s/sub", "s/..", "nope", "S", "s\0"):
        what = os.path.join(area.root, q)
    title = f"{kind} {q[:40]!r}"
    before = area.look()
    try:
        res = ask(m, (kind, what, hidden))
    except Exception as ex:
        raise Violation(f"{title}: exception", repr(ex))
    if area.look() != before:
        raise Violation(f"{title}: a listing changes files")
    known = {"package": {"pkg": shape, "other": {"o.yaml": TREE}, "empty": {}}, "folder": {"s": shape, "t": {"only.yaml": TREE}}}[kind]
    ctx.step()
    ctx.state((kind, q, hidden, res.success))
    ctx.outcome((kind, res.success))
    if q in known:
        if not res.success or canonical(title, text(kind, res)) != reference(q, known[q], hidden):
            raise Violation(f"{title}: wrong listing", repr(res))
    elif kind == "folder" and q in ("s/",) and res.success:
        return None  # another spelling
    elif res.success or not res.error_message:
        raise Violation(f"{title}: does not exist, but is answered with success", repr(res))
    again = ask(m, ("package", "pkg", hidden))
    if not again.success or canonical(title, text("package", again)) != reference("pkg", shape, hidden):
        raise Violation(f"{title}: the next listing is wrong", repr(again))
    return title


def folders(ctx):
    build({})
    m = manager()
    res = m.get_storage_folders(bs.GetStorageFolders.Request(), bs.GetStorageFolders.Response())
    if list(res.storage_folders) != [os.path.join(area.root, x) for x in ("s", "t", "gone", "file")]:
        raise Violation("wrong storage folders", repr(res))
    ctx.state("folders")


def expected_nodes():
    return sorted((module, name) for module, nodes in Node.node_classes.items() for name, c in nodes.items() if c._node_config)


def check_nodes(title, res, want=None):
    got = [(n.module, n.node_class) for n in res.available_nodes]
    if len(set(got)) != len(got):
        raise Violation(f"{title}: a node is listed twice", repr(sorted(got)))
    want = expected_nodes() if want is None else want
    if sorted(got) != want:
        raise Violation(f"{title}: wrong list of nodes", repr(set(got) ^ set(want)))
    for n in res.available_nodes:
        config = Node.node_classes[n.module][n.node_class]._node_config
        if [i.key for i in n.inputs] != list(config.inputs) or [o.key for o in n.outputs] != list(config.outputs) or \
                n.max_children != (-1 if config.max_children is None else config.max_children) or list(n.tags) != list(config.tags):
            raise Violation(f"{title}: {n.node_class} is not described as it is", repr(n))


def modules(ctx):
    extra = os.path.join(area.top, "py")
    os.makedirs(os.path.join(extra, "mcx"))
    for name, source in (("__init__", ""), ("broken", "raise RuntimeError('no')"), ("syntax", "def ("), ("more", DECLARE)):
        with open(os.path.join(extra, "mcx", name + ".py"), "w") as f:
            f.write(source)
    sys.path.insert(0, extra)
    names = [x.replace("mc.kinds_broken", "mcx.broken").replace("mc.kinds_syntax", "mcx.syntax") for x in MODULES] + ["mcx.more"]
    good = {"mc.kinds_diag", "", "os", "ros_bt_py.nodes", "mcx.more"}
    for asked in [()] + [(a,) for a in names] + list(itertools.product(names, repeat=2)):
        def body():
            title = f"modules {list(asked)}"
            try:
                res = ask(None_manager, ("nodes", list(asked), False))
            except Exception as ex:
                raise Violation(f"{title}: exception", repr(ex))
            ctx.step()
            ctx.state((asked, res.success, len(res.available_nodes)))
            ctx.outcome((res.success, len(asked)))
            if res.success != all(a in good for a in asked):
                raise Violation(f"{title}: success is {res.success}", res.error_message)
            if not res.success and not res.error_message:
                raise Violation(f"{title}: failure without a reason")
            if res.success:
                check_nodes(title, res)
                if "mcx.more" in asked and not any(n.module == "mcx.more" for n in res.available_nodes):
                    raise Violation(f"{title}: the nodes of the module asked for are missing")
        ctx.case(("modules", asked), body)
    sys.path.remove(extra)


DECLARE = """
from mc.kinds import _Steps
from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig

@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class More(_Steps, Leaf):
    pass
"""
None_manager = PackageManager(tree_storage_directory_paths=[])

# ---------------------------------------------------------------- concurrent requests

CALLS = [("folder", "s", False), ("folder", "t", True), ("package", "pkg", True), ("package", "nope", False), ("nodes", (), False), ("nodes", ("loading",), False)]


def pair(ch, ctx, a, b):
    shape = {"a.yaml": TREE, "sub": {"b.yaml": TREE, "c.yaml": TREE}, "x.yaml": TREE}
    build(shape)
    m = manager()
    s = sched.Scheduler(ch, 2 if ctx.thorough else 1, FILES)
    title = f"{a} || {b}"
    answers = {}
    saved = {k: dict(v) for k, v in Node.node_classes.items()}
    few = {k: dict(list(saved[k].items())[:2]) for k in ("mc.kinds", "ros_bt_py.nodes.sequence")}
    Node.node_classes.clear()
    Node.node_classes.update(few)
    before = expected_nodes()

    def do(who, call):
        def body():
            kind, what, hidden = call
            if kind == "folder":
                what = os.path.join(area.root, what)
            try:
                if what == ("loading",):  # another thread has a module loaded
                    s.point("load")
                    Node.node_classes["loaded.module"] = {"Loaded": KIND}
                    s.point("loaded")
                    Node.node_classes["mc.kinds"]["Loaded"] = KIND
                    return
                answers[who] = ask(m, (kind, list(what) if kind == "nodes" else what, hidden))
            except Exception as ex:
                raise Violation(f"{title}: exception", f"{ex!r} {s.trail}")
        return body

    s.spawn(do("A", a), "A")
    s.spawn(do("B", b), "B")
    try:
        s.run()
        after = expected_nodes()
        ctx.step(s.points)
        ctx.state((title, s.points, tuple(s.trail)))
        ctx.outcome((title, len(answers)))
        for who, call in (("A", a), ("B", b)):
            if who not in answers:
                continue
            res = answers[who]
            kind, what, hidden = call
            if kind == "nodes":
                got = sorted((n.module, n.node_class) for n in res.available_nodes)
                if not res.success or len(set(got)) != len(got) or not set(before) <= set(got) <= set(after):
                    raise Violation(f"{title}: wrong list of nodes", f"{set(got) ^ set(before)} {s.trail}")
            elif what == "nope":
                if res.success:
                    raise Violation(f"{title}: an unknown package is listed")
            else:
                want = reference(what, shape if what in ("s", "pkg") else {"only.yaml": TREE}, hidden)
                if not res.success or canonical(title, text(kind, res)) != want:
                    raise Violation(f"{title}: wrong listing", f"{res} {s.trail}")
    finally:
        Node.node_classes.clear()
        Node.node_classes.update(saved)
    return title


FILES = sched.files("ros_bt_py.package_manager")
KIND = Node.node_classes["mc.kinds"]["Src"]
