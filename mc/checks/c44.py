import os

from mc import leaf, standins, zoo
from mc.core import Violation
from mc.leaf import BAD, FAIL, RUNNING, SUCC, Fn

from ros_bt_py.data_types import GENERIC_TYPE_MAP as G
from ros_bt_py.nodes import file, format

TECHNIQUE = "explicit-state model checking: all texts x values and all short histories with changing files against a written-out model"
NOTE = ("Complete for the stated formats, dictionaries, file contents and histories. A file is read again when its name changes or the "
        "node is reset, not on every tick; an empty list or dictionary counts as wrongly structured. Both are the existing contract.")
ID = "C44"
standins.fast_yaml()


class Text:
    """Some text, not empty."""

    def __repr__(self):
        return "<text>"


TEXT = Text()


def compare(want, got):
    if want is TEXT:
        return isinstance(got, str) and got != ""
    return leaf.same(want, got)


# ------------------------------------------------------------ formats, written out

FORMATS = {
    "": lambda d: "",
    "x": lambda d: "x",
    "{a}": lambda d: str(d["a"]),
    "a {a} b {b}!": lambda d: "a " + str(d["a"]) + " b " + str(d["b"]) + "!",
    "{b}{a}{b}": lambda d: str(d["b"]) + str(d["a"]) + str(d["b"]),
    "{a!u}": lambda d: str(d["a"]).upper(),
    "{a!l}-{a!u}": lambda d: str(d["a"]).lower() + "-" + str(d["a"]).upper(),
    "{a!c}": lambda d: str(d["a"])[:1].upper() + str(d["a"])[1:].lower(),
    "{a!s}": lambda d: str(d["a"]),
    "{a!r}": lambda d: repr(d["a"]),
    "{a!a}": lambda d: ascii(d["a"]),
    "{{}}": lambda d: "{}",
    "{{{a}}}": lambda d: "{" + str(d["a"]) + "}",
    "{a!s:>6}|": lambda d: str(d["a"]).rjust(6) + "|",
    "{a!u:<6}|": lambda d: str(d["a"]).upper().ljust(6) + "|",
    "\u00e9\n{a}": lambda d: "\u00e9\n" + str(d["a"]),
    "{self}": lambda d: str(d["self"]),
    "{format_string}": lambda d: str(d["format_string"]),
    "{missing}": None, "{0}": None, "{}": None, "{": None, "}": None, "{a": None, "{a!x}": None, "{a!": None, "{a.nothing}": None,
    "{a!s:d}": None, "{a b}": None, "{a!s:>{missing}}": None, "{a} {missing}": None,
}
DICTS = {
    "str": [{}, {"a": "xY z"}, {"a": "", "b": "{a}"}, {"b": "q", "a": "\u00e9'"}, {"self": "s", "format_string": "f", "a": "A"}],
    "int": [{}, {"a": 7, "b": -1}, {"b": 3}, {"self": 1, "format_string": 2, "a": 12}],
}


def formatted(fmt, d):
    if FORMATS[fmt] is None:
        return None
    try:
        return FORMATS[fmt](d)
    except KeyError:
        return None


def one(i):
    text = formatted(i["format_string"], i["dict"])
    return (FAIL, None) if text is None else (SUCC, {"formatted_string": text})


def many(i):
    out = [formatted(f, i["dict"]) for f in i["format_strings"]]
    return (FAIL, None) if None in out else (SUCC, {"formatted_strings": out})


PATHS = ["", "a", "a.b", "a.b.c", ".a", "..a", "a.", ".", "..", "/", "x/a.b", "x.y/a", "x.y/.a", "x/.a.b", "a.b/", "/a/b/c.tar.gz", "\u00e9.t t",
         "a b.c d", "file://x/y.yaml", ".a.", "x/..b", "a..b"]


def split(i):
    """Everything up to the last dot of the last component; leading dots of the component belong to the name."""
    path = i["path"]
    cut = path.rfind("/") + 1
    head, last = path[:cut], path[cut:]
    n = 0
    while n < len(last) and last[n] == ".":
        n += 1
    dot = last.rfind(".")
    if dot < n:
        return SUCC, {"filename": path, "extension": ""}
    return SUCC, {"filename": head + last[:dot], "extension": last[dot:]}


# ------------------------------------------------------------ files

#  content -> parsed value (None: unreadable)
CONTENTS = {
    "- a\n- b\n": ["a", "b"], "[x]": ["x"], "- 1\n- 2\n- 3": [1, 2, 3], "- 1\n- a\n": [1, "a"], "- [1]\n- [2, 3]": [[1], [2, 3]], "- {k: 1}": [{"k": 1}],
    "a: x\nb: y\n": {"a": "x", "b": "y"}, "{a: 1}": {"a": 1}, "a: [1, 2]": {"a": [1, 2]}, "a: {b: 2}": {"a": {"b": 2}}, "a: 1\nb: x\n": {"a": 1, "b": "x"},
    "[]": [], "{}": {}, "": "", "text": "text", "3": 3, "null": "", "- true": [True], "a: 1.5": {"a": 1.5}, "- 0.5\n- 2.5": [0.5, 2.5],
    "a: [": None, "\t- a": None, "- a\nb: c": None, "a: &x\n- *y": None, "--- a\n--- b": None, "- !!python/object:os.system x": None,
    "d: 2020-13-45": None, "- !!int x": None, b"\xff\xfe\x00\xd8": None, b"- \xff": None, "- 'a": None, "\x00": None, "!!timestamp x": None,
}
NUMBERS = {int: int, float: float}


def element(typ, v):
    """Does v fit the element type? None: not specified."""
    if isinstance(v, bool) and typ in (int, float) or isinstance(v, int) and typ is float and not isinstance(v, bool):
        return None
    if typ is list:
        return isinstance(v, list) and (True if all(isinstance(x, bool) for x in v) else None)
    if typ is dict:
        return isinstance(v, dict) and (True if all(isinstance(x, bool) for x in v.values()) else None)
    return type(v) is typ


class Loader:
    def __init__(self, kind, typ, world):
        self.kind, self.typ, self.world = kind, typ, world
        self.cached = None

    def reset(self):
        self.cached = None

    def untick(self):
        pass

    def tick(self, inputs, updated):
        if "file_path" in updated:
            self.cached = None
        if self.cached is not None:
            return self.cached, {}
        data = self.world(inputs["file_path"])
        if not isinstance(data, self.kind) or not data:
            self.cached = FAIL
            return FAIL, {"load_success": False, "load_error_msg": TEXT}
        fits = [element(self.typ, v) for v in (data if self.kind is list else data.values())]
        if False in fits or None in fits:
            return BAD if False in fits else UNKNOWN, None
        self.cached = SUCC
        out = {"load_success": True, "load_error_msg": "", "content": data}
        if self.kind is list:
            out["line_count"] = len(data)
        return SUCC, out


UNKNOWN = "not specified"


def BOUNDS(tier):
    return (f"{len(FORMATS)} format strings x up to 5 dictionaries, format lists up to length {3 if tier == 'thorough' else 2}; {len(PATHS)} paths; "
            f"{len(CONTENTS)} file contents (and missing files, directories, missing packages) x 6 element types; all histories of "
            f"{4 if tier == 'thorough' else 3} ticks with file changes, untick and reset between")


def shards(tier):
    out = [["concat"], ["path"]] + [["format", "int"], ["formats", "int"], ["formatter", "str"], ["formatter", "int"]]
    for kind in ("list", "dict"):
        out += [[f"yaml {kind}", t] for t in ("bool", "int", "float", "str", "list", "dict")]
        out += [[f"history {kind}", n] for n in range(4)]
    return out


def run(shard, ctx):
    kind = shard[0]
    if kind == "concat":
        vals = ["", "a", "b ", "\u00e9\n", "aa", "{a}"]
        model = lambda: Fn(lambda i: (SUCC, {"formatted_string": i["a"] + i["b"]}))
        ctx.explore(lambda ch: leaf.walk(ch, ctx, "StringConcatenation", format.StringConcatenation, {}, {"a": vals, "b": vals}, model, 1), "wide")
        ctx.explore(lambda ch: leaf.walk(ch, ctx, "StringConcatenation", format.StringConcatenation, {}, {"a": vals[:2], "b": vals[:2]}, model, 3,
                                         ("tick", "untick", "reset")), "long")
    elif kind == "path":
        ctx.explore(lambda ch: leaf.walk(ch, ctx, "GetFileExtension", format.GetFileExtension, {}, {"path": PATHS}, lambda: Fn(split), 2), "wide")
    elif kind == "formatter":
        for fmt in FORMATS:
            for d in DICTS[shard[1]]:
                def body(fmt=fmt, d=d):
                    try:
                        got = format.ExtendedFormatter().format(fmt, **d)
                    except (ValueError, LookupError, AttributeError, TypeError):
                        got = None
                    ctx.step()
                    ctx.outcome((fmt, repr(d), got))
                    if got != formatted(fmt, d):
                        raise Violation(f"formatting {fmt!r} with {d!r} gives {got!r}", f"expected {formatted(fmt, d)!r}")
                    return got

                ctx.case(f"{fmt} {d}", body)
    elif kind == "format":
        dicts = DICTS[shard[1]]
        ctx.explore(lambda ch: leaf.walk(ch, ctx, "FormatString", format.FormatString, {}, {"format_string": list(FORMATS), "dict": dicts},
                                         lambda: Fn(one), 1), "wide")
        few = ["{a}", "{missing}", "{a!u}"]
        ctx.explore(lambda ch: leaf.walk(ch, ctx, "FormatString", format.FormatString, {}, {"format_string": few, "dict": dicts[-2:]}, lambda: Fn(one),
                                         ctx.pick(2, 3), ("tick", "untick", "reset")), "long")
    elif kind == "formats":
        dicts = DICTS[shard[1]]
        names = [f for f in FORMATS if f in ("{a}", "x", "{missing}", "{a!u}", "{", "{b}{a}{b}")]
        lists = [[]] + [[f] for f in FORMATS] + [[f, g] for f in names for g in names]
        if ctx.thorough:
            lists += [[f, g, h] for f in names for g in names for h in names]
        ctx.explore(lambda ch: leaf.walk(ch, ctx, "FormatStringList", format.FormatStringList, {}, {"format_strings": lists, "dict": dicts},
                                         lambda: Fn(many), 1), "wide")
        few = [["{a}", "x"], ["{a}", "{missing}"]]
        ctx.explore(lambda ch: leaf.walk(ch, ctx, "FormatStringList", format.FormatStringList, {}, {"format_strings": few, "dict": dicts[-2:]},
                                         lambda: Fn(many), ctx.pick(2, 3), ("tick", "untick", "reset")), "long")
    elif kind.startswith("yaml"):
        yaml_wide(ctx, kind[5:], {t.__name__: t for t in (bool, int, float, str, list, dict)}[shard[1]])
    else:
        yaml_history(ctx, kind[8:], shard[1])


def write(path, content):
    with open(path, "wb") as f:
        f.write(content if isinstance(content, bytes) else content.encode())


def package():
    """A package 'mcpkg' in an ament prefix of our own."""
    prefix = os.path.join(zoo.scratch(), "prefix")
    os.makedirs(os.path.join(prefix, "share", "ament_index", "resource_index", "packages"), exist_ok=True)
    os.makedirs(os.path.join(prefix, "share", "mcpkg", "d"), exist_ok=True)
    write(os.path.join(prefix, "share", "ament_index", "resource_index", "packages", "mcpkg"), "")
    if prefix not in os.environ.get("AMENT_PREFIX_PATH", "").split(":"):
        os.environ["AMENT_PREFIX_PATH"] = prefix + ":" + os.environ.get("AMENT_PREFIX_PATH", "")
    return os.path.join(prefix, "share", "mcpkg")


CLS = {"list": (file.YamlList, list), "dict": (file.YamlDict, dict)}


def yaml_wide(ctx, kind, typ):
    base = package()
    world = {}
    for n, (content, data) in enumerate(CONTENTS.items()):
        write(os.path.join(base, "d", f"{n}.yaml"), content)
        url = (f"file://{base}/d/{n}.yaml", f"package://mcpkg/d/{n}.yaml")[n % 2]
        world[url] = data
    for n in (0, 6):
        world[f"package://mcpkg/d/{n}.yaml"] = world[f"file://{base}/d/{n}.yaml"]
    for url in ("file://", f"file://{base}", f"file://{base}/nothing.yaml", "package://", "package://mcpkg", "package://mcpkg/nothing", "package://no_such_pkg/x",
                "package:///x", "file://relative.yaml", "file://a\x00b", f"file://{base}/d/0.yaml/x", "file://" + "x" * 5000):
        world[url] = None
    cls, base_type = CLS[kind]

    def model():
        return Loader(base_type, typ, world.get)

    urls = [u for u in world if element_known(base_type, typ, world[u])]
    ctx.count("unspecified", len(world) - len(urls))
    name = f"{cls.__name__}[{typ.__name__}]"

    def label(url):
        return url.replace(base, "BASE")

    def body(ch):
        return leaf.walk(ch, ctx, name, cls, {"element_type": G[typ]}, {"file_path": urls}, model, 1, compare=compare)

    ctx.explore(body, "wide")


def element_known(base_type, typ, data):
    if not isinstance(data, base_type) or not data:
        return True
    fits = [element(typ, v) for v in (data if base_type is list else data.values())]
    return False in fits or None not in fits


def yaml_history(ctx, kind, n):
    """Two files whose contents change between the ticks."""
    cls, base_type = CLS[kind]
    good = {"list": ("- a\n- b\n", "[x]"), "dict": ("a: x\nb: y\n", "{c: z}")}[kind]
    CONTENTS["{c: z}"] = {"c": "z"}
    other = {"list": "a: x\nb: y\n", "dict": "- a\n- b\n"}[kind]
    alternatives = [good[0], good[1], other, None]
    base = os.path.join(zoo.scratch(), f"h{kind}{n}")
    os.makedirs(base, exist_ok=True)
    names = ("one.yaml", "two.yaml")

    def body(ch):
        state = {}

        def put(name, content):
            path = os.path.join(base, name)
            state["file://" + path] = CONTENTS[content] if content is not None else None
            if content is None:
                if os.path.exists(path):
                    os.unlink(path)
            else:
                write(path, content)

        put(names[0], alternatives[n])
        put(names[1], alternatives[ch.choose(len(alternatives))])

        def change(ch):
            put(names[0], alternatives[ch.choose(len(alternatives))])

        return leaf.walk(ch, ctx, f"{cls.__name__} from {alternatives[n]!r}", cls, {"element_type": G[str]}, {"file_path": list(state)},
                         lambda: Loader(base_type, str, state.get), ctx.pick(3, 4), ("tick", "untick", "reset", "change"), compare=compare,
                         events={"change": change})

    ctx.explore(body, "history")
