import math

from mc import decl, leaf, standins, zoo
from mc.core import Violation
from mc.leaf import BAD, FAIL, SUCC, Fn

from ros_bt_py.data_types import GENERIC_TYPE_MAP as G
from ros_bt_py.nodes import maths

TECHNIQUE = "explicit-state model checking: every operator x operand type x operand values and short histories against the function"
NOTE = ("Complete for the stated alphabets. A result that the operand type cannot represent counts as undefined (the node fails or "
        "reports an error). Powers and shifts beyond some thousand bits are not tried, as computing them may take for ever.")
ID = "C42"

BIG = 2**63 - 1
VALS = {
    bool: [False, True],
    int: [0, 1, -1, 2, -2, 3, -3, 7, 8, 10, 63, 64, -7, 2**31, BIG, -(2**63)],
    float: [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, -2.5, 0.1, 1e-300, 1e308, -1e308, 10.0, 171.0, 710.0],
}
DECL = {bool: ("bool",), int: ("int", *decl.I64), float: ("float", *decl.F64)}


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def div(a, b):
    return a / b


def floordiv(a, b):
    return a // b


def mod(a, b):
    return a % b


def power(a, b):
    return a ** b


def both(a, b):
    return a & b


def either(a, b):
    return a | b


def exclusive(a, b):
    return a ^ b


def left(a, b):
    return a << b


def right(a, b):
    return a >> b


BINARY = {"add": add, "+": add, "and": both, "&": both, "div": div, "/": div, "truediv": div, "floordiv": floordiv, "//": floordiv,
          "lshift": left, "<<": left, "rshift": right, ">>": right, "mod": mod, "%": mod, "mul": mul, "*": mul, "or": either,
          "|": either, "pow": power, "**": power, "sub": sub, "-": sub, "xor": exclusive, "^": exclusive}
UNARY = {"not": lambda x: not x, "inv": lambda x: ~x, "~": lambda x: ~x, "neg": lambda x: -x, "-": lambda x: -x,
         "pos": lambda x: +x, "+": lambda x: +x}
UNARY.update({name: getattr(math, name) for name in (
    "exp expm1 log log1p log10 ceil fabs factorial floor sqrt acos asin atan acosh asinh atanh cos sin tan cosh sinh tanh "
    "degrees radians erf erfc gamma lgamma").split()})


def judge(fn, typ):
    def tick(*args):
        try:
            r = fn(*args)
        except (ArithmeticError, ValueError, TypeError):
            return FAIL, None
        if isinstance(r, complex) or decl.accepts(DECL[typ], r) is False:
            return BAD, None
        return SUCC, r

    return tick


class Op:
    """Undefined results make the node FAIL; a result outside the type may also be reported as an error."""

    def __init__(self, typ, table, args, out):
        self.typ, self.table, self.args, self.out = typ, table, args, out

    def reset(self):
        pass

    untick = reset

    def tick(self, inputs, updated):
        state, value = judge(self.table[inputs["operator"]], self.typ)(*[inputs[a] for a in self.args])
        return state, ({self.out: value} if state == SUCC else None)


def loose(want, got):
    """Same number, whatever its Python type: what the type accepts is C13's subject."""
    if isinstance(want, (bool, int, float)) and isinstance(got, (bool, int, float)):
        return want == got
    return leaf.same(want, got)


CONV = {
    (int, bool): lambda x: x != 0, (bool, int): lambda x: 1 if x else 0, (int, float): lambda x: x * 1.0,
    (float, int): lambda x: math.trunc(x),
}
CVALS = {
    bool: [True, False], int: [0, 1, -1, 2, 2**53 + 1, BIG, -(2**63)],
    float: [0.0, 0.4, -0.4, 0.5, 1.5, -1.5, 2.999999, 1e20, -1e308, 123456.0], str: ["", "1", "a", "True"],
    bytes: [b"", b"a"], list: [[], [1, 2]], dict: [{}, {"a": 1}],
}
CTYPE = {t: G[t] for t in CVALS}
CTYPE[list] = dict(G[list], element_type=G[int])
CTYPE[dict] = dict(G[dict], element_type=G[int])


def converted(a, b, x):
    if a is b:
        return SUCC, x
    if b is str:
        return SUCC, str(x)
    y = CONV[a, b](x)
    if decl.accepts(DECL[b], y) is False:
        return BAD, None
    return SUCC, y


def BOUNDS(tier):
    return (f"{len(BINARY)} binary and {len(UNARY)} unary operator names x bool, int, float x all pairs of 2/16/16 values (one tick), "
            f"all histories of {3 if tier == 'thorough' else 2} ticks over 4 values with undefined cases in between, and with the "
            f"operator itself changing; Convert: all {len(CVALS)}^2 type pairs x all values, all histories of "
            f"{3 if tier == 'thorough' else 2} ticks")


def shards(tier):
    out = [["binary", op, t] for op in BINARY for t in ("bool", "int", "float")]
    out += [["unary", op, t] for op in UNARY for t in ("bool", "int", "float")]
    out += [["changing", t] for t in ("bool", "int", "float")]
    out += [["convert", a.__name__, b.__name__] for a in CVALS for b in CVALS]
    return out


def weight(shard):
    return 3 if shard[0] == "changing" else 2 if shard[0] == "binary" else 1


TYP = {t.__name__: t for t in CVALS}
FEW = {bool: [False, True], int: [0, 2, -3, 7], float: [0.0, 2.0, -0.5, 1e308]}


def run(shard, ctx):
    kind = shard[0]
    if kind == "convert":
        return convert(ctx, TYP[shard[1]], TYP[shard[2]])
    n = ctx.pick(2, 3)
    if kind == "changing":
        typ = TYP[shard[1]]
        few = FEW[typ][:3]
        table = {k: BINARY[k] for k in ("+", "/", "**", "<<", "%")}
        go(ctx, "Operation:changing", maths.Operation, typ, table, None, ("a", "b"), {"a": few[:2], "b": few[:2]}, n, "ops", list(table))
        table = {k: UNARY[k] for k in ("-", "log", "~", "not", "sqrt")}
        go(ctx, "UnaryOperation:changing", maths.UnaryOperation, typ, table, None, ("in",), {"in": few}, n, "unary", list(table))
        return
    _, op, t = shard
    typ = TYP[t]
    vals = VALS[typ]
    if kind == "binary":
        b = vals
        if op in ("pow", "**", "lshift", "<<"):
            b = [v for v in vals if abs(v) < 1000]
        go(ctx, f"Operation {op} {t}", maths.Operation, typ, BINARY, op, ("a", "b"), {"a": vals, "b": b}, 1, "wide")
        go(ctx, f"Operation {op} {t}", maths.Operation, typ, BINARY, op, ("a", "b"), {k: FEW[typ][:ctx.pick(3, 4)] for k in "ab"}, 2, "long")
    else:
        vals = [v for v in vals if op != "factorial" or abs(v) < 1000]
        go(ctx, f"UnaryOperation {op} {t}", maths.UnaryOperation, typ, UNARY, op, ("in",), {"in": vals}, 2, "wide")
        go(ctx, f"UnaryOperation {op} {t}", maths.UnaryOperation, typ, UNARY, op, ("in",), {"in": FEW[typ]}, n + 1, "long")


def go(ctx, name, cls, typ, table, op, args, domains, depth, tag, operators=None):
    static = {"operand_type": G[typ]}
    if op is not None:
        static["operator"] = op
    if operators:
        domains = dict(domains, operator=operators)
    ctx.explore(lambda ch: leaf.walk(ch, ctx, name, cls, static, domains, lambda: Op(typ, table, args, "result"), depth,
                                     ("tick",) if len(args) > 1 else ("tick", "untick"), compare=loose), tag)


def convert(ctx, a, b):
    static = {"input_type": CTYPE[a], "output_type": CTYPE[b]}
    name = f"Convert {a.__name__} {b.__name__}"
    if a is not b and b is not str and (a, b) not in CONV:
        def body():
            rig = zoo.Rig(maths.Convert, values=static, dynamic=[{"in": None}])
            res = rig.node.setup()
            if res.is_err():
                return "refused"
            # not offered: whatever it does instead must not succeed with something undefined
            raise Violation(f"{name} is offered", str(res))

        return ctx.case(name, body)

    def fn(i):
        state, y = converted(a, b, i["in"])
        return state, {"out": y} if state == SUCC else None

    ctx.explore(lambda ch: leaf.walk(ch, ctx, name, maths.Convert, static, {"in": CVALS[a]}, lambda: Fn(fn), ctx.pick(2, 3),
                                     ("tick", "untick", "reset")), "all")
