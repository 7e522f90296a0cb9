import asyncio
import itertools

from mc import standins  # noqa: F401
from mc.core import Violation

from ros_bt_py.vendor import result as R
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py.vendor.result.result import DoException

TECHNIQUE = "explicit-state model checking: every program of combinators up to the bound, run on the real class and on an independent model"
NOTE = ("Complete for the stated programs; the model is a tagged pair and the log of calls of the functions passed in.")
ID = "C48"


class Boom(Exception):
    pass


class Other(Exception):
    pass


# a model result is ("ok"|"err", value); a model run may also end in ("value", v) or ("raise", type, ...)
STARTS = [("ok", 1), ("ok", None), ("ok", False), ("ok", ("err", 2)), ("err", 1), ("err", None), ("err", ""), ("err", "boom")]


def real(m):
    v = m[1]
    if v == "boom":
        v = BOOM
    if isinstance(v, tuple):
        v = real(v)
    return Ok(v) if m[0] == "ok" else Err(v)


BOOM = Boom("b")


def back(v):
    """A real value as a model value."""
    if isinstance(v, Ok):
        return ("ok", back(v._value))
    if isinstance(v, Err):
        return ("err", back(v._value))
    return "boom" if v is BOOM else v


class Fun:
    """A function given to a combinator: notes its argument, returns `ret` (a model value) or raises."""

    def __init__(self, log, name, ret):
        self.log, self.name, self.ret = log, name, ret

    def __call__(self, *args):
        self.log.append((self.name, tuple(back(a) for a in args)))
        if self.ret == "raise":
            raise Other(self.name)
        return real(self.ret) if isinstance(self.ret, tuple) else self.ret


#  step -> (needs, model function)
def steps(results):
    out = []
    for r in results + ["raise"]:
        out += [("and_then", r), ("or_else", r)]
    for r in (7, None, "raise", ("err", 3)):
        out += [("map", r), ("map_err", r), ("inspect", r), ("inspect_err", r)]
    return out + [("identity",)]


def model_step(m, step, log, i):
    kind, value = m
    op = step[0]
    name = f"f{i}"

    def call(arg):
        log.append((name, (arg,)))
        if step[1] == "raise":
            raise Other(name)
        return step[1]

    if op == "identity":
        return m
    on = "err" if op in ("map_err", "inspect_err", "or_else") else "ok"
    if kind != on:
        return m
    got = call(value)
    if op.startswith("inspect"):
        return m
    return got if op in ("and_then", "or_else") else (on, got)


FINALS = ["ok", "err", "is_ok", "is_err", "unwrap", "unwrap_err", "expect", "expect_err", "unwrap_or", "unwrap_or_else", "unwrap_or_raise",
          "map_or", "map_or_else", "ok_value", "match", "iter", "eq", "hash", "repr", "functions"]


def model_final(m, op, log):
    kind, v = m
    good = kind == "ok"
    if op == "ok":
        return v if good else None
    if op == "err":
        return None if good else v
    if op in ("is_ok", "is_err"):
        return good == (op == "is_ok")
    if op in ("unwrap", "expect"):
        return v if good else ("raises", "UnwrapError", m, v == "boom")
    if op in ("unwrap_err", "expect_err"):
        return ("raises", "UnwrapError", m, False) if good else v
    if op == "unwrap_or":
        return v if good else "default"
    if op == "unwrap_or_else":
        if not good:
            log.append(("else", (v,)))
        return v if good else "computed"
    if op == "unwrap_or_raise":
        return v if good else ("raises", "Other", v)
    if op == "map_or":
        if good:
            log.append(("op", (v,)))
        return "mapped" if good else "default"
    if op == "map_or_else":
        log.append(("op", (v,)) if good else ("else", ()))
        return "mapped" if good else "computed"
    if op == "match":
        return ("matched", kind, v)
    if op == "iter":
        return ("items", [v]) if good else ("stops", v)
    return True


def real_final(r, op, log):
    f, g = Fun(log, "op", "mapped"), Fun(log, "else", "computed")
    try:
        if op in ("ok", "err", "is_ok", "is_err", "unwrap", "unwrap_err"):
            return back(getattr(r, op)())
        if op in ("expect", "expect_err"):
            return back(getattr(r, op)("message"))
        if op == "unwrap_or":
            return back(r.unwrap_or("default"))
        if op == "unwrap_or_else":
            return back(r.unwrap_or_else(g))
        if op == "unwrap_or_raise":
            return back(r.unwrap_or_raise(Other))
        if op == "map_or":
            return r.map_or("default", f)
        if op == "map_or_else":
            return r.map_or_else(g, f)
        if op == "match":
            match r:
                case Ok(v):
                    return ("matched", "ok", back(v))
                case Err(v):
                    return ("matched", "err", back(v))
        if op == "iter":
            try:
                return ("items", [back(v) for v in r])
            except DoException as ex:
                return ("stops", back(ex.err)[1])
        if op == "ok_value":
            return (r.ok_value if r.is_ok() else r.err_value) is r._value and isinstance(r, R.OkErr)
        if op == "eq":
            other = (Err if r.is_ok() else Ok)(r._value)
            twin = type(r)(r._value)
            changed = type(r)(("changed", r._value))
            return (r == twin and not r != twin and r != other and not r == other and r != r._value and r != changed and other != r)
        if op == "hash":
            twin = type(r)(r._value)
            return hash(r) == hash(twin) and len({r, twin, (Err if r.is_ok() else Ok)(r._value)}) == 2
        if op == "repr":
            return repr(r) == f"{'Ok' if r.is_ok() else 'Err'}({r._value!r})"
        if op == "functions":
            return R.is_ok(r) == r.is_ok() and R.is_err(r) == r.is_err()
    except R.UnwrapError as ex:
        return ("raises", "UnwrapError", back(ex.result), ex.__cause__ is BOOM)
    except Other as ex:
        return ("raises", "Other", back(ex.args[0]))
    raise AssertionError(op)


def BOUNDS(tier):
    n = 4 if tier == "thorough" else 3
    return (f"{len(STARTS)} results x all programs of up to {n} of {len(steps(RESULTS))} combinator steps (also the asynchronous forms) x {len(FINALS)} "
            "ways to look at the outcome; all do-chains of up to 4 steps, plain and asynchronous; as_result with all exception sets")


RESULTS = [("ok", 7), ("ok", None), ("err", 8), ("err", "boom")]


def shards(tier):
    return [["program", i] for i in range(len(STARTS))] + [["do"], ["as_result"]]


def weight(shard):
    return 5 if shard[0] == "program" else 1


def run(shard, ctx):
    if shard[0] == "program":
        program(ctx, STARTS[shard[1]])
    elif shard[0] == "do":
        chains(ctx)
    else:
        wrappers(ctx)


def call(r, step, log, i, asynchronous):
    if step[0] == "identity":
        return r
    f = Fun(log, f"f{i}", step[1])
    name = step[0]
    if not asynchronous or name not in ("map", "and_then"):
        return getattr(r, name)(f)

    async def g(arg):
        await asyncio.sleep(0)
        return f(arg)

    return drive(getattr(r, name + "_async")(g))


def drive(coroutine):
    try:
        while True:
            coroutine.send(None)
    except StopIteration as stop:
        return stop.value


def program(ctx, start):
    alphabet = steps(RESULTS)
    for n in range(ctx.pick(3, 4) + 1):
        for prog in itertools.product(alphabet, repeat=n):
            for asynchronous in ((False, True) if any(s[0] in ("map", "and_then") for s in prog) else (False,)):
                ctx.case(repr((start, prog, asynchronous)), lambda: one(ctx, start, prog, asynchronous))


def one(ctx, start, prog, asynchronous):
    key = f"{start} {prog} async={asynchronous}"
    want_log, got_log = [], []
    first = real(start)
    m, r = start, first
    want = got = None
    for i, step in enumerate(prog):
        try:
            m = model_step(m, step, want_log, i)
        except Other as ex:
            want = ex.args[0]
        try:
            before = r
            r = call(r, step, got_log, i, asynchronous)
            ctx.step()
        except Other as ex:
            got = ex.args[0]
        if want != got:
            raise Violation(f"{key}: exception {got!r} instead of {want!r}")
        if want_log != got_log:
            raise Violation(f"{key}: calls {got_log} instead of {want_log}")
        if want:
            break
        if not isinstance(r, (Ok, Err)) or back(r) != m:
            raise Violation(f"{key}: {r!r} instead of {m}", f"after step {i} from {before!r}")
    if back(first) != start:
        raise Violation(f"{key}: the first result was changed")
    if not want:
        for op in FINALS:
            a, b = [], []
            expected, found = model_final(m, op, a), real_final(r, op, b)
            ctx.step()
            if expected != found or type(expected) is not type(found) or a != b:
                raise Violation(f"{key} {op}: {found!r} instead of {expected!r}", f"calls {b} instead of {a}")
    ctx.state((repr(m), want, repr(prog), asynchronous))
    ctx.outcome((repr(m), want, tuple(want_log)))
    return start, prog, m


def chains(ctx):
    kinds = ("ok", "err", "raise")

    def source(log, n, kind):
        log.append(n)
        if kind == "raise":
            raise Other(n)
        return Ok(n) if kind == "ok" else Err(n)

    async def asource(log, n, kind):
        await asyncio.sleep(0)
        return source(log, n, kind)

    def expected(spec):
        log = []
        for n, kind in enumerate(spec):
            log.append(n)
            if kind == "err":
                return log, ("err", n)
            if kind == "raise":
                return log, ("raise", n)
        return log, ("ok", tuple(range(len(spec) - 1))) if len(spec) > 1 else ("ok", 0)

    def last(log, n, kind, values):
        res = source(log, n, kind)
        return Ok(values) if res.is_ok() and values else res

    async def alast(log, n, kind, values):
        await asyncio.sleep(0)
        return last(log, n, kind, values)

    for length in (1, 2, 3, 4):
        for spec in itertools.product(kinds, repeat=length):
            for mode in ("do", "do_async plain", "do_async"):
                def body():
                    log = []
                    s = list(spec)
                    if mode == "do_async":
                        def gen():
                            if length == 1:
                                return (await_ async for await_ in once(log, s))
                            if length == 2:
                                return (await alast(log, 1, s[1], (a,)) for a in source(log, 0, s[0]))
                            if length == 3:
                                return (await alast(log, 2, s[2], (a, b)) for a in source(log, 0, s[0]) for b in await asource(log, 1, s[1]))
                            return (last(log, 3, s[3], (a, b, c)) for a in source(log, 0, s[0]) for b in await asource(log, 1, s[1])
                                    for c in await asource(log, 2, s[2]))
                    else:
                        def gen():
                            if length == 1:
                                return (source(log, 0, s[0]) for _ in (0,))
                            if length == 2:
                                return (last(log, 1, s[1], (a,)) for a in source(log, 0, s[0]))
                            if length == 3:
                                return (last(log, 2, s[2], (a, b)) for a in source(log, 0, s[0]) for b in source(log, 1, s[1]))
                            return (last(log, 3, s[3], (a, b, c)) for a in source(log, 0, s[0]) for b in source(log, 1, s[1])
                                    for c in source(log, 2, s[2]))
                    try:
                        r = R.do(gen()) if mode == "do" else drive(R.do_async(gen()))
                        got = back(r)
                    except Other as ex:
                        got = ("raise", ex.args[0])
                    ctx.step()
                    want_log, want = expected(spec)
                    if (got, log) != (want, want_log):
                        raise Violation(f"{mode} {spec}: {got} {log} instead of {want} {want_log}")
                    ctx.outcome((mode, spec, got))
                    return mode, spec, got

                async def once(log, s):
                    yield source(log, 0, s[0])

                ctx.case(repr((mode, spec)), body)


def wrappers(ctx):
    class Sub(Boom):
        pass

    raising = (None, Boom, Sub, Other, KeyError)
    sets = [()] + [c for n in (1, 2) for c in itertools.permutations((Boom, Sub, Other, Exception), n)] + [(3,), (int,), (Boom, "x")]
    for caught in sets:
        for asynchronous in (False, True):
            for what in raising:
                def body():
                    key = f"as_result{caught} async={asynchronous} raising {what}"
                    valid = bool(caught) and all(isinstance(c, type) and issubclass(c, BaseException) for c in caught)
                    maker = R.as_async_result if asynchronous else R.as_result
                    try:
                        deco = maker(*caught)
                    except TypeError:
                        if valid:
                            raise Violation(f"{key}: refused")
                        ctx.outcome((caught, "refused"))
                        return caught
                    if not valid:
                        raise Violation(f"{key}: accepted")
                    ex = what("x") if what else None

                    def f(a, *, b):
                        """Text."""
                        if ex is not None:
                            raise ex
                        return (a, b)

                    async def g(a, *, b):
                        """Text."""
                        await asyncio.sleep(0)
                        return f(a, b=b)

                    w = deco(g if asynchronous else f)
                    if w.__doc__ != "Text.":
                        raise Violation(f"{key}: loses the function's description")
                    try:
                        r = drive(w(1, b=2)) if asynchronous else w(1, b=2)
                    except Exception as got:
                        if got is not ex or issubclass(what, caught):
                            raise Violation(f"{key}: raises {got!r}")
                        ctx.outcome((caught, what, "raised"))
                        return caught, what
                    want = Ok((1, 2)) if ex is None else Err(ex)
                    if r != want or (ex is not None and not issubclass(what, caught)):
                        raise Violation(f"{key}: {r!r}")
                    ctx.outcome((caught, what, repr(r)))
                    return caught, what

                ctx.case(f"{caught} {asynchronous} {what}", body)
