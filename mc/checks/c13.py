import copy

from mc import decl
from mc.core import Violation

from typeguard import TypeCheckError

TECHNIQUE = "explicit-state model checking: all histories of writes and marks per container against independent type semantics"
NOTE = ("Complete for the stated types, values and histories. A refusal may be an Err or typeguard's TypeCheckError (the code's "
        "documented contract). Not judged: booleans given as numbers, NaN.")
ID = "C13"


def BOUNDS(tier):
    return ("all flat and nested container types of the alphabet nested up to depth 2, static and dynamic, x all values of a "
            "mixed alphabet of about 150 x histories of 3 (thorough: 5) writes, resets and marks; all pairs of types for "
            "compatibility")


def decls(tier):
    return decl.nested(2) + decl.TYPES


def shards(tier):
    n = len(decls(tier))
    return [["history", i] for i in range(n)] + [["compatible", i] for i in range(n)]


def attempt(c, v):
    try:
        return c.set_value(v).is_ok()
    except TypeCheckError:
        return False


def same(a, b):
    try:
        return type(a) is type(b) and bool(a == b)
    except ValueError:
        return False


def run(shard, ctx):
    ds = decls(ctx.tier)
    d = ds[shard[1]]
    if shard[0] == "compatible":
        return compatible(d, decl.nested(2) + decl.TYPES, ctx)
    everything = decl.values()
    good = [v for v in everything if decl.accepts(d, v)]
    bad_ = [v for v in everything if decl.accepts(d, v) is False]
    # near misses first: values that another type of the same kind would take
    near = [v for v in bad_ if any(decl.accepts(e, v) for e in ds if e[0] == d[0])]
    few = good[:3] + good[-2:] if len(good) > 5 else good
    later = [("set", v) for v in few] + [("set", v) for v in (near[:3] + bad_[:2])] + [("mark",), ("unmark",), ("clear",)]
    if d[0] in ("generic",) or d[0].endswith("_type"):
        kinds = [True]
    else:
        kinds = [False, True]
    for is_static in kinds:
        def body(ch, is_static=is_static):
            c = decl.build(d, is_static=is_static)
            trace = ["static" if is_static else "dynamic"]

            def bad(what, detail=""):
                raise Violation(f"{decl.name(d)}: {what}: {trace}"[:600], detail)

            held, marked = c.get_value().ok(), c.is_updated()
            if marked:
                bad("a new container is marked updated")
            for i in range(ctx.pick(3, 5)):
                if i == 0:
                    op = ("set", everything[ch.choose(len(everything))])
                    if decl.accepts(d, op[1]) is None:
                        return None
                else:
                    op = ch.choose(later)
                trace.append(op if op[0] != "set" else ("set", decl.name_(op[1])))
                if op[0] == "set":
                    v = copy.deepcopy(op[1])
                    res = attempt(c, v)
                    want = decl.accepts(d, v) and not (is_static and marked)
                    if res != want:
                        bad("accepted" if res else "refused")
                    now = c.get_value().ok()
                    if not res:
                        if not same(now, held) and not (now is None and held is None) or c.is_updated() != marked:
                            bad("a refused value changed the container", f"{held!r} -> {now!r}")
                    else:
                        if now is None or not decl.equal(d, v, now):
                            bad("not read back equal", f"{now!r}")
                        marked = marked or held is None or not same(held, now) and held != now
                        if c.is_updated() != marked:
                            bad("updated mark", f"{c.is_updated()} expected {marked}")
                        held = now
                elif op[0] == "mark":
                    c.flag_updated()
                    marked = True
                elif op[0] == "unmark":
                    c.reset_updated()
                    marked = False
                else:
                    c.reset_value()
                    if not is_static:
                        held = None
                now = c.get_value().ok()
                if (now is None) != (held is None) or c.has_value() != (held is not None) or c.is_updated() != marked:
                    bad("state after " + op[0], f"{now!r} {held!r}")
                ctx.step()
                ctx.state((shard, is_static, repr(held), marked))
                if ctx.visited(ch, (is_static, repr(held), marked, c.is_updated(), repr(c.__dict__.get("_value"))),
                               ctx.pick(3, 5) - i):
                    return None
            ctx.outcome(trace)
            return trace[:2]

        ctx.explore(body, tag=str(is_static))


def compatible(d, others, ctx):
    pool = decl.values()
    mine = [decl.accepts(d, v) for v in pool]

    for e in others:
        for fd in ((True, True), (True, False), (False, True)):
            for fe in ((True, True), (True, False), (False, True)):
                if d[0] == "generic" or d[0].endswith("_type"):
                    if fd[0]:
                        continue
                if e[0] == "generic" or e[0].endswith("_type"):
                    if fe[0]:
                        continue

                def body():
                    a = decl.build(d, allow_dynamic=fd[0], allow_static=fd[1])
                    b = decl.build(e, allow_dynamic=fe[0], allow_static=fe[1])
                    res = a.is_compatible(b)
                    ctx.step()
                    ctx.outcome((decl.name(d), decl.name(e), fd, fe, res))
                    key = f"{decl.name(d)} {fd} and {decl.name(e)} {fe}"
                    if res:
                        if fd[0] and not fe[0] or fd[1] and not fe[1]:
                            raise Violation("compatible though it does not allow the same use: " + key)
                        for v, m in zip(pool, mine):
                            if decl.accepts(e, v) and m is False:
                                raise Violation("compatible though it takes more: " + key, repr(v))
                        if d[0].endswith("name") and d != e:
                            raise Violation("compatible names of different interfaces: " + key)
                    elif d == e and fd == fe:
                        raise Violation("not compatible with itself: " + key)
                    return key

                ctx.case(f"{decl.name(e)} {fd} {fe}", body)
