"""Check runner: shards, exhaustive exploration with replay, evidence, known findings, violations."""

import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_SECONDS = float(os.environ.get("VERIF_HANG", "30"))
# Checks that run without typeguard's run-time assertions (which cost most of the time)
FAST = {"C51", "C52", "C26", "C27", "C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C41", "C42", "C43", "C46", "C35", "C36", "C37", "C38", "C39", "C40", "C16", "C17", "C18", "C19", "C20", "C23", "C24", "C25", "C28", "C29", "C30", "C31", "C33", "C34"}


class Violation(BaseException):
    """Raised by a check body. `key` identifies the failing input/history for the known-findings file.

    BaseException, so that no `except Exception` in the code under test can swallow it.
    """

    def __init__(self, key, detail=""):
        super().__init__(key, detail)
        self.key = key
        self.detail = detail


class Hang(BaseException):
    pass


class ReplayDivergence(Exception):
    """The same choices led to a different number of alternatives: nondeterminism the harness does not own."""


def fingerprint(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Chooser:
    """Resolves choice points: replays `prefix`, then takes the first alternative."""

    __slots__ = ("prefix", "choices", "widths", "labels")

    def __init__(self, prefix=()):
        self.prefix = prefix
        self.choices = []
        self.widths = []
        self.labels = []

    def choose(self, options):
        """Pick one of `options` (a sequence, or an int n for range(n))."""
        n = options if isinstance(options, int) else len(options)
        i = len(self.choices)
        if i < len(self.prefix):
            pick = self.prefix[i]
            if pick >= n:
                raise ReplayDivergence(f"choice {i}: {pick} of {n}")
        else:
            pick = 0
        self.choices.append(pick)
        self.widths.append(n)
        if isinstance(options, int):
            self.labels.append(pick)
            return pick
        self.labels.append(options[pick])
        return options[pick]


class Ctx:
    """Counters and findings of one shard."""

    def __init__(self, module_id, shard, tier, seed, only=None):
        self.id = module_id
        self.shard = shard
        self.tier = tier
        self.seed = seed
        self.only = only  # (tag, choices) when replaying
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.keys = set()
        self.capped = []
        self.notes = {}
        self.explored = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def state(self, obj):
        self.states.add(fingerprint(obj))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, obj):
        self.outcomes.add(fingerprint(obj))

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def fail(self, key, detail="", tag="", choices=None, labels=None):
        """Record a violation without raising."""
        if key in self.keys:
            return
        self.keys.add(key)
        self.violations.append(
            {
                "key": str(key),
                "detail": str(detail)[:4000],
                "shard": self.shard,
                "tag": tag,
                "choices": list(choices) if choices is not None else None,
                "history": [repr(x)[:200] for x in labels] if labels is not None else None,
            }
        )

    @property
    def stop(self):
        return len(self.violations) >= 40

    def run_body(self, body, prefix, tag=""):
        """Run one complete execution. Returns its Chooser."""
        ch = Chooser(prefix)
        signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
        try:
            sample = body(ch)
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.traces += 1
            if len(self.samples) < 2 and sample is not None:
                self.samples.append({"shard": repr(self.shard)[:300], "choices": list(ch.choices),
                                     "trace": repr(sample)[:1500]})
        except Violation as v:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.traces += 1
            self.fail(v.key, v.detail, tag, ch.choices, ch.labels)
        except Hang:
            self.fail(f"hang {self._where(ch)}", f"no end after {HANG_SECONDS}s", tag, ch.choices, ch.labels)
        except ReplayDivergence:
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise
        except Exception as ex:  # an exception the check did not expect
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.traces += 1
            tb = traceback.format_exc()
            self.fail(f"exception {type(ex).__name__} {self._where(ch)}", tb, tag, ch.choices, ch.labels)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ch

    def _where(self, ch):
        return ",".join(str(x)[:40] for x in ch.labels)[-300:]

    def visited(self, ch, state, left):
        """True if the execution may stop here: `state` was already explored to at least `left` further steps.

        Only for states that determine the future; call it after each step.
        """
        if self.only is not None or len(ch.choices) < len(ch.prefix):
            return False
        mark = fingerprint(state)
        if self.explored.get(mark, -1) >= left:
            self.notes["merged"] = self.notes.get("merged", 0) + 1
            return True
        self.explored[mark] = left
        return False

    def explore(self, body, tag="", start=(), cap=None):
        """Depth-first over all choices of body(chooser). `start` fixes the first choices (sharding)."""
        if self.only is not None:
            if self.only[0] == tag:
                self.run_body(body, tuple(self.only[1]), tag)
            return 0
        self.explored = {}
        fixed = len(start)
        prefix = list(start)
        n = 0
        while True:
            ch = self.run_body(body, prefix, tag)
            n += 1
            if self.stop:
                self.capped.append(f"{tag}: stopped after violations")
                return n
            if cap is not None and n >= cap:
                self.capped.append(f"{tag}: cap {cap} executions")
                return n
            choices, widths = ch.choices, ch.widths
            i = len(choices) - 1
            while i >= fixed and choices[i] + 1 >= widths[i]:
                i -= 1
            if i < fixed:
                return n
            prefix = choices[:i] + [choices[i] + 1]

    def case(self, key, body, tag=""):
        """One enumerated case without choice points: body() raises Violation on failure."""
        if self.only is not None and self.only[1] != [key]:
            return
        signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
        try:
            sample = body()
            self.traces += 1
            if len(self.samples) < 2 and sample is not None:
                self.samples.append({"case": str(key)[:300], "trace": repr(sample)[:800]})
        except Violation as v:
            self.traces += 1
            self.fail(v.key, v.detail, "case", [str(key)])
        except Hang:
            self.fail(f"hang {key}", "no end", "case", [str(key)])
        except Exception as ex:
            self.traces += 1
            self.fail(f"exception {type(ex).__name__} {key}", traceback.format_exc(), "case", [str(key)])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def _alarm(signum, frame):
    raise Hang()


def _worker_init():
    signal.signal(signal.SIGALRM, _alarm)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(2000)


def _run_shard(args):
    module_name, shard, tier, seed, only = args
    module = importlib.import_module(module_name)
    ctx = Ctx(module.ID, shard, tier, seed, only)
    error = None
    t0 = time.time()
    try:
        module.run(shard, ctx)
    except Violation as v:
        ctx.fail(v.key, v.detail)
    except Hang:
        ctx.fail(f"hang {shard}", "")
    except ReplayDivergence as ex:
        error = "nondeterminism: " + traceback.format_exc()
    except BaseException as ex:
        # Code under test that breaks outside an explored body (e.g. cannot be imported or built any more)
        ctx.fail(f"exception {type(ex).__name__} in {json.dumps(shard)[:200]}", traceback.format_exc())
    return {
        "shard": shard,
        "states": len(ctx.states),
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "outcomes": list(ctx.outcomes),
        "samples": ctx.samples,
        "violations": ctx.violations,
        "capped": ctx.capped,
        "notes": ctx.notes,
        "error": error,
        "wall": time.time() - t0,
    }


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {(e["property"], e["key"]): e["what"] for e in data["findings"]}


def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    module_name = f"mc.checks.{prop.lower()}"
    t0 = time.time()
    saved_err = os.dup(2)
    if not os.environ.get("VERIF_DEBUG"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 2)
    try:
        from mc import standins

        if prop in FAST:
            standins.no_typechecks()
        module = importlib.import_module(module_name)
        shards = list(module.shards(tier))
        import_error = None
    except BaseException:
        import_error = traceback.format_exc()
    finally:
        os.dup2(saved_err, 2)
    if import_error is not None:
        # the code under test cannot even be loaded: everything it guarantees is gone
        results = [{"shard": "import", "states": 0, "transitions": 0, "traces": 0, "outcomes": [],
                    "samples": [], "violations": [{"key": "import", "detail": import_error,
                    "shard": "import", "tag": "", "choices": None, "history": None}],
                    "capped": [], "notes": {}, "error": None, "wall": 0}]
        return finish(prop, tier, seed, t0, None, results, [])

    only = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        tier = rec.get("tier", tier)
        signal.signal(signal.SIGALRM, _alarm)
        only = (rec["tag"], rec["choices"]) if rec["choices"] is not None else None
        res = _run_shard((module_name, rec["shard"], tier, seed, only))
        print(json.dumps(res["violations"], indent=1))
        print(res["error"] or "")
        return 1 if res["violations"] else 0

    order = list(range(len(shards)))
    random.Random(seed).shuffle(order)
    weight = getattr(module, "weight", None)
    if weight:
        order.sort(key=lambda i: -weight(shards[i]))
    jobs = [(module_name, shards[i], tier, seed, None) for i in order]
    known = load_known()
    results = []
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(jobs)))
    bad = 0
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "780" if tier == "quick" else "14000"))
    mp = multiprocessing.get_context("fork")
    pool = mp.Pool(nproc, initializer=_worker_init, maxtasksperchild=getattr(module, "TASKS_PER_CHILD", 64))
    capped = []
    try:
        it = pool.imap_unordered(_run_shard, jobs, chunksize=1)
        for _ in jobs:
            try:
                res = it.next(timeout=max(1, deadline - time.time()))
            except multiprocessing.TimeoutError:
                capped.append(f"deadline: {len(jobs) - len(results)} of {len(jobs)} shards unfinished")
                break
            results.append(res)
            bad += sum((prop, v["key"]) not in known for v in res["violations"])
            if bad >= int(os.environ.get("VERIF_STOP", "5")):
                capped.append(f"stopped after {bad} violations, {len(jobs) - len(results)} shards not run")
                break
    finally:
        pool.terminate()
        pool.join()
    return finish(prop, tier, seed, t0, module, results, capped)


def finish(prop, tier, seed, t0, module, results, capped):
    known = load_known()
    violations, hits, errors = [], {}, []
    notes = {}
    for r in results:
        capped += r["capped"]
        if r["error"]:
            errors.append(r["error"])
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for v in r["violations"]:
            if (prop, v["key"]) in known:
                hits[v["key"]] = known[(prop, v["key"])]
            else:
                violations.append(v)
    outcomes = set()
    samples = []
    for r in results:
        outcomes.update(r["outcomes"])
    for r in results:
        if len(samples) < 4:
            samples += r["samples"][:1]
    coverage = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["traces"] for r in results),
        "samples": samples,
        "configurations": len(results),
        "distinct_outcomes": len(outcomes),
        "exhaustive": not capped and not violations,
    }
    if capped:
        coverage["capped"] = capped[:20]
    if notes:
        coverage["counts"] = notes
    if hits:
        coverage["known_findings_seen"] = sorted(hits)
    if module is not None:
        coverage["bounds"] = getattr(module, "BOUNDS", "") if not callable(getattr(module, "BOUNDS", "")) else module.BOUNDS(tier)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "model_checking") if module else "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])) if module else [],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for key in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {hits[key]}")
    seen = set()
    os.makedirs(os.path.join(ROOT, "replays", prop), exist_ok=True)
    for v in sorted(violations, key=lambda v: (len(v["choices"] or []), v["key"])):
        if v["key"] in seen or len(seen) >= 10:
            continue
        seen.add(v["key"])
        name = hashlib.blake2b(v["key"].encode(), digest_size=6).hexdigest()
        path = os.path.join(ROOT, "replays", prop, name + ".json")
        rec = dict(v, tier=tier, property=prop, command=f"bash run.sh {prop} --replay {path}")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['key'][:500]}")
        if os.environ.get("VERIF_VERBOSE"):
            print("  " + v["detail"][-3000:].replace("\n", "\n  "))
    print(
        f"{prop} {tier}: {coverage['states']} states, {coverage['transitions']} transitions, "
        f"{coverage['traces_validated_against_impl']} executions, {len(outcomes)} outcomes, "
        f"{len(violations)} violations, {evidence['wall_s']} s" + (f", capped: {capped[:3]}" if capped else "")
    )
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print(f"  {r['wall']:.1f} s {r['traces']} {r['shard']}")
    if errors and not violations:
        print("ERROR of the check: " + errors[0])
        return 3
    return 1 if violations else 0


