"""Reference interpreter for control-flow and decorator nodes, written from their documentation.

A leaf's tick results come from the recorded execution (`feed`); everything else is decided here.
"""

from mc.core import Violation

IDLE, RUN, SUCC, FAIL, PAUSED = "IDLE", "RUNNING", "SUCCEEDED", "FAILED", "PAUSED"


class Feed:
    def __init__(self):
        self.events = []

    def load(self, log):
        self.events = [(n, r) for op, n, r in log if op == "tick"]
        self.used = []

    def next(self, name):
        if not self.events:
            raise Violation("leaf not ticked", f"{name} should have been ticked; ticked before it: {self.used}")
        n, r = self.events.pop(0)
        if n != name:
            raise Violation("wrong leaf ticked", f"ticked {n} where {name} was due; before it: {self.used}")
        self.used.append((n, r))
        return r

    def finish(self):
        if self.events:
            raise Violation("extra leaf tick", f"{self.events} after {self.used}")


class R:
    def __init__(self, feed, name, *children, **p):
        self.feed = feed
        self.name = name
        self.ch = list(children)
        self.p = p
        self.state = "UNINITIALIZED"

    def setup(self):
        self.init()
        for c in self.ch:
            c.setup()
        self.state = IDLE

    def init(self):
        pass

    def tick(self):
        self.state = self.do()
        return self.state

    def untick(self):
        for c in self.ch:
            c.untick()
        self.state = IDLE
        return self.state

    def reset(self):
        for c in self.ch:
            c.reset()
        self.state = IDLE
        return self.state

    def all(self):
        yield self
        for c in self.ch:
            yield from c.all()

    @property
    def decided(self):
        return self.state in (SUCC, FAIL)


class Leaf(R):
    def do(self):
        return self.feed.next(self.name)


class Sequence(R):
    go, other = SUCC, FAIL

    def do(self):
        if not self.ch:
            return self.go
        if self.decided:
            for c in self.ch:
                c.reset()
        for i in range(self.first(), len(self.ch)):
            s = self.ch[i].tick()
            if s == RUN:
                self.note(i)
                return s
            if s == self.other:
                for later in self.ch[i + 1:]:
                    later.untick()
                return s
        return self.go

    def first(self):
        return 0

    def note(self, i):
        pass


class Fallback(Sequence):
    go, other = FAIL, SUCC


class MemorySequence(Sequence):
    at = 0

    def init(self):
        self.at = 0

    def first(self):
        if self.decided:
            self.at = 0
        return self.at

    def note(self, i):
        self.at = i

    def untick(self):
        self.at = 0
        return super().untick()

    def reset(self):
        self.at = 0
        return super().reset()


class MemoryFallback(MemorySequence):
    go, other = FAIL, SUCC

    def untick(self):
        if self.decided:
            self.at = 0
        return R.untick(self)


class Parallel(R):
    def do(self):
        if self.decided:
            for c in self.ch:
                c.reset()
        for c in self.ch:
            if not c.decided:
                c.tick()
        good = sum(c.state == SUCC for c in self.ch)
        bad = sum(c.state == FAIL for c in self.ch)
        if good >= self.p["need"]:
            res = SUCC
        elif self.p.get("tolerate") is None and len(self.ch) - bad < self.p["need"]:
            res = FAIL
        elif self.p.get("tolerate") is not None and bad > self.p["tolerate"]:
            res = FAIL
        else:
            return RUN
        for c in self.ch:
            if not c.decided:
                c.untick()
        return res


class Switch(R):
    """p['sel']: callable giving the name of the selected child (or None)."""

    def do(self):
        name = self.p["sel"]()
        chosen = [c for c in self.ch if c.name == name]
        if not chosen:
            for c in self.ch:
                c.untick()
            return FAIL
        if self.decided:
            for c in self.ch:
                c.reset()
        for c in self.ch:
            if c.name != name:
                c.untick()
        return chosen[0].tick()


class Map(R):
    """Decorator mapping its child's result; p: map, empty."""

    def do(self):
        if not self.ch:
            return self.p["empty"]
        s = self.ch[0].tick()
        return self.p["map"].get(s, s)

    def untick(self):
        self.state = self.ch[0].untick() if self.ch else IDLE
        return self.state


def IgnoreFailure(feed, name, *ch):
    return Map(feed, name, *ch, map={FAIL: SUCC}, empty=SUCC)


def IgnoreSuccess(feed, name, *ch):
    return Map(feed, name, *ch, map={SUCC: FAIL}, empty=FAIL)


def IgnoreRunning(feed, name, *ch, success=True):
    return Map(feed, name, *ch, map={RUN: SUCC if success else FAIL}, empty=FAIL)


def Inverter(feed, name, *ch):
    return Map(feed, name, *ch, map={SUCC: FAIL, FAIL: SUCC}, empty=SUCC)


class Rerun(R):
    """Decorators that rerun their child: p['on']: results that rerun it, p['pause']: untick leads to PAUSED."""

    def do(self):
        if not self.ch:
            return SUCC
        s = self.ch[0].tick()
        if s in self.p["on"]:
            self.ch[0].reset()
            return RUN
        return RUN if self.p.get("always") else s

    def untick(self):
        s = self.ch[0].untick() if self.ch else IDLE
        self.state = PAUSED if self.p.get("pause", True) else s
        return self.state


def UntilSuccess(feed, name, *ch):
    return Rerun(feed, name, *ch, on=(FAIL,), pause=False)


def RepeatAlways(feed, name, *ch):
    return Rerun(feed, name, *ch, on=(SUCC, FAIL, PAUSED), always=True)


def RepeatUntilFail(feed, name, *ch):
    return Rerun(feed, name, *ch, on=(SUCC,))


def RepeatIfFail(feed, name, *ch):
    return Rerun(feed, name, *ch, on=(FAIL,))


class Retry(R):
    count = 0

    def init(self):
        self.count = 0

    def do(self):
        if not self.ch:
            return SUCC
        s = self.ch[0].tick()
        if s == FAIL:
            if self.count < self.p["n"]:
                self.count += 1
                self.ch[0].reset()
                return RUN
            self.count = 0
        return s

    def untick(self):
        for c in self.ch:
            c.untick()
        self.state = PAUSED
        return self.state

    def reset(self):
        self.count = 0
        return super().reset()


class Repeat(Retry):
    def do(self):
        if not self.ch:
            return SUCC
        s = self.ch[0].tick()
        if s == SUCC and self.count < self.p["n"]:
            self.count += 1
            self.ch[0].reset()
            return RUN
        return s


class RepeatNoAutoReset(Repeat):
    def do(self):
        if self.p["flag"]():
            self.count = 0
        if not self.ch or self.count >= self.p["n"]:
            return SUCC
        s = self.ch[0].tick()
        if s == SUCC:
            self.count += 1
            self.ch[0].reset()
            return RUN
        return s

    def reset(self):
        if self.count < self.p["n"]:
            for c in self.ch:
                c.reset()
        self.state = IDLE
        return self.state


class Optional(R):
    def do(self):
        if not self.ch or not self.p["can"]:
            return SUCC
        return self.ch[0].tick()

    def setup(self):
        if self.ch and self.p["can"]:
            self.ch[0].setup()
        self.state = IDLE

    def untick(self):
        self.state = self.ch[0].untick() if self.ch and self.p["can"] else IDLE
        return self.state

    def reset(self):
        if self.ch and self.p["can"]:
            self.ch[0].reset()
        self.state = IDLE
        return self.state


class Watch(Map):
    """p['updated']: callable, whether the watched value was updated since this node's last tick."""

    def do(self):
        if not self.ch:
            return SUCC
        if self.p["updated"]():
            self.ch[0].untick()
        return self.ch[0].tick()


class Throttle(Map):
    last_tick = None
    last_result = FAIL

    def init(self):
        self.last_tick = None
        self.last_result = FAIL

    def do(self):
        now = self.p["now"]()
        if self.last_tick is None or now - self.last_tick > self.p["interval"]:
            for c in self.ch:
                s = c.tick()
                if s == RUN:
                    return RUN
                self.last_result = s
                self.last_tick = now
                c.reset()
        return self.last_result

    def reset(self):
        self.init()
        return super().reset()


class ThrottleSuccess(Map):
    last = None

    def init(self):
        self.last = None

    def do(self):
        now = self.p["now"]()
        if self.last is None or now - self.last > self.p["interval"]:
            for c in self.ch:
                s = c.tick()
                if s == RUN:
                    return RUN
                if s == SUCC:
                    self.last = now
                    return SUCC
        return FAIL

    def reset(self):
        self.last = None
        return super().reset()
