"""Bounded exhaustive exploration of the real code, in three shapes that share one bookkeeping:

  ctx.all(name, cases, fn)   every element of a finite input space; fn drives the implementation and a
                             reference model through the same calls and compares every observation
  ctx.dfs(name, body)        stateless exploration of a choice tree: body(c) calls c.choose(n) whenever the
                             environment may answer in several ways; every combination of answers is run
  ctx.bfs(name, system)      explicit-state search: each transition calls the real object and the reference
                             model, states are deduplicated by a canonical form, invariants are evaluated in
                             every state; a state is rebuilt by replaying the history that reaches it

Nothing is sampled.  Caps, where hit, are reported in the evidence as such.
Bookkeeping: transitions = implementation calls whose observation was compared with the reference,
states = distinct canonical observation states, traces = complete executions replayed on the implementation.
"""
import collections
import hashlib
import os
import signal
import time
import traceback


class Mismatch(AssertionError):
    def __init__(self, msg, tag=""):
        super().__init__(msg)
        self.tag = tag


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


def h64(x) -> int:
    return int.from_bytes(hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


CASE_TIMEOUT = 20
VIOLATION_CAP = int(os.environ.get("VERIF_MAXV", "400"))
MAX_VIOLATIONS = 12


class Obs:
    """observer of one execution; o(x) records an observation, o.eq compares with the reference"""
    __slots__ = ("ctx", "chain")

    def __init__(self, ctx, key):
        self.ctx = ctx
        self.chain = h64(key)

    def __call__(self, x=None):
        c = self.ctx
        c.transitions += 1
        self.chain = hash((self.chain, repr(x)))
        if len(c.states) < c.state_cap:
            c.states.add(self.chain)
        else:
            c.state_capped = True
        return x

    def eq(self, got, want, what="", tag=""):
        self(got)
        if got != want or type(got) is not type(want) and (isinstance(got, bool) != isinstance(want, bool)):
            raise Mismatch(f"{what}: got {short(got)}, reference says {short(want)}", tag)

    def ok(self, cond, what="", tag=""):
        self(bool(cond))
        if not cond:
            raise Mismatch(what, tag)


class Choices:
    """one execution of a choice tree"""
    def __init__(self, prefix, obs):
        self.prefix, self.taken, self.widths, self.labels, self.o = prefix, [], [], [], obs

    def choose(self, options, label=""):
        opts = options if isinstance(options, (list, tuple)) else list(options)
        i = len(self.taken)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(opts):
            raise RuntimeError(f"replay diverged at choice {i}: {k} of {len(opts)}")
        self.taken.append(k)
        self.widths.append(len(opts))
        self.labels.append((label, opts[k]) if label else opts[k])
        return opts[k]


class Ctx:
    def __init__(self, tier, seed, unit, shard=0, nshards=1, only=None):
        self.tier, self.seed, self.unit, self.shard, self.nshards = tier, seed, unit, shard, nshards
        self.only = only               # (sub, trace) to replay
        self.states = set()
        self.state_cap = 3_000_000
        self.state_capped = False
        self.transitions = 0
        self.traces = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.bounds = []
        self.caps = []
        self.depth = 0
        self._i = 0
        signal.signal(signal.SIGALRM, _alarm)

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def bound(self, text):
        """states the bound of what this unit enumerates"""
        if text not in self.bounds:
            self.bounds.append(text)

    def cap(self, text):
        if text not in self.caps:
            self.caps.append(text)

    # ---- violations
    def _report(self, sub, trace, e):
        if isinstance(e, Hang):
            msg, tag = f"no answer within {CASE_TIMEOUT} s", "hang"
        elif isinstance(e, Mismatch):
            msg, tag = str(e), e.tag
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno} {f.name}" for f in tb[-3:])
            msg, tag = f"{type(e).__name__}: {short(str(e), 300)} [{where}]", type(e).__name__
        self.violations.append({"unit": self.unit, "sub": sub, "tag": tag, "trace": short(trace, 2000), "msg": short(msg, 800)})

    def full(self):
        return len(self.violations) >= VIOLATION_CAP

    def _guard(self, sub, trace, fn):
        """run one execution under a watchdog; True when it agreed with the reference"""
        self.traces += 1
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
        try:
            fn()
            return True
        except (Exception, Hang) as e:
            self._report(sub, trace() if callable(trace) else trace, e)
            return False
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    # ---- explorers
    def all(self, sub, cases, fn):
        """fn(case, obs) for every case of a finite space (this shard's share of it)"""
        bad = hangs = 0
        first = last = None
        n = 0
        guard = self._guard
        for i, case in enumerate(cases):
            if i % self.nshards != self.shard:
                continue
            if self.only is not None and (self.only[0] != sub or self.only[1] != short(repr(case), 2000)):
                continue
            n += 1
            o = Obs(self, (sub, i))
            if first is None:
                first = case
            last = case
            if not guard(sub, lambda: repr(case), lambda: fn(case, o)):
                bad += 1
                hangs += self.violations[-1]["tag"] == "hang"
                if bad >= 200 or hangs >= 3:
                    self.cap(f"{sub}: stopped after {bad} violations")
                    break
            self.distinct.add(o.chain)
        if n and len(self.samples) < 6:
            self.samples.append({"unit": self.unit, "sub": sub, "executions": n, "first": short(repr(first), 200), "last": short(repr(last), 200)})

    def dfs(self, sub, body, max_runs=None):
        """every combination of the choices body(c, obs) makes"""
        stack = [[]]
        bad = hangs = runs = 0
        sample = None
        while stack:
            prefix = stack.pop()
            o = Obs(self, (sub,))
            c = Choices(prefix, o)
            good = self._guard(sub, lambda: repr(c.labels), lambda: body(c, o))
            runs += 1
            self.distinct.add(o.chain)
            if sample is None or runs % 997 == 0:
                sample = short(repr(c.labels), 300)
            if not good:
                bad += 1
                hangs += self.violations[-1]["tag"] == "hang"
                if bad >= 200 or hangs >= 3:
                    self.cap(f"{sub}: stopped after {bad} violations")
                    break
            for i in range(len(c.widths) - 1, len(prefix) - 1, -1):
                for k in range(c.widths[i] - 1, 0, -1):
                    nxt = c.taken[:i] + [k]
                    if i == 0 and self.nshards > 1 and k % self.nshards != self.shard:
                        continue
                    stack.append(nxt)
            if max_runs and runs >= max_runs:
                self.cap(f"{sub}: capped at {runs} executions")
                break
        if len(self.samples) < 6:
            self.samples.append({"unit": self.unit, "sub": sub, "executions": runs, "choices": sample})

    def bfs(self, sub, system, depth, max_states=None):
        """system.fresh() -> (real, model) pair holder; system.ops(s) -> operations enabled;
        system.apply(s, op, o) performs op on both sides and compares; system.canon(s) -> hashable;
        system.invariant(s) evaluated in every state"""
        o = Obs(self, (sub,))
        root = system.fresh()
        seen = {system.canon(root)}
        frontier = collections.deque([()])
        runs = bad = 0
        deepest = ()
        while frontier:
            hist = frontier.popleft()
            base = self._rebuild(system, hist)
            for n, op in enumerate(system.ops(base)):
                if not hist and n % self.nshards != self.shard:
                    continue
                holder = {}

                def go():
                    s = self._rebuild(system, hist)
                    o2 = Obs(self, (sub, hist))
                    self.transitions += 1
                    system.apply(s, op, o2)
                    system.invariant(s)
                    holder["c"] = system.canon(s)
                runs += 1
                if not self._guard(sub, lambda: repr(hist + (op,)), go):
                    bad += 1
                    if bad >= 60 or self.violations[-1]["tag"] == "hang":
                        self.cap(f"{sub}: stopped after {bad} violations")
                        return
                    continue
                k = holder["c"]
                if k not in seen:
                    seen.add(k)
                    self.states.add(h64((sub, k)))
                    deepest = hist + (op,)
                    if len(hist) + 1 < depth:
                        frontier.append(hist + (op,))
                    if max_states and len(seen) >= max_states:
                        self.cap(f"{sub}: capped at {len(seen)} states, depth {len(hist) + 1}")
                        frontier.clear()
                        break
        self.depth = max(self.depth, len(deepest))
        if len(self.samples) < 6:
            self.samples.append({"unit": self.unit, "sub": sub, "executions": runs, "canonical_states": len(seen), "deepest_history": short(repr(deepest), 300)})

    @staticmethod
    def _rebuild(system, hist):
        s = system.fresh()
        o = _Silent()
        for op in hist:
            system.apply(s, op, o)
        return s

    def result(self):
        return {"unit": self.unit, "states": len(self.states), "state_capped": self.state_capped, "transitions": self.transitions,
                "traces": self.traces, "distinct": len(self.distinct), "samples": self.samples, "violations": self.violations,
                "bounds": self.bounds, "caps": self.caps, "depth": self.depth}


class _Silent:
    def __call__(self, x=None):
        return x

    def eq(self, got, want, what="", tag=""):
        if got != want:
            raise Mismatch(f"{what}: got {short(got)}, reference says {short(want)}", tag)

    def ok(self, cond, what="", tag=""):
        if not cond:
            raise Mismatch(what, tag)


# ---- helpers for drivers
ALLOWED = None


def saferepr(v):
    try:
        return repr(v)
    except Exception as e:
        return f"<{type(v).__name__}, repr raises {type(e).__name__}>"


def outcome(fn, *a, **k):
    """('ok', value) or ('err', exception)"""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:
        return "err", e


def rejects(o, fn, kinds, what, tag=""):
    """fn must refuse with one of the exception kinds"""
    st, v = outcome(fn)
    if st == "ok":
        raise Mismatch(f"{what}: accepted, gave {short(saferepr(v), 200)}", tag)
    o(type(v).__name__)
    if not isinstance(v, kinds):
        raise Mismatch(f"{what}: refused with {type(v).__name__}: {v}, expected {kinds}", tag or type(v).__name__)


UNITS = []


def unit(name, shards=1, thorough_shards=None):
    def deco(fn):
        UNITS.append((name, fn, shards, thorough_shards or shards))
        return fn
    return deco
