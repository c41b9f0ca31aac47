"""
Core of the deterministic simulator.

One integer seed decides a run.  Every choice a run makes (schedule, fault,
workload, random data) is drawn from a `Decider`; the list of drawn integers is
the whole identity of the run, so that

    scenario(Decider(seed))            explores,
    scenario(Decider(replay=[...]))    replays,
    minimise()                         shrinks that list.

A scenario is a function (d, ctx): it builds the system from the real code,
drives it and raises Violation when an oracle is broken.  Anything else it
raises is a harness error, never a violation.
"""

import hashlib
import json
import os
import random
import time
import traceback


class Violation(Exception):
    """An oracle was broken.  `code` is a short stable signature."""

    def __init__(self, code, message=""):
        super().__init__(f"{code}: {message}")
        self.code = code
        self.message = str(message)


class Invalid(Exception):
    """The decisions do not describe a run (only while minimising)."""


def derive(*parts) -> int:
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Decider:
    MAX = 200_000

    def __init__(self, seed=None, replay=None):
        self.rng = None if seed is None else random.Random(seed)
        self.replay = replay
        self.log = []  # drawn values
        self.bounds = []  # their exclusive bounds

    def choice(self, n: int, label: str = "") -> int:
        """An integer in [0, n).  0 is the 'simplest' alternative."""
        if n <= 0:
            raise ValueError(n)
        i = len(self.log)
        if i > self.MAX:
            raise Invalid("too many decisions")
        if self.replay is not None:
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        self.bounds.append(n)
        return v

    def weighted(self, weights, label="") -> int:
        """Index drawn with integer weights."""
        v = self.choice(sum(weights), label)
        for i, w in enumerate(weights):
            if v < w:
                return i
            v -= w
        raise AssertionError

    def chance(self, num, den, label="") -> bool:
        """True with probability num/den; the simplest value is False."""
        return self.choice(den, label) >= den - num

    def integer(self, lo, hi, label="") -> int:
        return lo + self.choice(hi - lo + 1, label)

    def pick(self, seq, label=""):
        return seq[self.choice(len(seq), label)]

    def gap(self, max_log2=10, label="") -> int:
        """Log-uniform positive gap."""
        k = self.choice(max_log2 + 1, label)
        return (1 << k) + (self.choice(1 << k, label) if k else 0)

    def seed32(self, label="") -> int:
        return self.choice(1 << 31, label)

    def shuffle(self, seq, label=""):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.choice(i + 1, label)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Ctx:
    """What one run records."""

    def __init__(self, verbose=False):
        self.events = 0
        self.h = hashlib.sha256()
        self.faults = {}  # kind -> number that really fired
        self.offered = {}  # kind -> number of times the run armed it
        self.states = set()  # distinct states / interleavings (hashes)
        self.counters = {}
        self.sim_time = 0.0
        self.verbose = verbose
        self.tail = []
        self.nontrivial = False

    def event(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.events += 1
        self.h.update(s.encode() + b"\n")
        if self.verbose:
            self.tail.append(s)
            if len(self.tail) > 4000:
                del self.tail[:2000]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def arm(self, kind, n=1):
        self.offered[kind] = self.offered.get(kind, 0) + n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, *parts):
        self.states.add(derive(*parts) & 0xFFFFFFFFFFFF)

    def digest(self):
        return self.h.hexdigest()[:32]

    def check(self, cond, code, *msg):
        self.count("oracle_checks")
        if not cond:
            raise Violation(code, " ".join(str(m) for m in msg))


MALFORMED = (TypeError, ValueError, LookupError, RuntimeError, AssertionError, StopIteration, ArithmeticError, AttributeError)


def run_once(scenario, seed=None, replay=None, verbose=False):
    """Returns (status, info).  status: ok | violation | invalid | error."""
    d = Decider(seed=seed, replay=replay)
    ctx = Ctx(verbose=verbose)
    t0 = time.perf_counter()
    status, code, msg = "ok", None, None
    try:
        scenario(d, ctx)
    except Violation as e:
        status, code, msg = "violation", e.code, e.message
        ctx.event("VIOLATION", e.code)
    except Invalid as e:
        status, msg = "invalid", str(e)
    except BaseException as e:
        # The code under test raised where nothing allows it to: a violation.
        # An exception of the harness alone is an error of the check.
        msg = traceback.format_exc()
        repo = os.environ.get("VERIF_REPO", "/repo") + os.sep
        frames = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
        if any(f.startswith(repo) for f in frames) and isinstance(e, Exception):
            status, code = "violation", "unexpected-" + type(e).__name__
            ctx.event("UNEXPECTED", type(e).__name__)
        elif isinstance(e, MALFORMED) and not str(e).startswith(("module ", "type object ")):
            # What the code under test returned is of a kind that the oracle cannot even
            # look at (None, too few items, another shape). It never is on the pinned tree.
            status, code = "violation", "malformed-result-" + type(e).__name__
            ctx.event("MALFORMED", type(e).__name__)
        else:
            status, code = "error", type(e).__name__
        if isinstance(e, (SystemExit, KeyboardInterrupt, GeneratorExit)):
            msg = "escaped " + repr(e) + "\n" + msg
    return status, {
        "status": status,
        "code": code,
        "message": msg,
        "decisions": d.log,
        "digest": ctx.digest(),
        "events": ctx.events,
        "faults": ctx.faults,
        "offered": ctx.offered,
        "counters": ctx.counters,
        "states": sorted(ctx.states),
        "sim_time": ctx.sim_time,
        "nontrivial": ctx.nontrivial,
        "wall": time.perf_counter() - t0,
        "trace": ctx.tail,
    }


def minimise(scenario, decisions, code, budget_s=60.0, max_runs=600):
    """Shrink `decisions` keeping a violation with the same code."""
    t_end = time.monotonic() + budget_s
    runs = 0
    best = list(decisions)

    def attempt(cand):
        nonlocal best, runs
        if time.monotonic() > t_end or runs >= max_runs:
            return False
        if cand == best:
            return False
        runs += 1
        status, info = run_once(scenario, replay=cand)
        if status == "violation" and info["code"] == code:
            got = info["decisions"]
            while got and got[-1] == 0:
                got = got[:-1]
            if (len(got), got) < (len(best), best):
                best = got
                return True
        return False

    while best and best[-1] == 0:
        best = best[:-1]
    improved = True
    while improved and time.monotonic() < t_end and runs < max_runs:
        improved = False
        # truncate
        for cut in (len(best) // 2, len(best) * 3 // 4, len(best) - 1):
            if 0 <= cut < len(best) and attempt(best[:cut]):
                improved = True
        # delete chunks
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size :]):
                    improved = True
                else:
                    i += size
                if time.monotonic() > t_end or runs >= max_runs:
                    break
            if size == 1 or time.monotonic() > t_end or runs >= max_runs:
                break
            size //= 2
        # zero, then halve
        for i in range(len(best)):
            if i >= len(best):
                break
            if best[i]:
                if attempt(best[:i] + [0] + best[i + 1 :]):
                    improved = True
                elif best[i] > 1 and attempt(
                    best[:i] + [best[i] // 2] + best[i + 1 :]
                ):
                    improved = True
                elif best[i] > 2 and attempt(
                    best[:i] + [best[i] - 1] + best[i + 1 :]
                ):
                    improved = True
            if time.monotonic() > t_end or runs >= max_runs:
                break
    return best, runs


def dumps(x):
    return json.dumps(x, indent=1, sort_keys=True, default=str)


class Scenario:
    def __init__(
        self,
        name,
        fn,
        quick,
        thorough,
        max_wall=120.0,
        hang_is_violation=True,
        crash_is_violation=True,
        faulty=True,
    ):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough
        self.max_wall = max_wall
        self.hang_is_violation = hang_is_violation
        self.crash_is_violation = crash_is_violation
        self.faulty = faulty
