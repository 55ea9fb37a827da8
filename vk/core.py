"""Verdict discipline shared by every check.

A check runs workloads against the real code and feeds what it observes to deterministic oracles.
Three outcomes: held on what was observed (exit 0), violated (exit 1 + VIOLATION line + replay file),
inconclusive (exit 2: the deciding monitor saw too little, or the harness itself failed).
"""
import contextlib
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = 25
STUCK_CPU_S = 90        # processor seconds without a single observation; the longest seen on the unchanged tree is a few
MEMORY = 12 << 30


class Stuck(BaseException):
    """the code under test does not end (not an Exception: nothing on the way swallows it)"""


class StopRun(Exception):
    """enough violations were recorded"""


class Inconclusive(Exception):
    """the monitors did not observe enough"""


def show(x, limit=400):
    try:
        if isinstance(x, (bytes, bytearray)):
            s = f"{type(x).__name__}:{bytes(x).hex()}"
        else:
            s = repr(x)
    except Exception as e:  # repr of the code under test may itself be broken
        s = f"<{type(x).__name__}: repr failed: {e!r}>"
    return s if len(s) <= limit else s[:limit] + f"...({len(s)})"


class Ctx:
    def __init__(self, pid: str, tier: str, seed: int):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}/{seed}")
        self.evaluations = 0
        self.distinct: set[bytes] = set()
        self.counters: dict[str, int] = {}
        self.samples: list = []
        self._sample_seen = 0
        self._sample_rng = random.Random(seed)
        self.violations: list[dict] = []
        self.known: list[str] = []
        self.notes: list[str] = []
        self.rule = ""
        self.states: set = set()
        self._mark = time.process_time()
        self.scale = 1
        self.longest_step = 0.0

    def watch(self):
        """operations must end: raise Stuck in the main thread after STUCK_CPU_S of processor time without an observation"""
        def tick(*_):
            if time.process_time() - self._mark > STUCK_CPU_S:
                self._mark = time.process_time()
                raise Stuck(f"no result after {STUCK_CPU_S} s of processor time")
        signal.signal(signal.SIGPROF, tick)
        signal.setitimer(signal.ITIMER_PROF, 5, 5)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))

    def unwatch(self):
        signal.setitimer(signal.ITIMER_PROF, 0, 0)

    def _alive(self):
        t = time.process_time()
        if t - self._mark > self.longest_step:
            self.longest_step = t - self._mark
        self._mark = t

    # ---- sizes
    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def n(self, quick: int, thorough: int | None = None) -> int:
        if self.thorough:
            return thorough if thorough is not None else quick * 12
        return quick * self.scale

    def sub(self, name: str) -> random.Random:
        """an independent stream: adding cases to one workload does not move the others"""
        return random.Random(f"{self.pid}/{self.seed}/{name}")

    # ---- observations
    def case(self, key, nontrivial: bool = True, sample=None):
        self.evaluations += 1
        self._alive()
        if nontrivial:
            if not isinstance(key, bytes):
                key = repr(key).encode("utf-8", "backslashreplace")
            self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())
        self._sample_seen += 1
        if len(self.samples) < 4:
            self.samples.append(show(sample if sample is not None else key, 300))
        elif self._sample_rng.random() < 4 / self._sample_seen:
            self.samples[self._sample_rng.randrange(4)] = show(sample if sample is not None else key, 300)

    def count(self, name: str, n: int = 1):
        self._alive()
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, key):
        self.states.add(hash(key))

    def require(self, name: str, at_least: int = 1):
        """a monitor that was hardly reached decides nothing"""
        if self.counters.get(name, 0) < at_least and not self.violations:
            raise Inconclusive(f"counter {name}={self.counters.get(name, 0)}, needs {at_least}")

    # ---- verdicts
    def fail(self, mechanism: str, message: str, **witness):
        self.violations.append({"mechanism": mechanism, "message": message,
                                "witness": {k: show(v, 2000) for k, v in witness.items()}})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopRun

    def check(self, ok, mechanism: str, message: str = "", **witness) -> bool:
        self.count(f"checked:{mechanism}")
        if not ok:
            self.fail(mechanism, message or mechanism, **witness)
        return bool(ok)

    def eq(self, got, want, mechanism: str, message: str = "", **witness) -> bool:
        self.count(f"checked:{mechanism}")
        try:
            same = type(got) is type(want) and got == want if isinstance(want, (bool, type(None))) else bool(got == want)
        except Exception as e:
            same, message = False, f"{message} comparing raised {e!r}"
        if not same:
            self.fail(mechanism, message or mechanism, got=got, want=want, **witness)
        return same

    @contextlib.contextmanager
    def guard(self, mechanism: str, **witness):
        """a legal use: any exception is a violation"""
        try:
            yield
        except (StopRun, Inconclusive, KeyboardInterrupt):
            raise
        except (Exception, Stuck) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.relpath(f.filename, '/')}:{f.lineno}:{f.name}" for f in tb[-4:]]
            self.fail(mechanism, f"unexpected {type(e).__name__}: {e}", where=where, **witness)
            if isinstance(e, Stuck):     # every further case would cost as much
                raise StopRun

    def rejects(self, fn, mechanism: str, exc=(ValueError,), message: str = "", **witness) -> bool:
        """the operation must be refused with one of the exceptions"""
        self.count(f"checked:{mechanism}")
        try:
            with _quiet():
                got = fn()
        except exc:
            self.count(f"rejected:{mechanism}")
            return True
        except (StopRun, Inconclusive, KeyboardInterrupt):
            raise
        except (Exception, Stuck) as e:
            self.fail(mechanism, f"{message} refused with {type(e).__name__}({e}), expected {[x.__name__ for x in exc]}", **witness)
            if isinstance(e, Stuck):
                raise StopRun
            return False
        self.fail(mechanism, f"{message} accepted, expected rejection", got=got, **witness)
        return False

    def known_finding(self, key: str, still_fails):
        """probe a recorded defect by its fixed input; prints its line while it still fails"""
        entry = known_findings().get((self.pid, key))
        if entry is None:
            raise Inconclusive(f"known finding {key} is not recorded")
        try:
            with _quiet():
                bad = still_fails()
        except Exception as e:
            bad = True
            self.notes.append(f"known finding {key}: {type(e).__name__}: {e}")
        self.count(f"known_finding_probe:{key}")
        if bad:
            self.known.append(f"KNOWN-FINDING: property={self.pid} {key}: {entry}")


@contextlib.contextmanager
def _quiet():
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        yield


_kf = None


def known_findings() -> dict:
    global _kf
    if _kf is None:
        with open(os.path.join(ROOT, "known_findings.json"), encoding="utf-8") as f:
            _kf = {(k["property"], k["key"]): k["what"] for k in json.load(f)["open"]}
    return _kf


def finish(ctx: Ctx, verdict: str, reason: str = "") -> int:
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
        "coverage": {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": len(ctx.distinct),
            "rule": ctx.rule,
            "samples": ctx.samples,
            "longest_step_cpu_s": round(ctx.longest_step, 2),
            "observed": dict(sorted(ctx.counters.items())),
            "verdict": verdict,
        },
        "violations": len(ctx.violations),
        "wall_s": round(time.time() - ctx.t0, 3),
        "assumptions": ["held on the executions listed here; nothing is claimed for inputs outside the generators' bounds"],
    }
    if ctx.states:
        ev["coverage"]["distinct_states"] = len(ctx.states)
    if ctx.known:
        ev["coverage"]["known_findings"] = ctx.known
    if ctx.notes:
        ev["coverage"]["notes"] = ctx.notes[:20]
    if reason:
        ev["coverage"]["reason"] = reason
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{ctx.pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for line in ctx.known:
        print(line)
    if ctx.violations:
        rdir = os.path.join(ROOT, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{ctx.pid}-{ctx.tier}-{ctx.seed}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed,
                       "replay": f"VERIF_SEED={ctx.seed} VERIF_TIER={ctx.tier} /verif/check {ctx.pid}",
                       "violations": ctx.violations}, f, indent=1, ensure_ascii=False)
        for v in ctx.violations[:5]:
            print(f"  {v['mechanism']}: {v['message']} {json.dumps(v['witness'], ensure_ascii=False)[:600]}")
        print(f"VIOLATION property={ctx.pid} replay={path}")
        return 1
    if verdict == "inconclusive":
        print(f"INCONCLUSIVE property={ctx.pid}: {reason}")
        return 2
    print(f"HELD property={ctx.pid} tier={ctx.tier} seed={ctx.seed} evaluations={ctx.evaluations} "
          f"distinct={len(ctx.distinct)} wall={time.time() - ctx.t0:.1f}s")
    return 0
