"""Verdicts, evidence, replay, known findings."""

from __future__ import annotations

import asyncio
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Inconclusive(Exception):
    pass


class Violation(Exception):
    """Raised by oracles inside a case: (mechanism key, message, witness)."""

    def __init__(self, key, msg, witness=None):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg, self.witness = key, msg, witness


class CpuLimit(BaseException):
    pass


def load_known(pid):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                # finding: property=ID key=KEY text
                parts = line.split(None, 3)
                if parts[1] == f"property={pid}":
                    out[parts[2][len("key=") :]] = parts[3]
    except FileNotFoundError:
        pass
    return out


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:300]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if type(x) in (int, float, str):
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set, frozenset)) and type(x) in (
        list,
        tuple,
        set,
        frozenset,
    ):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    try:
        return repr(x)[:600]
    except Exception as e:  # noqa: BLE001
        return f"<unrepresentable {type(x).__name__}: {e!r}>"


class Ctx:
    MAX_VIOLATIONS = 5
    CASE_CPU = 60  # CPU seconds one case may burn before it counts as a hang
    WALL = 700  # wall seconds after which no further case is started
    LINGER = 40  # and after the first violation

    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.distinct: set[bytes] = set()
        self.counters: dict[str, int] = {}
        self.states: dict[str, set] = {}
        self.samples: list = []
        self.violations: list[dict] = []
        self.known = load_known(pid)
        self.known_hit: dict[str, int] = {}
        self.requirements: list[tuple[str, int]] = []
        self.assumptions: list[str] = []
        self.rule = ""
        self.case_id = None
        self.violated = None  # when the first violation was found
        self.only = os.environ.get("VERIF_CASE")
        self.seen_keys: set = set()

    # -- generation
    def rng(self, *parts) -> random.Random:
        return random.Random(f"{self.pid}:{self.seed}:" + ":".join(map(str, parts)))

    def n(self, quick, thorough):
        v = quick if self.quick else thorough
        return max(1, int(v * float(os.environ.get("VERIF_SCALE", "1"))))

    # -- observation
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, name, value):
        """Record a distinct abstract state / interleaving signature."""
        s = self.states.setdefault(name, set())
        if len(s) < 500_000:
            s.add(hash(value))

    def evaluated(self, key, nontrivial=True, n=1):
        self.evaluations += n
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            self.distinct.add(h)

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def require(self, name, minimum):
        self.requirements.append((name, minimum))

    # -- verdicts
    def violation(self, key, msg, witness=None):
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        if key in self.seen_keys and len(self.violations) >= 1:
            self.count("repeat_violations")
            return
        self.seen_keys.add(key)
        v = {
            "property": self.pid,
            "seed": self.seed,
            "tier": self.tier,
            "case": self.case_id,
            "key": key,
            "message": msg,
            "witness": jsonable(witness),
        }
        v["replay_cmd"] = (
            f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} "
            f"VERIF_CASE={self.case_id} {VERIF}/run {self.pid}"
        )
        self.violations.append(v)
        if self.violated is None:
            self.violated = time.monotonic() - self.t0

    @property
    def stop(self):
        if len(self.violations) >= self.MAX_VIOLATIONS:
            return True
        # broken code can make everything slow: report what was found, in time
        spent = time.monotonic() - self.t0
        return spent > self.WALL or (self.violated is not None and spent > self.violated + self.LINGER)

    def case(self, name, fn, *args, **kw):
        """Run one case; Violation or any escaping exception is a violation."""
        if self.only and str(name) != self.only:
            return None
        if self.stop:
            return None
        self.case_id = str(name)
        old = signal.signal(signal.SIGVTALRM, _cpu_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.CASE_CPU)
        try:
            return fn(*args, **kw)
        except Violation as v:
            self.violation(v.key, v.msg, v.witness)
        except Inconclusive:
            raise
        except CpuLimit:
            self.violation(
                "no-progress",
                f"case {name} burnt more than {self.CASE_CPU} s of CPU without finishing",
                None,
            )
        except (Exception, asyncio.CancelledError) as e:  # noqa: BLE001
            tb = traceback.format_exc()
            self.violation(
                f"unexpected-exception:{type(e).__name__}",
                f"unexpected {type(e).__name__}: {e}",
                tb[-3000:],
            )
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
        return None

    # -- end
    def finish(self):
        wall = time.monotonic() - self.t0
        missing = [
            (n, m, self.counters.get(n, 0))
            for n, m in self.requirements
            if self.counters.get(n, 0) < m
        ]
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples[:8] or ["none"],
            "observed_events": dict(sorted(self.counters.items())),
            "distinct_states": {k: len(v) for k, v in self.states.items()},
            "known_findings_seen": self.known_hit,
        }
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, what in self.known.items():
            if k in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{self.pid}-{self.seed}.json")
            with open(path, "w") as f:
                json.dump(self.violations, f, indent=1)
            for v in self.violations:
                print(f"  [{v['key']}] case={v['case']}: {v['message'][:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if missing and not self.only:
            for n, m, got in missing:
                print(f"INCONCLUSIVE property={self.pid}: saw {got} {n}, need {m}")
            return 2
        print(
            f"OK property={self.pid} tier={self.tier} seed={self.seed} evaluations="
            f"{self.evaluations} distinct={len(self.distinct)} wall={wall:.1f}s"
        )
        return 0


def _cpu_alarm(signum, frame):
    # re-arm in case the exception is swallowed by a bare except
    signal.setitimer(signal.ITIMER_VIRTUAL, 5)
    raise CpuLimit()


def bootstrap():
    """Make /repo importable, with the virtual clock in place first."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    from harness import vloop

    vloop.install_clock()
    import logging

    logging.disable(logging.CRITICAL)
    import zigpy

    assert os.path.abspath(zigpy.__file__).startswith(os.path.abspath(REPO)), (
        zigpy.__file__
    )
    vloop.install_aiosqlite()
    import gc

    gc.collect()


def main(pid, mod):
    lim = 12 << 30
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    if hard == resource.RLIM_INFINITY or hard > lim:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    ctx = Ctx(pid, getattr(mod, "LEVEL", "exploration"))
    ctx.rule = mod.RULE
    ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    try:
        mod.run(ctx)
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        if not ctx.violations:
            ctx.finish()
            return 2
    return ctx.finish()
