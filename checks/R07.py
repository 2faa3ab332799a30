"""R07: retry, shared-call and timeout helpers keep their contract."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.datastructures
import zigpy.exceptions as ze
import zigpy.util as zu

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: recorded attempts, executions, outcomes and timer firings of the helpers on a "
    "virtual clock, judged by offline reference models"
)
NOTE = (
    "Random failure scripts, tries, delays and cancellations for retries (function, decorator, request "
    "decorator, concurrent use); random overlapping callers with equal and different arguments, results, "
    "errors and cancellations for shared calls; random reschedule/cancel scripts, also from inside the callback."
)
RULE = "One evaluation is one retried call, shared caller or timer script; non-trivial: distinct script shape."
EPS = 1e-9


class Boom(Exception):
    pass


class SubZ(ze.DeliveryError):
    pass


def run(ctx):
    # ------------------------------------------------------------------ retry
    async def retries(idx):
        rng = ctx.rng("retry", idx)
        loop = asyncio.get_running_loop()
        flavour = rng.choice(["retry", "retryable", "request", "default"])
        listed = rng.choice([(Boom,), (ze.ZigbeeException, asyncio.TimeoutError), (Boom, KeyError), (asyncio.TimeoutError,)])
        tries = rng.choice([1, 1, 2, 3, 5, 8])
        delay = rng.choice([0, 0.1, 0.5, 3])
        if flavour == "request":
            listed = (ze.ZigbeeException, asyncio.TimeoutError)
        if flavour == "default":  # defaults of `retry`
            tries, delay = 3, 0.1
        scripts = {}
        log = {}

        async def func(cid, *a, kw=None):
            log[cid].append((loop.time(), a, kw))
            step = scripts[cid][len(log[cid]) - 1] if len(log[cid]) <= len(scripts[cid]) else ("ok", 0)
            if step[0] == "sync":
                pass
            await asyncio.sleep(step[1])
            ends[cid].append(loop.time())
            if step[0] == "ok":
                return ("value", cid, len(log[cid]))
            raise step[2]

        ends = {}
        if flavour == "retryable":
            wrapped = zu.retryable(listed, tries=tries, delay=delay)(func)
        elif flavour == "request":
            wrapped = zu.retryable_request(tries=tries, delay=delay)(func)
        else:
            wrapped = None

        async def caller(cid):
            a, kw = (cid, rng.random()), rng.random()
            args[cid] = (a, kw)
            if wrapped is not None:
                return await wrapped(cid, *a, kw=kw)
            if flavour == "default":
                return await zu.retry(lambda: func(cid, *a, kw=kw), listed)
            return await zu.retry(lambda: func(cid, *a, kw=kw), listed, tries=tries, delay=delay)

        args = {}
        tasks = {}
        cancels = {}
        t_start = {}
        for cid in range(rng.randint(1, 4)):
            steps = []
            for _ in range(rng.randint(0, 10)):
                exc = rng.choice([Boom("b"), KeyError("k"), asyncio.TimeoutError(), ze.DeliveryError("d"), SubZ("s"), ze.ParsingError(), RuntimeError("r"), ze.InvalidResponse("i")])
                if rng.random() < 0.75:  # mostly listed failures
                    cand = [e for e in (Boom("b"), KeyError("k"), asyncio.TimeoutError(), SubZ("s")) if isinstance(e, listed)]
                    exc = rng.choice(cand)
                steps.append(("fail", rng.choice([0, 0.25, 1]), exc))
            steps.append(("ok", rng.choice([0, 0.25])))
            scripts[cid], log[cid], ends[cid] = steps, [], []
            t_start[cid] = loop.time()
            tasks[cid] = asyncio.create_task(caller(cid))
            if rng.random() < 0.25:
                at = rng.uniform(0, 6)
                cancels[cid] = loop.time() + at
                loop.call_later(at, tasks[cid].cancel)
        await asyncio.wait(tasks.values())
        await asyncio.sleep(100)
        for cid, task in tasks.items():
            # reference
            now, exp_starts, res = t_start[cid], [], None
            cancelled_at = None
            for k, st in enumerate(scripts[cid]):
                cut = cancels.get(cid)
                if cut is not None and cut < now:
                    cancelled_at = cut
                    break
                exp_starts.append(now)
                now += st[1]
                if cut is not None and cut < now:
                    cancelled_at = cut
                    break
                if st[0] == "ok":
                    res = ("value", cid, k + 1)
                    break
                if not isinstance(st[2], listed) or k + 1 >= tries:
                    res = st[2]
                    break
                now += delay
            w = {"flavour": flavour, "tries": tries, "delay": delay, "listed": str(listed), "script": scripts[cid], "starts": log[cid], "expected": exp_starts, "task": task, "cancel": cancels.get(cid)}
            starts = [x[0] for x in log[cid]]
            if len(starts) != len(exp_starts) or any(abs(a - b) > EPS for a, b in zip(starts, exp_starts)):
                raise Violation("attempts", f"{flavour}: attempts at {starts}, expected {exp_starts}", w)
            if any((x[1], x[2]) != args[cid] for x in log[cid]):
                raise Violation("attempt-arguments", f"{flavour}: arguments changed between attempts", w)
            if cancelled_at is not None:
                if not task.cancelled():
                    raise Violation("retry-cancel", f"{flavour}: cancelled at {cancelled_at} but {task}", w)
            elif isinstance(res, tuple):
                if task.cancelled() or task.exception() is not None or task.result() != res:
                    raise Violation("retry-result", f"{flavour}: {task}, expected {res}", w)
            elif task.cancelled() or task.exception() is not res:
                raise Violation("retry-error", f"{flavour}: {task}, expected {res!r}", w)
            ctx.count("retried_calls")
            ctx.count("attempts", len(starts))
            ctx.evaluated((flavour, tries, delay, listed, tuple((s[0], type(s[2]) if len(s) > 2 else 0) for s in scripts[cid]), cid in cancels))

    # ----------------------------------------------------------- shared calls
    async def shared(idx):
        rng = ctx.rng("shared", idx)
        loop = asyncio.get_running_loop()
        execs = []  # dicts

        class Host:
            def __init__(self, n):
                self.n = n

            @zu.combine_concurrent_calls
            async def fetch(self, a, b=2, *, c=None):
                e = {"key": (self.n, a, b, c), "start": loop.time(), "end": None, "cancelled": False}
                e["result"] = rng.choice([("v", len(execs)), ("v", len(execs)), Boom(len(execs)), asyncio.TimeoutError(), None])
                execs.append(e)
                try:
                    await asyncio.sleep(rng.choice([0, rng.uniform(0.1, 5), rng.uniform(0.1, 5)]))
                except asyncio.CancelledError:
                    e["cancelled"] = True
                    e["end"] = loop.time()
                    raise
                e["end"] = loop.time()
                if isinstance(e["result"], Exception):
                    raise e["result"]
                return e["result"]

        @zu.combine_concurrent_calls
        async def plain(a, b=2):
            return await hosts[0].fetch.__wrapped__(hosts[-1], a, b, c="plain")

        hosts = [Host(0), Host(1), Host("plain")]
        callers = []

        async def call(c):
            a, b = rng.choice([1, 2]), rng.choice([2, 3])
            h = rng.choice(hosts[:2])
            form = rng.randrange(5)
            c["key"] = (h.n, a, b, None)
            if form == 0:
                f = h.fetch(a, b)
            elif form == 1:
                f = h.fetch(b=b, a=a)
            elif form == 2:
                b = 2
                c["key"] = (h.n, a, 2, None)
                f = h.fetch(a)
            elif form == 3:
                c["key"] = (h.n, a, b, "x")
                f = h.fetch(a, b=b, c="x")
            else:
                c["key"] = ("plain", a, b, "plain")
                f = plain(a, b)
            c["start"] = loop.time()
            try:
                c["out"] = ("ok", await f)
            except asyncio.CancelledError:
                c["out"] = ("cancelled", None)
            except Exception as e:  # noqa: BLE001
                c["out"] = ("exc", e)
            c["end"] = loop.time()

        for _ in range(rng.randint(2, 25)):
            c = {"cancel": None, "out": None}
            callers.append(c)
            c["task"] = asyncio.create_task(call(c))
            if rng.random() < 0.25:
                def cancel(c=c):
                    if not c["task"].done():
                        c["cancel"] = loop.time()
                        c["task"].cancel()

                loop.call_later(rng.choice([0, rng.uniform(0, 4)]), cancel)
            if rng.random() < 0.6:
                await asyncio.sleep(rng.choice([0, rng.uniform(0, 2)]))
        await asyncio.sleep(60)
        w = {"execs": execs, "callers": [{k: v for k, v in c.items() if k != "task"} for c in callers]}
        for c in callers:
            if not c["task"].done():
                raise Violation("shared-stuck", f"caller never finished: {c}", w)
            if "start" not in c or c["out"] is None:
                continue  # cancelled before it ran
            if c["cancel"] is not None and c["out"][0] == "cancelled":
                ctx.count("cancelled_callers")
                continue
            mine = [e for e in execs if e["key"] == c["key"] and e["start"] <= c["end"] + EPS and c["start"] <= e["end"] + EPS]
            want = [e for e in mine if abs(e["end"] - c["end"]) < EPS and not e["cancelled"]]
            if c["out"][0] == "cancelled":
                raise Violation("shared-cancelled", f"caller of {c['key']} was cancelled by somebody else", w)
            ok = any(
                (c["out"][0] == "ok" and not isinstance(e["result"], Exception) and c["out"][1] == e["result"])
                or (c["out"][0] == "exc" and c["out"][1] is e["result"])
                for e in want
            )
            if not ok:
                raise Violation("shared-result", f"caller of {c['key']} got {c['out']}, executions {mine}", w)
            ctx.count("shared_callers")
        # executions of one key never overlap, and every execution is needed
        for i, e in enumerate(execs):
            for e2 in execs[i + 1 :]:
                if e2["key"] == e["key"] and e2["start"] < e["end"] - EPS and not e["cancelled"]:
                    raise Violation("not-shared", f"two overlapping executions of {e['key']}", w)
            if not any(c.get("key") == e["key"] and abs(c.get("start", -1) - e["start"]) < EPS for c in callers):
                raise Violation("spurious-execution", f"{e} was started by no caller", w)
        ctx.count("executions", len(execs))
        ctx.evaluated(("shared", tuple(c.get("key") for c in callers), tuple(c["cancel"] is not None for c in callers)), n=len(callers))

    # ---------------------------------------------------------------- timeout
    async def timer(idx):
        rng = ctx.rng("timer", idx)
        loop = asyncio.get_running_loop()
        fired = []
        deadline = [None]
        expected = []
        shape = []

        def set_deadline(d):
            rt.reschedule(d)
            deadline[0] = loop.time() + d

        def callback():
            fired.append(loop.time())
            # what the model expects at this moment
            expected.append(deadline[0])
            deadline[0] = None
            r = rng.random()
            if r < 0.3:
                set_deadline(rng.uniform(0.1, 5))
                shape.append("in-callback")
            elif r < 0.4:
                rt.cancel()

        rt = zigpy.datastructures.ReschedulableTimeout(callback)
        if rng.random() < 0.2:
            rt.cancel()
        for _ in range(rng.randint(1, 30)):
            r = rng.random()
            if r < 0.7:
                set_deadline(rng.choice([0, rng.uniform(0, 1), rng.uniform(0, 10), rng.uniform(0, 10), 3]))
                shape.append("r")
            elif r < 0.8:
                rt.cancel()
                deadline[0] = None
                shape.append("c")
            if rng.random() < 0.6:
                await asyncio.sleep(rng.choice([0, 0.5, rng.uniform(0, 4)]))
                shape.append("s")
            n = len(fired)
            if deadline[0] is not None and deadline[0] < loop.time() - EPS:
                raise Violation("timer-missed", f"deadline {deadline[0]} passed without firing, now {loop.time()}", shape)
        rng = ctx.rng("timer-end", idx)
        for _ in range(200):
            if deadline[0] is None:
                break
            await asyncio.sleep(1)
        await asyncio.sleep(30)
        while deadline[0] is not None:
            await asyncio.sleep(10)
        n = len(fired)
        rt.cancel()
        await asyncio.sleep(100)
        if len(fired) != n:
            raise Violation("timer-after-cancel", "fired after being cancelled", shape)
        for got, want in zip(fired, expected):
            if want is None:
                raise Violation("timer-spurious", f"fired at {got} while not armed", shape)
            if abs(got - want) > EPS:
                raise Violation("timer-wrong-time", f"fired at {got}, most recent deadline {want}", shape)
        ctx.count("timer_scripts")
        ctx.count("timer_firings", len(fired))
        ctx.evaluated(("timer", tuple(shape)))

    for k in range(ctx.n(3000, 60000)):
        ctx.case(f"retry-{k}", lambda: vloop.run(retries(k)))
        ctx.case(f"shared-{k}", lambda: vloop.run(shared(k)))
        ctx.case(f"timer-{k}", lambda: vloop.run(timer(k)))
    for n, m in [("retried_calls", 3000), ("attempts", 8000), ("shared_callers", 10000), ("cancelled_callers", 1000),
                 ("executions", 5000), ("timer_scripts", 1500), ("timer_firings", 5000)]:  # fmt: skip
        ctx.require(n, m)
