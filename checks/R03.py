"""R03: prioritised concurrency limiter - mutual exclusion, fairness, no lost slots."""

from __future__ import annotations

import asyncio
import random

from harness import sim, vloop
from harness.core import Violation

import zigpy.config as conf
import zigpy.datastructures as ds
import zigpy.exceptions
import zigpy.types as t

LEVEL = "exploration"
RULE = (
    "Random histories (4-60 client tasks; arrival instants on a coarse grid so that many "
    "events share one instant; holds, failures, cancellations at arbitrary yield points, "
    "limit changes) on the limiter itself, on a radio using the application-wide limiter "
    "and on per-device requests; each history is judged by an offline fairness/exclusion "
    "checker plus a work-conservation monitor run at every quiescent point. A history is "
    "non-trivial when at least one task had to wait; distinctness is by the full event "
    "sequence."
)


class Mon:
    """Monitor over acquire/enter/exit/cancel events."""

    def __init__(self, ctx, loop, limit):
        self.ctx, self.loop = ctx, loop
        self.limit = limit
        self.waiting = {}  # id -> (prio, time, order)
        self.holding = set()
        self.cancelled = set()
        self.order = 0
        self.log = []
        self.waited = 0
        self.served = []
        self.bad = None
        self.entries = []  # served within the current instant
        self.limits = []  # limits replaced within the current instant

    def resized(self, new):
        self.log.append((round(self.loop.time(), 3), "resize", new))
        self.limits.append((self.loop.time(), self.limit))
        self.limit = new

    def fail(self, key, msg):
        if self.bad is None:
            self.bad = (key, msg, list(self.log[-80:]))

    def want(self, i, prio):
        self.order += 1
        self.waiting[i] = (prio, self.loop.time(), self.order)
        self.log.append((round(self.loop.time(), 3), "want", i, prio))
        self.ctx.count("acquire_calls")

    def enter(self, i):
        now = self.loop.time()
        self.log.append((round(now, 3), "enter", i))
        self.ctx.count("entered")
        if i not in self.waiting:
            self.fail("enter-unknown", f"task {i} entered without waiting")
            return
        prio, t0, order = self.waiting.pop(i)
        if now > t0:
            self.waited += 1
            self.ctx.count("entered_after_wait")
        self.holding.add(i)
        self.served.append(i)
        # a slot granted earlier within this very instant keeps counting when the limit
        # is lowered before its owner has run
        allowed = max([self.limit] + [m for tt, m in self.limits if tt == now])
        if len(self.holding) > allowed:
            self.fail(
                "limit-exceeded",
                f"{len(self.holding)} holders with limit {allowed} at t={now}",
            )
        self.entries.append((i, prio, order, now))
        self.ctx.state(
            "limiter", (len(self.holding), len(self.waiting), self.limit)
        )

    def exit(self, i):
        self.log.append((round(self.loop.time(), 3), "exit", i))
        self.holding.discard(i)

    def gone(self, i):
        self.log.append((round(self.loop.time(), 3), "gone", i))
        self.waiting.pop(i, None)
        self.ctx.count("cancelled_waiters")

    def cancel(self, i):
        self.log.append((round(self.loop.time(), 3), "cancel", i))
        self.cancelled.add(i)

    def quiescent(self):
        self.ctx.count("quiescent_points")
        # Whoever was served in this instant must not have overtaken somebody that was
        # already queued before it and is still queued now that nothing can run.
        for i, prio, order, now in self.entries:
            for j, (p2, t2, o2) in self.waiting.items():
                if t2 >= now or j in self.cancelled:
                    continue
                if p2 > prio or (p2 == prio and o2 < order):
                    self.fail(
                        "overtaken",
                        f"task {i} (prio {prio}, arrival {order}) was served at t={now} "
                        f"before task {j} (prio {p2}, arrival {o2}, waiting since {t2})",
                    )
        self.entries.clear()
        self.limits.clear()
        live = [j for j in self.waiting if j not in self.cancelled]
        if live and len(self.holding) < self.limit:
            self.fail(
                "idle-slot",
                f"at t={self.loop.time()} {len(self.holding)}/{self.limit} slots used while "
                f"tasks {live[:5]} wait",
            )

    def done(self):
        if self.bad:
            raise Violation(*self.bad)


def grid(rng):
    return rng.choice([0, 0, 0, 0.5, 1, 1, 1.5, 2, 3])


def direct_case(ctx, idx, stress):
    rng = ctx.rng("direct", idx)
    limit = rng.choice([0, 1, 1, 1, 2, 2, 3, 5])
    lock = limit == 1 and rng.random() < 0.3
    resize = not lock and rng.random() < 0.5
    ntasks = rng.randint(4, 60 if stress else 18)

    async def main():
        loop = asyncio.get_running_loop()
        sem = ds.PriorityLock() if lock else ds.PriorityDynamicBoundedSemaphore(limit)
        mon = Mon(ctx, loop, sem.max_value)
        loop.on_advance = lambda: (mon.quiescent(), values())

        def values():
            if sem.value != mon.limit - len(mon.holding):
                mon.fail(
                    "value-wrong",
                    f"reported free slots {sem.value}, limit {mon.limit}, holders "
                    f"{len(mon.holding)}",
                )
            if sem.locked() != (len(mon.holding) >= mon.limit):
                mon.fail("locked-wrong", f"locked()={sem.locked()} {mon.log[-1]}")

        async def client(i, start, prio, hold, fail, spins):
            if start:
                await asyncio.sleep(start)
            for _ in range(spins):
                await asyncio.sleep(0)
            entered = False
            try:
                mon.want(i, prio)
                cm = sem(priority=prio) if (prio or rng.random() < 0.7) else sem
                try:
                    async with cm:
                        entered = True
                        mon.enter(i)
                        try:
                            if hold:
                                await asyncio.sleep(hold)
                            elif rng.random() < 0.3:
                                await asyncio.sleep(0)
                            if fail:
                                raise zigpy.exceptions.DeliveryError("x")
                        finally:
                            mon.exit(i)
                finally:
                    if not entered:
                        mon.gone(i)
            except zigpy.exceptions.DeliveryError:
                pass

        tasks = {}
        nprio = rng.choice([1, 2, 4])
        for i in range(ntasks):
            tasks[i] = asyncio.create_task(
                client(
                    i,
                    grid(rng) + rng.choice([0, 0, 3, 6]),
                    rng.randrange(nprio) - (nprio == 4),
                    grid(rng),
                    rng.random() < 0.15,
                    rng.randrange(3),
                )
            )

        async def chaos():
            for _ in range(rng.randint(0, 12)):
                d = grid(rng)
                if d:
                    await asyncio.sleep(d)
                for _ in range(rng.randrange(5)):
                    await asyncio.sleep(0)
                if resize and rng.random() < 0.5:
                    new = rng.choice([0, 1, 1, 2, 3, 4, 6])
                    mon.resized(new)
                    sem.max_value = new
                    ctx.count("resizes")
                elif lock and rng.random() < 0.3:
                    # the limit of a lock is fixed; an attempt to change it changes nothing
                    try:
                        sem.max_value = rng.choice([0, 1, 2, 5])
                    except ValueError:
                        ctx.count("lock_resize_refused")
                    else:
                        mon.fail("lock-resized", "the limit of a lock was changed")
                else:
                    for i in rng.sample(range(ntasks), rng.randint(1, 3)):
                        if not tasks[i].done():
                            mon.cancel(i)
                            tasks[i].cancel()

        ch = asyncio.create_task(chaos())
        # bounded progress: everything finishes in bounded virtual time once chaos stops
        await asyncio.wait([ch])
        await asyncio.sleep(20)
        if sem.max_value == 0 or mon.limit == 0:
            mon.resized(1)
            sem.max_value = 1
        await asyncio.sleep(400)
        stuck = [i for i, tk in tasks.items() if not tk.done()]
        if stuck:
            mon.fail("starved", f"tasks {stuck} never got a slot")
        elif mon.holding:
            mon.fail("lost-slot", f"holders {mon.holding} left")
        elif sem.value != sem.max_value or sem.locked() or sem.max_value != mon.limit:
            mon.fail(
                "not-free", f"value {sem.value} max {sem.max_value} after all released"
            )
        for i, tk in tasks.items():
            if tk.done() and not tk.cancelled() and tk.exception():
                mon.fail(
                    "acquire-raised", f"task {i} failed with {tk.exception()!r}"
                )
            if tk.done() and tk.cancelled() and i not in mon.cancelled:
                mon.fail("spurious-cancel", f"task {i} was cancelled by nobody")
        # over-release must be refused
        try:
            sem.release()
        except ValueError:
            ctx.count("over_release_refused")
        else:
            mon.fail("over-release", "release beyond the limit was accepted")
        loop.on_advance = None
        ctx.evaluated(tuple(map(str, mon.log)), mon.waited > 0)
        if idx < 2:
            ctx.sample({"limit": limit, "log": mon.log[:40]})
        mon.done()

    vloop.run(main())


class LimitedApp(sim.SimApp):
    """A radio that, like every real one, sends inside the application-wide limiter."""

    mon = None

    async def send_packet(self, packet):
        i = (int(packet.dst.address), packet.tsn, bytes(packet.data.serialize()))
        self.mon.want(i, packet.priority or 0)
        entered = False
        try:
            async with self._limit_concurrency(priority=packet.priority or 0):
                entered = True
                self.mon.enter(i)
                try:
                    await self.on_send(packet)
                finally:
                    self.mon.exit(i)
        finally:
            if not entered:
                self.mon.gone(i)


def app_case(ctx, idx):
    """Application-wide limiter and per-device limiter under unicast requests."""
    rng = ctx.rng("app", idx)
    limit = rng.choice([1, 2, 3, 8])
    ndev = rng.choice([1, 2, 5, 12])

    async def main():
        loop = asyncio.get_running_loop()
        app = sim.make_app(LimitedApp, **{conf.CONF_MAX_CONCURRENT_REQUESTS: limit})
        mon = app.mon = Mon(ctx, loop, limit)
        devs = [
            sim.add_ready_device(app, sim.eui(0x1000 + k), 0x1000 + k)
            for k in range(ndev)
        ]
        import zigpy.device

        devlimit = getattr(zigpy.device, "MAX_DEVICE_CONCURRENCY", 1)
        dmons = {int(d.nwk): Mon(ctx, loop, devlimit) for d in devs}

        def quiescent():
            mon.quiescent()
            for dm in dmons.values():
                dm.quiescent()

        loop.on_advance = quiescent
        by_seq = {}

        async def on_send(p):
            await asyncio.sleep(rng.choice([0, 0.5, 1, 1]))
            r = rng.random()
            if r < 0.15:
                raise zigpy.exceptions.DeliveryError("no")
            if r < 0.8 and not p.tx_options & t.TransmitOptions.ACK:
                h = sim.parse_zcl(p.data.serialize())
                d = rng.choice([0, 0.5, 1])
                loop.call_later(
                    d,
                    app.packet_received,
                    sim.rx(
                        int(p.dst.address),
                        6,
                        sim.zcl_hdr(h["tsn"], 0x0B, s2c=True)
                        + bytes([h["cmd"], rng.randrange(2)])
                        + b"",
                    ),
                )

        app.on_send = on_send
        n = rng.randint(4, 30)
        tasks = []
        cancelled = set()
        uid = 0

        async def client(k):
            d = rng.choice(devs)
            await asyncio.sleep(grid(rng))
            prio = rng.choice(
                [
                    t.PacketPriority.LOW,
                    t.PacketPriority.NORMAL,
                    t.PacketPriority.NORMAL,
                    t.PacketPriority.HIGH,
                ]
            )
            dm = dmons[int(d.nwk)]
            tsn = d.get_sequence()
            key = (int(d.nwk), tsn, None)
            data = sim.zcl_hdr(tsn, 0x01, cluster=True) + k.to_bytes(2, "little")
            dm.want(k, prio)
            by_seq[(int(d.nwk), data)] = (dm, k)
            try:
                await d.request(
                    profile=0x0104,
                    cluster=6,
                    src_ep=1,
                    dst_ep=1,
                    sequence=tsn,
                    data=data,
                    expect_reply=rng.random() < 0.7,
                    timeout=rng.choice([2, 5]),
                    priority=prio,
                )
                ctx.count("device_requests_ok")
            except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
                ctx.count("device_requests_failed")
            finally:
                if k in dm.waiting:
                    dm.gone(k)
                dm.exit(k)

        # a device slot is taken (observably) when its packet first reaches the radio
        inner = app.send_packet

        async def send_packet(p):
            dm, k = by_seq[(int(p.dst.address), p.data.serialize())]
            dm.enter(k)
            await inner(p)

        app.send_packet = send_packet
        for k in range(n):
            tasks.append(asyncio.create_task(client(k)))

        async def chaos():
            for _ in range(rng.randint(0, 6)):
                await asyncio.sleep(grid(rng))
                for _ in range(rng.randrange(4)):
                    await asyncio.sleep(0)
                k = rng.randrange(n)
                if not tasks[k].done():
                    for dm in dmons.values():
                        dm.cancel(k)
                    tasks[k].cancel()
                    ctx.count("cancelled_requests")

        ch = asyncio.create_task(chaos())
        await asyncio.wait([ch])
        await asyncio.sleep(3000)
        loop.on_advance = None
        stuck = [k for k, tk in enumerate(tasks) if not tk.done()]
        if stuck:
            mon.fail("starved-request", f"requests {stuck} never finished")
        for k, tk in enumerate(tasks):
            if tk.done() and not tk.cancelled() and tk.exception():
                raise tk.exception()
        ctx.evaluated(tuple(map(str, mon.log)), mon.waited > 0)
        mon.done()
        for dm in dmons.values():
            dm.done()
        if idx == 0:
            ctx.sample({"app_limit": limit, "log": mon.log[:30]})

    vloop.run(main())


def run(ctx):
    for i in range(ctx.n(2500, 40000)):
        ctx.case(f"direct-{i}", direct_case, ctx, i, i % 10 == 9)
    for i in range(ctx.n(300, 4000)):
        ctx.case(f"app-{i}", app_case, ctx, i)
    ctx.require("entered_after_wait", 1000)
    ctx.require("cancelled_waiters", 100)
    ctx.require("resizes", 100)
    ctx.require("quiescent_points", 1000)
    ctx.require("over_release_refused", 10)
