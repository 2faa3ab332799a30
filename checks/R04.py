"""R04: duplicate suppression."""

from __future__ import annotations

import asyncio
import gc
import random
import weakref

from harness import sim, vloop
from harness.core import Violation

import zigpy.datastructures as ds
import zigpy.types as t
import zigpy.zcl.foundation as f

LEVEL = "exploration"
RULE = (
    "Random arrival histories (20-200 arrivals) of 2-12 distinct objects with equal or mixed "
    "windows at instants on coarse and fine grids; at packet level, identical and "
    "one-field-different packets for several devices through the application. The oracle "
    "keeps the last acceptance time per object and predicts every verdict (either verdict "
    "is allowed exactly on the window boundary). Non-trivial: at least one suppression and "
    "one re-acceptance after expiry."
)


class Obj:
    """Not orderable, hashable by identity."""

    __slots__ = ("n", "__weakref__")

    def __init__(self, n):
        self.n = n


EPS = 1e-6


def direct(ctx, idx):
    rng = ctx.rng("direct", idx)
    mixed = rng.random() < 0.5
    step = rng.choice([0.25, 1, 1, 2, 0.1])
    wins = [step * rng.randint(1, 12) for _ in range(3)] if mixed else [step * 5]
    nobj = rng.randint(2, 12)

    async def main():
        loop = asyncio.get_running_loop()
        deb = ds.Debouncer()
        objs = [Obj(k) for k in range(nobj)]
        until = {}
        hist = []
        supp = reacc = 0
        for _ in range(rng.randint(20, 200)):
            r = rng.random()
            if r < 0.6:
                await asyncio.sleep(step * rng.choice([0.5, 1, 1, 2, 3]))
            elif r < 0.65:
                await asyncio.sleep(step * 15)
            now = loop.time()
            o = rng.choice(objs)
            w = rng.choice(wins)
            u = until.get(o.n)
            exp = None if u is None else (True if now < u - EPS else False if now > u + EPS else "any")
            if exp is None:
                exp = False
            if rng.random() < 0.2:
                got = deb.is_filtered(o)
                hist.append((now, "peek", o.n, got))
            else:
                got = deb.filter(o, expire_in=w)
                hist.append((now, "filter", o.n, w, got))
                if not got:
                    if u is not None:
                        reacc += 1
                    until[o.n] = now + w
            ctx.count("verdicts")
            if got:
                supp += 1
                ctx.count("suppressed")
            if exp != "any" and bool(got) != exp:
                raise Violation(
                    "wrong-verdict",
                    f"object {o.n} at t={now}: suppressed={got}, expected {exp} (window "
                    f"ends {u})",
                    hist[-60:],
                )
            if rng.random() < 0.1:
                # replace an object: a new object was never seen before, and the old one
                # must be forgotten once its window is over
                k = rng.randrange(nobj)
                old = objs[k]
                ref = weakref.ref(old)
                end = until.get(old.n, now)
                new = Obj(1000 + len(hist))
                objs[k] = new
                del old
                if o.n not in [x.n for x in objs]:
                    o = None
                gone.append((ref, end))
        o = None
        # entries are dropped no later than the first operation after their window
        last = max([e for _, e in gone] + list(until.values()) + [loop.time()])
        await asyncio.sleep(last - loop.time() + step)
        probe = Obj(-1)
        deb.filter(probe, expire_in=1)
        if idx % 20 == 0:
            gc.collect()
        else:
            gone.clear()
        leak = [e for ref, e in gone if ref() is not None]
        if leak:
            raise Violation("leak", f"{len(leak)} expired objects still tracked", hist[-40:])
        if gone:
            ctx.count("forgotten_checked", len(gone))
        ctx.count("reaccepted", reacc)
        ctx.evaluated(tuple(hist), supp > 0 and reacc > 0)
        if idx < 2:
            ctx.sample(hist[:25])

    gone = []
    vloop.run(main())


def packets(ctx, idx):
    rng = ctx.rng("pkt", idx)

    async def main():
        loop = asyncio.get_running_loop()
        app = sim.make_app()
        devs = [
            sim.add_ready_device(
                app,
                sim.eui(0x2000 + k),
                0x2000 + k,
                {1: (0x0104, 0x0100, [0, 3, 4, 6, 8], [6]), 2: (0x0104, 0x0100, [6, 8], [])},
            )
            for k in range(3)
        ]
        import zigpy.device

        window = getattr(zigpy.device, "PACKET_DEBOUNCE_WINDOW", 10)
        got = []
        hist = []
        until = {}
        base = [rng.randrange(256) for _ in range(rng.randint(2, 6))]
        supp = reacc = 0
        pool = []
        group = t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=0x0001)

        def fresh():
            return (
                rng.choice(devs),
                rng.choice(base),
                rng.choice([1, 1, 2]),
                rng.choice([1, 1, 2]),
                rng.choice([6, 6, 8]),
                rng.choice([0, 1]),
                rng.choice([0x0104, 0x0104, 0xC05E]),
                rng.choice([None, None, None, "ieee"]),
                rng.choice([None, None, group]),
            )

        with app.callback_for_response(
            __import__("zigpy.listeners").listeners.ANY_DEVICE,
            [lambda hdr, cmd: True],
            lambda hdr, cmd: got.append((hdr, cmd)),
        ):
            for n in range(rng.randint(20, 120)):
                if rng.random() < 0.7:
                    await asyncio.sleep(rng.choice([0.25, 1, 1, 2, 3, 4.5, 9.75]))
                if pool and rng.random() < 0.8:
                    spec = rng.choice(pool)
                    if rng.random() < 0.3:
                        # differ in exactly one field
                        spec = list(spec)
                        k = rng.randrange(len(spec))
                        spec[k] = fresh()[k]
                        spec = tuple(spec)
                else:
                    spec = fresh()
                if spec not in pool:
                    pool.append(spec)
                    if len(pool) > 8:
                        pool.pop(rng.randrange(len(pool)))
                d, tsn, ep, dst_ep, cl, cmd, prof, mode, dst = spec
                data = sim.zcl_hdr(tsn, cmd, cluster=True)
                if cl == 8:
                    data = sim.zcl_hdr(tsn, 0x07, cluster=True) + bytes([cmd])
                key = (int(d.nwk), ep, dst_ep, cl, prof, data, mode, dst is None)
                kw = {}
                if rng.random() < 0.5:
                    kw["timestamp"] = __import__("datetime").datetime.now(
                        __import__("datetime").timezone.utc
                    )
                p = sim.rx(
                    d,
                    cl,
                    data,
                    profile=prof,
                    src_ep=ep,
                    dst_ep=dst_ep,
                    src_mode=mode,
                    dst=dst,
                    tsn=rng.choice([None, tsn, rng.randrange(256)]),
                    lqi=rng.choice([None, rng.randrange(256)]),
                    rssi=rng.choice([None, -rng.randrange(100)]),
                    **kw,
                )
                before = len(got)
                now = loop.time()
                app.packet_received(p)
                accepted = len(got) - before
                u = until.get(key)
                hist.append((now, key, accepted))
                ctx.count("packets")
                if accepted not in (0, 1):
                    raise Violation("multi-delivery", f"{accepted} deliveries of one packet", hist[-30:])
                exp = 1 if u is None or now > u + EPS else 0
                if u is not None and abs(now - u) <= EPS:
                    exp = accepted
                if accepted != exp:
                    raise Violation(
                        "packet-" + ("dropped" if exp else "repeated"),
                        f"packet {key} at t={now}: delivered {accepted}, expected {exp}",
                        hist[-40:],
                    )
                if accepted:
                    if u is not None:
                        reacc += 1
                        ctx.count("packets_reaccepted")
                    until[key] = now + window
                else:
                    supp += 1
                    ctx.count("packets_suppressed")
        ctx.evaluated(tuple(hist), supp and reacc)
        if idx < 2:
            ctx.sample([(h[0], str(h[1]), h[2]) for h in hist[:12]])

    vloop.run(main())


def run(ctx):
    for i in range(ctx.n(1500, 30000)):
        ctx.case(f"direct-{i}", direct, ctx, i)
    for i in range(ctx.n(250, 4000)):
        ctx.case(f"pkt-{i}", packets, ctx, i)
    ctx.require("suppressed", 500)
    ctx.require("reaccepted", 500)
    ctx.require("packets_suppressed", 200)
    ctx.require("packets_reaccepted", 50)
    ctx.require("forgotten_checked", 100)
