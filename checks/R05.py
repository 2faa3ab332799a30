"""R05: response listeners fire exactly when a matching command arrives."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.listeners
import zigpy.types as t
from zigpy.zcl import foundation as f
from zigpy.quirks import CustomCluster
from zigpy.zcl.clusters.general import LevelControl, OnOff
import zigpy.zdo.types as z

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: online reference model of the registered listeners stepped with every "
    "registration, injected command and context exit; recorded completions and callback calls compared"
)
NOTE = (
    "Random histories of one-shot waiters and callbacks for one or any device with schema, predicate, "
    "raising and multiple matchers; contexts left normally, by error, by cancellation and from inside a "
    "callback; ZCL commands, reports, ZDO requests, undecodable packets and replies to outstanding requests."
)
RULE = (
    "One evaluation is one injected packet whose effect on every listener is predicted; non-trivial: "
    "distinct (listener line-up, matched set, command kind)."
)


class Extra(t.Struct):
    """Part of a vendor command that not every device sends."""

    speed: t.uint8_t
    level: t.uint8_t


class VendorCluster(CustomCluster):
    """A quirk's cluster whose command carries an optional structure."""

    cluster_id = 0xFC55

    class ServerCommandDefs(f.BaseCommandDefs):
        vendor = f.ZCLCommandDef(id=0x07, schema={"serial": t.uint32_t, "extra?": Extra}, direction=f.Direction.Client_to_Server)


class L:
    """One listener in the model."""

    def __init__(self, lid, kind, src, pred, flavour):
        self.lid, self.kind, self.src, self.pred, self.flavour = lid, kind, src, pred, flavour
        self.done = False
        self.calls = []
        self.expected = []
        self.future = None
        self.cm = None
        self.kill = None


def run(ctx):
    async def history(idx):
        rng = ctx.rng(idx)
        app = sim.make_app()
        devs = [sim.add_ready_device(app, sim.eui(0xA00 + k), 0x1200 + k) for k in range(rng.randint(1, 3))]
        for d in devs:
            d.endpoints[1].add_input_cluster(VendorCluster.cluster_id, VendorCluster(d.endpoints[1], is_server=True))
        order = []  # registered listeners, in registration order
        everyone = []
        calls = []  # actual callback invocations: (lid, token)
        uniq = [0]
        trace = []

        def token(hdr, args):
            """A value identifying the injected command."""
            if isinstance(hdr, z.ZDOHeader):
                return ("zdo", int(hdr.command_id), int(hdr.tsn))
            return ("zcl", int(hdr.command_id), int(hdr.tsn), bool(hdr.frame_control.is_cluster))

        def matchers():
            """(zigpy matchers, predicate over the model command)"""
            out, preds = [], []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.randrange(10)
                if k == 0:
                    out.append(OnOff.ServerCommandDefs.toggle.schema())
                    preds.append(lambda c: c["name"] == "toggle")
                elif k == 1:
                    v = rng.choice([1, 2])
                    out.append(OnOff.ServerCommandDefs.on_with_timed_off.schema(on_off_control=v))
                    preds.append(lambda c, v=v: c["name"] == "timed" and c["ctl"] == v)
                elif k == 2:
                    out.append(OnOff.ServerCommandDefs.on_with_timed_off.schema())
                    preds.append(lambda c: c["name"] == "timed")
                elif k == 3:
                    out.append(f.GENERAL_COMMANDS[f.GeneralCommand.Report_Attributes].schema())
                    preds.append(lambda c: c["name"] == "report")
                elif k == 4:
                    out.append(lambda h, c: isinstance(h, z.ZDOHeader))
                    preds.append(lambda c: c["zdo"])
                elif k == 5:
                    b = rng.randrange(2)
                    out.append(lambda h, c, b=b: h.tsn % 2 == b)
                    preds.append(lambda c, b=b: c["tsn"] % 2 == b)
                elif k == 6:
                    out.append(lambda h, c: True)
                    preds.append(lambda c: True)
                elif k == 7:
                    def boom(h, c):
                        raise RuntimeError("matcher")

                    out.append(boom)
                    preds.append(lambda c: False)
                elif k == 8:
                    lv = rng.choice([10, 20])
                    out.append(VendorCluster.ServerCommandDefs.vendor.schema(extra=Extra(level=lv)))
                    preds.append(lambda c, lv=lv: c["name"] == "vendor" and c["level"] == lv)
                else:
                    lv = rng.choice([10, 20])
                    out.append(LevelControl.ServerCommandDefs.move_to_level.schema(level=lv))
                    preds.append(lambda c, lv=lv: c["name"] == "level" and c["level"] == lv)
            return out, lambda c: any(p(c) for p in preds)

        def register():
            m, pred = matchers()
            src = rng.choice([None, *devs])
            kind = rng.choice(["future", "callback"])
            flavour = rng.choice(["plain", "plain", "raise", "async", "asyncraise", "selfexit", "killother"])
            lst = L(len(everyone), kind, src, pred, flavour if kind == "callback" else "plain")
            everyone.append(lst)
            zsrc = zigpy.listeners.ANY_DEVICE if src is None else src
            if kind == "future":
                lst.cm = app.wait_for_response(zsrc, m)
                lst.future = lst.cm.__enter__()
            else:

                def cb(h, c):
                    calls.append((lst.lid, token(h, c)))
                    if lst.flavour == "raise":
                        raise RuntimeError("callback")
                    if lst.flavour in ("async", "asyncraise"):

                        async def later():
                            await asyncio.sleep(0)
                            calls.append((lst.lid, "awaited"))
                            if lst.flavour == "asyncraise":
                                raise RuntimeError("callback coroutine")

                        return later()
                    if lst.flavour == "selfexit":
                        leave(lst)
                    if lst.flavour == "killother" and lst.kill is not None and lst.kill in order:
                        leave(lst.kill)

                lst.cm = app.callback_for_response(zsrc, m, cb)
                lst.cm.__enter__()
            if order and rng.random() < 0.5:
                lst.kill = rng.choice(order)
            elif rng.random() < 0.3:
                lst.kill = None
            order.append(lst)
            trace.append(("register", lst.lid, kind, None if src is None else src.nwk, lst.flavour))
            ctx.count("registrations")
            return lst

        def leave(lst):
            how = rng.choice(["ok", "error", "cancel"])
            order.remove(lst)
            trace.append(("leave", lst.lid, how))
            ctx.count(f"left_{how}")
            exc = {"ok": None, "error": ValueError("body"), "cancel": asyncio.CancelledError()}[how]
            try:
                if exc is None:
                    lst.cm.__exit__(None, None, None)
                else:
                    if lst.cm.__exit__(type(exc), exc, None):
                        raise Violation("exit-swallowed", "leaving a listener context swallowed an exception", trace[-20:])
            except (ValueError, asyncio.CancelledError) as e:
                if e is not exc:
                    raise

        def predict(dev, cmd):
            """Model of one dispatch; returns the expected callback calls."""
            exp = []
            line = [x for x in order if x.src is None] + [x for x in order if x.src is dev]
            # callbacks may unregister listeners while the command is delivered
            alive = set(x.lid for x in order)
            for x in line:
                if x.lid not in alive or not x.pred(cmd):
                    continue
                if x.kind == "callback":
                    exp.append(x.lid)
                    if x.flavour == "selfexit":
                        alive.discard(x.lid)
                    if x.flavour == "killother" and x.kill is not None:
                        alive.discard(x.kill.lid)
                elif not x.future.done():
                    exp.append(("future", x.lid))
                    break
            return exp

        def inject():
            dev = rng.choice(devs)
            uniq[0] += 1
            tsn = uniq[0] % 256
            kind = rng.choice(["toggle", "timed", "level", "report", "zdo", "bad", "reply", "unknowncmd", "dup", "vendor"])
            cmd = {"name": kind, "tsn": tsn, "zdo": False}
            pend = None
            kw = {}
            if kind == "toggle":
                cl, raw = 6, sim.zcl_hdr(tsn, 2, cluster=True)
            elif kind in ("timed", "dup"):
                ctl = rng.choice([0, 1, 2])
                cmd.update(name="timed", ctl=ctl)
                cl, raw = 6, sim.zcl_hdr(tsn, 0x42, cluster=True) + bytes([ctl]) + sim.u16(uniq[0]) + sim.u16(7)
            elif kind == "level":
                lv = rng.choice([10, 20, 30])
                cmd["level"] = lv
                cl, raw = 8, sim.zcl_hdr(tsn, 0, cluster=True) + bytes([lv]) + sim.u16(uniq[0])
            elif kind == "vendor":
                lv = rng.choice([None, 10, 20, 30])
                cmd["level"] = lv
                cl, raw = VendorCluster.cluster_id, sim.zcl_hdr(tsn, 7, cluster=True) + sim.u32(uniq[0])
                if lv is not None:
                    raw += bytes([3, lv])
            elif kind == "report":
                cl, raw = 6, sim.zcl_hdr(tsn, 0x0A, s2c=True) + b"\x34\x12\x23" + sim.u32(uniq[0])
            elif kind == "zdo":
                cmd["zdo"] = True
                cl, raw, kw = 0x0005, bytes([tsn]) + sim.u16(uniq[0]), {"profile": 0, "src_ep": 0, "dst_ep": 0}
            elif kind == "bad":
                cl, raw = 8, sim.zcl_hdr(tsn, 0, cluster=True) + bytes([1])
            elif kind == "unknowncmd":
                cl, raw = 6, sim.zcl_hdr(tsn, 0xEE, cluster=True) + sim.u32(uniq[0])
            else:  # reply to an outstanding request
                cl, raw = 6, sim.zcl_hdr(tsn, 0x01, s2c=True) + b"\x34\x12\x00\x23" + sim.u32(uniq[0])
                if rng.random() < 0.7:
                    pend = dev._pending.new(tsn)
                    pend.__enter__()
            exp = []
            if kind != "bad" and pend is None:
                exp = predict(dev, cmd)
            before = {x.lid: (x.future.done() if x.future else None) for x in everyone}
            n0 = len(calls)
            line = tuple((x.kind, x.flavour, x.src is None) for x in order)
            trace.append(("rx", dev.nwk, kind, tsn, [e if isinstance(e, int) else e[1] for e in exp]))
            p = sim.rx(dev, cl, raw, tsn=tsn, **kw)
            try:
                app.packet_received(p)
            except Exception as e:  # noqa: BLE001
                raise Violation("matcher-raised", f"{type(e).__name__}: {e} for {kind} {tsn}", trace[-20:]) from e
            if kind == "dup":
                app.packet_received(p)  # suppressed repeat must not fire again
            got = [c for c in calls[n0:]]
            tok = ("zdo", 5, tsn) if cmd["zdo"] else None
            want = [e for e in exp if isinstance(e, int)]
            if [g[0] for g in got] != want:
                raise Violation("callbacks", f"command {kind} {tsn}: callbacks {got}, expected {want}", trace[-40:])
            for g in got:
                if tok is not None and g[1] != tok or g[1][2] != tsn:
                    raise Violation("callback-content", f"callback got {g}, command was {kind} {tsn}", trace[-20:])
            fut = [e[1] for e in exp if not isinstance(e, int)]
            for x in everyone:
                if x.kind != "future":
                    continue
                now = x.future.done()
                if x.lid in fut:
                    if not now or before[x.lid] or x.future.cancelled():
                        raise Violation("waiter-missed", f"waiter {x.lid} not completed by {kind} {tsn}", trace[-40:])
                    h, a = x.future.result()
                    tk = token(h, a)
                    if tk[2] != tsn or (tk[0] == "zdo") != cmd["zdo"]:
                        raise Violation("waiter-content", f"waiter {x.lid}: {tk} for {kind} {tsn}", trace[-20:])
                    if kind == "timed" and (a.on_off_control != cmd["ctl"] or a.on_time != uniq[0]):
                        raise Violation("waiter-content", f"waiter {x.lid}: {a}", trace[-20:])
                    x.token = tk
                    ctx.count("waiters_completed")
                elif now != before[x.lid]:
                    raise Violation("waiter-wrong", f"waiter {x.lid} completed by {kind} {tsn}", trace[-40:])
                elif now and not x.future.cancelled() and token(*x.future.result()) != x.token:
                    raise Violation("waiter-changed", f"waiter {x.lid} result changed", trace[-20:])
            if pend is not None:
                if not pend.result.done():
                    raise Violation("reply-lost", f"outstanding request {tsn} not completed", trace[-20:])
                pend.result.exception()
                pend.__exit__(None, None, None)
                ctx.count("replies_kept_from_listeners")
            ctx.count("commands")
            ctx.count("callback_calls", len(want))
            ctx.evaluated((line, tuple(map(str, exp)), kind))
            return exp

        for _ in range(rng.randint(5, 40)):
            r = rng.random()
            if r < 0.35 and len(order) < 8:
                register()
            elif r < 0.45 and order:
                leave(rng.choice(order))
            elif r < 0.5:
                fs = [x for x in order if x.kind == "future" and not x.future.done()]
                if fs:
                    rng.choice(fs).future.cancel()  # whoever waited gave up
                    ctx.count("cancelled_waiters")
            elif r < 0.6:
                await asyncio.sleep(rng.choice([0, 0.1, 11]))
            else:
                inject()
        n_async = sum(1 for lid, tk in calls if tk != "awaited" and everyone[lid].flavour in ("async", "asyncraise"))
        await vloop.settle()
        if sum(1 for _, tk in calls if tk == "awaited") != n_async:
            raise Violation("async-callback", "an asynchronous callback was not run to completion", trace[-30:])
        while order:
            leave(order[0])
        n0 = len(calls)
        for _ in range(4):
            inject()
        if len(calls) != n0:
            raise Violation("after-exit", "listener invoked after its context was left", trace[-20:])
        ctx.count("histories")
        ctx.sample(trace[:8])
        await cm_body(rng, app, devs[0])

    async def cm_body(rng, app, dev):
        """The contexts used the ordinary way, left by real cancellation / timeout / error."""
        for how in ("ok", "cancel", "timeout", "error"):
            got = []

            async def user():
                with app.callback_for_response(dev, [lambda h, c: True], lambda h, c: got.append(h.tsn)):
                    with app.wait_for_response(dev, [lambda h, c: h.tsn == 77]) as fut:
                        if how == "error":
                            raise KeyError("x")
                        if how == "timeout":
                            async with asyncio.timeout(1):
                                await fut
                        return await fut

            task = asyncio.create_task(user())
            await vloop.settle(3)
            if how == "cancel":
                task.cancel()
            if how == "ok":
                app.packet_received(sim.rx(dev, 6, sim.zcl_hdr(77, 2, cluster=True)))
            await asyncio.sleep(12)
            if not task.done():
                raise Violation("context-stuck", f"{how}: still waiting")
            n = len(got)
            task.cancelled() or task.exception()
            app.packet_received(sim.rx(dev, 6, sim.zcl_hdr(77, 2, cluster=True)))
            await asyncio.sleep(12)
            if len(got) != n:
                raise Violation("after-exit", f"callback invoked after leaving by {how}")
            if how == "ok" and n != 1:
                raise Violation("callbacks", f"{n} invocations while registered")
            ctx.count("context_exits")

    for k in range(ctx.n(3000, 80000)):
        ctx.case(k, lambda: vloop.run(history(k)))
    for n, m in [("histories", 800), ("commands", 5000), ("callback_calls", 4000), ("waiters_completed", 2000), ("left_error", 500),
                 ("left_cancel", 500), ("replies_kept_from_listeners", 400), ("cancelled_waiters", 200), ("context_exits", 2000)]:  # fmt: skip
        ctx.require(n, m)
