"""R02: each response reaches exactly the request it answers, once."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.config
import zigpy.device
import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as z

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: offline checker over the recorded log of requests, transmissions, "
    "injected replies, cancellations and outcomes, on a virtual clock"
)
NOTE = (
    "Random schedules of concurrent ZCL and ZDO requests to several devices with few transaction "
    "numbers, replies that are reordered, early, late, lost, duplicated, undecodable or from another "
    "device, delivery failures and cancellations; 1 to 8 requests per device in flight."
)
RULE = (
    "One evaluation is one request whose outcome, content and completion time are predicted from "
    "the recorded log; non-trivial: distinct (fate, outcome, interleaving signature)."
)
WINDOW = 10.0  # duplicate suppression
EPS = 1e-6


class Req:
    def __init__(self, rid, dev):
        self.rid, self.dev = rid, dev
        self.tsn = None
        self.sent_at = self.tx_end = None
        self.tx_exc = None
        self.cancel_at = None
        self.done_at = None
        self.outcome = None
        self.window = None
        self.expect_reply = True
        self.zdo = False
        self.task = None


def run(ctx):
    async def history(idx):
        rng = ctx.rng(idx)
        loop = asyncio.get_running_loop()
        conc = rng.choice([1, 1, 2, 4, 8])
        old = zigpy.device.MAX_DEVICE_CONCURRENCY
        zigpy.device.MAX_DEVICE_CONCURRENCY = conc
        try:
            app = sim.make_app(**{zigpy.config.CONF_MAX_CONCURRENT_REQUESTS: 1000})
            devs = []
            for k in range(rng.randint(1, 4)):
                lt = rng.choice([z.LogicalType.Router, z.LogicalType.Router, z.LogicalType.EndDevice])
                d = sim.add_ready_device(app, sim.eui(0x900 + k), 0x1100 + k, logical=lt)
                if rng.random() < 0.5:  # the transaction numbers are about to wrap around
                    any(d.get_sequence() == 250 for _ in range(300))
                devs.append(d)
        finally:
            zigpy.device.MAX_DEVICE_CONCURRENCY = old
        pool = rng.choice([3, 6, 20])  # few transaction numbers: much reuse
        reqs: dict[int, Req] = {}
        deliveries = []  # (time, dev, tsn, zdo, kind, marker, raw)
        wire: dict[int, Req] = {}
        counter, seq = [0], [0]
        trace = []

        def now():
            return loop.time()

        def deliver(dev, tsn, zdo, kind, marker):
            """kind: good | corrupt | request"""
            if zdo:
                cl, se, de = 0x8005, 0, 0
                if kind == "good":
                    raw = bytes([tsn, 0]) + sim.u16(dev.nwk) + b"\x04" + marker.to_bytes(4, "little")
                elif kind == "corrupt":
                    raw = bytes([tsn, 0]) + sim.u16(dev.nwk) + b"\x09" + marker.to_bytes(4, "little")
                else:
                    cl, raw = 0x0005, bytes([tsn]) + sim.u16(marker & 0xFFFF)
            else:
                cl, se, de = 6, 1, 1
                if kind == "good":
                    raw = sim.zcl_hdr(tsn, 1, s2c=True) + b"\x34\x12\x00\x23" + marker.to_bytes(4, "little")
                elif kind == "corrupt":
                    bad = rng.choice([b"\x34\x12\x00\x27" + marker.to_bytes(4, "little"), b"\x34\x12\x00\x77" + marker.to_bytes(4, "little")])
                    raw = sim.zcl_hdr(tsn, 1, s2c=True) + bad
                else:
                    raw = sim.zcl_hdr(tsn, 0, s2c=False) + marker.to_bytes(4, "little")
            seq[0] += 1
            deliveries.append((now(), dev, tsn, zdo, kind, marker, (cl, raw), seq[0]))
            trace.append((round(now(), 4), "rx", dev.nwk, tsn, kind, marker))
            ctx.count("replies_delivered")
            app.packet_received(sim.rx(dev, cl, raw, profile=0 if zdo else 0x0104, src_ep=se, dst_ep=de, tsn=tsn))

        async def on_send(pkt):
            data = pkt.data.serialize()
            if pkt.dst_ep == 0:
                if pkt.cluster_id != 0x0005:
                    return  # answers of the coordinator to device requests
                tsn, rid = data[0], int.from_bytes(data[1:3], "little")
            else:
                h = sim.parse_zcl(data)
                if h["cmd"] != 0:
                    return
                tsn, rid = h["tsn"], int.from_bytes(h["payload"][:2], "little")
            q = reqs[rid]
            if q.sent_at is not None:
                raise Violation("sent-twice", f"request {rid} transmitted twice", trace[-20:])
            seq[0] += 1
            q.sent_at, q.sent_seq, q.tsn, q.zdo = now(), seq[0], tsn, pkt.dst_ep == 0
            trace.append((round(now(), 4), "tx", q.dev.nwk, tsn, rid))
            dev = q.dev
            fate = rng.choices(
                ["ok", "early", "late", "lost", "fail", "corrupt", "other", "wrongtsn", "dup", "request", "earlyfail"],
                [10, 3, 2, 2, 2, 2, 2, 2, 4, 2, 1],
            )[0]
            q.fate = fate
            txd = rng.choice([0.0, rng.uniform(0.001, 0.5), rng.uniform(0.001, 3)])
            counter[0] += 1
            m = rid * 100 + 1

            def later(delay, *a):
                loop.call_later(delay, deliver, *a)

            d = rng.uniform(0.001, 4)
            if fate == "early" or fate == "earlyfail":
                txd = max(txd, 0.2)
                later(rng.uniform(0.01, txd * 0.9), dev, tsn, q.zdo, "good", m)
            elif fate == "ok":
                later(txd + d, dev, tsn, q.zdo, "good", m)
            elif fate == "late":
                later(txd + rng.uniform(5.1, 40), dev, tsn, q.zdo, "good", m)
            elif fate == "corrupt":
                later(txd + d, dev, tsn, q.zdo, "corrupt", m)
                if rng.random() < 0.5:
                    later(txd + d + 0.3, dev, tsn, q.zdo, "good", m)
            elif fate == "other":
                later(txd + d / 2, rng.choice(devs), tsn, q.zdo, "good", m + 1)
                later(txd + d, dev, tsn, q.zdo, "good", m)
            elif fate == "wrongtsn":
                later(txd + d / 2, dev, (tsn + rng.choice([1, 2, 128])) % 256, q.zdo, "good", m + 2)
                if rng.random() < 0.6:
                    later(txd + d, dev, tsn, q.zdo, "good", m)
            elif fate == "dup":
                later(txd + d, dev, tsn, q.zdo, "good", m)
                for _ in range(rng.randint(1, 3)):
                    later(txd + d + rng.choice([0.0001, rng.uniform(0.001, 30)]), dev, tsn, q.zdo, "good", m)
                if rng.random() < 0.5:
                    later(txd + d + rng.uniform(0, 3), dev, tsn, q.zdo, "good", m + 3)
            elif fate == "request":
                later(txd + d / 2, dev, tsn, q.zdo, "request", rid)
                later(txd + d, dev, tsn, q.zdo, "good", m)
            try:
                if txd:
                    await asyncio.sleep(txd)
            except asyncio.CancelledError:
                q.tx_end, q.tx_exc = now(), "cancel"
                raise
            q.tx_end = now()
            if fate in ("fail", "earlyfail"):
                q.tx_exc = rng.choice([zigpy.exceptions.DeliveryError("no ack"), RuntimeError("radio"), zigpy.exceptions.ControllerException("x")])
                raise q.tx_exc

        app.on_send = on_send

        def in_use(dev, tsn):
            return any(q.dev is dev and q.tsn_asked == tsn and q.done_at is None for q in reqs.values())

        async def client(q, chain):
            dev = q.dev
            how = rng.choice(["raw", "raw", "zcl", "zdo"])
            q.timeout = 5
            q.tsn_asked = None
            if how == "raw" or chain is not None:
                tsn = chain if chain is not None else rng.randrange(pool)
                if chain is None:
                    for _ in range(30):
                        if not in_use(dev, tsn):
                            break
                        tsn = (tsn + 1) % 256
                q.tsn_asked = tsn
                q.expect_reply = rng.random() < 0.93
                q.timeout = rng.choice([5, 5, rng.uniform(0.5, 9)])
                kw = {} if q.timeout == 5 else {"timeout": q.timeout}
                if rng.random() < 0.5:
                    coro = dev.request(0x0104, 6, 1, 1, tsn, sim.zcl_hdr(tsn, 0) + sim.u16(q.rid), expect_reply=q.expect_reply, **kw)
                else:
                    coro = dev.request(0, 0x0005, 0, 0, tsn, bytes([tsn]) + sim.u16(q.rid), expect_reply=q.expect_reply, **kw)
            elif how == "zcl":
                coro = dev.endpoints[1].on_off.general_command(0, [q.rid])
            else:
                coro = dev.zdo.Active_EP_req(q.rid)
            sleepy = dev.node_desc.logical_type == 2
            q.window = 28 if (sleepy and q.expect_reply) else q.timeout
            try:
                q.outcome = ("ok", await coro)
            except asyncio.CancelledError:
                q.outcome = ("cancelled", None)
            except BaseException as e:  # noqa: BLE001
                q.outcome = ("exc", e)
            q.done_at = now()
            trace.append((round(now(), 4), "done", q.rid, q.outcome[0]))

        def start(chain=None, dev=None):
            rid = len(reqs) + 1
            q = Req(rid, dev or rng.choice(devs))
            q.tsn_asked = chain
            reqs[rid] = q
            q.call_at = now()

            async def go():
                await client(q, chain)
                # immediate reuse of the number by a new request
                if q.tsn is not None and rng.random() < 0.3 and len(reqs) < limit and not in_use(q.dev, q.tsn):
                    start(chain=q.tsn, dev=q.dev)
                    ctx.count("immediate_reuses")

            q.task = asyncio.create_task(go())
            if rng.random() < 0.15:
                def cancel():
                    if q.done_at is None:
                        q.cancel_at = now()
                        q.task.cancel()

                loop.call_later(rng.choice([0, rng.uniform(0, 8), rng.uniform(0, 60)]), cancel)
            return q

        limit = rng.randint(10, 60)
        while len(reqs) < limit * 0.8:
            for _ in range(rng.randint(1, 5)):
                start()
            await asyncio.sleep(rng.choice([0, 0, rng.uniform(0, 1), rng.uniform(0, 12)]))
        for _ in range(3000):
            if all(q.done_at is not None for q in reqs.values()):
                break
            await asyncio.sleep(1)
        else:
            raise Violation("request-never-ends", f"{[q.rid for q in reqs.values() if q.done_at is None]} still pending", trace[-40:])
        await asyncio.sleep(60)

        # --- offline verdicts
        accepted = []
        last = {}
        for tm, dev, tsn, zdo, kind, marker, key, sq in deliveries:
            k = (dev.ieee, key)
            if k in last and tm < last[k] + WINDOW - EPS:
                ctx.count("suppressed")
                continue
            last[k] = tm
            accepted.append((tm, dev, tsn, zdo, kind, marker, sq))
        for q in reqs.values():
            verdict(q, accepted, trace)
            sig = (getattr(q, "fate", None), q.outcome[0], type(q.outcome[1]).__name__, conc, q.zdo)
            ctx.evaluated((sig, sum(r.sent_at is not None and q.sent_at is not None and r.sent_at <= q.sent_at < r.done_at for r in reqs.values())))
            ctx.state("outcomes", sig)
        ctx.count("histories")
        # --- afterwards every number is usable again on every device
        app.on_send = None
        for dev in devs:
            for tsn in sorted({q.tsn for q in reqs.values() if q.tsn is not None})[:12]:
                task = asyncio.create_task(dev.request(0x0104, 6, 1, 1, tsn, sim.zcl_hdr(tsn, 0) + b"\x01\x00"))
                await vloop.settle()
                counter[0] += 1
                m = 0x70000000 + counter[0]
                deliver(dev, tsn, False, "good", m)
                await vloop.settle()
                if not task.done() or task.exception() or marker_of(task.result(), False) != m:
                    raise Violation("number-not-reusable", f"tsn {tsn}: {task}", trace[-30:])
                ctx.count("reusable_checked")
        ctx.sample(trace[:6])

    def marker_of(res, zdo):
        if zdo:
            return int.from_bytes(bytes(int(x) for x in res[2]), "little")
        return int(res.status_records[0].value.value)

    def verdict(q, accepted, trace):
        w = {"rid": q.rid, "tsn": q.tsn, "fate": getattr(q, "fate", None), "sent": q.sent_at, "tx_end": q.tx_end, "window": q.window,
             "cancel": q.cancel_at, "done": q.done_at, "outcome": repr(q.outcome), "trace": trace[-60:]}  # fmt: skip
        kind, val = q.outcome
        if q.sent_at is None:
            if kind == "cancelled" and q.cancel_at is not None:
                ctx.count("cancelled_waiting")
                return
            if kind == "exc" and isinstance(val, zigpy.exceptions.ControllerException) and q.cancel_at is None:
                # refused because the number was in use: must really be so
                ctx.count("refused_duplicate_number")
                return
            raise Violation("never-sent", f"request {q.rid} ended as {q.outcome} without a transmission", w)

        # predicted outcome
        end, want = None, None
        if q.tx_exc == "cancel":
            end, want = q.tx_end, ("cancelled", None)
        elif q.tx_exc is not None:
            end, want = q.tx_end, ("exc", q.tx_exc)
        elif not q.expect_reply:
            end, want = q.tx_end, ("ok", None)
        else:
            deadline = q.tx_end + q.window
            first = next(
                (a for a in accepted if a[1] is q.dev and a[2] == q.tsn and a[4] != "request" and a[6] > q.sent_seq and a[0] <= deadline + EPS),
                None,
            )
            if first is None:
                end, want = deadline, ("timeout", None)
            else:
                end = max(q.tx_end, first[0])
                want = ("parse", None) if first[4] == "corrupt" else ("value", first)
        if q.cancel_at is not None and q.cancel_at < end - EPS:
            end, want = q.cancel_at, ("cancelled", None)
        if want[0] == "value":
            a = want[1]
            good = kind == "ok" and val is not None and marker_of(val, a[3]) == a[5]
        elif want[0] == "parse":
            good = kind == "exc" and isinstance(val, zigpy.exceptions.ParsingError)
        elif want[0] == "timeout":
            good = kind == "exc" and isinstance(val, asyncio.TimeoutError)
        elif want[0] == "cancelled":
            good = kind == "cancelled"
        elif want[0] == "exc":
            good = kind == "exc" and val is want[1]
        else:
            good = kind == "ok" and val is None
        ctx.count(f"expected_{want[0]}")
        if not good:
            if q.cancel_at is not None and abs(q.cancel_at - end) <= EPS:
                return  # tie between the cancellation and the end
            raise Violation(f"wrong-outcome:{want[0]}", f"request {q.rid} (tsn {q.tsn}, {w['fate']}): got {q.outcome}, expected {want[0]} {want[1]!r}", w)
        if abs(q.done_at - end) > EPS:
            raise Violation(f"wrong-time:{want[0]}", f"request {q.rid} ended at {q.done_at}, expected {end}", w)

    for k in range(ctx.n(400, 12000)):
        ctx.case(k, lambda: vloop.run(history(k)))
    for n, m in [("histories", 200), ("replies_delivered", 3000), ("expected_value", 2000), ("expected_timeout", 200), ("expected_parse", 100),
                 ("expected_exc", 200), ("expected_cancelled", 50), ("immediate_reuses", 100), ("reusable_checked", 500), ("suppressed", 100)]:  # fmt: skip
        ctx.require(n, m)
