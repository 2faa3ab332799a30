"""D07: the coordinator answers the queries of devices and presents its endpoints."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.config as conf
import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdo_t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: a byte-level monitor at the radio boundary matches every packet sent "
    "with the queries received and the requests made, under delivery failures, repeats, "
    "address changes and concurrent traffic"
)
NOTE = (
    "Random histories of address, match descriptor and other ZDO requests from interviewed and "
    "unfinished devices in every addressing mode, mixed with ordinary requests, while the "
    "coordinator has varying addresses and the radio fails some of the transmissions; and "
    "registrations of endpoints with additional ones configured."
)
RULE = (
    "One evaluation: a history of queries and its answers, or a registration of endpoints. "
    "Non-trivial: it contains a query to be answered and one to be ignored."
)

BROADCASTS = (0xFFFF, 0xFFFD, 0xFFFC)


def queries(ctx, idx):
    rng = ctx.rng("queries", idx)
    trace = []

    async def main():
        app = sim.make_app()
        me_ieee = sim.eui(rng.randrange(1 << 56)) if rng.random() < 0.5 else app.state.node_info.ieee
        me_nwk = rng.choice((0x0000, 0x0000, 0x0000, 0x1A2B))
        app.state.node_info = app.state.node_info.replace(ieee=me_ieee, nwk=t.NWK(me_nwk))
        devs = []
        for k in range(rng.randint(1, 4)):
            ieee, nwk = sim.eui(0x7000_0000 + k), 0x2000 + k
            kind = rng.randrange(4)
            if kind <= 1:
                d = sim.add_ready_device(
                    app, ieee, nwk, logical=zdo_t.LogicalType.EndDevice if kind else zdo_t.LogicalType.Router
                )
            else:
                d = app.add_device(ieee, t.NWK(nwk))
                if kind == 3:
                    d.node_desc = sim.node_desc(zdo_t.LogicalType.Router)
            d.schedule_initialize = lambda: None
            devs.append(d)
        failing = [0]

        async def on_send(pkt):
            if failing[0] and rng.random() < failing[0]:
                ctx.count("failed_sends")
                raise rng.choice(
                    (
                        zigpy.exceptions.DeliveryError("no route"),
                        asyncio.TimeoutError(),
                        zigpy.exceptions.ControllerException("busy"),
                        OSError("gone"),
                    )
                )
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice((0, 0.1, 2)))

        app.on_send = on_send
        if rng.random() < 0.4:
            failing[0] = rng.choice((0.2, 0.6))
        recent = {}
        last = None
        answered = ignored = 0
        for step in range(rng.randint(6, 25)):
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice((0.1, 3, 11)))
            if rng.random() < 0.1:
                d = rng.choice(devs)
                d.nwk = t.NWK(0x3000 + step)  # it moved
                trace.append(("moved", hex(d.nwk)))
            d = rng.choice(devs)
            tsn = rng.choice([x for x in range(256) if x not in d._pending]) if hasattr(d, "_pending") else rng.randrange(256)
            kind = rng.choice(("nwk", "nwk", "ieee", "ieee", "match", "match", "other"))
            rsp = None
            if kind == "nwk":
                who = rng.choice((me_ieee, me_ieee, d.ieee, sim.eui(5), t.EUI64.UNKNOWN))
                cid = 0x0000
                body = who.serialize() + rng.choice((b"\x00\x00", b"\x01\x00", b"\x01\x05"))
                if who == me_ieee:
                    rsp = (0x8000, b"\x00" + me_ieee.serialize() + sim.u16(me_nwk) + b"\x00\x00", t.PacketPriority.LOW)
            elif kind == "ieee":
                who = rng.choice((me_nwk, me_nwk, *BROADCASTS, 0xFFFE, 0xFFFB, int(d.nwk), rng.randrange(0x4000, 0x5000)))
                cid = 0x0001
                body = sim.u16(who) + rng.choice((b"\x00\x00", b"\x01\x00"))
                if who == me_nwk or who in BROADCASTS:
                    rsp = (0x8001, b"\x00" + me_ieee.serialize() + sim.u16(me_nwk) + b"\x00\x00", t.PacketPriority.LOW)
            elif kind == "match":
                profile = rng.choice((0x0104, 0x0104, 0xC05E, 0x0000, 0xFFFF, rng.randrange(65536)))
                lists = b""
                for _ in range(2):
                    cl = [rng.randrange(65536) for _ in range(rng.randint(0, 3))]
                    lists += bytes([len(cl)]) + b"".join(sim.u16(c) for c in cl)
                cid = 0x0006
                body = sim.u16(rng.choice((me_nwk, 0xFFFD))) + sim.u16(profile) + lists
                rsp = (
                    0x8006,
                    b"\x00" + sim.u16(me_nwk) + (b"\x01\x01" if profile == 0x0104 else b"\x00"),
                    t.PacketPriority.HIGH,
                )
            else:
                cid, body = rng.choice(
                    (
                        (0x0002, sim.u16(me_nwk)),
                        (0x0003, sim.u16(me_nwk)),
                        (0x0004, sim.u16(me_nwk) + b"\x01"),
                        (0x0005, sim.u16(me_nwk)),
                        (0x0031, b"\x00"),
                        (0x0032, b"\x00"),
                        (0x0036, b"\x3c\x00"),
                        (0x8000, b"\x00" + d.ieee.serialize() + sim.u16(int(d.nwk))),
                        (0x8006, b"\x00" + sim.u16(me_nwk) + b"\x01\x01"),
                        (0x0000, me_ieee.serialize()),  # cut short
                        (0x0006, sim.u16(me_nwk) + b"\x04"),
                    )
                )
            dst = rng.choice(
                (
                    t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(me_nwk)),
                    t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.RX_ON_WHEN_IDLE),
                    t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=me_ieee),
                )
            )
            src_mode = rng.choice((None, None, "ieee"))
            if last is not None and rng.random() < 0.15:
                d, kind, cid, tsn, body, rsp, dst, src_mode = last
            last = (d, kind, cid, tsn, body, rsp, dst, src_mode)
            data = bytes([tsn]) + body
            pkt = sim.rx(d, cid, data, profile=0, src_ep=0, dst_ep=0, tsn=tsn, dst=dst, src_mode=src_mode)
            key = (devs.index(d), int(d.nwk) if src_mode is None else None, cid, data, str(dst))
            now = asyncio.get_running_loop().time()
            repeat = key in recent and now - recent[key] < 10
            start = len(app.sent)
            trace.append((round(now, 2), kind, hex(cid), data.hex(), str(pkt.src), str(dst), "repeat" if repeat else ""))
            try:
                app.packet_received(pkt)
            except Exception as e:  # noqa: BLE001
                raise Violation("raised", f"{kind} query: {type(e).__name__}: {e}", trace[-8:]) from e
            if not repeat:
                recent[key] = now
            # one transmission at a time per device: let slow ones end
            await asyncio.sleep(3)
            got = [
                p
                for _, p in app.sent[start:]
                if p.profile_id == 0
                and p.cluster_id & 0x8000  # not what the coordinator itself wants to know
            ]
            if repeat:
                rsp = None
                ctx.count("repeats")
            if rsp is None:
                ignored += 1
                if got:
                    raise Violation(
                        "unasked",
                        f"{kind} query {data.hex()} was answered with {int(got[0].cluster_id):#06x} {got[0].data.serialize().hex()}",
                        trace[-8:],
                    )
                ctx.count("ignored")
                continue
            answered += 1
            ctx.count(f"answered_{kind}")
            if len(got) != 1:
                raise Violation("answers", f"{kind} query {data.hex()} got {len(got)} answers", trace[-8:])
            p = got[0]
            want = dict(
                cluster_id=rsp[0],
                data=bytes([tsn]) + rsp[1],
                dst=("NWK", int(d.nwk)),
                src=("NWK", me_nwk),
                src_ep=0,
                dst_ep=0,
                tsn=tsn,
                priority=int(rsp[2]),
                extended_timeout=False,
            )
            have = dict(
                cluster_id=int(p.cluster_id),
                data=p.data.serialize(),
                dst=(p.dst.addr_mode.name, int(p.dst.address)),
                src=(p.src.addr_mode.name, int(p.src.address)),
                src_ep=int(p.src_ep),
                dst_ep=int(p.dst_ep),
                tsn=int(p.tsn),
                priority=int(p.priority),
                extended_timeout=bool(p.extended_timeout),
            )
            for f in want:
                if want[f] != have[f]:
                    raise Violation(f"answer:{f}", f"{kind} query {data.hex()}: {f} is {have[f]}, expected {want[f]}", trace[-8:])
            ctx.state("answers", (kind, src_mode, dst.addr_mode, rsp[1][-3:]))
        ctx.evaluated(("queries", trace), nontrivial=answered > 0 and ignored > 0)

    vloop.run(main())


def requests(ctx, idx):
    """Management requests are encoded as asked."""
    rng = ctx.rng("requests", idx)

    async def main():
        app = sim.make_app()
        me = app.state.node_info.ieee
        d = sim.add_ready_device(app, sim.eui(0x7100_0000), 0x2100)
        cluster = rng.choice((d.endpoints[1].on_off, d.endpoints[1].level, d.endpoints[1].out_clusters[0x19]))
        children, rejoin = rng.random() < 0.5, rng.random() < 0.5
        dur, tc = rng.randrange(256), rng.randrange(2)
        target = d.ieee.serialize() + bytes([1]) + sim.u16(int(cluster.cluster_id)) + b"\x03" + me.serialize() + b"\x01"
        for name, call, cid, want in (
            ("bind", lambda: d.zdo.bind(cluster), 0x0021, target),
            ("unbind", lambda: d.zdo.unbind(cluster), 0x0022, target),
            (
                "leave",
                lambda: d.zdo.leave(remove_children=children, rejoin=rejoin),
                0x0034,
                d.ieee.serialize() + bytes([(0x40 if children else 0) | (0x80 if rejoin else 0)]),
            ),
            ("leave by default", lambda: d.zdo.leave(), 0x0034, d.ieee.serialize() + b"\x40"),
            ("permit", lambda: d.zdo.permit(dur, tc), 0x0036, bytes([dur, tc])),
            ("permit by default", lambda: d.zdo.permit(), 0x0036, bytes([60, 0])),
        ):
            start = len(app.sent)
            task = asyncio.ensure_future(call())
            await asyncio.sleep(0.01)
            got = [p for _, p in app.sent[start:]]
            if len(got) != 1:
                raise Violation("request", f"{name}: {len(got)} packets")
            p = got[0]
            raw = p.data.serialize()
            if p.cluster_id != cid or raw[1:] != want or raw[0] != p.tsn or p.dst.address != d.nwk or p.profile_id != 0:
                raise Violation("request", f"{name}: {int(p.cluster_id):#06x} {raw.hex()}, expected {want.hex()}")
            app.packet_received(
                sim.rx(d, cid | 0x8000, raw[:1] + b"\x00", profile=0, src_ep=0, dst_ep=0)
            )
            res = await asyncio.wait_for(task, 60)
            if int(res[0]) != 0:
                raise Violation("request", f"{name}: answered {res}")
            ctx.count("requests")
        ctx.evaluated(("requests", children, rejoin, dur, tc, int(cluster.cluster_id)))

    vloop.run(main())


def endpoints(ctx, idx):
    rng = ctx.rng("endpoints", idx)

    async def main():
        extra = []
        for k in range(rng.randint(0, 3)):
            extra.append(
                zdo_t.SimpleDescriptor(
                    endpoint=t.uint8_t(rng.randint(3, 240)),
                    profile=t.uint16_t(rng.choice((0x0104, 0xC05E, 0xA1E0))),
                    device_type=t.uint16_t(rng.randrange(0x1000)),
                    device_version=t.uint8_t(0),
                    input_clusters=[rng.randrange(65536) for _ in range(rng.randint(0, 3))],
                    output_clusters=[rng.randrange(65536) for _ in range(rng.randint(0, 3))],
                )
            )
        app = sim.make_app(**{conf.CONF_ADDITIONAL_ENDPOINTS: extra})
        got = []

        fail_at = rng.choice((None, None, 0, 1, 2, 3))

        async def add_endpoint(descriptor):
            if fail_at == len(got):
                raise zigpy.exceptions.ControllerException("no")
            got.append(descriptor)

        app.add_endpoint = add_endpoint
        total = 2 + len(extra)
        try:
            await app.register_endpoints()
        except zigpy.exceptions.ControllerException:
            if fail_at is None or fail_at >= total:
                raise
            ctx.count("failed_registrations")
        else:
            if fail_at is not None and fail_at < total:
                raise Violation("endpoints", "a failed registration was not reported")
        n = total if fail_at is None else min(fail_at, total)
        want = [(1, 0x0104), (2, 0xC05E)] + [(int(e.endpoint), int(e.profile)) for e in extra]
        have = [(int(e.endpoint), int(e.profile)) for e in got]
        if have != want[:n]:
            raise Violation("endpoints", f"registered {have}, expected {want[:n]}")
        if got[2:] != extra[: max(0, n - 2)]:
            raise Violation("endpoints", f"registered {got[2:]}, configured {extra}")
        need = {1: ({0x0000, 0x0006, 0x000A, 0x0019, 0x0501}, {0x0001, 0x0020, 0x0500, 0x0502}), 2: ({0x0000}, set())}
        for e in got[:2]:
            ins, outs = need[int(e.endpoint)]
            if set(map(int, e.input_clusters)) != ins or set(map(int, e.output_clusters)) != outs:
                raise Violation("endpoints", f"endpoint {e.endpoint} has {e.input_clusters} / {e.output_clusters}")
        for cid in (0, 6, 0x19, 0x500):
            for server in (True, False):
                if app.get_endpoint_id(cid, server) != 1:
                    raise Violation("endpoints", f"endpoint for {cid:#x} is {app.get_endpoint_id(cid, server)}")
        ctx.count("registrations")
        ctx.evaluated(("endpoints", str(extra), fail_at))

    vloop.run(main())


def run(ctx):
    for i in range(ctx.n(900, 40000)):
        ctx.case(f"queries-{i}", queries, ctx, i)
        if i % 3 == 0:
            ctx.case(f"requests-{i}", requests, ctx, i)
            ctx.case(f"endpoints-{i}", endpoints, ctx, i)
    for kind in ("nwk", "ieee", "match"):
        ctx.require(f"answered_{kind}", 300)
    ctx.require("ignored", 500)
    ctx.require("repeats", 100)
    ctx.require("failed_sends", 100)
    ctx.require("requests", 200)
    ctx.require("registrations", 50)
