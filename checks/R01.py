"""R01: no received packet can crash or wedge the coordinator."""

from __future__ import annotations

import asyncio
from datetime import datetime, timedelta, timezone

from harness import gen, sim, vloop
from harness.core import Violation

import checks.T03  # noqa: F401  (registers encoders of the ZCL record types)
import checks.T04 as T04
import zigpy.types as t
import zigpy.zcl
from zigpy.zcl import foundation as f
import zigpy.zdo.types as z

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: hostile packet histories injected at packet_received, with an "
    "exception monitor, an identity snapshot oracle and functional probes after the abuse"
)
NOTE = (
    "Random, truncated, extended and bit-flipped frames of every ZCL command of every registered "
    "cluster and every ZDO command, arbitrary endpoints/clusters/profiles, unicast sources by "
    "network or IEEE address, ready / half-interviewed / unknown devices, with and without a "
    "coordinator entry; sources addressed by group or broadcast are outside the property."
)
RULE = (
    "One evaluation is one packet handed to packet_received; non-trivial: distinct "
    "(cluster, endpoints, payload) triples. Probes after abuse must behave exactly as on a "
    "fresh application."
)

CLUSTERS = sorted(zigpy.zcl.Cluster._registry)


def valid_zcl(rng, cid):
    """A well-formed frame for the cluster, encoded independently."""
    cls = zigpy.zcl.Cluster._registry[cid]
    r = rng.random()
    if r < 0.5:
        cmd = rng.choice(list(f.GENERAL_COMMANDS.values()))
        general = True
    else:
        cmds = [*cls.ServerCommandDefs, *cls.ClientCommandDefs]
        if not cmds:
            return valid_zcl(rng, cid) if r < 0.9 else sim.zcl_hdr(1, 0) + b"\0\0"
        cmd = rng.choice(cmds)
        general = False
    try:
        _, enc = gen.build_struct(cmd.schema, rng)
    except gen.Unsupported:
        enc = rng.randbytes(rng.randrange(12))
    hdr = sim.zcl_hdr(
        rng.randrange(256), int(cmd.id), cluster=not general,
        manuf=rng.choice([None, None, None, 0x115F, rng.randrange(65536)]),
        s2c=rng.random() < 0.5, disable_default=rng.random() < 0.5,
    )  # fmt: skip
    return hdr + enc


def wild_report(rng, cls):
    """Attribute report whose value types are unrelated to the declared ones."""
    out = sim.zcl_hdr(rng.randrange(256), rng.choice([0x0A, 0x0A, 0x01]), s2c=True, disable_default=rng.random() < 0.5)
    rsp = out[-1] == 0x01
    ids = [int(a.id) for a in cls.AttributeDefs] or [0]
    for _ in range(rng.randint(1, 4)):
        a = rng.choice([rng.choice(ids), rng.choice(ids), rng.randrange(65536)])
        tid = rng.choice(list(checks.T03.TYPES))
        _, enc = checks.T03.any_value(rng, tid)
        if tid in (0x38, 0x39, 0x3A) and rng.random() < 0.5:  # inf and nan
            n = {0x38: 2, 0x39: 4, 0x3A: 8}[tid]
            enc = rng.choice([{2: "007c", 4: "0000807f", 8: "000000000000f07f"}[n], {2: "017e", 4: "0100c07f", 8: "010000000000f87f"}[n]])
            enc = bytes.fromhex(enc)
        out += a.to_bytes(2, "little") + (b"\0" if rsp else b"") + bytes([tid]) + enc
    return out


def mutate(rng, data):
    k = rng.random()
    if k < 0.3:
        return data[: rng.randint(0, len(data))]
    if k < 0.6 and data:
        b = bytearray(data)
        for _ in range(rng.randint(1, 3)):
            b[rng.randrange(len(b))] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)])
        return bytes(b)
    if k < 0.7:
        return data + rng.randbytes(rng.randint(1, 8))
    if k < 0.8 and len(data) > 3:
        i = rng.randrange(len(data))
        return data[:i] + data[i + 1 :]
    if k < 0.9:
        return data + data
    return data[:3] + rng.randbytes(rng.randint(0, 20))


def garbage(rng):
    """(cluster, profile, src_ep, dst_ep, payload)"""
    k = rng.random()
    if k < 0.3:  # ZDO-like
        cmd = rng.choice(list(T04.COMMANDS))
        _, chunks, _, _, _ = T04.make(rng, cmd)
        data = bytes([rng.randrange(256)]) + b"".join(chunks)
        if rng.random() < 0.6:
            data = mutate(rng, data)
        se, de = rng.choice([(0, 0), (0, 0), (0, 0), (0, 1), (1, 0), (3, 0)])
        return cmd, 0, se, de, data
    if k < 0.38:  # unknown ZDO command
        return rng.randrange(65536), 0, rng.choice([0, 0, 1]), 0, rng.randbytes(rng.randrange(20))
    if k < 0.85:
        cid = rng.choice(CLUSTERS) if rng.random() < 0.5 else rng.choice([0, 6, 0x500, 0x19, 0x0A])
        if rng.random() < 0.3:
            data = wild_report(rng, zigpy.zcl.Cluster._registry[cid])
        else:
            data = valid_zcl(rng, cid)
        if rng.random() < 0.6:
            data = mutate(rng, data)
        se = rng.choice([1, 1, 1, 1, 2, 0, 5, 255])
        de = rng.choice([1, 1, 1, 1, 0, 2, 255])
        return cid, rng.choice([0x0104, 0x0104, 0xC05E, 0, 0xFFFF]), se, de, data
    return (
        rng.choice([0, 6, 0x13, 0x8001, rng.randrange(65536)]), rng.choice([0, 0x0104]),
        rng.choice([0, 1, 2, 255]), rng.choice([0, 1, 255]), rng.randbytes(rng.choice([0, 1, 2, 3, 4, 8, 30])),
    )  # fmt: skip


def identity(dev):
    eps = {}
    for e, ep in dev.endpoints.items():
        if e == 0:
            continue
        eps[e] = (ep.profile_id, ep.device_type, tuple(ep.in_clusters), tuple(ep.out_clusters), int(ep.status))
    return (
        dev.ieee, int(dev.nwk), eps, None if dev.node_desc is None else dev.node_desc.serialize(),
        dev.model, dev.manufacturer, type(dev),
    )  # fmt: skip


def announcement(cluster, src_ep, dst_ep, data):
    """(ieee bytes, nwk) of a complete address announcement, else None."""
    if 0 not in (src_ep, dst_ep):
        return None
    if cluster == 0x0013 and len(data) >= 12:
        return bytes(data[3:11]), int.from_bytes(data[1:3], "little")
    if cluster in (0x8000, 0x8001) and len(data) >= 12 and data[1] == 0:
        return bytes(data[2:10]), int.from_bytes(data[10:12], "little")
    return None


def run(ctx):
    async def history(idx):
        rng = ctx.rng("h", idx)
        loop = asyncio.get_running_loop()
        no_coord = rng.random() < 0.1
        app = sim.make_app(coordinator=not no_coord)
        net = sim.SimNet(app, rng)
        ready = {}
        for k in range(rng.randint(2, 4)):
            if rng.random() < 0.5:
                ins = [0, 3, 4, 5, 6, 8, 0x0A, 0x19, 0x500]
                outs = [0x19, 0x0A, 0x501, 6]
            else:
                ins = [0, 6, *rng.sample(CLUSTERS, 25)]
                outs = rng.sample(CLUSTERS, 10)
            ins = sorted(set(map(int, ins)))
            outs = sorted(set(map(int, outs)))
            eps = {1: (0x0104, 0x0100, ins, outs)}
            if rng.random() < 0.5:
                eps[2] = (0x0104, 0x0100, [0, 6, 0x0402], [])
            ieee, nwk = sim.eui(0xA0_0000_0000 + k), 0x1000 + k
            node = net.add(sim.SimNode(ieee, nwk, endpoints=eps))
            dev = sim.add_ready_device(app, ieee, nwk, eps, logical=rng.choice([z.LogicalType.Router, z.LogicalType.EndDevice]))
            ready[ieee] = (dev, node)
        half = []
        for k in range(rng.randint(0, 3)):
            d = app.add_device(sim.eui(0xB0_0000_0000 + k), t.NWK(0x2000 + k))
            how = rng.randrange(4)
            if how >= 1:
                d.node_desc = sim.node_desc(z.LogicalType.Router)
            if how >= 2:
                d.add_endpoint(1)
                d.add_endpoint(2)
            if how == 3:
                ep = d.endpoints[1]
                ep.profile_id, ep.device_type, ep.status = 0x0104, 0x100, 1
                ep.add_input_cluster(0)
                ep.add_input_cluster(6)
            half.append(d)
        trace = []
        previous = []  # devices retransmit packets, heard with another signal

        def inject(pkt, what):
            trace.append((what, pkt.cluster_id, pkt.src_ep, pkt.dst_ep, pkt.data.serialize().hex()))
            del trace[:-8]
            try:
                app.packet_received(pkt)
            except Exception as e:  # noqa: BLE001
                import traceback

                tb = traceback.extract_tb(e.__traceback__)
                last = [fr for fr in tb if "/zigpy/" in fr.filename]
                where = last[-1].name if last else "?"
                raise Violation(
                    f"packet_received-raised:{type(e).__name__}:{where}",
                    f"{type(e).__name__}: {e} in {where} for {trace[-1]}",
                    list(trace),
                ) from e
            ctx.evaluated((pkt.cluster_id, pkt.src_ep, pkt.dst_ep, pkt.data.serialize()))

        async def abuse():
            cluster, profile, se, de, data = garbage(rng)
            who = rng.random()
            again = rng.random() < 0.2 and previous
            if again:
                cluster, profile, se, de, data, dev, mode = previous[-1]
            elif who < 0.65:
                dev = rng.choice([d for d, _ in ready.values()])
            elif who < 0.8 and half:
                dev = rng.choice(half)
            elif who < 0.9:
                dev = None
            else:
                dev = "coord"
            if not again and cluster in (0x0013, 0x8000, 0x8001) and rng.random() < 0.4 and len(data) >= 12:
                # aim announcements at known devices
                target = rng.choice([*[d for d, _ in ready.values()], *half])
                raw = target.ieee.serialize()
                data = data[:3] + raw + data[11:] if cluster == 0x0013 else data[:2] + raw + data[10:]
            kw = dict(lqi=rng.choice([None, rng.randrange(256)]), rssi=rng.choice([None, rng.randint(-100, 0)]))
            ts = datetime.fromtimestamp(vloop.now(), timezone.utc) - timedelta(milliseconds=rng.randint(0, 900))
            if not again:
                mode = None
            if dev is None:
                src = rng.choice([0x3000, 0xFFFE, rng.randrange(0x4000, 0xFFF0)])
            elif dev == "coord":
                src = 0
            else:
                src = dev
                if not again:
                    mode = "ieee" if rng.random() < 0.3 else None
            previous[:] = [(cluster, profile, se, de, data, dev, mode)]
            dst = None
            if rng.random() < 0.2:
                dst = t.AddrModeAddress(addr_mode=rng.choice([t.AddrMode.Broadcast, t.AddrMode.Group]), address=t.NWK(rng.choice([0xFFFC, 0xFFFD, 5])))
                if dst.addr_mode == t.AddrMode.Broadcast:
                    dst = t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.RX_ON_WHEN_IDLE)
            pkt = sim.rx(src, cluster, data, profile=profile, src_ep=se, dst_ep=de, tsn=None, dst=dst, src_mode=mode, timestamp=ts, **kw)
            before = {i: identity(d) for i, (d, _) in ready.items()}
            prev = {i: (d.lqi, d.rssi) for i, (d, _) in ready.items()}
            inject(pkt, "abuse")
            ann = announcement(cluster, se, de, data)
            for i, (d, node) in ready.items():
                want = before[i]
                if ann is not None and ann[0] == i.serialize():
                    want = (want[0], ann[1], *want[2:])
                    ctx.count("announcements")
                if app.devices.get(i) is not d:
                    raise Violation("device-replaced", f"{i} is no longer the same device after {trace[-1]}", list(trace))
                got = identity(d)
                if got != want:
                    raise Violation("identity-changed", f"{i}: {got} != {want} after {trace[-1]}", list(trace))
                if ann is not None and ann[0] == i.serialize() and int(node.nwk) != ann[1]:
                    net.nodes.pop(int(node.nwk), None)
                    node.nwk = ann[1]
                    net.nodes[ann[1]] = node
            if dev not in (None, "coord") and ann is None and dev.ieee in ready:
                # the radio details follow the packet
                shared = [d for d in app.devices.values() if d.nwk == dev.nwk]
                if mode == "ieee" or len(shared) == 1:
                    want = (kw["lqi"] if kw["lqi"] is not None else prev[dev.ieee][0], kw["rssi"] if kw["rssi"] is not None else prev[dev.ieee][1])
                    if (dev.lqi, dev.rssi) != want:
                        raise Violation("radio-details", f"{(dev.lqi, dev.rssi)} instead of {want}", list(trace))
                    if dev.last_seen is None or abs(dev.last_seen - ts.timestamp()) > 1e-6:
                        raise Violation("last-seen", f"{dev.last_seen} instead of {ts.timestamp()}", list(trace))
                    ctx.count("radio_details_checked")
                    if again:
                        ctx.count("repeats_checked")

        async def probe():
            i = rng.choice(list(ready))
            dev, node = ready[i]
            if sum(d.nwk == dev.nwk for d in app.devices.values()) > 1 or int(dev.nwk) == 0:
                return  # address conflict created by an announcement
            kind = rng.randrange(3)
            if kind == 0:
                val = rng.random() < 0.5
                tsn = rng.randrange(256)
                app.sent.clear()
                # a marker attribute keeps the packet distinct from earlier ones
                extra = rng.randbytes(4)
                data = sim.zcl_hdr(tsn, 0x0A, s2c=True, disable_default=False) + b"\x00\x00\x10" + bytes([val]) + b"\xf3\xff\x23" + extra
                inject(sim.rx(dev, 6, data, tsn=tsn), "probe-report")
                if dev.endpoints[1].on_off.get("on_off") != val:
                    raise Violation("probe-report", f"report of {val} gave {dev.endpoints[1].on_off.get('on_off')!r}", list(trace))
                await vloop.settle()
                acks = []
                for _, p in app.sent:
                    d = p.data.serialize()
                    if p.cluster_id == 6 and p.dst_ep == 1 and sim.parse_zcl(d)["cmd"] == 0x0B and sim.parse_zcl(d)["tsn"] == tsn:
                        acks.append(sim.parse_zcl(d)["payload"])
                # at most one request per device is in flight, another may hold the slot
                if not dev._concurrent_requests_semaphore.locked() and acks != [b"\x0a\x00"]:
                    raise Violation("probe-ack", f"report answered by {acks}", list(trace))
            elif kind == 1:
                name = f"M{rng.randrange(10**6)}"
                node.attrs[(1, 0)][5] = (0x42, sim.lvstr(name))
                ok, bad = await asyncio.wait_for(dev.endpoints[1].basic.read_attributes(["model"]), 400)
                if ok != {"model": name} or bad:
                    raise Violation("probe-read", f"read {ok}, {bad} instead of {name}", list(trace))
            else:
                r = await asyncio.wait_for(dev.zdo.Node_Desc_req(dev.nwk), 400)
                if r[0] != 0 or int(r[1]) != int(node.nwk) or r[2].serialize() != node.node_desc_bytes():
                    raise Violation("probe-zdo", f"node descriptor {r}", list(trace))
            ctx.count("probes")

        for _ in range(rng.randint(10, 25)):
            for _ in range(rng.randint(1, 12)):
                await abuse()
                if rng.random() < 0.2:
                    await asyncio.sleep(rng.choice([0, 0.01, 1, 12]))
            await probe()
        await asyncio.sleep(60)
        await probe()
        ctx.state("device-mix", (len(ready), len(half), no_coord))
        ctx.sample(trace[-1])
        # nothing half-registered stays behind
        for d, _ in ready.values():
            if d._pending:
                raise Violation("pending-left", f"requests still pending: {dict(d._pending)}", list(trace))

    async def traffic_during_request(idx):
        """Garbage while a request is outstanding: it must still complete correctly."""
        rng = ctx.rng("r", idx)
        app = sim.make_app()
        net = sim.SimNet(app, rng)
        ieee = sim.eui(0xC0)
        node = net.add(sim.SimNode(ieee, 0x1234))
        dev = sim.add_ready_device(app, ieee, 0x1234)
        net.latency = lambda: 1.0
        name = f"N{rng.randrange(10**6)}"
        node.attrs[(1, 0)][5] = (0x42, sim.lvstr(name))
        for _ in range(rng.randrange(200)):
            dev.get_sequence()
        task = asyncio.create_task(dev.endpoints[1].basic.read_attributes(["model"]))
        await vloop.settle()
        tsn = int(app.sent[-1][1].tsn)
        for _ in range(rng.randint(5, 60)):
            cluster, profile, se, de, data = garbage(rng)
            if announcement(cluster, se, de, data):
                continue
            # garbage must not be a reply to this very request
            if tsn in (*data[:2], *data[3:4]):
                continue
            try:
                app.packet_received(sim.rx(dev, cluster, data, profile=profile, src_ep=se, dst_ep=de))
            except Exception as e:  # noqa: BLE001
                raise Violation(f"packet_received-raised:{type(e).__name__}", f"{e!r} for cluster {cluster} {se}->{de} {data.hex()}", None) from e
            if task.done():
                raise Violation("request-hijacked", f"{task} completed by {cluster} {se}->{de} {data.hex()} (tsn {tsn})", None)
            ctx.evaluated(("r", cluster, se, de, data))
        ok, bad = await task
        if ok != {"model": name} or bad:
            raise Violation("probe-read", f"read {ok}, {bad}", None)
        ctx.count("requests_under_garbage")

    for k in range(ctx.n(150, 4000)):
        ctx.case(f"h-{k}", lambda: vloop.run(history(k)))
        ctx.case(f"r-{k}", lambda: vloop.run(traffic_during_request(k)))
    ctx.require("probes", 1000)
    ctx.require("requests_under_garbage", 100)
    ctx.require("radio_details_checked", 2000)
    ctx.require("repeats_checked", 500)
