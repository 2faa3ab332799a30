"""R06: outgoing packets carry the right addressing, options and priority."""

from __future__ import annotations

import asyncio

from harness import gen, sim, vloop
from harness.core import Violation

import zigpy.config as conf
import zigpy.device
import zigpy.types as t
import zigpy.zcl
import zigpy.zdo
from zigpy.zcl import foundation as f
import zigpy.zdo.types as z

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: every packet handed to the radio stand-in is captured and each field compared "
    "with an expectation computed from the call and configuration alone"
)
NOTE = (
    "Random calls through every layer (application, device, endpoint, cluster, ZDO, group, broadcast) with "
    "random options, relay reports, source routing on and off, ZHA/ZLL/other profiles, sleepy and unknown "
    "devices, failing and slow radios, and bursts of concurrent calls."
)
RULE = "One evaluation is one captured packet; non-trivial: distinct (call path, option combination)."
P = t.PacketPriority


def relays_model(reported):
    out = []
    for r in reported:
        if r != 0 and r not in out:
            out.append(r)
    return out


def run(ctx):
    async def history(idx):
        rng = ctx.rng(idx)
        srcroute = rng.random() < 0.5
        app = sim.make_app(**{conf.CONF_SOURCE_ROUTING: srcroute})
        own = rng.choice([0x0000, 0x0000, 0x1ABC])
        if own:
            app.state.node_info.nwk = t.NWK(own)
            app._device.nwk = t.NWK(own)
        devs, relays = [], {}
        for k in range(rng.randint(1, 4)):
            prof = rng.choice([0x0104, 0x0104, 0xC05E, 0xC0DE])
            d = sim.add_ready_device(
                app, sim.eui(0xC00 + rng.randrange(1 << 40) * 16 + k), 0x1400 + k,
                endpoints={e: (prof, 0x0100, [0, 4, 6, 8, 0x1000], [0x19]) for e in rng.sample(range(1, 241), 2)},
                logical=rng.choice([z.LogicalType.Router, z.LogicalType.EndDevice]),
            )  # fmt: skip
            if rng.random() < 0.15:
                d.node_desc = None
            d._prof = prof
            if rng.random() < 0.5:
                any(d.get_sequence() == 250 for _ in range(300))
            d._concurrent_requests_semaphore.max_value = 64
            devs.append(d)
            relays[d] = None
        expected = []  # (description, dict)
        fails = []

        async def on_send(pkt):
            if fails and rng.random() < fails[0]:
                raise RuntimeError("radio")

        app.on_send = on_send

        def report_relays(d):
            r = [rng.choice([0, 0x1400, 0x2001, 0x2002, 0x2003, rng.randrange(0xFFF8)]) for _ in range(rng.randrange(8))]
            app.handle_relays(d.nwk, [t.NWK(x) for x in r])
            relays[d] = relays_model(r)
            if list(d.relays) != relays[d]:
                raise Violation("relays", f"reported {r}, recorded {d.relays}")
            ctx.count("relay_reports")

        def clear_relays(d):
            d.relays = None
            relays[d] = None

        def options():
            o = {}
            if rng.random() < 0.5:
                o["expect_reply"] = rng.random() < 0.5
            if rng.random() < 0.5:
                o["ask_for_ack"] = rng.choice([True, False, None])
            if rng.random() < 0.4:
                o["use_ieee"] = rng.random() < 0.6
            if rng.random() < 0.5:
                o["priority"] = rng.choice([P.LOW, P.NORMAL, P.HIGH, P.CRITICAL, 7, -3])
            return o

        def unicast(d, o, default_reply=True, **kw):
            er = o.get("expect_reply", default_reply)
            ack = o.get("ask_for_ack")
            ieee = o.get("use_ieee", False)
            return {
                "dst": ("IEEE", d.ieee) if ieee else ("NWK", int(d.nwk)),
                "src": ("IEEE", app.state.node_info.ieee) if ieee else ("NWK", own),
                "route": list(reversed(relays[d])) if srcroute and relays[d] is not None else None,
                "ack": ack if ack is not None else not er,
                "ext": bool(er and (d.node_desc is None or d.node_desc.logical_type == 2)),
                "prio": o.get("priority", 0),
                "radius": 0,
                **kw,
            }

        async def one():
            d = rng.choice(devs)
            o = options()
            path = rng.choice(["app", "device", "reply", "endpoint", "epreply", "command", "client", "general", "defrsp", "zdo", "zdoreply",
                               "group", "mrequest", "bcast", "appbcast", "devbcast"])  # fmt: skip
            eid = rng.choice([e for e in d.endpoints if e])
            ep = d.endpoints[eid]
            data = rng.randbytes(rng.randrange(1, 30))
            tsn, cl, prof = rng.randrange(256), rng.randrange(65536), rng.randrange(65536)
            zprof = lambda c, cmd: 0x0104 if d._prof == 0xC05E and not (c == 0x1000 and cmd < 0x40) else d._prof  # noqa: E731
            if path == "app":
                er = o.get("expect_reply", True)
                ext = rng.random() < 0.5
                se, de = rng.randrange(255), rng.randrange(255)
                e = unicast(d, o, profile=prof, cluster=cl, src_ep=se, dst_ep=de, tsn=tsn, data=data)
                e["ext"] = ext
                co = lambda: app.request(d, prof, cl, se, de, tsn, data, extended_timeout=ext, **o)  # noqa: E731
            elif path in ("device", "reply"):
                se, de = rng.randrange(255), rng.randrange(255)
                e = unicast(d, o, path == "device", profile=prof, cluster=cl, src_ep=se, dst_ep=de, tsn=tsn, data=data)
                co = lambda: getattr(d, {"device": "request"}.get(path, path))(prof, cl, se, de, tsn, data, **o)  # noqa: E731
            elif path in ("endpoint", "epreply"):
                cid = rng.choice([0, 6, 0x1000, 0x1000])
                cmd = rng.choice([0, 0x3F, 0x40, 0x41, 0xFF])
                e = unicast(d, o, path == "endpoint", profile=zprof(cid, cmd), cluster=cid, src_ep=eid, dst_ep=eid, tsn=tsn, data=data)
                co = lambda: getattr(ep, {"endpoint": "request", "epreply": "reply"}[path])(cid, tsn, data, command_id=cmd, **o)  # noqa: E731
            elif path in ("command", "client", "general", "defrsp"):
                man = rng.choice([None, None, 0x115F])
                give = rng.random() < 0.5
                o2 = dict(o, manufacturer=man) if man else dict(o)
                if give:
                    o2["tsn"] = tsn
                exp_tsn = tsn if give else None
                if path == "command":
                    c = ep.in_clusters[6]
                    body, cmd, gen_, dd = b"\x01" + sim.u16(5) + sim.u16(6), 0x42, False, False
                    e = unicast(d, o, profile=zprof(6, cmd), cluster=6)
                    co = lambda: c.on_with_timed_off(1, 5, 6, **o2)  # noqa: E731
                    s2c = False
                elif path == "client":
                    c = ep.out_clusters[0x19]
                    body, cmd, gen_, dd, s2c = b"\x98", 2, False, True, True
                    if rng.random() < 0.5:
                        c = ep.in_clusters[4]
                        body, cmd, s2c = b"\x00" + sim.u16(9), 0, False
                        e = unicast(d, o, False, profile=zprof(4, cmd), cluster=4)
                        co = lambda: c.client_command(0, 0, 9, **o2)  # noqa: E731
                    else:
                        e = unicast(d, o, False, profile=zprof(0x19, cmd), cluster=0x19)
                        co = lambda: c.client_command(2, 0x98, **o2)  # noqa: E731
                elif path == "general":
                    c = ep.in_clusters[8]
                    body, cmd, gen_, dd, s2c = sim.u16(0x11) + sim.u16(0x12), 0, True, False, False
                    e = unicast(d, o, profile=zprof(8, cmd), cluster=8)
                    co = lambda: c.general_command(0, [0x11, 0x12], **o2)  # noqa: E731
                else:
                    c = ep.in_clusters[8]
                    body, cmd, gen_, dd, s2c = b"\x05\x86", 0x0B, True, True, False
                    o2.pop("expect_reply", None)
                    o = dict(o)
                    o.pop("expect_reply", None)
                    e = unicast(d, o, False, profile=zprof(8, cmd), cluster=8)
                    co = lambda: c.general_command(0x0B, 5, 0x86, **o2)  # noqa: E731
                e.update(src_ep=eid, dst_ep=eid, tsn=exp_tsn, zcl=(not gen_, man, s2c, dd, cmd, body))
            elif path in ("zdo", "zdoreply"):
                arg = rng.randrange(65536)
                if path == "zdo":
                    e = unicast(d, o, True, profile=0, cluster=0x0005, src_ep=0, dst_ep=0, tsn=None, zdo=sim.u16(arg))
                    co = lambda: d.zdo.Active_EP_req(arg, **o)  # noqa: E731
                else:
                    e = unicast(d, o, False, profile=0, cluster=0x8005, src_ep=0, dst_ep=0, tsn=tsn, zdo=b"\0" + sim.u16(arg) + b"\1\7")
                    co = lambda: d.zdo.Active_EP_rsp(0, arg, [7], tsn=tsn, **o)  # noqa: E731
            elif path == "group":
                gid = rng.randrange(1, 0xFFF8)
                g = app.groups.add_group(gid)
                lv = rng.randrange(256)
                kw = {}
                if rng.random() < 0.3:
                    kw["priority"] = rng.choice([P.LOW, P.HIGH, P.CRITICAL])
                e = dict(dst=("Group", gid), tsn=None, profile=0x0104, cluster=8, src_ep=1, radius=0, nonmember=3, ack=False, ext=False, route=None,
                         prio=kw.get("priority", 0), zcl=(True, None, False, False, 0, bytes([lv]) + sim.u16(4)), data=None, group=True)  # fmt: skip
                how = rng.randrange(3)
                if rng.random() < 0.3:  # about to wrap around
                    any(g.get_sequence() == 255 for _ in range(300))
                co = lambda: (g.endpoint[8] if how == 0 else g.endpoint.level).move_to_level(lv, 4, **kw)  # noqa: E731
                o = kw
            elif path == "mrequest":
                gid, hops, nm = rng.randrange(65536), rng.randrange(31), rng.randrange(8)
                pr = rng.choice([0, 1, 2])
                e = dict(dst=("Group", gid), src=("NWK", own), tsn=tsn, profile=prof, cluster=cl, src_ep=3, radius=hops, nonmember=nm, ack=False, ext=False, route=None, prio=pr, data=data)
                co = lambda: app.mrequest(gid, prof, cl, 3, tsn, data, hops=hops, non_member_radius=nm, priority=pr)  # noqa: E731
                o = {"prio": pr}
            else:
                ba = rng.choice(list(t.BroadcastAddress))
                radius = rng.randrange(31)
                e = dict(dst=("Broadcast", int(ba)), src=("NWK", own), radius=radius, ack=False, ext=False, route=None, prio=0)
                if path == "bcast":
                    nwk = rng.randrange(65536)
                    if rng.random() < 0.3:  # about to wrap around
                        any(app.get_sequence() == 255 for _ in range(300))
                    e.update(profile=0, cluster=1, src_ep=0, dst_ep=0, tsn=None, zdo=sim.u16(nwk) + b"\0\0")
                    co = lambda: zigpy.zdo.broadcast(app, z.ZDOCmd.IEEE_addr_req, None, radius, NWKAddrOfInterest=nwk, RequestType=0, StartIndex=0, broadcast_address=ba)  # noqa: E731
                elif path == "devbcast":
                    e.update(profile=prof, cluster=cl, src_ep=4, dst_ep=9, tsn=tsn, data=data)
                    co = lambda: zigpy.device.broadcast(app, prof, cl, 4, 9, None, radius, tsn, data, broadcast_address=ba)  # noqa: E731
                else:
                    pr = rng.choice([0, 1, 2])
                    e.update(profile=prof, cluster=cl, src_ep=4, dst_ep=9, tsn=tsn, data=data, prio=pr)
                    co = lambda: app.broadcast(prof, cl, 4, 9, None, radius, tsn, data, broadcast_address=ba, priority=pr)  # noqa: E731
                o = {"ba": int(ba)}
            return path, o, e, co

        def check(path, o, e, pkt, when):
            def bad(key, got, want):
                raise Violation(f"{'group-priority' if e.get('group') and key == 'priority' else key}", f"{path} {o}: {key} {got!r}, expected {want!r}", pkt)

            dst = pkt.dst
            got = (dst.addr_mode.name, dst.address if dst.addr_mode == t.AddrMode.IEEE else int(dst.address))
            if got != e["dst"]:
                bad("destination", got, e["dst"])
            if "src" in e:
                got = None if pkt.src is None else (pkt.src.addr_mode.name, pkt.src.address if pkt.src.addr_mode == t.AddrMode.IEEE else int(pkt.src.address))
                if got != e["src"]:
                    bad("source", got, e["src"])
            for k, attr in (("profile", "profile_id"), ("cluster", "cluster_id"), ("src_ep", "src_ep"), ("dst_ep", "dst_ep"), ("radius", "radius"), ("nonmember", "non_member_radius")):
                if k in e and int(getattr(pkt, attr)) != e[k]:
                    bad(k, getattr(pkt, attr), e[k])
            if e["tsn"] is not None and pkt.tsn != e["tsn"]:
                bad("tsn", pkt.tsn, e["tsn"])
            if pkt.tx_options != (t.TransmitOptions.ACK if e["ack"] else t.TransmitOptions.NONE):
                bad("options", pkt.tx_options, f"ack={e['ack']}")
            if bool(pkt.extended_timeout) != e["ext"]:
                bad("extended-timeout", pkt.extended_timeout, e["ext"])
            route = None if pkt.source_route is None else [int(x) for x in pkt.source_route]
            if route != e["route"]:
                bad("source-route", route, e["route"])
            raw = pkt.data.serialize()
            if e.get("data") is not None and raw != e["data"]:
                bad("payload", raw, e["data"])
            if "zdo" in e and raw != bytes([pkt.tsn]) + e["zdo"]:
                bad("payload", raw, e["zdo"])
            if "zcl" in e:
                cluster, man, s2c, dd, cmd, body = e["zcl"]
                h = sim.parse_zcl(raw)
                want = (cluster, man, s2c, dd, cmd, body, int(pkt.tsn))
                got = (h["cluster"], h["manuf"], h["s2c"], h["disable_default"], h["cmd"], h["payload"], h["tsn"])
                if got != want:
                    bad("payload", got, want)
            if int(pkt.priority or 0) != int(e["prio"]):
                # judged last: the other fields are checked even where this one is a known finding
                bad("priority", pkt.priority, e["prio"])

        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            if r < 0.3:
                report_relays(rng.choice(devs))
            elif r < 0.35:
                clear_relays(rng.choice(devs))
            fails[:] = [1.0] if rng.random() < 0.1 else []
            burst = 1 if rng.random() < 0.7 else rng.randint(2, 5)
            batch = []
            for _ in range(burst):
                batch.append(await one())
            # replay-safe: distinct transaction numbers per device are not needed as nobody answers
            n0 = len(app.sent)
            tasks = [asyncio.ensure_future(co()) for _, _, _, co in batch]
            await vloop.settle(40)
            sent = [p for _, p in app.sent[n0:]]
            dup = [i for i, x in enumerate(tasks) if x.done() and not x.cancelled() and type(x.exception()).__name__ == "ControllerException"]
            live = [b for i, b in enumerate(batch) if i not in dup]
            if len(sent) != len(live):
                raise Violation("packet-count", f"{[(b[0], b[1]) for b in live]}: {len(sent)} packets for {len(live)} calls: {[repr(x) for x in tasks]}", sent)
            for (path, o, e, _), pkt in zip(live, sent):
                try:
                    check(path, o, e, pkt, None)
                except Violation as v:
                    if v.key not in ctx.known:
                        raise
                    ctx.violation(v.key, v.msg, v.witness)
                ctx.count(f"path_{path}")
                ctx.count("packets")
                if e["route"]:
                    ctx.count("source_routed")
                ctx.evaluated((path, tuple(sorted((k, str(v)) for k, v in o.items())), e["route"] is not None, e["ext"], srcroute))
            if fails:
                for task in [x for i, x in enumerate(tasks) if i not in dup]:
                    if not task.done() or not isinstance(task.exception(), RuntimeError):
                        raise Violation("radio-failure", f"radio failure not reported: {task}")
                ctx.count("radio_failures", len(sent))
            for x in tasks:
                x.cancel()
            await asyncio.wait(tasks)
            await asyncio.sleep(1)
            if len(app.sent) != n0 + len(sent):
                raise Violation("packet-count", "extra packets were sent afterwards", app.sent[n0:])
        ctx.count("histories")

    async def order(idx):
        """Requests queued behind a busy device leave in priority order."""
        rng = ctx.rng("order", idx)
        app = sim.make_app()
        d = sim.add_ready_device(app, sim.eui(0xC77), 0x1500)
        gate = asyncio.Event()
        first = [True]

        async def on_send(pkt):
            if first[0]:
                first[0] = False
                await gate.wait()

        app.on_send = on_send
        tasks = [asyncio.create_task(d.request(0x0104, 6, 1, 1, 200, b"\0\0\0", expect_reply=False))]
        await vloop.settle(4)
        prios = [rng.choice([-1, 0, 1, 2, 5]) for _ in range(rng.randint(2, 12))]
        for i, p in enumerate(prios):
            tasks.append(asyncio.create_task(d.request(0x0104, 6, 1, 1, i, b"\0\0\0", expect_reply=False, priority=p)))
            await vloop.settle(3)
        gate.set()
        await asyncio.wait(tasks)
        got = [int(p.tsn) for _, p in app.sent[1:]]
        want = [i for i, _ in sorted(enumerate(prios), key=lambda x: (-x[1], x[0]))]
        if got != want:
            raise Violation("priority-order", f"priorities {prios}: sent {got}, expected {want}")
        ctx.count("ordered_bursts")
        ctx.evaluated(("order", tuple(prios)))

    async def group_clusters(k):
        """Commands to a group through its cluster of any kind."""
        rng = ctx.rng("groups", k)
        app = sim.make_app()
        ends = {}
        app.get_endpoint_id = lambda cluster_id, is_server_cluster=False: ends.setdefault((int(cluster_id), is_server_cluster), rng.randrange(1, 240))
        gid = rng.randrange(1, 0xFFF8)
        g = app.groups.add_group(gid)
        other = app.groups.add_group(gid + 1 if gid < 0xFFF7 else 1)
        for _ in range(30):
            cid = rng.choice(list(classes)) if rng.random() < 0.85 else rng.choice([0x0B7F, 0xFC12, 0x7777, 0xFFFF])
            named = rng.random() < 0.4
            if cid not in classes:
                name = "no_such_cluster"
                for get, exc in ((lambda: g.endpoint[cid], KeyError), (lambda: getattr(g.endpoint, name), AttributeError)):
                    try:
                        got = get()
                    except exc:
                        ctx.count("group_clusters_refused")
                    else:
                        raise Violation("group-cluster", f"the group has a cluster {cid:#06x}: {got}")
                continue
            cls = classes[cid]
            if named and cls.ep_attribute and sum(c.ep_attribute == cls.ep_attribute for c in classes.values()) == 1:
                get = lambda: getattr(g.endpoint, cls.ep_attribute)  # noqa: E731
            else:
                get = lambda: g.endpoint[cid]  # noqa: E731
            c = get()
            if type(c) is not cls or int(c.cluster_id) != cid or not c.is_server or c.is_client or get() is not c:
                raise Violation("group-cluster", f"cluster {cid:#06x} of the group is {c}, another one the next time: {get() is not c}")
            if c.endpoint.device is not g or other.endpoint[cid] is c:
                raise Violation("group-cluster", f"cluster {cid:#06x} belongs to {c.endpoint.device}")
            if not c.server_commands:
                continue
            cmd = rng.choice(list(c.server_commands.values()))
            try:
                req, enc = gen.build_struct(cmd.schema, rng)
            except gen.Unsupported:
                continue
            args = list(req.as_tuple())
            while args and args[-1] is None:
                args.pop()
            man = rng.choice([None, None, 0x115F, 0x1001])
            kw = {} if man is None else {"manufacturer": man}
            seq = rng.choice([None, rng.randrange(256)])
            if seq is not None:
                kw["tsn"] = seq
            app.sent.clear()
            res = await c.command(cmd.id, *args, **kw)
            if len(app.sent) != 1:
                raise Violation("count", f"group command {cmd.name}: {len(app.sent)} packets")
            pkt = app.sent[0][1]
            data = pkt.data.serialize()
            h = sim.parse_zcl(data)
            want = {
                "destination": ("Group", gid), "cluster": cid, "profile": 0x0104, "endpoint": ends.get((cid, False)), "tsn": h["tsn"] if seq is None else seq,
                "header": (1, man, False, int(cmd.id)), "payload": enc, "member radius": 3,
            }  # fmt: skip
            got = {
                "destination": (pkt.dst.addr_mode.name, int(pkt.dst.address)), "cluster": int(pkt.cluster_id), "profile": int(pkt.profile_id), "endpoint": pkt.src_ep,
                "tsn": int(pkt.tsn) if int(pkt.tsn) == h["tsn"] else (int(pkt.tsn), h["tsn"]), "header": (h["type"], h["manuf"], h["s2c"], h["cmd"]), "payload": h["payload"],
                "member radius": pkt.non_member_radius,
            }  # fmt: skip
            diff = {x: (got[x], want[x]) for x in want if got[x] != want[x]}
            if diff:
                raise Violation("group-frame", f"{cmd.name} to group {gid}: {diff}", data)
            if int(res.status) != 0 or int(res.command_id) != int(cmd.id):
                raise Violation("group-result", f"{cmd.name} (0x{int(cmd.id):02x}, manufacturer {man}) to a group reports {res}", data)
            ctx.count("group_commands")
            ctx.evaluated(("group", cid, int(cmd.id), man is None))

    classes = {int(i): c for i, c in zigpy.zcl.Cluster._registry.items()}
    for k in range(ctx.n(300, 5000)):
        ctx.case(f"groups-{k}", lambda: vloop.run(group_clusters(k)))
    ctx.require("group_commands", 1000)
    ctx.require("group_clusters_refused", 200)
    for k in range(ctx.n(700, 25000)):
        ctx.case(k, lambda: vloop.run(history(k)))
    for k in range(ctx.n(100, 2000)):
        ctx.case(f"order-{k}", lambda: vloop.run(order(k)))
    for n, m in [("packets", 5000), ("source_routed", 200), ("relay_reports", 500), ("radio_failures", 200), ("ordered_bursts", 80),
                 *[(f"path_{p}", 150) for p in ("app", "device", "reply", "endpoint", "epreply", "command", "client", "general", "defrsp", "zdo", "zdoreply", "group", "mrequest", "bcast", "appbcast", "devbcast")]]:  # fmt: skip
        ctx.require(n, m)
