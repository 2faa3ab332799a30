"""R09: every received command reaches its cluster and listeners exactly once, as received."""

from __future__ import annotations

import asyncio
import contextlib

from harness import sim, vloop
from harness.core import Violation

import zigpy.device
import zigpy.listeners
import zigpy.quirks
import zigpy.types as t
import zigpy.zcl
from zigpy.zcl import foundation as f
import zigpy.zdo.types as z

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: an online model of the dispatch rules predicts, for each injected packet, the complete ordered "
    "list of events at every application, device, endpoint, cluster and ZDO listener; recorded events are compared with it"
)
NOTE = (
    "Random cluster commands, general commands, reports, ZDO messages, unknown commands and undecodable packets, sent by unicast, "
    "broadcast and to groups, by network or IEEE address, through the current and the deprecated entry points, repeated inside and "
    "after the duplicate window, from interviewed and half-interviewed devices, generic and with quirks, some answering requests."
)
RULE = "One evaluation is one injected packet whose events are predicted; non-trivial: distinct (kind, device stage, addressing, entry point, outcome)."
ASSUMPTIONS = ["listeners do not inject further packets while one is delivered"]


class Rec:
    """Records every event of one component."""

    def __init__(self, log, where):
        self.log, self.where = log, where

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a: self.log.append((self.where, name, *a))


class QuirkOnOff(zigpy.quirks.CustomCluster, zigpy.zcl.clusters.general.OnOff):
    """A quirk's cluster with its own handlers."""

    cluster_id = 0x0006

    def handle_cluster_request(self, hdr, args, *, dst_addressing=None):
        self.quirk_log.append((self.quirk_where, "quirk_request", hdr.tsn, hdr.command_id, args, dst_addressing))
        super().handle_cluster_request(hdr, args, dst_addressing=dst_addressing)

    def handle_cluster_general_request(self, hdr, args, *, dst_addressing=None):
        self.quirk_log.append((self.quirk_where, "quirk_general", hdr.tsn, hdr.command_id, args, dst_addressing))
        super().handle_cluster_general_request(hdr, args, dst_addressing=dst_addressing)


class Rewriting(zigpy.device.Device):
    """A device class that decodes packets its own way."""

    def deserialize(self, endpoint_id, cluster_id, data):
        if cluster_id == 0x0008 and data[-1:] == b"\xee":
            data = data[:-1] + b"\x11"
        return self.endpoints[endpoint_id].deserialize(cluster_id, data)


class Early:
    """A handler a quirk library registers for messages of devices that are not set up yet."""

    hist = {}

    def __init__(self, n):
        self.n = n

    def __call__(self, sender, profile, cluster, src_ep, dst_ep, message):
        how = Early.hist.get(self.n)
        if how is None:
            return False
        Early.hist["log"].append(("early", self.n, sender, profile, cluster, src_ep, dst_ep, message))
        if how == "setup":
            sender.node_desc = sim.node_desc(z.LogicalType.EndDevice)
            for ep in sender.non_zdo_endpoints:
                ep.status = zigpy.endpoint.Status.ZDO_INIT
            if not sender.non_zdo_endpoints:
                sender.add_endpoint(1).status = zigpy.endpoint.Status.ZDO_INIT
            sender.status = zigpy.device.Status.ENDPOINTS_INIT
        return how != "pass" and (True if how == "setup" else how)


EARLY = [Early(n) for n in range(4)]


def run(ctx):
    for h in (*EARLY, EARLY[2], EARLY[0]):
        zigpy.quirks.register_uninitialized_device_message_handler(h)

    async def history(idx):
        rng = ctx.rng(idx)
        app = sim.make_app()
        log = []
        Early.hist = {"log": log}
        for n in range(len(EARLY)):
            if rng.random() < 0.5:
                Early.hist[n] = rng.choice(["pass", "pass", True, "yes", 1, "setup"])
        app.add_listener(Rec(log, "app"))
        devs = []
        stages = {}
        for k in range(rng.randint(1, 4)):
            ieee, nwk = sim.eui(0xC100 + k), 0x3100 + k
            stage = rng.choice(["ready", "ready", "ready", "no-desc", "no-eps", "new-eps", "some-eps"])
            ins = sorted({0, *rng.sample([3, 4, 5, 6, 8, 0x0402, 0x0500, 0xFC77], 4)})
            outs = sorted({6, *rng.sample([0x000A, 8, 5, 0x0501], 2)})
            eps = {e: (rng.choice([0x0104, 0x0104, 0xC05E, 0x7777]), 0x100, ins, outs) for e in rng.sample([1, 2, 11, 200, 242], rng.randint(1, 2))}
            if rng.random() < 0.2:
                app.devices[ieee] = Rewriting(app, ieee, t.NWK(nwk))
            d = sim.add_ready_device(app, ieee, nwk, endpoints=eps) if ieee not in app.devices else None
            if d is None:
                d = app.devices[ieee]
                d.node_desc = sim.node_desc(z.LogicalType.Router)
                for e, (prof, dt, i, o) in eps.items():
                    ep = d.add_endpoint(e)
                    ep.profile_id, ep.device_type, ep.status = prof, dt, 1
                    for c in i:
                        ep.add_input_cluster(c)
                    for c in o:
                        ep.add_output_cluster(c)
                d.status = 2
            if stage == "no-desc":
                d.node_desc = None
            elif stage == "no-eps":
                d.node_desc = None
                for e in list(d.endpoints):
                    if e:
                        d.endpoints.pop(e)
            elif stage in ("new-eps", "some-eps"):
                for e in d.non_zdo_endpoints[: None if stage == "new-eps" else 1]:
                    e.status = zigpy.endpoint.Status.NEW
            if stage != "ready":
                d.status = zigpy.device.Status.NEW
            stages[d] = stage
            d.add_listener(Rec(log, ("dev", k)))
            d.zdo.add_listener(Rec(log, ("zdo", k)))
            for ep in d.non_zdo_endpoints:
                if rng.random() < 0.4 and 6 in ep.in_clusters:
                    ep.in_clusters.pop(6)
                    q = QuirkOnOff(ep, is_server=True)
                    ep.add_input_cluster(6, q)
                    q.quirk_log, q.quirk_where = log, ("cl", k, ep.endpoint_id, "in", 6)
                ep.add_listener(Rec(log, ("ep", k, ep.endpoint_id)))
                for side, cls in (("in", ep.in_clusters), ("out", ep.out_clusters)):
                    for c, cl in cls.items():
                        cl.add_listener(Rec(log, ("cl", k, ep.endpoint_id, side, int(c))))
            devs.append(d)
        app.sent.clear()
        trace = []
        recent = {}  # what the duplicate filter remembers
        uniq = [rng.randrange(1 << 16)]

        def zcl_packet(d, ep):
            """(kind, cluster, data, body kept as arguments, cluster frame?, command, known?)"""
            uniq[0] += 1
            u = uniq[0] & 0xFFFF
            ids = sorted(set(ep.in_clusters) | set(ep.out_clusters))
            kind = rng.choice(["cluster", "cluster", "cluster", "report", "report", "read", "general", "unknown", "unknown-general", "short", "elsewhere"])
            s2c = rng.random() < 0.5
            manuf = rng.choice([None, None, None, 0x115F])
            free = [x for x in range(256) if x not in d._pending]
            tsn = rng.choice(free)
            hd = lambda cmd, cluster, s=None: sim.zcl_hdr(tsn, cmd, cluster=cluster, manuf=manuf, s2c=s2c if s is None else s, disable_default=rng.random() < 0.7)  # noqa: E731
            cid = rng.choice(ids)
            x = {"kind": kind, "tsn": tsn, "args": None, "attrs": [], "manuf": manuf, "cmd": None, "cluster": False}
            if kind == "cluster":
                menu = {
                    3: [(0, False, sim.u16(u)), (0, True, sim.u16(u))],
                    4: [(1, False, sim.u16(u)), (0, True, bytes([0]) + sim.u16(u))],
                    5: [(3, False, sim.u16(u)), (5, False, sim.u16(u) + b"\x01")],
                    6: [(0, False, b""), (1, False, b""), (2, False, b""), (0x42, False, b"\x00" + sim.u16(u) + sim.u16(5))],
                    8: [(0, False, b"\x20" + sim.u16(u)), (4, False, b"\x30" + sim.u16(u)), (5, False, bytes([u & 1, u & 0xFF]))],
                    0x500: [(0, True, sim.u16(u) + b"\x00\x01" + sim.u16(3)), (1, True, sim.u16(u) + b"\x34\x12")],
                    0x501: [(2, False, b"")],
                }
                have = [c for c in ids if c in menu]
                if not have:
                    return None
                cid = rng.choice(have)
                cmd, s, body = rng.choice(menu[cid])
                if int(cid) == 8 and cmd == 0 and rng.random() < 0.5:
                    body = body[:-1] + b"\xee"
                x.update(cmd=cmd, cluster=True, args=body)
                data = hd(cmd, True, s) + body
                if int(cid) == 8 and body.endswith(b"\xee") and isinstance(d, Rewriting):
                    x["args"] = body[:-1] + b"\x11"
            elif kind == "report":
                recs = [(0xE000 + rng.randrange(6), rng.randrange(1 << 32)) for _ in range(rng.choice([1, 1, 2, 3]))]
                body = b"".join(sim.u16(a) + b"\x23" + sim.u32(v) for a, v in recs)
                x.update(cmd=0x0A, args=body, attrs=recs)
                data = hd(0x0A, False, True) + body
            elif kind == "read":
                body = sim.u16(0xE000 + rng.randrange(6)) + sim.u16(u)
                x.update(cmd=0x00, args=body)
                data = hd(0x00, False, False) + body
            elif kind == "general":
                cmd, body = rng.choice([(0x01, sim.u16(u) + b"\x86"), (0x0B, bytes([u & 0xFF, 0])), (0x04, b"\x86" + sim.u16(u)), (0x0C, sim.u16(u) + b"\x05"), (0x02, sim.u16(u) + b"\x20\x05")])
                x.update(cmd=cmd, args=body)
                data = hd(cmd, False) + body
            elif kind == "unknown":
                cmd, body = rng.choice([0x77, 0xEE, 0xFB]), sim.u16(u) + rng.randbytes(rng.randrange(4))
                x.update(cmd=cmd, cluster=True, args=body)
                data = hd(cmd, True) + body
            elif kind == "unknown-general":
                cmd, body = rng.choice([0x30, 0x77, 0xFE]), sim.u16(u)
                x.update(cmd=cmd, args=body)
                data = hd(cmd, False) + body
            elif kind == "short":
                data = rng.choice([hd(0x0A, False, True) + b"\x05\x00\x23" + sim.u16(u), hd(0x00, False, False) + sim.u16(u) + b"\x05", hd(0x0B, False) + b"\x01", hd(1, False)[:2], b"", b"\x04\x5f\x11"])
            else:
                cid = 0x0B04
                data = hd(0x0A, False, True) + sim.u16(u) + b"\x20\x05"
            return cid, data, x

        def zdo_packet(d):
            uniq[0] += 1
            u = uniq[0] & 0xFFFF
            tsn = rng.choice([x for x in range(256) if x not in d._pending])
            me = d.ieee.serialize()
            name, cid, body = rng.choice([
                ("node_desc_req", 0x0002, sim.u16(u)),
                ("nwk_addr_req", 0x0000, sim.eui(0x1234500000 + u).serialize() + b"\x00\x00"),
                ("ieee_addr_req", 0x0001, sim.u16(u) + b"\x00\x00"),
                ("device_annce", 0x0013, sim.u16(d.nwk) + me + bytes([u & 0xFF])),
                ("mgmt_permit_joining_req", 0x0036, bytes([u & 0xFF, 0])),
                ("mgmt_lqi_req", 0x0031, bytes([u & 0xFF])),
                ("match_desc_req", 0x0006, sim.u16(u) + sim.u16(0x0104) + b"\x01\x19\x00\x00"),
                ("active_ep_rsp", 0x8005, b"\x00" + sim.u16(u) + b"\x01\x01"),
                ("bind_rsp", 0x8021, bytes([u & 0xFF])),
                (None, 0x0002, b"\x01"),
                (None, 0x7F00, sim.u16(u)),
            ])  # fmt: skip
            x = {"kind": "zdo" if name else "zdo-bad", "tsn": tsn, "args": body if name else None, "name": name, "cmd": cid}
            return cid, bytes([tsn]) + body, x

        def raw(args):
            """Arguments as bytes again."""
            if isinstance(args, (bytes, bytearray)):
                return bytes(args)
            if isinstance(args, (list, tuple)):
                return b"".join(a.serialize() for a in args if a is not None)
            return args.serialize()

        def reduce(ev):
            """An event with its arguments in comparable form."""
            where, name, *a = ev
            if where == "early":
                dev, prof, cl, se, de, data = a
                return (where, name, devs.index(dev), int(prof), int(cl), int(se), int(de), bytes(data))
            if name == "handle_message":
                dev, prof, cl, se, de, data = a
                return (where, name, devs.index(dev) if dev in devs else dev, int(prof), int(cl), int(se), int(de), bytes(data))
            if name == "cluster_command":
                return (where, name, int(a[0]), int(a[1]), raw(a[2]))
            if name == "general_command":
                h, args = a
                return (where, name, int(h.tsn), int(h.command_id), None if h.manufacturer is None else int(h.manufacturer), raw(args))
            if name == "attribute_updated":
                return (where, name, int(a[0]), int(a[1]))
            if name.startswith("zdo_"):
                dev, mode, h, args = a
                return (where, name, devs.index(dev), mode, int(h.tsn), int(h.command_id), raw(args))
            if name in ("quirk_request", "quirk_general"):
                return (where, name, int(a[0]), int(a[1]), raw(a[2]), a[3])
            if name == "device_announce":
                return (where, name, devs.index(a[0]))
            if name == "permit_duration":
                return (where, name, int(a[0]))
            return (where, name)

        def deliver(entry, pkt, d, prof, cid, se, de, data, mode, x):
            try:
                if entry == "packet":
                    app.packet_received(pkt)
                elif entry == "app":
                    app.handle_message(d, prof, cid, se, de, data)
                else:
                    d.handle_message(prof, cid, se, de, data, dst_addressing=mode if mode == t.AddrMode.IEEE or rng.random() < 0.5 else None)
            except Exception as e:  # noqa: BLE001
                raise Violation("raised", f"{x['kind']} packet: {type(e).__name__}: {e}", trace[-10:]) from e

        def inject():
            k = rng.randrange(len(devs))
            d = devs[k]
            eps = d.non_zdo_endpoints
            is_zdo = rng.random() < 0.3 or not eps
            if is_zdo:
                cid, data, x = zdo_packet(d)
                ep, se, de, prof = None, 0, 0, 0
            else:
                ep = rng.choice(eps)
                r = zcl_packet(d, ep)
                if r is None:
                    return
                cid, data, x = r
                if isinstance(d, Rewriting) and cid == 8 and x["kind"] != "cluster" and data.endswith(b"\xee"):
                    return
                se, prof = ep.endpoint_id, 0x0104 if ep.profile_id == 0xC05E else ep.profile_id
                de = rng.choice([se, 1, 0xFF])
                if rng.random() < 0.05:
                    se = 0x33  # an endpoint the device does not have
            entry = rng.choice(["packet", "packet", "packet", "packet", "app", "device"])
            dst = rng.choice([
                t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)),
                t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=t.Group(rng.choice([1, 0x4000]))),
                t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.ALL_DEVICES),
                t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=app.state.node_info.ieee),
            ])  # fmt: skip
            src_mode = rng.choice([None, "ieee"])
            pkt = sim.rx(d, cid, data, profile=prof, src_ep=se, dst_ep=de, tsn=x["tsn"], dst=dst, src_mode=src_mode)
            pending = None
            if not is_zdo and x["kind"] == "general" and x["cmd"] in (0x01, 0x0B, 0x04) and rng.random() < 0.4 and hasattr(d, "_pending"):
                pending = d._pending.new(x["tsn"])
                pending.__enter__()
                # an answer travels in the other direction than the request
            again = 1 + (rng.random() < 0.2)
            for rep in range(again):
                mode = dst.addr_mode
                if entry == "app":
                    mode = t.AddrMode.NWK
                elif entry == "device":
                    mode = rng.choice([t.AddrMode.NWK, t.AddrMode.IEEE])
                key = (k, cid, data, prof, se, de, entry, src_mode, str(dst), mode)
                if entry != "packet":
                    key = (k, cid, data, prof, se, de, entry, mode)
                now = asyncio.get_running_loop().time()
                stage_ready = d.is_initialized
                running = d.initializing
                start = len(log)
                # the model
                want = []
                if entry != "device":
                    want.append(("app", "handle_message", k, prof, cid, se, de, data))
                allowed = entry == "device" or stage_ready or de == 0 or d.all_endpoints_init or (d.has_non_zdo_endpoints and cid == 0)
                outcome = "delivered"
                if not allowed:
                    outcome = "withheld"
                    # whoever wants messages of devices not set up yet gets them, until one takes it
                    for n in range(len(EARLY)):
                        if n in Early.hist:
                            want.append(("early", n, k, prof, cid, se, de, data))
                            if Early.hist[n] != "pass":
                                ctx.count("taken_early")
                                break
                elif key in recent and now - recent[key] < 10:
                    outcome = "repeat"
                if allowed:
                    if outcome != "repeat":
                        recent[key] = now
                if outcome == "delivered":
                    if is_zdo:
                        if x["name"] is None:
                            outcome = "undecodable"
                        else:
                            if x["name"] == "device_annce":
                                want.append((("zdo", k), "device_announce", k))
                            if x["name"] == "mgmt_permit_joining_req":
                                want.append((("zdo", k), "permit_duration", x["args"][0]))
                            want.append((("zdo", k), "zdo_" + x["name"], k, mode, x["tsn"], cid, x["args"]))
                    elif se not in d.endpoints or x["kind"] in ("short", "elsewhere"):
                        outcome = "undecodable"
                    elif pending is not None:
                        outcome = "answer"
                    else:
                        side = "in" if cid in ep.in_clusters else "out"
                        where = ("cl", k, se, side, int(cid))
                        cl = (ep.in_clusters if side == "in" else ep.out_clusters)[cid]
                        quirky = isinstance(cl, QuirkOnOff)
                        if x["cluster"]:
                            if quirky:
                                want.append((where, "quirk_request", x["tsn"], x["cmd"], x["args"], mode))
                            want.append((where, "cluster_command", x["tsn"], x["cmd"], x["args"]))
                        else:
                            want.append((where, "general_command", x["tsn"], x["cmd"], x["manuf"], x["args"]))
                            if quirky:
                                want.append((where, "quirk_general", x["tsn"], x["cmd"], x["args"], mode))
                            for a, v in x["attrs"]:
                                want.append((where, "attribute_updated", a, v))
                trace.append((round(now, 2), k, stages[d], entry, x["kind"], hex(cid), se, de, mode.name, data.hex(), outcome))
                with contextlib.ExitStack() as waiters:
                    # whoever waits for the command does not take it from the others
                    if rng.random() < 0.2:
                        waiters.enter_context(app.wait_for_response(rng.choice([d, zigpy.listeners.ANY_DEVICE]), [lambda h, c: True]))
                        ctx.count("with_waiter")
                    if rng.random() < 0.2:
                        waiters.enter_context(app.callback_for_response(d, [lambda h, c: True], lambda h, c: 1 / 0))
                    deliver(entry, pkt, d, prof, cid, se, de, data, mode, x)

                # a message of a device that is not set up has its interview started
                if not stage_ready and entry != "device" and outcome != "answer":
                    if not (d.initializing or d.is_initialized):
                        raise Violation("no-interview", f"{x['kind']} packet of a {stages[d]} device: no interview is running", trace[-8:])
                    if d.is_initialized and not running and d.initializing:
                        raise Violation("needless-interview", "device set up by the handler of its message is interviewed", trace[-8:])
                    if outcome == "withheld" and d.is_initialized and any(e[1] == "device_initialized" for e in log[start:]):
                        raise Violation("announced", "device set up by the handler of its message is announced by the core", trace[-8:])
                    ctx.count("interviews_seen")
                # interviews that the packet starts, joins and the like are other properties' business
                got = [reduce(e) for e in log[start:] if e[1] not in ("device_joined", "device_init_failure", "device_initialized", "raw_device_initialized", "device_left")]
                seen = [e for e in got if e[1] == "device_last_seen_updated"]
                got = [e for e in got if e[1] != "device_last_seen_updated"]
                # an announcement is itself a sign of life
                if (allowed or not is_zdo) and (bool(seen) != allowed or any(e[0] != ("dev", k) for e in seen)):
                    raise Violation("last-seen", f"{seen} for {x['kind']} packet of a {stages[d]} device", trace[-8:])
                ctx.evaluated((x["kind"], stages[d], mode.name, entry, outcome, rep))
                if got != want:
                    raise Violation(
                        f"dispatch-{x['kind']}-{outcome}",
                        f"packet {data.hex()} on cluster 0x{cid:04x} of a {stages[d]} device: events {got}, expected {want}",
                        {"trace": trace[-8:], "got": got, "want": want},
                    )
                if pending is not None and outcome == "answer" and rep == 0:
                    if not pending.result.done():
                        raise Violation("answer-lost", f"request {x['tsn']} still pending", trace[-8:])
                    pending.result.exception()
                ctx.count("packets")
                ctx.count(outcome)
                if x["kind"] == "zdo" and outcome == "delivered":
                    ctx.count("zdo_delivered")
                ctx.count("events", len(want))
                if len(want) > 2 and entry != "packet":
                    ctx.count("deprecated_entry")
                if isinstance(d, Rewriting) and outcome == "delivered" and x["args"] and x["args"].endswith(b"\x11") and cid == 8:
                    ctx.count("rewritten")
            if pending is not None:
                pending.__exit__(None, None, None)

        for _ in range(rng.randint(8, 40)):
            inject()
            if rng.random() < 0.4:
                await asyncio.sleep(rng.choice([0, 0.5, 4, 11]))
        start = len(log)
        await vloop.settle()
        late = [reduce(e)[:2] for e in log[start:] if e[1] in ("cluster_command", "general_command", "attribute_updated") or e[1].startswith("zdo_")]
        if late:
            raise Violation("late", f"events after the packets were handled: {late}", trace[-10:])
        for d in devs:
            d.cancel_initialization()
        if idx < 2:
            ctx.sample(trace[:8])
        ctx.count("histories")

    for i in range(ctx.n(900, 20000)):
        if ctx.stop:
            break
        ctx.case(i, lambda i=i: vloop.run(history(i)))
    for k, m in (("packets", 10000), ("delivered", 5000), ("zdo_delivered", 800), ("repeat", 300), ("withheld", 300), ("undecodable", 800),
                 ("answer", 60), ("deprecated_entry", 400), ("rewritten", 5), ("taken_early", 100), ("interviews_seen", 300)):  # fmt: skip
        ctx.require(k, m)
