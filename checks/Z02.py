"""Z02: incoming reports and reads are answered exactly once and correctly."""

from __future__ import annotations

import asyncio
import datetime
import os
import time

from harness import sim, vloop
from harness.core import Violation

from checks.T03 import SIMPLE, any_value

import zigpy.exceptions
import zigpy.quirks
import zigpy.types as t
import zigpy.zcl
from zigpy.zcl import foundation as f

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: exactly-once checker pairing every packet handed to the radio with the injected frame it "
    "answers; payloads compared with an independent encoder and clock"
)
NOTE = (
    "Random reports, attribute reads, firmware queries, zone changes, responses, other general and cluster commands, truncated and mutated frames, on server "
    "and client clusters of several endpoints and devices, singly, in bursts and while requests are outstanding, with failing "
    "and slow radios, repeated frames and changing time zones."
)
RULE = "One evaluation is one injected frame whose answers are predicted; non-trivial: distinct (frame kind, flags, cluster, outcome)."
ASSUMPTIONS = ["a frame repeated unchanged within the duplicate window is one frame", "only clusters the sending endpoint has are addressed"]
ZB_EPOCH = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc).timestamp()
RESPONSES = [0x01, 0x04, 0x07, 0x09, 0x0B, 0x0D, 0x16]


def served(cluster, attr, lo, hi, off, quirk):
    """(type id, set of acceptable encodings) for the attributes the coordinator serves."""
    if cluster == 0x000A:
        tr = lambda x: {int(v).to_bytes(4, "little") for v in range(int(lo + x), int(hi + x) + 1)}  # noqa: E731
        if attr == 0x0000:
            return 0xE2, tr(0)
        if attr == 0x0001:
            return 0x18, {b"\x07"}
        if attr == 0x0002:
            return 0x2B, {int(off).to_bytes(4, "little", signed=True)}
        if attr == 0x0007:
            return 0x23, tr(off)
    if cluster == 0x0000:
        if attr == 0x0000:
            return 0x20, {b"\x08"}
        if attr == 0x0007:
            return 0x30, {b"\x04"}
    if quirk and cluster == 0x0006 and attr == 0x4001:
        return 0x21, {b"\x34\x12"}
    return None


def run(ctx):
    onoff = zigpy.zcl.Cluster._registry[0x0006]

    class QuirkOnOff(zigpy.quirks.CustomCluster, onoff):
        cluster_id = 0x0006

        def handle_read_attribute_on_time(self):
            return t.uint16_t(0x1234)

    async def history(idx):
        rng = ctx.rng(idx)
        tz = rng.choice(["UTC", "UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "XXX12", "LINT-14"])
        os.environ["TZ"] = tz
        time.tzset()
        app = sim.make_app()
        devs = []
        quirk = rng.random() < 0.3
        for k in range(rng.randint(1, 3)):
            ins = rng.sample([0x0000, 0x0001, 0x0006, 0x0402, 0x0702, 0x0300, 0xFC57, 0x0500], 4)
            outs = rng.sample([0x000A, 0x0019, 0x0006, 0x0000, 0x0005, 0x0500], 3) + [0x000A]
            eps = {e: (rng.choice([0x0104, 0x0104, 0xC05E]), 0x100, ins, sorted(set(outs) - set(ins) | {0x000A})) for e in rng.sample(range(1, 241), 2)}
            d = sim.add_ready_device(app, sim.eui(0xE000 + k), 0x2300 + k, endpoints=eps)
            for ep in d.non_zdo_endpoints:
                if quirk and 0x0006 in ep.in_clusters:
                    ep.in_clusters.pop(6)
                    ep.add_input_cluster(6, QuirkOnOff(ep, is_server=True))
            devs.append(d)
        mode = rng.choice(["ok", "ok", "slow", "failing", "busy"])

        async def on_send(pkt):
            if mode == "slow":
                await asyncio.sleep(rng.choice([0, 0.05, 1]))
            if mode == "failing" and rng.random() < 0.3:
                raise rng.choice([zigpy.exceptions.DeliveryError("no"), RuntimeError("radio"), asyncio.TimeoutError()])

        app.on_send = on_send
        clients = []
        if mode == "busy":
            for d in devs:
                ep = d.non_zdo_endpoints[0]
                for _ in range(rng.randint(1, 6)):
                    c = rng.choice(list(ep.in_clusters.values()))
                    clients.append(asyncio.ensure_future(c.read_attributes([0x0000])))
            await vloop.settle()
        skip = set()
        trace = []
        outstanding = []  # expected answers
        pos = 0
        used = set()

        def frame():
            d = rng.choice(devs)
            ep = rng.choice(d.non_zdo_endpoints)
            server = rng.random() < 0.6
            cid = rng.choice(list(ep.in_clusters if server else ep.out_clusters))
            if cid in ep.in_clusters:
                server = True
            # transaction numbers of outstanding requests are not reused by the device
            tsn = rng.choice([x for x in range(256) if x not in d._pending and (d, x) not in used])
            if len([1 for u in used if u[0] is d]) < 200:
                used.add((d, tsn))
            else:
                used.clear()
            dd = rng.random() < 0.4
            manuf = rng.choice([None, None, None, 0x115F])
            kind = rng.choice(["report", "report", "read", "read", "read", "response", "other", "cluster", "broken", "unknown"])
            if cid == 0x0019:
                kind = rng.choice([kind, "ota", "ota", "ota"])
            elif cid == 0x0500:
                kind = rng.choice([kind, "zone", "zone"])
            exp = None
            hdr = lambda cmd, cluster=False, s2c=server: sim.zcl_hdr(tsn, cmd, cluster=cluster, manuf=manuf, s2c=s2c, disable_default=dd)  # noqa: E731
            lo = vloop.now() - ZB_EPOCH
            if kind == "report":
                body = b""
                for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 4, 4])):
                    tid = rng.choice(SIMPLE)
                    _, e = any_value(rng, tid)
                    body += sim.u16(rng.choice([0, 1, 5, 0xF00D])) + bytes([tid]) + e
                data = hdr(0x0A) + body
                if not dd:
                    exp = {"cmd": 0x0B, "body": b"\x0a\x00"}
            elif kind == "read":
                ids = [rng.choice([0, 1, 2, 3, 7, 4, 5, 0x4001, 0xFFFD, rng.randrange(65536)]) for _ in range(rng.choice([0, 1, 1, 2, 3, 8]))]
                data = hdr(0x00, s2c=not server if rng.random() < 0.9 else server) + b"".join(map(sim.u16, ids))
                exp = {"cmd": 0x01, "ids": ids, "lo": lo}
            elif kind == "response":
                cmd = rng.choice(RESPONSES)
                body = {0x01: b"\x05\x00\x86\x04\x00\x00\x20\x05", 0x04: b"\x00", 0x07: b"\x00", 0x0B: bytes([rng.choice([0, 2, 0x0A, 0x0B]), rng.choice([0, 0x86, 0x81])]),
                        0x0D: b"\x01\x05\x00\x20", 0x16: b"\x01\x05\x00\x20\x05", 0x09: b"\x86\x00\x05\x00"}[cmd]  # fmt: skip
                data = hdr(cmd) + body
                exp = {"cmd": None}
            elif kind == "other":
                cmd = rng.choice([0x02, 0x03, 0x05, 0x06, 0x0C])
                body = {0x02: b"\x05\x00\x20\x05", 0x03: b"\x05\x00\x20\x05", 0x05: b"\x05\x00\x20\x05", 0x06: b"\x00\x05\x00\x20\x01\x00\x02\x00\x05", 0x0C: b"\x00\x00\x10"}[cmd]
                data = hdr(cmd) + body
                exp = {"cmd": None, "any_status": True}
            elif kind == "cluster":
                data = hdr(rng.choice([0, 1, 2, 0x40, 0xF5]), True, rng.random() < 0.5) + rng.choice([b"", b"\x00", rng.randbytes(5)])
                if cid in (0x0019, 0x0500):
                    return None
                exp = {"cmd": None, "any_status": True}
            elif kind == "ota":
                # queries and block requests of a device that is not being updated; everything else is not a request
                manuf = None
                c2s = rng.random() < 0.7
                cmd = rng.choice([0x01, 0x01, 0x03, 0x03, 0x00, 0x02, 0x04, 0x06])
                body = {
                    0x01: bytes([fc := rng.choice([0, 1])]) + rng.randbytes(8 + 2 * fc),
                    0x03: b"\x00" + rng.randbytes(13),
                    0x06: b"\x00" + rng.randbytes(8),
                }.get(cmd, rng.randbytes(rng.choice([1, 4, 9])))
                whole = rng.random() < 0.8
                data = hdr(cmd, True, not c2s) + (body if whole else body[: rng.randrange(len(body))])
                if c2s and whole and cmd in (0x01, 0x03):
                    exp = {"cmd": 0x02 if cmd == 0x01 else 0x05, "body": b"\x98" if cmd == 0x01 else b"\x95", "cluster": True}
                else:
                    exp = {"cmd": None, "any_status": True}
            elif kind == "zone":
                manuf = None
                cmd = rng.choice([0x00, 0x00, 0x00, 0x01])
                body = rng.randbytes(6) if cmd == 0 else b"\x0d\x00\x5f\x11"
                whole = rng.random() < 0.8
                if not server:  # an enrolment response to a zone controller
                    cmd, body = 0x00, b"\x00\x05"
                data = hdr(cmd, True, server) + (body if whole else body[: rng.randrange(len(body))])
                if cmd == 0 and whole and not dd and server:
                    exp = {"cmd": 0x0B, "body": b"\x00\x00"}
                elif cmd == 0 and whole:
                    exp = {"cmd": None}
                else:
                    exp = {"cmd": None, "any_status": True}
            elif kind == "broken":
                data = rng.choice([hdr(0x00) + b"\x05", hdr(0x00) + b"\x05\x00\x06", hdr(0x0A) + b"\x05\x00", hdr(0x0A) + b"\x05\x00\x21\x01", hdr(0x0A) + b"\x05\x00\xfe\x01",
                                   hdr(0x0A) + b"\x05\x00\x42\x20abc", hdr(0x00)[:1], b""])  # fmt: skip
                exp = {"cmd": None, "any_status": True}
            else:
                data = hdr(rng.choice([0x17, 0x40, 0xFE])) + rng.randbytes(3)
                exp = {"cmd": None, "any_status": True}
            e = {"dev": d, "ep": ep.endpoint_id, "cid": cid, "tsn": tsn, "kind": kind, "dd": dd, "server": server, "prof": ep.profile_id,
                 "data": data, "quirk": quirk and isinstance(ep.in_clusters.get(6), QuirkOnOff), **(exp or {"cmd": None})}  # fmt: skip
            pkt = sim.rx(d, cid, data, profile=0x0104 if ep.profile_id == 0xC05E else ep.profile_id, src_ep=ep.endpoint_id, dst_ep=ep.endpoint_id, tsn=tsn)
            if rng.random() < 0.15:
                pkt = pkt.replace(dst=t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress.ALL_DEVICES))
            return e, pkt

        def judge(e, mine, strict):
            key = (e["kind"], e["dd"], e["cid"], e["server"])
            ctx.evaluated((*key, len(mine)))
            wit = {"frame": e, "sent": mine, "trace": trace[-6:]}
            want = e["cmd"]
            if want is None:
                bad = [h for _, h in mine if not (e.get("any_status") and h["type"] == 0 and h["cmd"] == 0x0B)]
                if bad:
                    raise Violation(f"unexpected-answer-{e['kind']}", f"{e['kind']} frame {e['data'].hex()} was answered with {bad}", wit)
                ctx.count(f"unanswered_{e['kind']}")
                return
            if len(mine) != 1:
                raise Violation(f"answers-{e['kind']}", f"{e['kind']} frame {e['data'].hex()} got {len(mine)} answers", wit)
            p, h = mine[0]
            if h["type"] != (1 if e.get("cluster") else 0) or h["cmd"] != want:
                raise Violation(f"answer-kind-{e['kind']}", f"answered with command 0x{h['cmd']:02x}", wit)
            if int(p.dst_ep) != e["ep"] or int(p.cluster_id) != e["cid"] or p.dst.addr_mode != t.AddrMode.NWK or int(p.dst.address) != int(e["dev"].nwk):
                raise Violation(f"answer-address-{e['kind']}", f"sent to {p.dst} endpoint {p.dst_ep} cluster {p.cluster_id}", wit)
            if int(p.profile_id) != (0x0104 if e["prof"] == 0xC05E else e["prof"]) or int(p.tsn) != e["tsn"]:
                raise Violation(f"answer-header-{e['kind']}", f"profile {p.profile_id} tsn {p.tsn}", wit)
            if not h["disable_default"]:
                raise Violation(f"answer-flags-{e['kind']}", "the answer itself asks for a default response", wit)
            if h["s2c"] == e["server"]:
                raise Violation(f"answer-direction-{e['kind']}", f"the answer is marked as going {'from' if h['s2c'] else 'to'} the server", wit)
            if "body" in e:
                if h["payload"] != e["body"]:
                    raise Violation(f"answer-content-{e['kind']}", f"payload {h['payload'].hex()}", wit)
                ctx.count({"ota": "firmware_requests_refused", "zone": "zone_changes_acknowledged"}.get(e["kind"], "reports_acknowledged"))
                return
            b = h["payload"]
            for a in e["ids"]:
                if int.from_bytes(b[:2], "little") != a or len(b) < 3:
                    raise Violation("read-order", f"record for {a} missing in {h['payload'].hex()}", wit)
                off = datetime.datetime.fromtimestamp(vloop.now()).astimezone().utcoffset().total_seconds()
                s = served(e["cid"], a, e["lo"], e["lo"], off, e["quirk"])
                if s is None:
                    if b[2] != 0x86:
                        raise Violation("read-unserved", f"attribute 0x{a:04x} of cluster 0x{e['cid']:04x} got status 0x{b[2]:02x}", wit)
                    b = b[3:]
                    ctx.count("unsupported_records")
                else:
                    n = len(next(iter(s[1])))
                    if b[2] != 0 or b[3] != s[0] or b[4 : 4 + n] not in s[1]:
                        raise Violation("read-value", f"attribute 0x{a:04x} of cluster 0x{e['cid']:04x} answered {b[2:4 + n].hex()}, expected type 0x{s[0]:02x} {[x.hex() for x in s[1]]}", wit)
                    b = b[4 + n :]
                    ctx.count("served_records")
            if b:
                raise Violation("read-extra", f"{b.hex()} after the requested records", wit)
            ctx.count("reads_answered")

        def collect(start):
            out = []
            for when, p in app.sent[start:]:
                h = sim.parse_zcl(p.data.serialize()) if p.dst_ep else None
                out.append((p, h))
            return out

        client_tsns = {(int(p.dst.address), sim.parse_zcl(p.data.serialize())["tsn"]) for _, p in app.sent}

        async def inject(burst):
            frames = [x for x in (frame() for _ in range(burst)) if x]
            start = len(app.sent)
            seen = set()
            todo = []
            for e, pkt in frames:
                k = (e["dev"].nwk, e["tsn"])
                if k in seen:
                    continue
                seen.add(k)
                trace.append((e["kind"], e["dev"].nwk, e["ep"], hex(e["cid"]), e["data"].hex()))
                app.packet_received(pkt)
                todo.append((e, pkt))
                if rng.random() < 0.15:
                    app.packet_received(pkt.replace(lqi=17))  # the same frame again
                    ctx.count("repeated_frames")
                ctx.count("frames")
            await vloop.settle()
            if mode in ("slow", "busy"):
                await asyncio.sleep(40)
            sent = collect(start)
            for e, _ in todo:
                mine = [(p, h) for p, h in sent if h is not None and (int(p.dst.address) == int(e["dev"].nwk)) and h["tsn"] == e["tsn"]]
                if mode == "busy":
                    mine = [x for x in mine if not (x[1]["cmd"] == 0 and x[1]["type"] == 0 and not x[1]["s2c"] and x[1]["payload"] == b"\0\0")]
                sent = [x for x in sent if all(x[0] is not m[0] for m in mine)]
                judge(e, mine, True)
            left = [x for x in sent if not (mode == "busy" and x[1]["cmd"] == 0)]
            if left:
                raise Violation("stray", f"packets answering nothing: {left}", trace[-10:])
            ctx.state("bursts", tuple(sorted((e["kind"], e["dd"]) for e, _ in todo)))

        if mode == "busy":
            pass
        for _ in range(rng.randint(5, 25)):
            await inject(rng.choice([1, 1, 1, 2, 6]))
            await asyncio.sleep(rng.choice([0, 0.3, 11, 3600 * 24 * 40 * rng.random()]))
        for c in clients:
            c.cancel()
        if idx < 3:
            ctx.sample({"mode": mode, "tz": tz, "trace": trace[:8]})

    try:
        for i in range(ctx.n(500, 15000)):
            if ctx.stop:
                break
            ctx.case(i, lambda i=i: vloop.run(history(i)))
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()
    for k, m in (("frames", 8000), ("reports_acknowledged", 700), ("reads_answered", 1500), ("served_records", 400), ("unsupported_records", 2000),
                 ("unanswered_response", 500), ("unanswered_broken", 400), ("repeated_frames", 700), ("firmware_requests_refused", 100), ("zone_changes_acknowledged", 50)):  # fmt: skip
        ctx.require(k, ctx.n(m, m * 10))
