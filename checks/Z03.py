"""Z03: writes, reporting set-up and binding put exactly the request on the air."""

from __future__ import annotations

import asyncio
import enum

from harness import gen, sim, vloop
from harness.core import Violation

from checks.T03 import ANALOG, TYPES

import zigpy.exceptions
import zigpy.quirks
import zigpy.types as t
import zigpy.zcl
import zigpy.zdo.types as z
from zigpy.zcl import foundation as f

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: packets captured at the radio boundary compared byte by byte with an independent encoding of "
    "the call; device answers injected and compared with what the caller got"
)
NOTE = (
    "Every attribute of every registered cluster (as server and client), plus quirk clusters with manufacturer specific "
    "attributes and overridden data types, in single and multi-attribute writes, undivided writes and reporting "
    "configurations with boundary and random values, unfit values, unknown attributes and every shape of device answer; "
    "binding of every cluster."
)
RULE = "One evaluation is one request judged on the air (or refused before it); non-trivial: distinct (cluster, attribute, request kind)."
ASSUMPTIONS = ["attributes without a ZCL data type (fixed lists and records of the BACnet clusters) are not written"]
# most specific ZCL data type of a python type, from the class hierarchy and the ZCL type table of T03
BY_CLASS = {c: tid for tid, (c, _) in TYPES.items()}
FLOATS = {0x38: t.Half, 0x39: t.Single, 0x3A: t.Double}


def tag(cls):
    for c in cls.__mro__:
        if c in BY_CLASS:
            return BY_CLASS[c]
    return None


def unfit(cls, rng):
    """Values which cannot be represented by the type."""
    try:
        bits, signed, _ = gen.int_spec(cls)
    except LookupError:
        pass
    else:
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if issubclass(cls, enum.Flag):  # -1 is the usual way to write "all bits" of a flag type
            return rng.choice([hi + 1, hi + 2 + rng.randrange(1 << 20), [1]])
        return rng.choice([lo - 1, hi + 1, hi + 2 + rng.randrange(1 << 20), -(1 << 70), "seven", [1]])
    if issubclass(cls, t.LVBytes):
        n = getattr(cls, "_max_len", (1 << (8 * cls._prefix_length)) - 2)
        return b"x" * (n + rng.choice([1, 1, 300]))
    if issubclass(cls, t.CharacterString):
        n = getattr(cls, "_max_len", (1 << (8 * cls._prefix_length)) - 2)
        return "x" * (n + rng.choice([1, 1, 300]))
    if issubclass(cls, (t.EUI64, t.KeyData)):
        return [1] * rng.choice([0, cls._length - 1, cls._length + 1])
    if issubclass(cls, float):
        return rng.choice(["warm", [1], None])
    return None


def run(ctx):
    classes = sorted(
        {*zigpy.zcl.Cluster._registry.values(), *zigpy.zcl.Cluster._registry_range.values()}, key=lambda c: (c.cluster_id or 0xFC00, c.__name__)
    )

    level = zigpy.zcl.Cluster._registry[0x0008]

    class QuirkLevel(zigpy.quirks.CustomCluster, level):
        cluster_id = 0x0008

        class AttributeDefs(level.AttributeDefs):
            special = f.ZCLAttributeDef(id=0xE000, type=t.uint8_t, is_manufacturer_specific=True)
            flags = f.ZCLAttributeDef(id=0xE001, type=t.uint8_t, zcl_type=f.DataTypeId.map8, is_manufacturer_specific=True)
            counter = f.ZCLAttributeDef(id=0xE002, type=t.uint32_t, zcl_type=f.DataTypeId.UTC)
            mode = f.ZCLAttributeDef(id=0xE003, type=t.enum8, zcl_type=f.DataTypeId.uint8)

    class QuirkManuf(zigpy.quirks.CustomCluster):
        cluster_id = 0xFC7E
        ep_attribute = "quirk_manuf"

        class AttributeDefs(f.BaseAttributeDefs):
            one = f.ZCLAttributeDef(id=0x0001, type=t.uint24_t)
            two = f.ZCLAttributeDef(id=0x0002, type=t.LVBytes)
            three = f.ZCLAttributeDef(id=0x0003, type=t.int16s)

    overrides = {("QuirkLevel", 0xE001): 0x18, ("QuirkLevel", 0xE002): 0xE2, ("QuirkLevel", 0xE003): 0x20}

    async def cluster_case(cls, cluster_id, server, rep):
        rng = ctx.rng(cls.__name__, cluster_id, server, rep)
        app = sim.make_app()
        app._concurrent_requests_semaphore.max_value = 32
        eid = rng.randrange(1, 240)
        dev = sim.add_ready_device(app, sim.eui(rng.getrandbits(60)), rng.randrange(1, 0xFFF0), endpoints={eid: (0x0104, 0x100, [3], [])})
        ep = dev.endpoints[eid]
        quirk = issubclass(cls, zigpy.quirks.CustomCluster)
        if quirk:
            c = cls(ep, is_server=server)
            c = (ep.add_input_cluster if server else ep.add_output_cluster)(cluster_id, c)
        else:
            c = (ep.add_input_cluster if server else ep.add_output_cluster)(cluster_id)
        defs = {}
        for a in c.AttributeDefs:
            tid = overrides.get((cls.__name__, int(a.id)), tag(a.type))
            if tid is not None and tid not in (0x48, 0x4C, 0x50, 0x51):
                defs[a.name] = (a, tid)
        byid = {int(a.id): (a, tid) for a, tid in defs.values()}
        answers = []
        auto = [None]

        async def on_send(pkt):
            if auto[0] is None:
                return
            if pkt.dst_ep == 0:
                d = pkt.data.serialize()
                data = d[:1] + auto[0]
                asyncio.get_running_loop().call_soon(app.packet_received, sim.rx(dev, int(pkt.cluster_id) | 0x8000, data, profile=0, src_ep=0, dst_ep=0))
                return
            h = sim.parse_zcl(pkt.data.serialize())
            cmd, body = auto[0](h)
            data = sim.zcl_hdr(h["tsn"], cmd, s2c=not h["s2c"], manuf=h["manuf"]) + body
            asyncio.get_running_loop().call_soon(app.packet_received, sim.rx(dev, cluster_id, data, src_ep=eid, dst_ep=eid))

        app.on_send = on_send

        async def call(make, what, expect_exc=None):
            start = len(app.sent)
            try:
                res = await make()
                exc = None
            except (ValueError, TypeError, KeyError, OverflowError, AttributeError, AssertionError) as e:
                res, exc = None, e
            sent = [p for _, p in app.sent[start:]]
            return res, exc, sent

        def header(p, h, cmd, manuf, what):
            wit = {"what": what, "packet": p}
            if int(p.dst_ep) != eid or int(p.src_ep) != eid or int(p.cluster_id) != cluster_id or int(p.profile_id) != 0x0104 or int(p.dst.address) != int(dev.nwk):
                raise Violation("address", f"{what}: sent to {p}", wit)
            if h["type"] != 0 or h["cmd"] != cmd or h["s2c"] == server or h["manuf"] != manuf or h["reserved"]:
                raise Violation("header", f"{what}: header {h}", wit)

        def manuf_for(ids, given):
            if given is not None:
                return given
            if quirk and (cluster_id >= 0xFC00 or any(byid[i][0].is_manufacturer_specific for i in ids)):
                return 0x1234
            return None

        def value(a, tid):
            """(argument, expected bytes) or None"""
            if tid in FLOATS:
                v = rng.choice([0.0, 1.5, -2.25, 100.0, 0.125])
                import struct

                return v, struct.pack({0x38: "<e", 0x39: "<f", 0x3A: "<d"}[tid], v), v
            try:
                v, enc = gen.build(a.type, rng)
            except gen.Unsupported:
                return None
            if isinstance(enc, tuple):
                return None
            arg = v
            if isinstance(v, int) and rng.random() < 0.6:
                arg = int(v)
            elif isinstance(v, str) and rng.random() < 0.5:
                arg = str(v)
            elif isinstance(v, (t.EUI64, t.KeyData)) and rng.random() < 0.5:
                arg = [int(x) for x in v]
            return arg, enc, v

        names = list(defs)
        rng.shuffle(names)
        pos = 0
        # ---- writes
        while pos < len(names):
            k = rng.choice([1, 1, 2, 3, 5])
            chunk = names[pos : pos + k]
            pos += k
            recs = []
            for n in chunk:
                r = value(*defs[n])
                if r is not None:
                    recs.append((n, *defs[n], *r))
            if not recs:
                ctx.count("unsupported_types", len(chunk))
                continue
            undiv = rng.random() < 0.3
            given = rng.choice([None, None, 0x115F])
            arg = {}
            for n, a, tid, v, enc, _ in recs:
                arg[n if rng.random() < 0.5 else int(a.id)] = v
            if rng.random() < 0.2:
                items = list(arg.items())
                items.insert(rng.randrange(len(items) + 1), (0xE7F7, 5))
                arg = dict(items)
            ids = [int(a.id) for _, a, *_ in recs]
            shape = rng.choice(["ok", "ok", "fail", "default"])
            failed = rng.sample(ids, rng.randint(1, len(ids)))
            sts = {i: rng.choice([0x86, 0x87, 0x88, 0x8D]) for i in failed}
            dst = rng.choice([0x81, 0x01, 0x82])
            auto[0] = lambda h: {
                "ok": (0x04, b"\x00"),
                "fail": (0x04, b"".join(bytes([s]) + sim.u16(i) for i, s in sts.items())),
                "default": (0x0B, bytes([h["cmd"], dst])),
            }[shape]
            fn = c.write_attributes_undivided if undiv else c.write_attributes
            what = f"{cls.__name__}.{fn.__name__}({arg})"
            item = len(arg) == 1 and not undiv and rng.random() < 0.4

            async def assign():
                (key, v), = arg.items()
                c[key] = v
                await asyncio.sleep(15)

            if item:
                given, what = None, f"{cls.__name__}[...] = {arg}"
            res, exc, sent = await call(assign if item else lambda: fn(arg, manufacturer=given), what)
            if exc is not None:
                raise Violation("write-refused", f"{what} raised {exc!r}", recs)
            if len(sent) != 1:
                raise Violation("write-count", f"{what} sent {len(sent)} packets", sent)
            h = sim.parse_zcl(sent[0].data.serialize())
            header(sent[0], h, 0x03 if undiv else 0x02, manuf_for(ids, given), what)
            exp = b"".join(sim.u16(int(a.id)) + bytes([tid]) + enc for _, a, tid, _, enc, _ in recs)
            if h["payload"] != exp:
                raise Violation("write-payload", f"{what}: {h['payload'].hex()}, expected {exp.hex()}", recs)
            for n, a, tid, v, enc, _ in recs:
                ctx.evaluated((cls.__name__, int(a.id), "write", undiv))
                ctx.count("written_attributes")
            if item:
                ctx.count("attributes written by assignment")
                n, a, _, v, _, exp = recs[0]
                if shape == "ok" and (c[n] != exp or c[int(a.id)] != exp or c.get(n) != exp) and exp == exp:
                    raise Violation("write-cached", f"{what}: reads back as {c[n]!r}, expected {exp!r}", recs)
                continue
            got = res if shape == "default" else [(int(r.status), None if r.attrid is None else int(r.attrid)) for r in res[0]]
            if shape == "ok" and got != [(0, None)] or shape == "fail" and got != [(s, i) for i, s in sts.items()]:
                raise Violation("write-answer", f"{what}: device said {shape} {sts}, caller got {got}", recs)
            if shape == "default" and int(res.status) != dst:
                raise Violation("write-answer", f"{what}: default response 0x{dst:02x}, caller got {res}", recs)
            ctx.count(f"write_answers_{shape}")
        # ---- values that do not fit
        auto[0] = lambda h: (0x04, b"\x00")
        for n in rng.sample(names, min(len(names), 6)):
            a, tid = defs[n]
            bad = unfit(a.type, rng)
            if bad is None:
                continue
            good = [m for m in names if m != n and tid not in FLOATS][:1]
            arg = {n: bad}
            if good and rng.random() < 0.5:
                r = value(*defs[good[0]])
                if r is not None:
                    arg = {good[0]: r[0], n: bad}
            fn = rng.choice([c.write_attributes, c.write_attributes_undivided])
            res, exc, sent = await call(lambda: fn(arg), n)
            ctx.evaluated((cls.__name__, int(a.id), "unfit"))
            if sent or exc is None:
                raise Violation("unfit-value", f"{cls.__name__}.{n} ({a.type.__name__}) accepted {str(bad)[:60]!r}: sent {sent} result {res}", bad)
            ctx.count("refused_values")
        res, exc, sent = await call(lambda: c.write_attributes({"no_such_attribute": 1}), "unknown name")
        if exc is None or sent:
            raise Violation("unknown-name", f"unknown attribute name was accepted: {res}, {sent}", None)
        # ---- reporting
        rng.shuffle(names)
        pos = 0
        while pos < len(names):
            k = rng.choice([1, 1, 2, 4])
            chunk = names[pos : pos + k]
            pos += k
            exp, arg, ids = b"", {}, []
            for n in chunk:
                a, tid = defs[n]
                lo, hi = rng.choice([0, 1, 30, 65535, rng.randrange(65536)]), rng.choice([0, 300, 65535, rng.randrange(65536)])
                rec = b"\x00" + sim.u16(int(a.id)) + bytes([tid]) + sim.u16(lo) + sim.u16(hi)
                change = rng.choice([0, 1, 10])
                if tid in ANALOG:
                    tt = TYPES[tid][0]
                    if issubclass(tt, t.Struct):
                        change, e = gen.build(tt, rng)
                    elif tid in FLOATS:
                        import struct

                        change = rng.choice([0.5, 1, 2.0])
                        e = struct.pack({0x38: "<e", 0x39: "<f", 0x3A: "<d"}[tid], change)
                    else:
                        change, e = gen.build(tt, rng)
                        change = int(change)
                    rec += e
                exp += rec
                arg[n if rng.random() < 0.5 else int(a.id)] = (lo, hi, change)
                ids.append(int(a.id))
            shape = rng.choice(["ok", "ok", "fail", "fail", "default"])
            failed = rng.sample(ids, rng.randint(1, len(ids)))
            sts = {i: rng.choice([0x86, 0x86, 0x8C, 0x8D]) for i in failed}
            auto[0] = lambda h: {
                "ok": (0x07, b"\x00"),
                "fail": (0x07, b"".join(bytes([s, 0]) + sim.u16(i) for i, s in sts.items())),
                "default": (0x0B, bytes([h["cmd"], 0x81])),
            }[shape]
            before = {int(x) for x in c.unsupported_attributes if not isinstance(x, str)}
            given = rng.choice([None, None, 0x115F])
            single = len(arg) == 1 and rng.random() < 0.5
            if single:
                (key, (lo, hi, change)), = arg.items()
                make = lambda: c.configure_reporting(key, lo, hi, change, manufacturer=given)  # noqa: E731
            else:
                make = lambda: c.configure_reporting_multiple(arg, manufacturer=given)  # noqa: E731
            what = f"{cls.__name__}.configure_reporting({arg})"
            res, exc, sent = await call(make, what)
            if exc is not None:
                raise Violation("config-refused", f"{what} raised {exc!r}", None)
            if len(sent) != 1:
                raise Violation("config-count", f"{what} sent {len(sent)} packets", sent)
            h = sim.parse_zcl(sent[0].data.serialize())
            header(sent[0], h, 0x06, manuf_for(ids, given), what)
            if h["payload"] != exp:
                raise Violation("config-payload", f"{what}: {h['payload'].hex()}, expected {exp.hex()}", None)
            for i in ids:
                ctx.evaluated((cls.__name__, i, "report"))
                ctx.count("reporting_records")
            want = set(before)
            if shape == "ok":
                want -= set(ids)
            elif shape == "fail":
                want |= {i for i, s in sts.items() if s == 0x86}
            after = {int(x) for x in c.unsupported_attributes if not isinstance(x, str)}
            if after != want:
                raise Violation("config-unsupported", f"{what} answered {shape} {sts}: marked {after}, expected {want}", None)
            if shape == "default":
                if isinstance(res[0], list) or int(res.status) != 0x81:
                    raise Violation("config-answer", f"{what}: caller got {res}", None)
            else:
                got = [(int(r.status), None if r.attrid is None else int(r.attrid)) for r in res[0]]
                if got != ([(0, None)] if shape == "ok" else [(s, i) for i, s in sts.items()]):
                    raise Violation("config-answer", f"{what}: device said {shape} {sts}, caller got {got}", None)
            ctx.count(f"config_answers_{shape}")
        for bad in ((70000, 1, 1), (1, 70000, 1), (-1, 1, 1)):
            if names:
                res, exc, sent = await call(lambda: c.configure_reporting(names[0], *bad), "intervals")
                if exc is None or sent:
                    raise Violation("unfit-interval", f"intervals {bad} were accepted: {sent}", None)
                ctx.count("refused_values")
        # ---- binding
        for fn, cl in ((c.bind, 0x0021), (c.unbind, 0x0022)):
            st = rng.choice([0x00, 0x84, 0x88, 0x8C])
            auto[0] = bytes([st])
            res, exc, sent = await call(fn, fn.__name__)
            if exc is not None or len(sent) != 1:
                raise Violation("bind-count", f"{fn.__name__}: {exc!r}, sent {sent}", None)
            p = sent[0]
            d = p.data.serialize()[1:]
            exp = dev.ieee.serialize() + bytes([eid]) + sim.u16(cluster_id) + b"\x03" + sim.NCP_IEEE.serialize() + b"\x01"
            if int(p.cluster_id) != cl or p.dst_ep != 0 or int(p.dst.address) != int(dev.nwk) or d != exp or int(p.profile_id) != 0:
                raise Violation("bind-payload", f"{fn.__name__} sent {p}: {d.hex()}, expected {exp.hex()}", None)
            if int(res[0]) != st:
                raise Violation("bind-answer", f"{fn.__name__}: device said 0x{st:02x}, caller got {res}", None)
            ctx.evaluated((cls.__name__, fn.__name__))
            ctx.count("bindings")

    class VendorLevel(zigpy.quirks.CustomCluster, level):
        cluster_id = 0x0008

        class AttributeDefs(level.AttributeDefs):
            special = f.ZCLAttributeDef(id=0xE000, type=t.uint8_t, is_manufacturer_specific=True)
            usual = f.ZCLAttributeDef(id=0xE004, type=t.uint8_t)

        class ServerCommandDefs(level.ServerCommandDefs):
            boost = f.ZCLCommandDef(id=0xE0, schema={"a": t.uint8_t}, direction=f.Direction.Client_to_Server, is_manufacturer_specific=True)
            calm = f.ZCLCommandDef(id=0xE1, schema={"a": t.uint8_t}, direction=f.Direction.Client_to_Server)

        class ClientCommandDefs(level.ClientCommandDefs):
            boosted = f.ZCLCommandDef(id=0xE2, schema={"a": t.uint8_t}, direction=f.Direction.Server_to_Client, is_manufacturer_specific=True)
            calmed = f.ZCLCommandDef(id=0xE3, schema={"a": t.uint8_t}, direction=f.Direction.Server_to_Client)

    class PlainLevel(level):
        """The same without being a quirk."""

        _skip_registry = True
        AttributeDefs = VendorLevel.AttributeDefs
        ServerCommandDefs = VendorLevel.ServerCommandDefs
        ClientCommandDefs = VendorLevel.ClientCommandDefs

    def vendor_cluster(cid):
        class VendorRange(zigpy.quirks.CustomCluster):
            cluster_id = cid
            AttributeDefs = VendorLevel.AttributeDefs
            ServerCommandDefs = VendorLevel.ServerCommandDefs
            ClientCommandDefs = VendorLevel.ClientCommandDefs

        return VendorRange

    ranges = [vendor_cluster(c) for c in (0xFBFF, 0xFC00, 0xFC01, 0xFD10, 0xFFFF)]

    async def vendor_case(idx):
        """Vendor codes of everything a cluster sends."""
        rng = ctx.rng("vendor", idx)
        app = sim.make_app()
        eid = rng.randrange(1, 240)
        dev = sim.add_ready_device(app, sim.eui(rng.getrandbits(60)), rng.randrange(1, 0xFFF0), endpoints={eid: (0x0104, 0x100, [3], [])})
        ep = dev.endpoints[eid]
        code = rng.randrange(1, 65536)
        dev.node_desc = sim.node_desc(dev.node_desc.logical_type, manuf=code)
        cls = rng.choice([VendorLevel, VendorLevel, PlainLevel, *ranges])
        server = rng.random() < 0.5
        cid = int(cls.cluster_id)
        c = (ep.add_input_cluster if server else ep.add_output_cluster)(cid, cls(ep, is_server=server))
        quirk = cls is not PlainLevel

        async def on_send(pkt):
            if pkt.dst_ep == 0:
                return  # an interview
            h = sim.parse_zcl(pkt.data.serialize())
            if h["type"] == 0:
                body = b"".join(h["payload"][i : i + 2] + b"\x86" for i in range(0, len(h["payload"]), 2)) if h["cmd"] == 0 else b"\x00"
                rsp = {0x00: 0x01, 0x02: 0x04, 0x03: 0x04, 0x06: 0x07}[h["cmd"]]
                data = sim.zcl_hdr(h["tsn"], rsp, s2c=not h["s2c"], manuf=h["manuf"]) + body
                asyncio.get_running_loop().call_soon(app.packet_received, sim.rx(dev, cid, data, src_ep=eid, dst_ep=eid))

        app.on_send = on_send
        attrs = {"special": True, "usual": False, 0xE000: True, 0xE004: False}
        for step in range(rng.randint(4, 12)):
            k = rng.randrange(10)
            if k == 0:
                code = rng.randrange(1, 65536)
                dev.node_desc = sim.node_desc(dev.node_desc.logical_type if dev.node_desc else z.LogicalType.Router, manuf=code)
                dev.manufacturer_id_override = None
            elif k == 1:
                code = rng.randrange(1, 65536)
                dev.manufacturer_id_override = rng.choice([code, t.uint16_t(code)])
            elif k == 2:
                code = dev.node_desc = dev.manufacturer_id_override = None
            given = rng.choice([None, None, None, 0x10F2, t.uint16_t(0x115F), 0])
            kw = {} if given is None and rng.random() < 0.5 else {"manufacturer": given}
            keys = rng.sample(sorted(attrs, key=str), rng.randint(1, 2))
            special = any(attrs[x] for x in keys)
            op = rng.choice(["read", "read_raw", "write", "undivided", "configure", "command", "command", "client", "client", "method"])
            if op == "command" or op == "method" and rng.random() < 0.5:
                name, special = rng.choice([("boost", True), ("calm", False), (0xE0, True), (0xE1, False), ("stop", False)][: None if "stop" in c.commands_by_name else 4])
            elif op in ("client", "method"):
                name, special = rng.choice([("boosted", True), ("calmed", False), (0xE2, True), (0xE3, False)])
            ids = [{"special": 0xE000, "usual": 0xE004}.get(x, x) for x in keys]
            app.sent.clear()
            if op == "read":
                await c.read_attributes(keys, **kw)
            elif op == "read_raw":
                await c.read_attributes_raw(ids, **kw)
            elif op == "write":
                await c.write_attributes({x: 5 for x in keys}, **kw)
            elif op == "undivided":
                await c.write_attributes_undivided({x: 5 for x in keys}, **kw)
            elif op == "configure":
                await c.configure_reporting_multiple({x: (1, 10, 1) for x in keys}, **kw)
            elif op == "method" and isinstance(name, str) and name != "stop":
                server_side = name in ("boost", "calm")
                # commands of the own side are requests, those of the other side answers
                await getattr(c, name)(7, **kw, **({"expect_reply": False} if server_side else {}))
            elif name in ("boost", "calm", 0xE0, 0xE1):
                await c.command(c.commands_by_name[name].id if isinstance(name, str) else name, 7, expect_reply=False, **kw)
            elif name == "stop":
                await c.command(c.commands_by_name["stop"].id, 0, 0, expect_reply=False, **kw)
            else:
                await c.client_command({"boosted": 0xE2, "calmed": 0xE3}.get(name, name), 7, **kw)
            sent = [p.data.serialize() for _, p in app.sent if p.dst_ep != 0]
            if len(sent) != 1:
                raise Violation("vendor-sent", f"{op}: {[p.hex() for p in sent]}", None)
            h = sim.parse_zcl(sent[0])
            want = given
            if given is None and quirk and (cid >= 0xFC00 or special):
                want = code
            if h["manuf"] != want:
                raise Violation(
                    "vendor-code",
                    f"{op} of {name if op in ('command', 'client', 'method') else keys} on {cls.__name__} {cid:#06x}: code {h['manuf']}, expected {want} (given {given}, device {code})",
                    {"frame": sent[0]},
                )
            ctx.evaluated(("vendor", op, cid, quirk, special, given is None, code is None))
            ctx.count("vendor_codes" if want is not None else "no_vendor_code")
        dev.cancel_initialization()

    jobs = [(c, int(c.cluster_id) if c.cluster_id is not None else 0xFC42, s) for c in classes for s in (True, False)]
    jobs += [(QuirkLevel, 8, True), (QuirkLevel, 8, True), (QuirkLevel, 8, False), (QuirkManuf, 0xFC7E, True), (QuirkManuf, 0xFC7E, True)]
    for rep in range(ctx.n(4, 120)):
        for k, (c, cid, s) in enumerate(jobs):
            if ctx.stop:
                break
            ctx.case(f"{c.__name__}-{'s' if s else 'c'}-{k}-{rep}", lambda: vloop.run(cluster_case(c, cid, s, (rep, k))))
    for i in range(ctx.n(1500, 30000)):
        if ctx.stop:
            break
        ctx.case(f"vendor-{i}", lambda: vloop.run(vendor_case(i)))
    ctx.require("vendor_codes", 3000)
    ctx.require("no_vendor_code", 2000)
    ctx.count("clusters", len(classes))
    for k, m in (("clusters", 100), ("written_attributes", 7000), ("reporting_records", 8000), ("refused_values", 4000), ("bindings", 1500),
                 ("config_answers_fail", 1000), ("write_answers_fail", 700), ("config_answers_default", 500)):  # fmt: skip
        ctx.require(k, m if k == "clusters" else ctx.n(m, m * 20))
