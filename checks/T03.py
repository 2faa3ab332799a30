"""T03: ZCL commands and self-describing values on the wire."""

from __future__ import annotations

import enum

from harness import gen, sim, vloop
from harness.core import Violation

import zigpy.types as t
import zigpy.zcl
import zigpy.zcl.clusters  # noqa: F401
from zigpy.zcl import foundation as f
from zigpy.zcl.clusters import security

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: frames captured at the radio boundary compared with an "
    "independent encoder, then decoded back through the cluster"
)
NOTE = (
    "Every command of every registered cluster (both directions) and every general command, "
    "several random argument sets each, with and without manufacturer code; every data type "
    "id. Argument types are read from the command definitions."
)
RULE = (
    "For each command definition: build random valid arguments, send it through the real "
    "cluster object, capture the radio payload, compare header bits and payload bytes with "
    "an independent encoding, decode through the cluster and compare; non-trivial: the "
    "command has at least one argument byte."
)

# ZCL data type id -> (python class, kind); written from the ZCL specification
TYPES = {
    **{0x08 + k: (getattr(t, f"data{8 * (k + 1)}"), "data") for k in range(8)},
    0x10: (t.Bool, "bool"),
    **{0x18 + k: (getattr(t, f"bitmap{8 * (k + 1)}"), "int") for k in range(8)},
    **{0x20 + k: (getattr(t, f"uint{8 * (k + 1)}_t"), "int") for k in range(8)},
    **{0x28 + k: (getattr(t, f"int{8 * (k + 1)}s"), "int") for k in range(8)},
    0x30: (t.enum8, "int"), 0x31: (t.enum16, "int"),
    0x38: (t.Half, "x"), 0x39: (t.Single, "x"), 0x3A: (t.Double, "x"),
    0x41: (t.LVBytes, "x"), 0x42: (t.CharacterString, "x"),
    0x43: (t.LongOctetString, "x"), 0x44: (t.LongCharacterString, "x"),
    0x48: (f.Array, "coll"), 0x4C: (f.ZCLStructure, "struct"), 0x50: (f.Set, "coll"), 0x51: (f.Bag, "coll"),
    0xE0: (t.TimeOfDay, "x"), 0xE1: (t.Date, "x"), 0xE2: (t.UTCTime, "int"),
    0xE8: (t.ClusterId, "int"), 0xE9: (t.AttributeId, "int"), 0xEA: (t.BACNetOid, "int"),
    0xF0: (t.EUI64, "x"), 0xF1: (t.KeyData, "x"),
}  # fmt: skip
ANALOG = set(range(0x20, 0x30)) | {0x38, 0x39, 0x3A, 0xE0, 0xE1, 0xE2}
# the value standing for "no valid value", as bytes (ZCL specification, table of data types)
INVALID = {
    0x10: b"\xff", 0x30: b"\xff", 0x31: b"\xff\xff",
    **{0x20 + k: b"\xff" * (k + 1) for k in range(8)},
    **{0x28 + k: bytes(k) + b"\x80" for k in range(8)},
    0xE0: b"\xff" * 4, 0xE1: b"\xff" * 4, 0xE2: b"\xff" * 4,
    0xE8: b"\xff" * 2, 0xE9: b"\xff" * 2, 0xEA: b"\xff" * 4, 0xF0: b"\xff" * 8,
}  # fmt: skip
SIMPLE = [k for k, (c, kind) in TYPES.items() if kind not in ("coll", "struct")]


def any_value(rng, tid, depth=0):
    """(zigpy value, encoded bytes) of the given ZCL type."""
    cls, kind = TYPES[tid]
    if kind == "coll":
        et = rng.choice(SIMPLE if depth else [*SIMPLE, 0x48, 0x4C])
        n = rng.choice([0, 1, 3, 5])
        pairs = [any_value(rng, et, depth + 1) for _ in range(n)]
        v = cls(type=t.uint8_t(et), value=t.LVList[TYPES[et][0], t.uint16_t]([p[0] for p in pairs]))
        return v, bytes([et]) + n.to_bytes(2, "little") + b"".join(p[1] for p in pairs)
    if kind == "struct":
        ets = [rng.choice(SIMPLE if depth else [*SIMPLE, 0x48, 0x4C]) for _ in range(rng.choice([0, 1, 4]))]
        pairs = [(et, *any_value(rng, et, depth + 1)) for et in ets]
        v = cls([f.TypeValue(type=t.uint8_t(et), value=x) for et, x, _ in pairs])
        return v, len(ets).to_bytes(2, "little") + b"".join(bytes([et]) + e for et, _, e in pairs)
    return gen.build(cls, rng)


def type_value(cls, rng, depth):
    tid = rng.choice(list(TYPES))
    v, e = any_value(rng, tid)
    return f.TypeValue(type=t.uint8_t(tid), value=v), bytes([tid]) + e


def attribute(cls, rng, depth):
    a = rng.randrange(65536)
    tv, e = type_value(None, rng, depth)
    return f.Attribute(attrid=a, value=tv), a.to_bytes(2, "little") + e


def read_record(cls, rng, depth):
    a = rng.randrange(65536)
    if rng.random() < 0.3:
        st = rng.choice([0x86, 0x87, 0x8F, 0x01, 0xC3])
        return f.ReadAttributeRecord(attrid=a, status=f.Status(st)), a.to_bytes(2, "little") + bytes([st])
    tid = rng.choice(list(TYPES))
    v, e = any_value(rng, tid)
    if tid not in (0x48, 0x50, 0x51):
        v = f.TypeValue(type=t.uint8_t(tid), value=v)
    return f.ReadAttributeRecord(attrid=a, status=f.Status.SUCCESS, value=v), a.to_bytes(2, "little") + bytes([0, tid]) + e


def report_config(cls, rng, depth):
    c = f.AttributeReportingConfig()
    a = rng.randrange(65536)
    c.attrid = t.uint16_t(a)
    if rng.random() < 0.3:
        c.direction = f.ReportingDirection.ReceiveReports
        c.timeout = t.uint16_t(rng.randrange(65536))
        return c, b"\x01" + a.to_bytes(2, "little") + int(c.timeout).to_bytes(2, "little")
    c.direction = f.ReportingDirection.SendReports
    tid = rng.choice(SIMPLE)
    c.datatype = t.uint8_t(tid)
    c.min_interval = t.uint16_t(rng.randrange(65536))
    c.max_interval = t.uint16_t(rng.randrange(65536))
    enc = b"\x00" + a.to_bytes(2, "little") + bytes([tid]) + int(c.min_interval).to_bytes(2, "little") + int(c.max_interval).to_bytes(2, "little")
    if tid in ANALOG:
        v, e = any_value(rng, tid)
        c.reportable_change = v
        enc += e
    return c, enc


def report_config_status(cls, rng, depth):
    st = rng.choice([0, 0, 0x86, 0x8C])
    c, enc = report_config(None, rng, depth)
    if st:
        enc = enc[:3]
        d = f.AttributeReportingConfig()
        d.direction, d.attrid = c.direction, c.attrid
        c = d
    return f.AttributeReportingConfigWithStatus(status=f.Status(st), config=c), bytes([st]) + enc


def write_rsp(cls, rng, depth):
    if rng.random() < 0.4:
        return cls([f.WriteAttributesStatusRecord(status=f.Status.SUCCESS)]), b"\x00"
    recs, enc = cls(), b""
    for _ in range(rng.randint(1, 4)):
        st, a = rng.choice([0x86, 0x87, 0x88, 0x8D]), rng.randrange(65536)
        recs.append(f.WriteAttributesStatusRecord(status=f.Status(st), attrid=a))
        enc += bytes([st]) + a.to_bytes(2, "little")
    return recs, enc


def config_rsp(cls, rng, depth):
    if rng.random() < 0.4:
        return cls([f.ConfigureReportingResponseRecord(status=f.Status.SUCCESS)]), b"\x00"
    recs, enc = cls(), b""
    for _ in range(rng.randint(1, 4)):
        st, a, d = rng.choice([0x86, 0x8C, 0x8D]), rng.randrange(65536), rng.randrange(2)
        recs.append(f.ConfigureReportingResponseRecord(status=f.Status(st), direction=f.ReportingDirection(d), attrid=t.uint16_t(a)))
        enc += bytes([st, d]) + a.to_bytes(2, "little")
    return recs, enc


def squawk(cls, rng, depth):
    v = rng.randrange(256)
    return cls(v), bytes([v])


gen.SPECIAL.update(
    TypeValue=type_value, Attribute=attribute, ReadAttributeRecord=read_record,
    AttributeReportingConfig=report_config, AttributeReportingConfigWithStatus=report_config_status,
    Squawk=squawk, WarningType=squawk,
)  # fmt: skip
LISTS = {"WriteAttributesResponse": write_rsp, "ConfigureReportingResponse": config_rsp}
_build = gen.build


def build(cls, rng, depth=0):
    if cls.__name__ in LISTS:
        return LISTS[cls.__name__](cls, rng, depth)
    return _build(cls, rng, depth)


gen.build = build


def plain(x):
    """Structural form of a decoded value, for comparison independent of zigpy's __eq__."""
    if isinstance(x, f.AttributeReportingConfig):
        d = {k: plain(getattr(x, k)) for k in ("direction", "attrid")}
        for k in ("timeout", "datatype", "min_interval", "max_interval", "reportable_change"):
            if getattr(x, k, None) is not None:
                d[k] = plain(getattr(x, k))
        return ("cfg", d)
    if isinstance(x, f.TypeValue):
        return ("tv", type(x).__name__, int(x.type), plain(x.value))
    if isinstance(x, f.ReadAttributeRecord):
        return ("rec", int(x.attrid), int(x.status), plain(x.value))
    if isinstance(x, security._SquawkOrWarningCommand):
        return ("sq", x.value)
    if isinstance(x, t.Struct):
        return ("st", {fl.name: plain(getattr(x, fl.name)) for fl in x.fields})
    if isinstance(x, (list, tuple)):
        return ["l", *[plain(v) for v in x]]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, enum.Enum)):
        return int(x)
    if isinstance(x, float):
        return repr(float(x))
    if isinstance(x, bytes):
        return bytes(x)
    if isinstance(x, str):
        return str(x)
    return repr(x)


def command(ctx, app, dev, cl_cls, cid, cmd, side, general):
    rng = ctx.rng("cmd", cid, int(cmd.id), side, general)

    async def main():
        ep = dev.endpoints[1]
        # server commands are sent to the device's server cluster (its input cluster);
        # client commands are sent by us as a server to the device's client cluster
        for rep in range(ctx.n(4, 60)):
            cl = zigpy.zcl.Cluster.from_id(ep, cid, is_server=(side == "server"))
            try:
                req, enc = gen.build_struct(cmd.schema, rng)
            except gen.Unsupported as e:
                ctx.count("unsupported_commands")
                ctx.states.setdefault("unsupported", set()).add(str(e))
                return
            args = {fl.name: getattr(req, fl.name) for fl in req.fields if getattr(req, fl.name) is not None}
            # some argument names collide with parameters of the sending methods
            by_pos = rep % 2 == 0 or bool({"timeout", "command_id", "tsn", "manufacturer", "priority"} & set(args))
            posargs = list(req.as_tuple())
            while posargs and posargs[-1] is None:
                posargs.pop()
            tsn = rng.randrange(256)
            manuf = rng.choice([None, None, 0x115F, 0xFFFF, 0, rng.randrange(65536)])
            wit = {"cluster": cid, "command": cmd.name, "args": repr(args), "manuf": manuf, "tsn": tsn}
            app.sent.clear()
            kw = dict(tsn=tsn, manufacturer=manuf)
            if general:
                if cmd.direction == f.Direction.Client_to_Server:
                    kw["expect_reply"] = False
                await cl.general_command(cmd.id, *(posargs if by_pos else []), **({} if by_pos else args), **kw)
            elif side == "server":
                await cl.command(cmd.id, *(posargs if by_pos else []), expect_reply=False, **({} if by_pos else args), **kw)
            else:
                await cl.client_command(cmd.id, *(posargs if by_pos else []), **({} if by_pos else args), **kw)
            if len(app.sent) != 1:
                raise Violation("sent", f"{len(app.sent)} packets for one command", wit)
            pkt = app.sent[0][1]
            data = pkt.data.serialize()
            h = sim.parse_zcl(data)
            # response-type general commands are sent as replies
            want_s2c = side == "client"
            is_reply = (not general and side == "client") or (general and cmd.direction == f.Direction.Server_to_Client)
            want = {
                "type": 0 if general else 1, "manuf_specific": manuf is not None, "s2c": want_s2c,
                "disable_default": is_reply or side == "client", "reserved": 0, "manuf": manuf, "tsn": tsn, "cmd": int(cmd.id),
            }  # fmt: skip
            for k, v in want.items():
                if h[k] != v:
                    raise Violation(f"header:{k}", f"{cmd.name}: header {k}={h[k]}, expected {v} ({data.hex()})", wit)
            if pkt.cluster_id != cid or pkt.tsn != tsn:
                raise Violation("packet", f"cluster {pkt.cluster_id} tsn {pkt.tsn}", wit)
            if h["payload"] != enc:
                raise Violation(f"payload:{cmd.name}", f"{cmd.name}: {h['payload'].hex()} instead of {enc.hex()}", wit)
            hdr, back = cl.deserialize(data)
            if (int(hdr.tsn), int(hdr.command_id), None if hdr.manufacturer is None else int(hdr.manufacturer)) != (tsn, int(cmd.id), manuf):
                raise Violation("decoded-header", f"{hdr!r}", wit)
            fc = hdr.frame_control
            if (bool(fc.is_manufacturer_specific), int(fc.frame_type), bool(fc.disable_default_response)) != (manuf is not None, 0 if general else 1, want["disable_default"]):
                raise Violation("decoded-header", f"{hdr!r}", wit)
            if not isinstance(back, cmd.schema):
                raise Violation(f"decoded-type:{cmd.name}", f"{type(back)}", wit)
            if plain(back) != plain(req):
                raise Violation(f"roundtrip:{cmd.name}", f"{plain(back)} != {plain(req)}", wit)
            if back.serialize() != enc:
                raise Violation(f"reencode:{cmd.name}", f"{back.serialize().hex()} != {enc.hex()}", wit)
            repr(back), repr(hdr)
            ctx.count("commands_roundtripped")
            ctx.state("command", (cid if not general else "general", int(cmd.id), side))
            ctx.evaluated((cid, side, general, int(cmd.id), data), bool(enc))

    vloop.run(main())


def headers(ctx, idx):
    rng = ctx.rng("hdr", idx)
    for _ in range(200):
        b = rng.randrange(256)
        manuf = rng.randrange(65536) if b & 4 else None
        tsn, cmd = rng.randrange(256), rng.randrange(256)
        raw = bytes([b]) + (manuf.to_bytes(2, "little") if manuf is not None else b"") + bytes([tsn, cmd])
        extra = rng.randbytes(rng.randrange(4))
        hdr, rest = f.ZCLHeader.deserialize(raw + extra)
        got = (int(hdr.frame_control.frame_type), int(hdr.frame_control.is_manufacturer_specific), int(hdr.direction),
               int(hdr.frame_control.disable_default_response), int(hdr.frame_control.reserved), hdr.manufacturer, int(hdr.tsn), int(hdr.command_id))  # fmt: skip
        want = (b & 3, b >> 2 & 1, b >> 3 & 1, b >> 4 & 1, b >> 5, manuf, tsn, cmd)
        if got != want or rest != extra or hdr.serialize() != raw:
            raise Violation("header-decode", f"{raw.hex()}: {got} != {want}, rest {rest!r}")
        for k in range(len(raw)):
            try:
                r = f.ZCLHeader.deserialize(raw[:k])
            except ValueError:
                continue
            raise Violation("header-truncated", f"{raw[:k].hex()} decoded as {r}")
        for mk, bit in ((f.ZCLHeader.general, 0), (f.ZCLHeader.cluster, 1)):
            for m in (None, rng.randrange(65536), 0):
                for d in f.Direction:
                    h = mk(tsn=tsn, command_id=cmd, manufacturer=m, direction=d)
                    fc = bit | (4 if m is not None else 0) | (8 if d else 0) | (0x10 if d else 0)
                    exp = bytes([fc]) + (m.to_bytes(2, "little") if m is not None else b"") + bytes([tsn, cmd])
                    if h.serialize() != exp:
                        raise Violation("header-build", f"{h!r}: {h.serialize().hex()} != {exp.hex()}")
        # the manufacturer flag always follows the manufacturer field
        h = f.ZCLHeader.general(tsn=tsn, command_id=cmd)
        h.manufacturer = 0x1234
        if h.serialize() != bytes([4, 0x34, 0x12, tsn, cmd]):
            raise Violation("header-build", h.serialize().hex())
        h.manufacturer = rng.choice([None, f.ZCLHeader.NO_MANUFACTURER_ID])
        if h.serialize() != bytes([0, tsn, cmd]):
            raise Violation("header-build", h.serialize().hex())
        ctx.count("headers")
        ctx.evaluated(("hdr", raw))


def values(ctx, idx):
    """Self-describing values: type tag and value survive."""
    rng = ctx.rng("val", idx)
    for tid, (cls, kind) in TYPES.items():
        v, e = any_value(rng, tid)
        tv = f.TypeValue(type=t.uint8_t(tid), value=v)
        wit = {"type": tid, "value": repr(v)}
        if tv.serialize() != bytes([tid]) + e:
            raise Violation("typed-encoding", f"{tv!r}: {tv.serialize().hex()} != {bytes([tid]).hex()}{e.hex()}", wit)
        back, rest = f.TypeValue.deserialize(bytes([tid]) + e + b"\x01\x02")
        if rest != b"\x01\x02" or int(back.type) != tid or type(back.value) is not cls and not isinstance(back.value, cls):
            raise Violation("typed-decode", f"{back!r} rest {rest!r}", wit)
        if plain(back.value) != plain(v):
            raise Violation("typed-value", f"{plain(back.value)} != {plain(v)}", wit)
        if (back == tv) is not True and plain(v) == plain(back.value) and "nan" not in repr(v):
            raise Violation("typed-equality", f"{back!r} {tv!r}", wit)
        dt = f.DataType.from_type_id(tid)
        if int(dt.type_id) != tid or dt.python_type is not cls:
            raise Violation("datatype-table", f"{tid:#x}: {dt}", wit)
        if (dt.type_class is f.Analog) != (tid in ANALOG):
            raise Violation("datatype-table", f"{tid:#x} analog: {dt.type_class}", wit)
        inv = INVALID.get(tid)
        if inv is not None and (not isinstance(dt.non_value, cls) or dt.non_value.serialize() != inv):
            raise Violation("invalid-value", f"type {tid:#x}: {dt.non_value!r} stands for an invalid value, specified: {inv.hex()}", wit)
        ctx.count("invalid_values", inv is not None)
        back_dt = f.DataType.from_python_type(cls)
        if int(back_dt.type_id) != tid:
            raise Violation("datatype-index", f"{cls.__name__} maps to {back_dt}", wit)
        cut = rng.randrange(len(e)) if e else None
        if cut is not None:
            try:
                r = f.TypeValue.deserialize(bytes([tid]) + e[:cut])
            except ValueError:
                pass
            else:
                raise Violation("typed-truncated", f"{e[:cut].hex()} of {e.hex()} decoded {r}", wit)
        ctx.count("typed_values")
        ctx.evaluated(("tv", tid, e), bool(e))
    # every attribute definition maps to the ZCL type of its own size
    for cid, cl in zigpy.zcl.Cluster._registry.items():
        for a in cl.AttributeDefs:
            if not isinstance(a.type, type) or not issubclass(a.type, t.FixedIntType) or issubclass(a.type, t.Struct):
                continue
            if idx:
                break
            tid = int(a.zcl_type)
            if tid not in TYPES:
                continue
            try:
                bits = gen.int_spec(a.type)[0]
                zbits = gen.int_spec(TYPES[tid][0])[0] if TYPES[tid][1] in ("int", "bool") else None
            except LookupError:
                continue
            ctx.count("attribute_types")
            if zbits is not None and bits != zbits:
                raise Violation("attribute-type", f"{cl.__name__}.{a.name}: {a.type} vs {a.zcl_type}")


def packed(ctx):
    """Sub-fields of packed arguments are independent of each other."""
    spec = {
        security.WarningType: {"mode": (4, range(7)), "strobe": (2, range(2)), "level": (0, range(4))},
        security.Squawk: {"mode": (4, range(2)), "strobe": (3, range(2)), "level": (0, range(4))},
    }
    width = {"mode": 0xF, "strobe": 1, "level": 3}
    for cls, fields in spec.items():
        for base in range(256):
            for name, (sh, vals) in fields.items():
                for v in vals:
                    x = cls(base)
                    setattr(x, name, getattr(type(getattr(x, name)), "__call__", int) and v)
                    exp = (base & ~(width[name] << sh) & 0xFF) | (v << sh)
                    if x.value != exp or int(getattr(x, name)) != v:
                        raise Violation("packed-field", f"{cls.__name__}({base:#x}).{name}={v} gave {x.value:#x}, expected {exp:#x}")
                    ctx.count("packed_fields")
                    ctx.evaluated((cls.__name__, base, name, v))


def run(ctx):
    async def mk():
        app = sim.make_app()
        return app, sim.add_ready_device(app, sim.eui(0x77), 0x7777)

    (app, dev), _ = vloop.run(mk())
    for cid, cl in sorted(zigpy.zcl.Cluster._registry.items()):
        for side, cmds in (("server", cl.server_commands), ("client", cl.client_commands)):
            for cmd in cmds.values():
                ctx.case(f"cmd-{int(cid):04x}-{side}-{int(cmd.id):02x}", command, ctx, app, dev, cl, int(cid), cmd, side, False)
    for cmd in f.GENERAL_COMMANDS.values():
        for side in ("server", "client"):
            for cid in (0x0000, 0x0006, 0xFC01):
                ctx.case(f"general-{side}-{int(cmd.id):02x}-{cid:04x}", command, ctx, app, dev, None, cid, cmd, side, True)
    for i in range(ctx.n(10, 100)):
        ctx.case(f"headers-{i}", headers, ctx, i)
    for i in range(ctx.n(40, 800)):
        ctx.case(f"values-{i}", values, ctx, i)
    ctx.case("packed", packed, ctx)
    if "unsupported" in ctx.states:
        ctx.sample({"unsupported": sorted(ctx.states["unsupported"])})
    ctx.require("commands_roundtripped", 1000)
    ctx.require("headers", 1000)
    ctx.require("typed_values", 1000)
    ctx.require("packed_fields", 1000)
    ctx.require("invalid_values", 500)
