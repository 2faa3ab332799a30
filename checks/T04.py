"""T04: ZDO commands and descriptors on the wire."""

from __future__ import annotations

from harness import gen, sim, vloop
from harness.core import Violation

import zigpy.types as t
import zigpy.zdo
import zigpy.zdo.types as z

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: ZDO payloads captured at the radio boundary compared with an "
    "independent encoder written from the ZDO command formats, then decoded back"
)
NOTE = (
    "All ZDO commands of the table, dozens of random argument sets each, every truncation "
    "point, unknown command ids, trailing bytes; command formats are tabulated in the check."
)
RULE = (
    "For each ZDO command: random valid arguments are sent through dev.zdo, the captured "
    "payload is compared byte for byte with an independent encoding and decoded back; each "
    "truncation must be refused unless only optional trailing parts are missing; "
    "non-trivial: distinct payloads."
)


def le(v, n):
    return int(v).to_bytes(n, "little")


# --- elementary formats: rng -> (python value, bytes, plain value) --------------------
def uint(n, ctor=int):
    def mk(r):
        v = r.choice(gen.int_values(r, 8 * n, False, 4))
        return ctor(v), le(v, n), v

    return mk


def eui(r):
    raw = r.choice([r.randbytes(8), r.randbytes(8), b"\0" * 8, b"\xff" * 8])
    return t.EUI64([t.uint8_t(b) for b in raw]), raw, tuple(raw)


def lst(item, prefix):
    def mk(r):
        n = r.choice([0, 1, 2, r.randint(0, 9)])
        if not prefix:
            n = max(n, 1)
        xs = [item(r) for _ in range(n)]
        return (
            [x[0] for x in xs],
            (bytes([n]) if prefix else b"") + b"".join(x[1] for x in xs),
            tuple(x[2] for x in xs),
        )

    return mk


def fixed16(r):
    raw = r.randbytes(16)
    return list(raw), raw, tuple(raw)


def status(r):
    v = r.choice([0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x88, 0x8B, 0x8D, r.randrange(256)])
    return v, bytes([v]), v


def boolean(r):
    v = r.random() < 0.5
    return v, bytes([v]), int(v)


def struct(cls, fields):
    """fields: list of (name, maker)"""

    def mk(r):
        kw, raw, plain = {}, b"", []
        for name, m in fields:
            v, e, p = m(r)
            kw[name] = v
            raw += e
            plain.append(p)
        return cls(**kw), raw, tuple(plain)

    return mk


def bits(r, widths):
    vals = [r.randrange(1 << w) for w in widths]
    n = s = 0
    for v, w in zip(vals, widths):
        n |= v << s
        s += w
    return vals, n, s // 8


def node_desc(r):
    (lt, cd, ud, res), b1, _ = bits(r, [3, 1, 1, 3])
    (aps, fb), b2, _ = bits(r, [3, 5])
    caps, manuf, buf = r.randrange(256), r.randrange(65536), r.randrange(256)
    mi, sm, mo, dc = (r.randrange(65536) for _ in range(4))
    dc &= 0xFF
    v = z.NodeDescriptor(
        logical_type=lt, complex_descriptor_available=cd, user_descriptor_available=ud,
        reserved=res, aps_flags=aps, frequency_band=fb, mac_capability_flags=caps,
        manufacturer_code=manuf, maximum_buffer_size=buf, maximum_incoming_transfer_size=mi,
        server_mask=sm, maximum_outgoing_transfer_size=mo, descriptor_capability_field=dc,
    )  # fmt: skip
    raw = bytes([b1, b2, caps]) + le(manuf, 2) + bytes([buf]) + le(mi, 2) + le(sm, 2) + le(mo, 2) + bytes([dc])
    # derived properties
    derived = {
        "is_end_device": lt == 2, "is_router": lt == 1, "is_coordinator": lt == 0,
        "is_alternate_pan_coordinator": bool(caps & 1), "is_full_function_device": bool(caps & 2),
        "is_mains_powered": bool(caps & 4), "is_receiver_on_when_idle": bool(caps & 8),
        "is_security_capable": bool(caps & 0x40), "allocate_address": bool(caps & 0x80),
    }  # fmt: skip
    for k, want in derived.items():
        if getattr(v, k) is not want:
            raise Violation("node-descriptor-property", f"{k} of {raw.hex()} is {getattr(v, k)}", raw)
    # the older spelling of the first two bytes, by position or by name, some fields left out
    old = [b1, b2, caps, manuf, buf, mi, sm, mo, dc]
    if z.NodeDescriptor(*old).serialize() != raw or z.NodeDescriptor(*old) != v:
        raise Violation("node-descriptor-bytes", f"{old} gives {z.NodeDescriptor(*old)}, want {v}", raw)
    names = ["byte1", "byte2", "mac_capability_flags", "manufacturer_code", "maximum_buffer_size",
             "maximum_incoming_transfer_size", "server_mask", "maximum_outgoing_transfer_size", "descriptor_capability_field"]  # fmt: skip
    kw = dict(zip(names, old))
    kept = [n for n in names if r.random() < 0.7]
    if "byte1" not in kept and "byte2" not in kept:
        kept.append(r.choice(["byte1", "byte2"]))
    part = z.NodeDescriptor(**{n: kw[n] for n in kept})
    want = {n: kw[n] if n in kept else None for n in names[2:]}
    want |= dict(zip(("logical_type", "complex_descriptor_available", "user_descriptor_available", "reserved"), (lt, cd, ud, res) if "byte1" in kept else (None,) * 4))
    want |= dict(zip(("aps_flags", "frequency_band"), (aps, fb) if "byte2" in kept else (None,) * 2))
    got = {n: getattr(part, n) for n in want}
    if got != want:
        raise Violation("node-descriptor-bytes", f"{kept} of {raw.hex()} gives {got}, want {want}", raw)
    if part.is_valid != (len(kept) == len(names)):
        raise Violation("node-descriptor-bytes", f"is_valid {part.is_valid} with {kept}", raw)
    return v, raw, (lt, cd, ud, res, aps, fb, caps, manuf, buf, mi, sm, mo, dc)


def power_desc(r):
    vals, n, _ = bits(r, [4, 4, 4, 4])
    v = z.PowerDescriptor(
        current_power_mode=vals[0], available_power_sources=vals[1],
        current_power_source=vals[2], current_power_source_level=vals[3],
    )  # fmt: skip
    return v, le(n, 2), tuple(vals)


SIMPLE_FIELDS = [
    ("endpoint", uint(1)), ("profile", uint(2)), ("device_type", uint(2)),
    ("device_version", uint(1)), ("input_clusters", lst(uint(2), True)),
    ("output_clusters", lst(uint(2), True)),
]  # fmt: skip


def simple_desc(r):
    v, raw, p = struct(z.SizePrefixedSimpleDescriptor, SIMPLE_FIELDS)(r)
    return v, bytes([len(raw)]) + raw, p


def multi_addr(r):
    if r.random() < 0.5:
        n = r.randrange(65536)
        return z.MultiAddress(addrmode=1, nwk=n), b"\x01" + le(n, 2), (1, n)
    e, raw, p = eui(r)
    ep = r.randrange(256)
    return z.MultiAddress(addrmode=3, ieee=e, endpoint=ep), b"\x03" + raw + bytes([ep]), (3, p, ep)


def neighbor(r):
    xp, x, p1 = eui(r)
    ie, i, p2 = eui(r)
    nwk = r.randrange(65536)
    a, n1, _ = bits(r, [2, 2, 3, 1])
    b, n2, _ = bits(r, [2, 6])
    depth, lqi = r.randrange(256), r.randrange(256)
    v = z.Neighbor(
        extended_pan_id=t.ExtendedPanId(xp), ieee=ie, nwk=nwk, device_type=a[0],
        rx_on_when_idle=a[1], relationship=a[2], reserved1=a[3], permit_joining=b[0],
        reserved2=b[1], depth=depth, lqi=lqi,
    )  # fmt: skip
    return v, x + i + le(nwk, 2) + bytes([n1, n2, depth, lqi]), (p1, p2, nwk, *a, *b, depth, lqi)


def route(r):
    dst, nh = r.randrange(65536), r.randrange(65536)
    a, n, _ = bits(r, [3, 1, 1, 1, 2])
    v = z.Route(
        DstNWK=dst, RouteStatus=a[0], MemoryConstrained=a[1], ManyToOne=a[2],
        RouteRecordRequired=a[3], Reserved=a[4], NextHop=nh,
    )  # fmt: skip
    return v, le(dst, 2) + bytes([n]) + le(nh, 2), (dst, *a, nh)


def nwk_update(r):
    mask = r.randrange(1 << 32)
    dur = r.choice([0, 1, 5, 6, 0x80, 0xFD, 0xFE, 0xFF])
    kw, raw, plain = {"ScanChannels": mask, "ScanDuration": dur}, le(mask, 4) + bytes([dur]), [mask, dur]
    if dur <= 5:
        c = r.randrange(256)
        kw["ScanCount"], raw = c, raw + bytes([c])
        plain.append(c)
    if dur in (0xFE, 0xFF):
        c = r.randrange(256)
        kw["nwkUpdateId"], raw = c, raw + bytes([c])
        plain.append(c)
    if dur == 0xFF:
        c = r.randrange(65536)
        kw["nwkManagerAddr"], raw = c, raw + le(c, 2)
        plain.append(c)
    return z.NwkUpdate(**kw), raw, tuple(plain)


binding = struct(z.Binding, [("SrcAddress", eui), ("SrcEndpoint", uint(1)), ("ClusterId", uint(2)), ("DstAddress", multi_addr)])
neighbors = struct(z.Neighbors, [("Entries", uint(1)), ("StartIndex", uint(1)), ("NeighborTableList", lst(neighbor, True))])
routes = struct(z.Routes, [("Entries", uint(1)), ("StartIndex", uint(1)), ("RoutingTableList", lst(route, True))])

U1, U2, U4 = uint(1), uint(2), uint(4)
L1, L2, L8 = lst(U1, True), lst(U2, True), lst(eui, True)
O = "opt"  # marks an optional trailing part

# command id -> list of makers; (O, maker) for optional trailing parts
COMMANDS = {
    0x0000: [eui, U1, U1], 0x0001: [U2, U1, U1], 0x0002: [U2], 0x0003: [U2],
    0x0004: [U2, U1], 0x0005: [U2], 0x0006: [U2, U2, L2, L2], 0x0011: [U2],
    0x0012: [U2, eui], 0x0013: [U2, eui, U1], 0x0014: [U2, fixed16], 0x0015: [U2],
    0x0016: [U2, eui, U1, U1, U1, L1], 0x0017: [U2, eui, node_desc], 0x0019: [U2, eui, L1],
    0x001A: [U2, eui, (O, simple_desc)],  # a missing descriptor is None
    0x001B: [U2, eui], 0x001C: [U2, eui],
    0x001D: [U2, U1, U1], 0x001E: [U2, U1], 0x001F: [L8],
    0x0020: [U2, eui, U1, U2, L2, L2],
    0x0021: [eui, U1, U2, multi_addr], 0x0022: [eui, U1, U2, multi_addr],
    0x0031: [U1], 0x0032: [U1], 0x0033: [U1], 0x0034: [eui, U1], 0x0036: [U1, boolean],
    0x0038: [nwk_update],
    0x8000: [status, eui, U2, (O, U1), (O, U1), (O, lst(U2, False))],
    0x8001: [status, eui, U2, (O, U1), (O, U1), (O, lst(U2, False))],
    0x8002: [status, U2, (O, node_desc)], 0x8003: [status, U2, (O, power_desc)],
    0x8004: [status, U2, (O, simple_desc)], 0x8005: [status, U2, L1], 0x8006: [status, U2, L1],
    0x8011: [status, U2, U1, (O, fixed16)], 0x8012: [status], 0x8014: [status, U2],
    0x8015: [status, U2], 0x8016: [status], 0x8017: [status],
    0x8018: [status, eui, power_desc], 0x8019: [status], 0x801A: [status], 0x801B: [status],
    0x801C: [U2, U2, eui], 0x801D: [status, U2, U1, U1, U1, U1, (O, lst(U2, False))],
    0x801E: [status, U2, U1, U1, lst(U1, False)], 0x801F: [status, L8],
    0x8020: [status], 0x8021: [status], 0x8022: [status],
    0x8031: [status, (O, neighbors)], 0x8032: [status, (O, routes)],
    0x8033: [status, U1, U1, lst(binding, True)], 0x8034: [status], 0x8036: [status],
    0x8038: [status, U4, U2, U2, L1],
}  # fmt: skip


def plain(v):
    if v is None or isinstance(v, (bool, int)):
        return None if v is None else int(v)
    if isinstance(v, t.Struct):
        out = []
        for fl in v.fields:
            x = getattr(v, fl.name)
            if x is not None:
                out.append(plain(x))
        return tuple(out)
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    raise TypeError(type(v))


UNDELIMITED = (0x8000, 0x8001, 0x801D, 0x801E)  # end in a list reaching to the end


def absent(cmd, n):
    """Decoded form of the last n optional parts when absent."""
    out = [None] * n
    if n and cmd in UNDELIMITED:
        out[-1] = ()
    return out


def make(rng, cmd):
    vals, chunks, plains = [], [], []
    opt_from = None
    makers = COMMANDS[cmd]
    n_opt = sum(isinstance(m, tuple) for m in makers)
    drop = rng.randint(0, n_opt) if rng.random() < 0.5 else 0
    for m in makers[: len(makers) - drop]:
        if isinstance(m, tuple):
            m = m[1]
            if opt_from is None:
                opt_from = sum(map(len, chunks))
        v, e, p = m(rng)
        vals.append(v)
        chunks.append(e)
        plains.append(p)
    return vals, chunks, plains, opt_from, drop


def run(ctx):
    rounds = ctx.n(100, 1500)
    names = {int(c): c.name for c in z.ZDOCmd if int(c) in {int(k) for k in z.CLUSTERS}}

    async def one(cmd, k):
        rng = ctx.rng(cmd, k)
        app = sim.make_app()
        dev = sim.add_ready_device(app, sim.eui(0x1122334455667700 + k), 0x1234 + k)
        name = names[cmd]
        vals, chunks, plains, opt_from, drop = make(rng, cmd)
        body = b"".join(chunks)
        w = {"command": name, "values": vals, "expected": body}
        for _ in range(rng.randint(0, 3)):
            dev.get_sequence()
        kw = {"expect_reply": False}
        tsn = None
        if cmd & 0x8000:
            tsn = rng.randrange(256)
            kw["tsn"] = tsn
        prev = dev._send_sequence if hasattr(dev, "_send_sequence") else None
        await getattr(dev.zdo, name)(*vals, **kw)
        if len(app.sent) != 1:
            raise Violation("not-sent-once", f"{name}: {len(app.sent)} packets", w)
        pkt = app.sent[0][1]
        data = pkt.data.serialize()
        if tsn is None:
            tsn = int(pkt.tsn)
        if data[:1] != bytes([tsn]) or int(pkt.tsn) != tsn:
            raise Violation("tsn-first-byte", f"{name}: payload {data.hex()} tsn {pkt.tsn} want {tsn}", w)
        if data[1:] != body:
            raise Violation("zdo-encoding", f"{name}: payload {data[1:].hex()} != {body.hex()}", w)
        if (pkt.cluster_id, pkt.profile_id, pkt.src_ep, pkt.dst_ep) != (cmd, 0, 0, 0):
            raise Violation("zdo-envelope", f"{name}: {pkt}", w)
        # decode
        hdr, args = dev.zdo.deserialize(cmd, data)
        ctx.count("commands_decoded")
        got = [plain(a) for a in args]
        want = plains + absent(cmd, drop)
        if int(hdr.tsn) != tsn or int(hdr.command_id) != cmd or hdr.is_reply != bool(cmd & 0x8000):
            raise Violation("zdo-header", f"{name}: header {hdr.tsn} {hdr.command_id}", w)
        if got != want:
            raise Violation("zdo-roundtrip", f"{name}: decoded {got} want {want}", w)
        if hdr.serialize() != bytes([tsn]):
            raise Violation("zdo-header", f"{name}: header serialises to {hdr.serialize()!r}", w)
        # re-encode decoded arguments
        _, schema = z.CLUSTERS[z.ZDOCmd(cmd)]
        present = args[: len(plains)]
        if t.serialize(present, schema) != body:
            raise Violation("zdo-reencode", f"{name}: {t.serialize(present, schema).hex()} != {body.hex()}", w)
        # nothing left over, and extra bytes are returned as such when delimited
        _, rest = t.deserialize(body, schema)
        if rest != b"":
            raise Violation("zdo-leftover", f"{name}: {rest.hex()} left over", w)
        makers = COMMANDS[cmd]
        delimited = drop == 0 and cmd not in UNDELIMITED
        if delimited:
            extra = rng.randbytes(rng.randint(1, 4))
            a2, rest = t.deserialize(body + extra, schema)
            if rest != extra or [plain(a) for a in a2] != want:
                raise Violation("zdo-extra", f"{name}: extra {extra.hex()} -> rest {rest.hex()}", w)
        # truncation: inside the mandatory part it must be refused
        limit = len(body) if opt_from is None else opt_from
        if name == "Extended_Active_EP_rsp":
            limit = len(b"".join(chunks[:-1]))
        elif opt_from is not None and drop == sum(isinstance(m, tuple) for m in makers):
            limit = len(body)
        for cut in range(limit):
            ctx.count("truncations")
            try:
                r = dev.zdo.deserialize(cmd, data[: 1 + cut])
            except ValueError:
                continue
            raise Violation("zdo-truncated", f"{name}: cut to {cut} of {len(body)} bytes accepted: {r[1]}", w)
        try:
            dev.zdo.deserialize(cmd, b"")
        except ValueError:
            pass
        else:
            raise Violation("zdo-truncated", f"{name}: empty payload accepted", w)
        # a cut at the border of an optional part means it is absent, nothing else changes
        if opt_from is not None:
            n0 = next((i for i, m in enumerate(makers) if isinstance(m, tuple)), None)
            _, a3 = dev.zdo.deserialize(cmd, data[: 1 + opt_from])
            if [plain(a) for a in a3] != plains[:n0] + absent(cmd, len(makers) - n0):
                raise Violation("zdo-optional", f"{name}: without optional parts: {a3}", w)
        if cmd == 0x8004:
            st, nwk = rng.choice([0x80, 0x81, 0x82, 0x83]), rng.randrange(65536)
            raw = bytes([tsn, st]) + le(nwk, 2) + b"\x00"
            _, a4 = dev.zdo.deserialize(cmd, raw)
            if [plain(a) for a in a4] != [st, nwk, None]:
                raise Violation("zdo-empty-descriptor", f"{raw.hex()} decoded as {a4}", w)
        ctx.evaluated((name, body))
        ctx.state("commands", name)
        ctx.sample({"command": name, "payload": data.hex()})

    async def broadcast(k):
        """Broadcasts carry the same encoding, by position or by name."""
        rng = ctx.rng("bc", k)
        app = sim.make_app()
        cmd = rng.choice([c for c in names if not c & 0x8000])
        vals, chunks, plains, _, _ = make(rng, cmd)
        params, _ = z.CLUSTERS[z.ZDOCmd(cmd)]
        pos = rng.randint(0, len(vals))
        named = list(zip(params, vals))[pos:]
        rng.shuffle(named)
        await zigpy.zdo.broadcast(app, z.ZDOCmd(cmd), 0, 30, *vals[:pos], **dict(named))
        data = app.sent[0][1].data.serialize()
        if data != bytes([app.sent[0][1].tsn]) + b"".join(chunks):
            raise Violation(
                "zdo-broadcast-encoding",
                f"{names[cmd]} named {[n for n, _ in named]}: {data[1:].hex()} != {b''.join(chunks).hex()}",
                vals,
            )
        ctx.count("broadcasts")
        ctx.evaluated(("bc", cmd, data))

    async def unknown(k):
        rng = ctx.rng("unk", k)
        app = sim.make_app()
        dev = sim.add_ready_device(app, sim.eui(5), 0x77)
        cid = rng.randrange(65536)
        if cid in names:
            return
        try:
            r = dev.zdo.deserialize(cid, rng.randbytes(rng.randint(0, 30)))
        except ValueError:
            ctx.count("unknown_refused")
            return
        raise Violation("zdo-unknown", f"unknown ZDO command 0x{cid:04X} decoded as {r}", None)

    def bad_addr(k):
        rng = ctx.rng("ma", k)
        mode = rng.choice([m for m in range(256) if m not in (1, 3)])
        raw = bytes([mode]) + rng.randbytes(12)
        try:
            r = z.MultiAddress.deserialize(raw)
        except ValueError:
            pass
        else:
            raise Violation("multiaddress", f"address mode {mode} accepted: {r}", raw)
        try:
            r = z.MultiAddress(addrmode=mode, nwk=1, ieee=sim.eui(1), endpoint=1).serialize()
        except ValueError:
            ctx.count("bad_modes_refused")
        else:
            raise Violation("multiaddress", f"address mode {mode} serialised: {r}", raw)

    missing = set(names) - set(COMMANDS)
    if missing:
        ctx.assumptions.append(f"no format table for {sorted(missing)}")
    gone = set(COMMANDS) - set(names)
    if gone:
        ctx.violation("zdo-command-missing", f"commands {[hex(c) for c in sorted(gone)]} are not defined", None)
    for cmd in sorted(set(COMMANDS) & set(names)):
        for k in range(rounds):
            ctx.case(f"{cmd:04x}-{k}", lambda: vloop.run(one(cmd, k)))
    for k in range(ctx.n(300, 4000)):
        ctx.case(f"bc-{k}", lambda: vloop.run(broadcast(k)))
        ctx.case(f"unk-{k}", lambda: vloop.run(unknown(k)))
        ctx.case(f"ma-{k}", bad_addr, k)
    ctx.require("commands_decoded", 1000)
    ctx.require("truncations", 5000)
    ctx.require("broadcasts", 200)
