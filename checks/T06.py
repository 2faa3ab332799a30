"""T06: addresses, keys, channel masks, statuses, enumerations and packets as values."""

from __future__ import annotations

import copy
import dataclasses
import datetime as dt

from harness import gen, statusref
from harness.core import Violation

import zigpy.state
import zigpy.types as t
import zigpy.zcl.clusters  # noqa: F401
from zigpy.zcl.clusters import general
import zigpy.zdo.types  # noqa: F401

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: sequence monitor comparing values built in every way (spellings, "
    "bytes, numbers, names, copies, replacement) with an independent model, including the "
    "contents of sets and dictionaries keyed by them"
)
NOTE = (
    "Random addresses, keys, channel lists, packets, enumerations and bitmaps of all classes "
    "in the library; each is built by several routes and compared with the model; malformed "
    "texts and numbers out of range are mixed in; sets keyed by the values are filled in "
    "random order and compared with sets of the model."
)
RULE = (
    "One evaluation: a random group of values of one kind with all its comparisons. "
    "Non-trivial: at least two equal values built in different ways and two different ones."
)

TEXT = ((t.EUI64, 8, True), (t.ExtendedPanId, 8, True), (t.KeyData, 16, False))
WS = (" ", "\t", "\n", "  ")


def refuse(ctx, fn, key, what):
    try:
        r = fn()
    except (ValueError, AssertionError, KeyError, TypeError, OverflowError):
        ctx.count("refused")
        return
    raise Violation(f"refuse:{key}", f"{what} was accepted as {r!r}")


def spell(rng, raw):
    """A random accepted spelling of bytes in the order of the text."""
    pairs = [f"{b:02x}" for b in raw]
    pairs = ["".join(rng.choice((c, c.upper())) for c in p) for p in pairs]
    style = rng.randrange(5)
    if style == 0:
        text = ":".join(pairs)
    elif style == 1:
        text = "".join(pairs)
    elif style == 2:
        text = rng.choice(WS).join(pairs)
    elif style == 3:
        text = ": ".join(pairs)
    else:
        text = pairs[0] + "".join(rng.choice((":", "", " ", ": ")) + p for p in pairs[1:])
    if rng.random() < 0.3:
        text = rng.choice(WS) + text
    if rng.random() < 0.3:
        text += rng.choice(WS)
    return text


def misspell(rng, raw):
    pairs = [f"{b:02x}" for b in raw]
    k = rng.randrange(7)
    if k == 0:
        return ":".join(pairs[:-1])
    if k == 1:
        return ":".join(pairs + ["00"])
    if k == 2:
        i = rng.randrange(len(pairs))
        pairs[i] = pairs[i][0]
        return rng.choice((":", "")).join(pairs)
    if k == 3:
        i = rng.randrange(len(pairs))
        pairs[i] = pairs[i][0] + rng.choice("gGxz.-_+/")
        return ":".join(pairs)
    if k == 4:
        return "-".join(pairs)
    if k == 5:
        return ""
    return "0x" + "".join(pairs)


def expect(cond, key, msg):
    if not cond:
        raise Violation(key, msg)


def texts(ctx, idx):
    rng = ctx.rng("texts", idx)
    for cls, n, backwards in TEXT:
        name = cls.__name__
        pool = [rng.randbytes(n) for _ in range(3)]
        pool.append(bytes([rng.choice((0, 0xFF))] * n))
        near = bytearray(pool[0])
        near[rng.randrange(n)] ^= 1 << rng.randrange(8)
        pool.append(bytes(near))
        pool.append(pool[0][::-1])
        built = []
        for _ in range(14):
            raw = rng.choice(pool)
            order = raw[::-1] if backwards else raw
            route = rng.randrange(6)
            if route <= 2:
                text = spell(rng, order)
                v = cls.convert(text)
                ctx.count("spellings")
            elif route == 3:
                v = cls(rng.choice((raw, list(raw), tuple(raw))))
            elif route == 4:
                v, rest = cls.deserialize(raw + b"\x01\x02")
                expect(rest == b"\x01\x02", f"value:{name}", "left over bytes")
            else:
                v = rng.choice((copy.copy, copy.deepcopy))(cls(raw))
            expect(type(v) is cls, f"value:{name}", f"built {type(v).__name__}")
            expect(
                v.serialize() == raw, f"value:{name}", f"{raw.hex()} built by route {route} is {v}"
            )
            canon = ":".join(f"{b:02x}" for b in order)
            for got in (str(v), repr(v), f"{v}"):
                expect(got == canon, f"text:{name}", f"{raw.hex()} prints as {got}")
            expect(cls.convert(str(v)) == v, f"text:{name}", f"{v} does not read back")
            built.append((raw, v))
        for ra, a in built:
            for rb, b in built:
                expect(
                    (a == b) == (ra == rb) and (a != b) == (ra != rb),
                    f"equal:{name}",
                    f"{a} == {b} is {a == b}",
                )
                ctx.count("comparisons")
                if ra == rb and cls is not t.KeyData:
                    expect(hash(a) == hash(b), f"hash:{name}", f"{a}")
        if cls is not t.KeyData:
            table, model = {}, {}
            for i, (r, v) in enumerate(built):
                table[v] = i
                model[r] = i
            expect(
                {k.serialize(): i for k, i in table.items()} == model,
                f"hash:{name}",
                f"dictionary holds {table}",
            )
            ctx.count("tables")
        for _ in range(4):
            bad = misspell(rng, rng.choice(pool))
            refuse(ctx, lambda: cls.convert(bad), name, f"{bad!r}")
        ctx.evaluated((name, idx), n=1)
    for cls in (t.NWK, t.PanId):
        vals = [rng.choice((0, 0xFFFF, 0xFFF8, rng.randrange(65536), rng.randrange(256))) for _ in range(6)]
        for v in vals:
            text = f"{v:04x}"
            text = "".join(rng.choice((c, c.upper())) for c in text)
            got = cls.convert(text)
            expect(
                type(got) is cls and got == v and hash(got) == hash(cls(v)) == hash(v),
                f"text:{cls.__name__}",
                f"{text} -> {got!r}",
            )
            expect(
                str(got) == repr(got) == f"0x{v:04X}", f"text:{cls.__name__}", f"{v} prints as {got}"
            )
            ctx.count("spellings")
        text = f"{rng.randrange(65536):04x}"
        for bad in (text[1:], text + "0", "", f"0x{text}", text[:3] + "g", "-" + text[1:], text[:2] + "  ", "+" + text[1:]):
            refuse(ctx, lambda: cls.convert(bad), cls.__name__, f"{bad!r}")
        for bad in (-1, 65536, 1 << 20):
            refuse(ctx, lambda: cls(bad), cls.__name__, f"{bad}")


def channels(ctx, idx):
    rng = ctx.rng("channels", idx)
    chans = sorted(rng.sample(range(11, 27), rng.randint(0, 16)))
    given = chans + rng.choices(chans, k=2) if chans else []
    rng.shuffle(given)
    m = t.Channels.from_channel_list(rng.choice((list, tuple, iter))(given))
    want = sum(1 << c for c in chans)
    expect(type(m) is t.Channels and int(m) == want, "channels", f"{given} -> {m!r}")
    expect(list(m) == chans and sorted(m) == chans, "channels", f"{m!r} lists {list(m)}")
    expect(m == t.Channels(want) and hash(m) == hash(t.Channels(want)), "channels", f"{m!r}")
    for c in range(11, 27):
        f = t.Channels[f"CHANNEL_{c}"]
        expect(int(f) == 1 << c, "channels", f"{f!r}")
        expect((f in m) == (c in chans), "channels", f"{f!r} in {m!r}")
    expect(list(t.Channels.ALL_CHANNELS) == list(range(11, 27)), "channels", "all channels")
    other = t.Channels.from_channel_list(rng.sample(range(11, 27), rng.randint(0, 16)))
    for op in ("__or__", "__and__", "__xor__"):
        r = getattr(m, op)(other)
        expect(
            type(r) is t.Channels and int(r) == getattr(want, op)(int(other)), "channels", f"{m!r} {op} {other!r} = {r!r}"
        )
        expect(set(r) == getattr(set(chans), op)(set(other)), "channels", f"{r!r} lists {list(r)}")
    ctx.count("channel_lists")
    extra = 0
    for b in rng.sample([b for b in range(32) if not 11 <= b <= 26], rng.randint(1, 3)):
        extra |= 1 << b
    refuse(ctx, lambda: list(t.Channels(want | extra)), "channels", f"mask {want | extra:#x}")
    for bad in (10, 27, 0, -1, rng.randint(28, 300)):
        lst = given + [bad]
        rng.shuffle(lst)
        refuse(ctx, lambda: t.Channels.from_channel_list(lst), "channels", f"channels {lst}")
    ctx.evaluated(("channels", chans, int(other), extra), nontrivial=0 < len(chans) < 16)


def statuses(ctx):
    """All 256 numbers of the chained status enumerations."""
    fallback = {
        t.APSStatus: (statusref.APSStatus, statusref.NWKStatus, statusref.MACStatus),
        t.NWKStatus: (statusref.NWKStatus, statusref.MACStatus),
        t.MACStatus: (statusref.MACStatus,),
    }
    for order in (range(256), range(255, -1, -1)):
        for cls, tables in fallback.items():
            for n in order:
                want = next((tb[n] for tb in tables if n in tb), f"undefined_0x{n:02x}")
                for v in (cls(n), cls.deserialize(bytes([n]))[0], cls(cls(n)), copy.copy(cls(n))):
                    expect(
                        type(v) is cls
                        and v.name == want
                        and v.value == n
                        and int(v) == n
                        and v == n
                        and v == cls(n)
                        and hash(v) == hash(cls(n))
                        and v.serialize() == bytes([n]),
                        f"status:{cls.__name__}",
                        f"{n:#04x} is {v!r}, expected {want}",
                    )
                    ctx.count("statuses")
                if n in tables[0]:
                    expect(cls[want] is cls(n), f"status:{cls.__name__}", f"{want}")
            for n in (-1, 256):
                refuse(ctx, lambda: cls(n), cls.__name__, f"{n}")
    ctx.evaluated("statuses")


def enum_classes():
    enums, maps = [], []
    for cls in gen.all_subclasses(t.FixedIntType):
        if not cls.__module__.startswith("zigpy") or getattr(cls, "_bits", None) is None:
            continue
        if not hasattr(cls, "__members__") or not len(cls.__members__):
            continue
        if hasattr(cls, "_flag_mask_"):
            maps.append(cls)
        else:
            enums.append(cls)
    key = lambda c: (c.__module__, c.__qualname__)  # noqa: E731
    return sorted(enums, key=key), sorted(maps, key=key)


def enums(ctx, cls, idx):
    rng = ctx.rng("enums", cls.__module__, cls.__qualname__, idx)
    top = 1 << cls._bits
    members = [m.value for m in cls]
    nums = members + [rng.randrange(top) for _ in range(4)] + [0, top - 1]
    rng.shuffle(nums)
    vals = {}
    # some classes name numbers that have no member in their own way
    plain = not any("_missing_" in c.__dict__ for c in cls.__mro__ if c.__module__ not in ("zigpy.types.basic", "enum"))
    key = f"enum:{cls.__name__}"
    for n in nums[:12]:
        v = cls(n)
        expect(type(v) is cls and int(v) == n and v.value == n and v == n, key, f"{n} -> {v!r}")
        text = f"{v!r} {v} {str(v)}"
        expect(v.name in text, key, f"{n} prints as {text}")
        expect(bool(v) == bool(n), key, f"truth of {v!r}")
        forms = [n, v, f"0x{n:X}", f"0x{n:0{(cls._bits + 3) // 4}x}", str(n), t.uint32_t(n) if n < 1 << 32 else n]
        known = n in members
        if known:
            forms += [v.name, f"{cls.__name__}.{v.name}"]
            expect(cls[v.name] is v, key, f"{v!r}")
        elif plain:
            suffix = f"0x{n:0{cls._bits // 4}x}" if cls._bits % 8 == 0 else f"0b{n:0{cls._bits}b}"
            expect(v.name.endswith("_" + suffix), key, f"{n} is called {v.name}")
            ctx.count("undefined_members")
        for form in forms:
            if isinstance(form, str) and form == "":
                continue
            w = cls(form)
            expect(
                type(w) is cls and w == v and hash(w) == hash(v) and w.name == v.name,
                key,
                f"{form!r} -> {w!r}, expected {v!r}",
            )
            ctx.count("enum_forms")
        expect(f"{v:04X}" == f"{n:04X}" and f"{v:x}" == f"{n:x}", key, f"{v!r} formats as {v:04X}")
        expect(copy.copy(v) == v and type(copy.deepcopy(v)) is cls, key, f"copy of {v!r}")
        if cls._bits % 8 == 0 and "deserialize" not in cls.__dict__:
            expect(
                cls.deserialize(v.serialize()) == (v, b"") and len(v.serialize()) == cls._bits // 8,
                key,
                f"{v!r}",
            )
        vals[v] = n
    expect({int(k): n for k, n in vals.items()} == {n: n for n in nums[:12]}, key, f"{vals}")
    refuse(ctx, lambda: cls("no such name"), key, "an unknown name")
    refuse(ctx, lambda: cls(top), key, f"{top}")
    refuse(ctx, lambda: cls(-1), key, "-1")
    refuse(ctx, lambda: cls(f"0x{top:X}"), key, f"0x{top:X}")
    # what was looked up has not become a member
    expect(
        [m.value for m in cls] == members,
        key,
        f"members {list(cls)[:9]}",
    )
    ctx.evaluated((cls.__qualname__, tuple(nums[:12])), nontrivial=len(set(nums)) > 1)


def bitmaps(ctx, cls, idx):
    rng = ctx.rng("bitmaps", cls.__module__, cls.__qualname__, idx)
    key = f"bitmap:{cls.__name__}"
    top = 1 << cls._bits
    bits = [int(m.value) for m in cls.__members__.values()]
    for _ in range(6):
        a, b = rng.randrange(top), rng.randrange(top)
        if rng.random() < 0.3:
            a = rng.choice(bits) | (rng.choice(bits) if rng.random() < 0.5 else 0)
        x, y = cls(a), cls(b)
        expect(type(x) is cls and int(x) == a and x == a and x == cls(a), key, f"{a:#x} -> {x!r}")
        expect(hash(x) == hash(cls(a)) and bool(x) == bool(a), key, f"{x!r}")
        for op in ("__or__", "__and__", "__xor__"):
            r = getattr(x, op)(y)
            expect(type(r) is cls and int(r) == getattr(a, op)(b), key, f"{x!r} {op} {y!r} = {r!r}")
            ctx.count("bit_operations")
        for m in cls.__members__.values():
            f = int(m.value)
            if f:
                expect(bool(x & m) == bool(a & f), key, f"{x!r} & {m!r}")
                expect((m in x) == (a & f == f), key, f"{m!r} in {x!r}")
        expect(copy.copy(x) == x and type(copy.deepcopy(x)) is cls, key, f"copy of {x!r}")
        if cls._bits % 8 == 0:
            expect(cls.deserialize(x.serialize()) == (x, b""), key, f"{x!r}")
        ctx.evaluated((cls.__qualname__, a, b))
    refuse(ctx, lambda: cls(top), key, f"{top}")


MODES = {
    t.AddrMode.Group: (t.Group, 16),
    t.AddrMode.NWK: (t.NWK, 16),
    t.AddrMode.IEEE: (t.EUI64, 64),
    t.AddrMode.Broadcast: (t.BroadcastAddress, 16),
}


def address(rng, pool=None):
    """(model, address): the same model always means equal addresses."""
    mode = rng.choice(list(MODES))
    cls, bits = MODES[mode]
    if mode == t.AddrMode.IEEE:
        raw = bytes([rng.randrange(3)]) * 8 if pool else rng.randbytes(8)
        given = rng.choice((t.EUI64(raw), raw, list(raw), t.ExtendedPanId(raw)))
        model = (int(mode), raw)
    else:
        n = rng.choice((0, 1, 0xFFFC, 0xFFFF)) if pool else rng.randrange(65536)
        given = rng.choice((n, cls(n), t.NWK(n), t.uint16_t(n), t.BroadcastAddress(n)))
        model = (int(mode), n)
    return model, t.AddrModeAddress(
        rng.choice((mode, mode, int(mode))), given
    ) if rng.random() < 0.7 else t.AddrModeAddress(addr_mode=mode, address=given)


def addresses(ctx, idx):
    rng = ctx.rng("addresses", idx)
    built = []
    for _ in range(16):
        model, a = address(rng, pool=True)
        cls = MODES[t.AddrMode(model[0])][0]
        expect(type(a.address) is cls, "addrmode", f"{a!r} holds {type(a.address).__name__}")
        expect(
            a.addr_mode == model[0]
            and (a.address.serialize() == model[1] if isinstance(model[1], bytes) else a.address == model[1]),
            "addrmode",
            f"{model} -> {a!r}",
        )
        if rng.random() < 0.3:
            a = rng.choice((copy.copy, copy.deepcopy))(a)
        elif rng.random() < 0.3:
            a = a.replace(address=a.address)
        built.append((model, a))
    for ma, a in built:
        for mb, b in built:
            expect((a == b) == (ma == mb) == (not a != b), "addrmode", f"{a!r} == {b!r} is {a == b}")
            if ma == mb:
                expect(hash(a) == hash(b), "addrmode:hash", f"{a!r}")
            ctx.count("comparisons")
    expect(len({a for _, a in built}) == len({m for m, _ in built}), "addrmode:hash", "set of addresses")
    for mode, (cls, bits) in MODES.items():
        if mode == t.AddrMode.IEEE:
            for bad in (b"\x00" * 7, b"\x00" * 9):
                refuse(ctx, lambda: t.AddrModeAddress(mode, bad).address.serialize(), "addrmode", f"{bad!r}")
        else:
            for bad in (-1, 65536):
                refuse(ctx, lambda: t.AddrModeAddress(mode, bad), "addrmode", f"{mode!r} {bad}")
        e = t.AddrModeAddress(mode, None)
        expect(e.address is None and e.addr_mode == mode, "addrmode", f"{e!r}")
    refuse(ctx, lambda: t.AddrModeAddress(t.AddrMode(0x07), 0x1234), "addrmode", "an unknown mode")
    ctx.evaluated(("addresses", tuple(m for m, _ in built)), nontrivial=len({m for m, _ in built}) > 1)


def field_values(rng):
    return {
        "timestamp": lambda: dt.datetime(2026, 1, 1, tzinfo=dt.timezone.utc)
        + dt.timedelta(seconds=rng.randrange(1000)),
        "priority": lambda: rng.choice((-1, 0, 1, 2, t.PacketPriority.HIGH, t.PacketPriority.LOW)),
        "src": lambda: rng.choice((None, address(rng, pool=True)[1], address(rng, pool=True)[1])),
        "src_ep": lambda: rng.choice((None, t.uint8_t(rng.randrange(256)), 1)),
        "dst": lambda: rng.choice((None, address(rng, pool=True)[1])),
        "dst_ep": lambda: rng.choice((None, t.uint8_t(rng.randrange(256)), 1)),
        "source_route": lambda: rng.choice((None, [], [t.NWK(rng.randrange(4)) for _ in range(rng.randint(1, 3))])),
        "extended_timeout": lambda: rng.choice((True, False)),
        "tsn": lambda: t.uint8_t(rng.randrange(256)),
        "profile_id": lambda: t.uint16_t(rng.choice((0, 0x104, 0xC05E))),
        "cluster_id": lambda: t.uint16_t(rng.randrange(65536)),
        "data": lambda: t.SerializableBytes(rng.randbytes(rng.randint(0, 4))),
        "tx_options": lambda: rng.choice(
            (t.TransmitOptions.NONE, t.TransmitOptions.ACK, t.TransmitOptions.ACK | t.TransmitOptions.APS_Encryption)
        ),
        "radius": lambda: t.uint8_t(rng.randrange(256)),
        "non_member_radius": lambda: t.uint8_t(rng.randrange(256)),
        "lqi": lambda: rng.choice((None, t.uint8_t(rng.randrange(256)))),
        "rssi": lambda: rng.choice((None, t.int8s(rng.randrange(-128, 128)))),
    }


def model_of(p):
    out = []
    for f in dataclasses.fields(t.ZigbeePacket):
        if f.name == "timestamp":
            continue
        v = getattr(p, f.name)
        if isinstance(v, t.AddrModeAddress):
            v = (int(v.addr_mode), bytes(v.address.serialize()))
        elif isinstance(v, t.SerializableBytes):
            v = v.serialize()
        elif isinstance(v, list):
            v = ("route", tuple(int(x) for x in v))
        elif isinstance(v, t.TransmitOptions):
            v = v.value
        elif v is not None:
            v = int(v)
        out.append((f.name, v))
    return tuple(out)


def packets(ctx, idx):
    rng = ctx.rng("packets", idx)
    values = field_values(rng)
    names = [f.name for f in dataclasses.fields(t.ZigbeePacket)]
    values = {k: v for k, v in values.items() if k in names}
    chosen = {k: v() for k, v in values.items() if rng.random() < 0.7}
    before = dt.datetime.now(dt.timezone.utc)
    p = t.ZigbeePacket(**chosen)
    if "timestamp" not in chosen:
        ok = before <= p.timestamp <= dt.datetime.now(dt.timezone.utc)
        expect(ok, "packet:timestamp", f"{p.timestamp}")
    for k, v in chosen.items():
        expect(getattr(p, k) == v, "packet", f"{k}: {getattr(p, k)!r}, given {v!r}")
    pool = [p]
    for _ in range(10):
        base = rng.choice(pool)
        r = rng.random()
        if r < 0.25:
            q = rng.choice((copy.copy, copy.deepcopy))(base)
            changes = {}
        elif r < 0.45:
            changes = {"timestamp": values["timestamp"]()}
            q = base.replace(**changes)
        else:
            changes = {k: values[k]() for k in rng.sample(sorted(values), rng.randint(0, 3))}
            snap = {n: getattr(base, n) for n in names}
            q = base.replace(**changes)
            for n in names:
                want = changes[n] if n in changes else snap[n]
                got = getattr(q, n)
                expect(
                    got == want and type(got) is type(want), "packet:replace", f"{n} is {got!r}, expected {want!r}"
                )
                expect(getattr(base, n) is snap[n], "packet:replace", f"{n} of the original changed")
            expect(q is not base and type(q) is t.ZigbeePacket, "packet:replace", "same object")
            ctx.count("replacements")
        pool.append(q)
    models = [model_of(q) for q in pool]
    for ma, a in zip(models, pool):
        for mb, b in zip(models, pool):
            expect(
                (a == b) == (ma == mb) == (not a != b),
                "packet:equality",
                f"{a} == {b} is {a == b}",
            )
            if ma == mb:
                expect(hash(a) == hash(b), "packet:hash", f"equal packets hash differently: {a} / {b}")
                if a.timestamp != b.timestamp:
                    ctx.count("equal_at_other_times")
            ctx.count("comparisons")
    expect(len(set(pool)) == len(set(models)), "packet:hash", "set of packets")
    if any(q.source_route for q in pool):
        ctx.count("routed")
    refuse(ctx, lambda: p.replace(no_such_field=1), "packet", "an unknown field")
    same = len(set(models)) < len(models)
    ctx.evaluated(models, nontrivial=same and len(set(models)) > 1)
    # data holders only take bytes
    for bad in ("text", None, 5, [1]):
        refuse(ctx, lambda: t.SerializableBytes(bad), "packet:data", f"{bad!r}")
    s = t.SerializableBytes(b"ab")
    expect(t.SerializableBytes(s) == s and t.SerializableBytes(s).serialize() == b"ab", "packet:data", f"{s}")
    expect(s != b"ab" and s != t.SerializableBytes(b"ac"), "packet:data", f"{s}")


def dates(ctx, idx):
    rng = ctx.rng("dates", idx)
    d = t.Date(years_since_1900=rng.randrange(256), month=1, day=2, day_of_week=3)
    expect(d.year == 1900 + d.years_since_1900, "date", f"{d} year {d.year}")
    y = rng.randint(1900, 2155)
    d.year = y
    expect(
        d.year == y and d.years_since_1900 == y - 1900 and d.serialize() == bytes([y - 1900, 1, 2, 3]), "date", f"{d}"
    )
    for bad in (1899, 2156, 0):
        refuse(ctx, lambda: setattr(d, "year", bad), "date", f"year {bad}")
        expect(d.year == y, "date", f"changed to {d}")
    expect(t.Date().year is None, "date", "year of an empty date")
    ctx.count("dates")


def power_sources(ctx, idx):
    """Values with a flag of their own: what was decoded stays what it is."""
    rng = ctx.rng("power", idx)
    cls = general.PowerSource
    log = []
    for _ in range(12):
        n = rng.choice((0x01, 0x81, 0x03, 0x83, 0x00, 0x80, rng.randrange(256)))
        v, rest = cls.deserialize(bytes([n]) + b"x")
        log.append((n, v))
        expect(rest == b"x", "power", f"{rest!r} left")
        for m, w in log:
            expect(
                type(w) is cls
                and w == m & 0x7F
                and w == cls(m & 0x7F)
                and hash(w) == hash(cls(m & 0x7F))
                and w.name == cls(m & 0x7F).name
                and w.battery_backup == bool(m & 0x80),
                "power",
                f"{m:#04x} is now {w!r} with battery backup {w.battery_backup}",
            )
            ctx.count("power_sources")
    for m in cls:
        expect(not m.battery_backup, "power", f"{m!r} got a battery backup")
    ctx.evaluated(("power", tuple(n for n, _ in log)))


def holders(ctx, idx):
    """Replacing fields of the other value holders."""
    rng = ctx.rng("holders", idx)
    ieee = t.EUI64(rng.randbytes(8))
    key = zigpy.state.Key(
        key=t.KeyData(rng.randbytes(16)), tx_counter=rng.randrange(1 << 32), rx_counter=1, seq=2, partner_ieee=ieee
    )
    node = zigpy.state.NodeInfo(nwk=t.NWK(rng.randrange(65536)), ieee=ieee)
    net = zigpy.state.NetworkInfo(pan_id=t.PanId(rng.randrange(65536)), channel=t.uint8_t(15), network_key=key)
    for obj, field, value in (
        (key, "seq", rng.randrange(256)),
        (key, "key", t.KeyData(rng.randbytes(16))),
        (node, "nwk", t.NWK(rng.randrange(65536))),
        (net, "channel", t.uint8_t(rng.randint(11, 26))),
        (net, "pan_id", t.PanId(rng.randrange(65536))),
    ):
        names = [f.name for f in dataclasses.fields(obj)]
        snap = {n: getattr(obj, n) for n in names}
        r = obj.replace(**{field: value})
        for n in names:
            expect(
                getattr(r, n) == (value if n == field else snap[n]),
                f"replace:{type(obj).__name__}",
                f"{n} is {getattr(r, n)!r}",
            )
            expect(getattr(obj, n) is snap[n], f"replace:{type(obj).__name__}", f"{n} of the original changed")
        expect((r == obj) == (snap[field] == value), f"replace:{type(obj).__name__}", "equality")
        expect(obj == obj.replace() and copy.deepcopy(obj) == obj, f"replace:{type(obj).__name__}", "copy")
        ctx.count("replacements")


def run(ctx):
    es, ms = enum_classes()
    ctx.case("statuses", statuses, ctx)
    for i in range(ctx.n(400, 12000)):
        ctx.case(f"texts-{i}", texts, ctx, i)
        ctx.case(f"channels-{i}", channels, ctx, i)
        ctx.case(f"addresses-{i}", addresses, ctx, i)
        ctx.case(f"packets-{i}", packets, ctx, i)
        ctx.case(f"dates-{i}", dates, ctx, i)
        ctx.case(f"holders-{i}", holders, ctx, i)
        ctx.case(f"power-{i}", power_sources, ctx, i)
    for i in range(ctx.n(4, 120)):
        for j, cls in enumerate(es):
            ctx.case(f"enum-{cls.__qualname__}-{j}-{i}", enums, ctx, cls, i)
        for j, cls in enumerate(ms):
            ctx.case(f"bitmap-{cls.__qualname__}-{j}-{i}", bitmaps, ctx, cls, i)
    ctx.count("enum_classes", len(es))
    ctx.count("bitmap_classes", len(ms))
    ctx.require("spellings", 1000)
    ctx.require("comparisons", 10000)
    ctx.require("tables", 100)
    ctx.require("statuses", 1500)
    ctx.require("channel_lists", 100)
    ctx.require("replacements", 500)
    ctx.require("equal_at_other_times", 50)
    ctx.require("routed", 50)
    ctx.require("power_sources", 1000)
    ctx.require("refused", 2000)
    ctx.require("enum_classes", 100)
    ctx.require("enum_forms", 5000)
    ctx.require("bit_operations", 2000)
