"""T01: primitive wire types."""

from __future__ import annotations

import copy
import enum
import inspect
import math
import pickle
import struct

from harness import gen
from harness.core import Violation

import zigpy.types as t
import zigpy.zcl.clusters  # noqa: F401  (defines the enumerations of every cluster)
import zigpy.zcl.foundation as foundation  # noqa: F401
import zigpy.zdo.types  # noqa: F401

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: encode/decode calls of every primitive type compared online "
    "with an independent codec; exhaustive for 8-bit and half-float spaces"
)
NOTE = (
    "All 8-bit values, all 65536 half floats, all boundary values and random values of "
    "every wider type, every truncation point. Trusts the size/sign/endianness implied by "
    "the type's name."
)
RULE = (
    "Every integer, enumeration, bitmap, float, string, list, address and key type "
    "reachable from zigpy.types and all cluster/ZDO modules, on boundary and random "
    "values with random trailing bytes, all truncations and out-of-range values; one "
    "evaluation is one (type, value) round trip or refusal; non-trivial means the value "
    "has a non-empty encoding."
)


def must_refuse(fn, key, msg):
    try:
        r = fn()
    except ValueError:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(key, f"{msg}: raised {type(e).__name__}: {e}") from e
    raise Violation(key, f"{msg}: accepted as {r!r}")


def check_enc(ctx, cls, value, enc, rng, eq=None, trunc=True):
    name = cls.__name__
    got = value.serialize()
    if bytes(got) != enc:
        raise Violation(
            f"encoding:{name}", f"{name}({value!r}) encoded {bytes(got).hex()} != {enc.hex()}"
        )
    extra = rng.randbytes(rng.choice([0, 1, 5]))
    back, rest = cls.deserialize(enc + extra)
    if bytes(rest) != extra:
        raise Violation(f"leftover:{name}", f"{name}: left {bytes(rest)!r} instead of {extra!r}")
    if not (eq or gen.same)(back, value):
        raise Violation(f"roundtrip:{name}", f"{name}: {value!r} decoded as {back!r}")
    if not isinstance(back, cls):
        raise Violation(f"type:{name}", f"{name}: decoded value has type {type(back)}")
    if back.serialize() != enc:
        raise Violation(f"reencode:{name}", f"{name}: {back!r} re-encodes differently")
    if trunc:
        pts = range(len(enc)) if len(enc) < 40 else [0, 1, 2, len(enc) // 2, len(enc) - 1]
        for k in pts:
            must_refuse(
                lambda: cls.deserialize(enc[:k]),
                f"truncated:{name}",
                f"{name}: {k} of {len(enc)} bytes {enc[:k].hex()}",
            )
            ctx.count("truncations")
    ctx.evaluated((name, enc), len(enc) > 0)
    ctx.count("roundtrips")


def ints(ctx, cls, n):
    rng = ctx.rng("int", cls.__module__, cls.__qualname__)
    bits, signed, be = gen.int_spec(cls)
    is_flag = issubclass(cls, enum.Flag)
    is_enum = issubclass(cls, enum.Enum)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    vals = list(range(lo, hi + 1)) if bits <= 8 else gen.int_values(rng, bits, signed, n)
    members = {}
    if is_enum:
        members = {k: int(m._value_) for k, m in cls.__members__.items()}
        vals += list(members.values())
    if bits <= 8 and n < 50 and is_enum:
        vals = rng.sample(range(hi + 1), min(hi + 1, 40)) + list(members.values())
    for v in vals:
        x = cls(v)
        if int(x) != v:
            raise Violation(f"value:{cls.__name__}", f"{cls.__name__}({v}) is {int(x)}")
        if bits % 8 == 0:
            enc = gen.enc_int(v, bits, signed, be)
            check_enc(ctx, cls, x, enc, rng, eq=lambda a, b: int(a) == int(b) and a == b, trunc=v == vals[0])
        else:
            b = x.bits()
            if list(b) != [(v >> k) & 1 for k in range(bits - 1, -1, -1)]:
                raise Violation(f"bits:{cls.__name__}", f"{v}: {b}")
            pre = [rng.randrange(2) for _ in range(rng.randrange(4))]
            y, rest = cls.from_bits(t.Bits(pre + list(b)))
            if int(y) != v or list(rest) != pre:
                raise Violation(f"bits:{cls.__name__}", f"{v} came back as {y} {rest}")
            ctx.evaluated((cls.__name__, v))
            ctx.count("roundtrips")
        if rng.random() < 0.05:
            for other in (copy.copy(x), copy.deepcopy(x)):
                if other != x or type(other) is not type(x):
                    raise Violation(f"copy:{cls.__name__}", f"{x!r} copied as {other!r}")
            ctx.count("copies")
    # members keep their names whatever was decoded before
    for k, v in members.items():
        if int(cls[k]) != v or int(getattr(cls, k)) != v:
            raise Violation(f"member:{cls.__name__}", f"{k} is now {cls[k]!r}")
        if not is_flag and cls(v) is not cls[k]:
            raise Violation(f"member:{cls.__name__}", f"{v} decodes to {cls(v)!r}, not member {k}")
    # out of range
    bad = [hi + 1, hi + 2, 2 * hi + 1, hi + 1 + rng.getrandbits(bits + 8), 1 << 70]
    if not is_flag:
        bad += [lo - 1, lo - 256, -(1 << 70)]
    for v in bad:
        must_refuse(lambda: cls(v), f"range:{cls.__name__}", f"{cls.__name__}({v})")
        ctx.count("refusals")
    if bits % 8 == 0:
        sz = bits // 8
        for k in range(sz):
            must_refuse(
                lambda: cls.deserialize(rng.randbytes(k)),
                f"truncated:{cls.__name__}",
                f"{cls.__name__}: {k} of {sz} bytes",
            )
    if "." not in cls.__qualname__ and not is_enum:
        x = cls(vals[-1])
        y = pickle.loads(pickle.dumps(x))
        if y != x or type(y) is not cls:
            raise Violation(f"copy:{cls.__name__}", f"{x!r} unpickled as {y!r}")


def floats(ctx, cls):
    rng = ctx.rng("float", cls.__name__)
    fmt = gen.FLOAT_FMT[cls.__name__]
    size = struct.calcsize(fmt)
    if cls.__name__ == "Half":
        raws = [k.to_bytes(2, "little") for k in range(65536)]
    else:
        raws = [rng.randbytes(size) for _ in range(ctx.n(4000, 60000))]
        for _ in range(ctx.n(400, 4000)):  # subnormal / huge / special patterns
            n = int.from_bytes(rng.randbytes(size), "little")
            mb = {4: 23, 8: 52}[size]
            frac, sign = n & ((1 << mb) - 1), n >> (size * 8 - 1)
            eb = size * 8 - 1 - mb
            for e in (0, 1, (1 << eb) - 2, (1 << eb) - 1, 1 << (eb - 1), (1 << (eb - 1)) - 1):
                for fr in (frac, 0, 1, (1 << mb) - 1):
                    raws.append(
                        ((sign << (size * 8 - 1)) | (e << mb) | fr).to_bytes(size, "little")
                    )
    for raw in raws:
        want = struct.unpack(fmt, raw)[0]
        v, rest = cls.deserialize(raw + b"\x55")
        ctx.count("roundtrips")
        if rest != b"\x55" or type(v) is not cls:
            raise Violation(f"leftover:{cls.__name__}", f"{raw.hex()}: {rest!r} {type(v)}")
        if not gen.same(float(v), want):
            raise Violation(f"decoding:{cls.__name__}", f"{raw.hex()} is {want}, decoded {float(v)}")
        if math.isnan(want):
            w = cls.deserialize(v.serialize())[0]
            if not math.isnan(w):
                raise Violation(f"nan:{cls.__name__}", f"NaN {raw.hex()} became {w}")
        elif cls(want).serialize() != raw:
            raise Violation(
                f"encoding:{cls.__name__}", f"{want!r} encoded {cls(want).serialize().hex()}, not {raw.hex()}"
            )
        ctx.evaluated((cls.__name__, raw))
    for k in range(size):
        must_refuse(lambda: cls.deserialize(bytes(k)), f"truncated:{cls.__name__}", f"{k} bytes")
    # inexact values: at most one unit in the last place away; too large ones refused
    if size < 8:
        for _ in range(ctx.n(2000, 20000)):
            v = rng.uniform(-1, 1) * 10 ** rng.uniform(-6 if size == 2 else -40, 4 if size == 2 else 38)
            got = struct.unpack(fmt, cls(v).serialize())[0]
            best = struct.unpack(fmt, struct.pack(fmt, v))[0]
            q = int.from_bytes(struct.pack(fmt, abs(best)), "little")
            near = [struct.unpack(fmt, (q + d).to_bytes(size, "little"))[0] for d in (-1, 0, 1) if q + d >= 0]
            ctx.count("inexact")
            if abs(got) not in near or (got != 0 and (got < 0) != (v < 0)):
                raise Violation(f"inexact:{cls.__name__}", f"{v!r} encoded as {got!r}")
        for v in (65536.0, 1e6, -7e4, 1e30) if size == 2 else (3.5e38, -1e39, 1e300):
            must_refuse(lambda: cls(v).serialize(), f"range:{cls.__name__}", f"{cls.__name__}({v})")
            ctx.count("refusals")


def strings(ctx, idx):
    rng = ctx.rng("str", idx)
    kinds = [
        (t.CharacterString, 1, 254),
        (t.LongCharacterString, 2, 65534),
        (t.LimitedCharString(16), 1, 16),
        (t.LimitedCharString(32), 1, 32),
        (t.LimitedCharString(254), 1, 254),
    ]
    for cls, plen, mx in kinds:
        for n in (rng.randint(0, min(mx, 600)), mx if mx < 1000 or idx == 0 else 300, rng.randint(250, 260) if plen == 2 else 1):
            if n > mx:
                continue
            s = gen.rand_text(rng, n)
            raw = s.encode()
            check_enc(ctx, cls, cls(s), len(raw).to_bytes(plen, "little") + raw, rng, eq=lambda a, b: str(a) == str(b) and not a.invalid)
        # exact limit and one beyond, in bytes
        if mx < 1000 or idx == 0:
            for ch in ("a", "é", "中"):
                w = len(ch.encode())
                s = ch * (mx // w) + "x" * (mx % w)
                raw = s.encode()
                check_enc(ctx, cls, cls(s), len(raw).to_bytes(plen, "little") + raw, rng, eq=lambda a, b: str(a) == str(b), trunc=False)
                must_refuse(lambda: cls(s + "x").serialize(), f"range:{cls.__name__}", f"string of {mx + 1} bytes")
                must_refuse(lambda: cls(ch * (mx + 1)).serialize(), f"range:{cls.__name__}", f"string of {(mx + 1) * w} bytes")
                ctx.count("refusals", 2)
        inv = b"\xff" * plen
        v, rest = cls.deserialize(inv + b"abc")
        if not v.invalid or rest != b"abc" or v.serialize() != inv:
            raise Violation(f"invalid:{cls.__name__}", f"{v!r} {v.invalid} {rest} {v.serialize().hex()}")
        ctx.count("invalid_strings")
    for cls, plen, mx in (
        (t.LVBytes, 1, 254),
        (t.LongOctetString, 2, 65534),
        (t.LimitedLVBytes(32), 1, 32),
    ):
        for n in (0, 1, rng.randint(0, min(mx, 500)), mx if mx < 1000 or idx == 0 else 255):
            raw = rng.randbytes(n)
            check_enc(ctx, cls, cls(raw), n.to_bytes(plen, "little") + raw, rng)
        if mx < 1000 or idx == 0:
            for n in (mx + 1, mx + 2, mx * 2 + 5):
                must_refuse(lambda: cls(bytes(n)).serialize(), f"range:{cls.__name__}", f"{n} bytes")
                ctx.count("refusals")


def lists(ctx, idx):
    rng = ctx.rng("list", idx)
    items = [
        (t.uint8_t, 8, False, False), (t.uint16_t, 16, False, False), (t.int24s, 24, True, False),
        (t.NWK, 16, False, False), (t.uint32_t_be, 32, False, True), (t.enum16, 16, False, False),
        (t.bitmap8, 8, False, False),
    ]  # fmt: skip
    for cls, bits, signed, be in items:
        vals = [rng.choice(gen.int_values(rng, bits, signed, 3)) for _ in range(rng.randint(0, 9))]
        enc = b"".join(gen.enc_int(v, bits, signed, be) for v in vals)
        eq = lambda a, b: [int(x) for x in a] == [int(x) for x in b]  # noqa: E731
        for L in (t.LVList[cls], t.LVList[cls, t.uint8_t]):
            check_enc(ctx, L, L(vals), bytes([len(vals)]) + enc, rng, eq=eq)
        L = t.LVList[cls, t.uint16_t]
        check_enc(ctx, L, L(vals), len(vals).to_bytes(2, "little") + enc, rng, eq=eq)
        F = t.FixedList[cls, len(vals)]
        check_enc(ctx, F, F(vals), enc, rng, eq=eq)
        must_refuse(lambda: F(vals + [vals[0] if vals else 1]).serialize(), "range:FixedList", "one item too many")
        if vals:
            must_refuse(lambda: F(vals[:-1]).serialize(), "range:FixedList", "one item too few")
        G = t.List[cls]
        back, rest = G.deserialize(enc)
        if not eq(back, vals) or rest != b"" or G(vals).serialize() != enc:
            raise Violation("roundtrip:List", f"{vals} {back} {rest}")
        if bits > 8 and vals:
            must_refuse(lambda: G.deserialize(enc[:-1]), "truncated:List", "partial item")
        many = [rng.choice(gen.int_values(rng, bits, signed, 1)) for _ in range(rng.choice([255, 256, 300]))]
        if len(many) > 255:
            must_refuse(lambda: t.LVList[cls](many).serialize(), "range:LVList", f"{len(many)} items")
        check_enc(ctx, L, L(many), len(many).to_bytes(2, "little") + b"".join(gen.enc_int(v, bits, signed, be) for v in many), rng, eq=eq)
        ctx.count("lists")
        big = (1 << bits) if not signed else (1 << (bits - 1))
        must_refuse(lambda: t.LVList[cls]([big]).serialize(), "range:item", f"item {big}")
    # nested
    N = t.LVList[t.LVList[t.uint16_t]]
    vals = [[rng.randrange(65536) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))]
    enc = bytes([len(vals)]) + b"".join(
        bytes([len(v)]) + b"".join(x.to_bytes(2, "little") for x in v) for v in vals
    )
    check_enc(ctx, N, N([t.LVList[t.uint16_t](v) for v in vals]), enc, rng)


def fixed(ctx, idx):
    rng = ctx.rng("fixed", idx)
    for cls, n in (
        (t.EUI64, 8), (t.ExtendedPanId, 8), (t.KeyData, 16), (t.data8, 1), (t.data16, 2), (t.data24, 3),
        (t.data32, 4), (t.data40, 5), (t.data48, 6), (t.data56, 7), (t.data64, 8),
    ):  # fmt: skip
        raw = rng.randbytes(n)
        check_enc(ctx, cls, cls(raw), raw, rng)
        for bad in (raw[:-1], raw + b"\x00", b""):
            must_refuse(lambda: cls(bad).serialize(), f"range:{cls.__name__}", f"{len(bad)} bytes")
            ctx.count("refusals")
        if n > 8 or cls in (t.EUI64, t.ExtendedPanId):
            x = cls(raw)
            text = ":".join(f"{b:02x}" for b in (raw if cls is t.KeyData else raw[::-1]))
            if str(x) != text or repr(x) != text:
                raise Violation(f"text:{cls.__name__}", f"{raw.hex()} prints as {x}")
            for form in (text, text.upper(), text.replace(":", ""), text.replace(":", " ")):
                if cls.convert(form) != x or cls.convert(form).serialize() != raw:
                    raise Violation(f"text:{cls.__name__}", f"convert({form!r}) = {cls.convert(form)}")
            ctx.count("text_forms")
    a, b = rng.randbytes(8), rng.randbytes(8)
    ea, eb, ea2 = t.EUI64(a), t.EUI64(b), t.EUI64.deserialize(a)[0]
    if ea != ea2 or hash(ea) != hash(ea2) or (ea == eb) != (a == b):
        raise Violation("hash:EUI64", f"{ea} {ea2} {eb}")
    if len({ea: 1, ea2: 2, eb: 3}) != (2 if a != b else 1):
        raise Violation("hash:EUI64", "dictionary lookup")
    n = rng.randrange(65536)
    if t.NWK.convert(f"{n:04x}") != n or str(t.NWK(n)) != f"0x{n:04X}":
        raise Violation("text:NWK", f"{n:04x}")
    chans = sorted(rng.sample(range(11, 27), rng.randint(0, 16)))
    m = t.Channels.from_channel_list(rng.sample(chans, len(chans)))
    if int(m) != sum(1 << c for c in chans) or list(m) != chans:
        raise Violation("channels", f"{chans} -> {m!r}")
    check_enc(ctx, t.Channels, m, int(m).to_bytes(4, "little"), rng)
    for bad in (10, 27, 0, -1, rng.randint(28, 100)):
        must_refuse(lambda: t.Channels.from_channel_list(chans + [bad]), "channels", f"channel {bad}")
    for cls in (t.Date, t.TimeOfDay):
        raw = rng.randbytes(4)
        v, rest = cls.deserialize(raw + b"z")
        if [int(x) for x in v.as_tuple()] != list(raw) or rest != b"z" or v.serialize() != raw:
            raise Violation(f"roundtrip:{cls.__name__}", f"{raw.hex()} -> {v}")
        for k in range(4):
            must_refuse(lambda: cls.deserialize(raw[:k]), f"truncated:{cls.__name__}", f"{k} bytes")
        ctx.count("roundtrips")
    y = rng.randint(1900, 2155)
    d = t.Date(years_since_1900=0, month=1, day=2, day_of_week=3)
    d.year = y
    if d.year != y or d.serialize()[0] != y - 1900:
        raise Violation("date", f"{y} -> {d}")
    nd, rest = t.NoData.deserialize(b"abc")
    if rest != b"abc" or nd.serialize() != b"":
        raise Violation("nodata", f"{rest}")


def run(ctx):
    classes = []
    for cls in gen.all_subclasses(t.FixedIntType):
        if getattr(cls, "_bits", None) is None or cls._signed is None:
            continue
        if cls.__name__ in ("_NewEnum", "Optional") or not cls.__module__.startswith("zigpy"):
            continue
        if issubclass(cls, t.Struct):
            continue
        if "deserialize" in cls.__dict__ and not cls.__module__.startswith("zigpy.types"):
            continue  # a cluster's own wire format (Basic.PowerSource: flag in bit 7)
        try:
            gen.int_spec(cls)
        except LookupError:
            continue
        classes.append(cls)
    classes.sort(key=lambda c: (c.__module__, c.__qualname__))
    ctx.count("integer_types", len(classes))
    for k, cls in enumerate(classes):
        base = cls.__module__ in ("zigpy.types.basic", "zigpy.types.named")
        n = ctx.n(60, 400) if base else ctx.n(10, 60)
        ctx.case(f"int-{cls.__module__}.{cls.__qualname__}-{k}", ints, ctx, cls, n)
    for cls in (t.Half, t.Single, t.Double):
        ctx.case(f"float-{cls.__name__}", floats, ctx, cls)
    for i in range(ctx.n(30, 400)):
        ctx.case(f"str-{i}", strings, ctx, i)
        ctx.case(f"list-{i}", lists, ctx, i)
        ctx.case(f"fixed-{i}", fixed, ctx, i)
    ctx.sample({"integer_types": [c.__name__ for c in classes][:40]})
    ctx.require("integer_types", 100)
    ctx.require("roundtrips", 50000)
    ctx.require("truncations", 2000)
    ctx.require("refusals", 500)
    ctx.require("text_forms", 50)
