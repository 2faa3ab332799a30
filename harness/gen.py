"""Independent generators/encoders for zigpy wire types (used by T01-T04 and others).

`spec(cls)` classifies a type by its *name* or by the base it was declared from, with
sizes taken from an explicit table here rather than from the attributes of the class.
"""

from __future__ import annotations

import enum
import math
import random
import re
import struct

import zigpy.types as t

_INT_RE = re.compile(r"^(u?)int(\d+)(_t|s)(_be)?$")
_SPECIAL_INT = {
    "NWK": 2, "PanId": 2, "Group": 2, "AttributeId": 2, "ClusterId": 2, "BACNetOid": 4,
    "_Time": 4, "UTCTime": 4, "StandardTime": 4, "LocalTime": 4,
}  # fmt: skip


def int_spec(cls):
    """(bits, signed, big_endian) for an integer-like type, from names only."""
    for c in cls.__mro__:
        if c.__name__ in _SPECIAL_INT and issubclass(c, int):
            return _SPECIAL_INT[c.__name__] * 8, False, False
        m = _INT_RE.match(c.__name__)
        if m and issubclass(c, int):
            return int(m[2]), m[1] == "", bool(m[4])
        m = re.match(r"^(enum|bitmap)(\d+)(_be)?$", c.__name__)
        if m:
            return int(m[2]), False, bool(m[3])
    raise LookupError(cls)


def enc_int(v, bits, signed, be):
    assert bits % 8 == 0
    if signed and v < 0:
        v += 1 << bits
    out = bytes((v >> (8 * k)) & 0xFF for k in range(bits // 8))
    return out[::-1] if be else out


def int_values(rng, bits, signed, n):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    base = {lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 2 + 1}
    for k in range(0, bits, 8):
        base |= {1 << k, (1 << k) - 1, 0x80 << k if k + 8 <= bits else 0}
    vals = [v for v in base if lo <= v <= hi]
    vals += [rng.randint(lo, hi) for _ in range(n)]
    vals += [rng.randint(0, min(hi, 300)) for _ in range(n // 2)]
    return vals


def all_subclasses(cls):
    seen = set()
    todo = [cls]
    out = []
    while todo:
        c = todo.pop()
        for s in type.__subclasses__(c):
            if s not in seen:
                seen.add(s)
                out.append(s)
                todo.append(s)
    return out


FLOAT_FMT = {"Half": "<e", "Single": "<f", "Double": "<d"}


def float_kind(cls):
    for c in cls.__mro__:
        if c.__name__ in FLOAT_FMT:
            return c.__name__
    raise LookupError(cls)


def same(a, b) -> bool:
    """Deep value equality where NaN equals NaN and float identity includes sign."""
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return float(a) == float(b) and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    from zigpy.types.struct import Struct

    if isinstance(a, Struct) and isinstance(b, Struct):
        return [f.name for f in a.fields] == [f.name for f in b.fields] and all(
            same(getattr(a, f.name), getattr(b, f.name)) for f in a.fields
        )
    return bool(a == b)


_ALPH = "abcdefgXYZ 0123_-:,éß中文🙂Ω"


def rand_text(rng, max_bytes):
    n = rng.choice([0, 1, 3, 8, 20, max_bytes, max_bytes])
    out = ""
    size = 0
    while True:
        ch = rng.choice(_ALPH if rng.random() < 0.4 else "abcdefghijklmnop")
        size += len(ch.encode())
        if size > min(n, max_bytes):
            return out
        out += ch


class Unsupported(Exception):
    pass


def build(cls, rng: random.Random, depth=0):
    """Return (plain value acceptable to `cls(...)`/the field, encoded bytes).

    The encoding is produced here, not by zigpy.  Raises Unsupported for types this
    module does not know.
    """
    name = cls.__name__
    from zigpy.types.struct import Struct

    if issubclass(cls, t.NoData):
        return t.NoData(), b""
    if getattr(cls, "optional", False):
        return build(cls.__mro__[1], rng, depth)
    if issubclass(cls, enum.Enum) or (
        issubclass(cls, int) and issubclass(cls, t.FixedIntType)
    ):
        bits, signed, be = int_spec(cls)
        members = [int(m.value) for m in cls.__members__.values()] if issubclass(cls, enum.Enum) else []
        if members and rng.random() < 0.6:
            v = rng.choice(members)
        else:
            v = rng.choice(int_values(rng, bits, signed, 4))
        if bits % 8:
            return cls(v), (v, bits)
        return cls(v), enc_int(v, bits, signed, be)
    if issubclass(cls, float):
        kind = float_kind(cls)
        fmt = FLOAT_FMT[kind]
        size = struct.calcsize(fmt)
        raw = rng.randbytes(size)
        v = struct.unpack(fmt, raw)[0]
        if math.isnan(v):
            v, raw = 1.5, struct.pack(fmt, 1.5)
        return cls(v), raw
    if issubclass(cls, t.LVBytes):
        plen = 2 if issubclass(cls, t.LongOctetString) else 1
        mx = 300 if plen == 2 else 40
        if name == "LVBytesSize2":
            n = 2
        else:
            mx = min(mx, getattr(cls, "_max_len", mx))
            n = rng.choice([0, 1, rng.randint(0, mx), mx])
        raw = rng.randbytes(n)
        return cls(raw), n.to_bytes(plen, "little") + raw
    if issubclass(cls, t.CharacterString):
        plen = 2 if issubclass(cls, t.LongCharacterString) else 1
        mx = 400 if plen == 2 else 60
        mx = min(mx, getattr(cls, "_max_len", mx))
        s = rand_text(rng, mx)
        raw = s.encode()
        return cls(s), len(raw).to_bytes(plen, "little") + raw
    if issubclass(cls, t.FixedList):
        vals, enc = [], b""
        for _ in range(cls._length):
            v, e = build(cls._item_type, rng, depth + 1)
            vals.append(v)
            enc += e
        return cls(vals), enc
    if issubclass(cls, t.LVList):
        n = rng.choice([0, 1, 2, rng.randint(0, 6)])
        lbits, lsigned, lbe = int_spec(cls._length_type)
        vals, enc = [], b""
        for _ in range(n):
            v, e = build(cls._item_type, rng, depth + 1)
            vals.append(v)
            enc += e
        return cls(vals), enc_int(n, lbits, lsigned, lbe) + enc
    if issubclass(cls, t.List):
        n = rng.choice([1, 2, rng.randint(1, 5)])
        vals, enc = [], b""
        for _ in range(n):
            v, e = build(cls._item_type, rng, depth + 1)
            vals.append(v)
            enc += e
        return cls(vals), enc
    h = SPECIAL.get(name)
    if h is not None:
        return h(cls, rng, depth)
    if issubclass(cls, Struct):
        return build_struct(cls, rng, depth)
    if cls is bytes or issubclass(cls, t.SerializableBytes):
        raw = rng.randbytes(rng.randint(0, 20))
        return cls(raw), raw
    raise Unsupported(cls)


SPECIAL: dict = {}


def build_struct(cls, rng, depth=0, drop_optional=True):
    """Random valid instance of a Struct class and its independent encoding."""
    if custom_codec(cls):
        raise Unsupported(cls)
    kw = {}
    fields = list(cls.fields)
    stop = None
    # trailing optional fields: choose how many are present
    tail = 0
    for fl in reversed(fields):
        if fl.optional:
            tail += 1
        else:
            break
    if tail and drop_optional and rng.random() < 0.5:
        stop = len(fields) - rng.randint(1, tail)
    inst = cls()
    enc = b""
    acc = []  # (value, bits) pending bit fields
    for k, fl in enumerate(fields):
        if stop is not None and k >= stop:
            break
        if fl.requires is not None and not fl.requires(inst):
            continue
        v, e = build(fl.type, rng, depth + 1)
        setattr(inst, fl.name, v)
        kw[fl.name] = v
        if isinstance(e, tuple):
            acc.append(e)
            if sum(b for _, b in acc) % 8 == 0:
                enc += pack_bits(acc)
                acc = []
        else:
            enc += e
    return inst, enc


def pack_bits(acc):
    """Bit fields fill a little-endian integer from its least significant bit; it is
    emitted, most significant byte first, whenever a byte boundary is reached."""
    out = b""
    n = shift = 0
    for v, b in acc:
        n |= (v & ((1 << b) - 1)) << shift
        shift += b
        if shift % 8 == 0:
            out += n.to_bytes(shift // 8, "big")
            n = shift = 0
    assert shift == 0
    return out


def custom_codec(cls):
    """Does this struct class (or a struct base of it) override the generic codec?"""
    from zigpy.types.struct import Struct

    return any(
        {"serialize", "deserialize"} & set(b.__dict__)
        for b in cls.__mro__
        if b is not Struct and issubclass(b, Struct) and b.__name__ != "Optional"
    )
