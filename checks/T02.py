"""T02: struct schemas."""

from __future__ import annotations

import copy

from harness import gen
from harness.core import Violation

import zigpy.types as t
from zigpy.types.struct import Struct, StructField
import zigpy.zcl.clusters  # noqa: F401
import zigpy.zcl.foundation  # noqa: F401
import zigpy.zdo.types  # noqa: F401

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: randomly generated record schemas executed against an "
    "independent reference encoder/decoder model"
)
NOTE = (
    "Sampled schemas (1-9 segments: plain, bit group, conditional, conditional bit group, "
    "dynamic type, nested, trailing optional) and instances; schemas with part of a byte (refused); conditions refer to fields of "
    "earlier segments. Every truncation point of every encoding is tried."
)
RULE = (
    "A random schema, several random instances of it; for each the encoding, decoding with "
    "trailing bytes, every truncation, every missing mandatory field, replace, copies, "
    "equality, dictionary forms and freezing are compared with a model. Non-trivial: the "
    "schema mixes at least two kinds of field."
)

PLAIN = [
    t.uint8_t, t.uint16_t, t.uint24_t, t.uint32_t, t.int8s, t.int16s, t.uint16_t_be, t.uint64_t,
    t.enum8, t.bitmap16, t.bitmap8, t.Bool, t.NWK, t.EUI64, t.LVBytes, t.CharacterString,
    t.LVList[t.uint16_t], t.LVList[t.NWK], t.FixedList[t.uint8_t, 3], t.KeyData, t.LongOctetString,
    t.Single, t.AttributeId,
]  # fmt: skip

# signed integers that do not fill whole bytes, as a quirk or radio library would declare them
SIGNED = {k: type(f"int{k}s", (t.int_t,), {"__module__": __name__}, bits=k) for k in range(2, 8)}
BITS = {
    1: [t.uint1_t, t.enum1], 2: [t.uint2_t, t.enum2, t.bitmap2], 3: [t.uint3_t, t.enum3, t.bitmap3],
    4: [t.uint4_t, t.enum4, t.bitmap4], 5: [t.uint5_t, t.enum5, t.bitmap5],
    6: [t.uint6_t, t.enum6, t.bitmap6], 7: [t.uint7_t, t.enum7, t.bitmap7],
}  # fmt: skip
for _k, _c in SIGNED.items():
    BITS[_k].append(_c)


class Seg:
    """Model of one schema segment: list of (name, type or dynamic) plus condition."""

    def __init__(self, kind, fields, cond=None, optional=False, dyn=None):
        self.kind, self.fields, self.cond = kind, fields, cond
        self.optional, self.dyn = optional, dyn


def bit_parts(rng, total):
    parts = []
    left = total
    while left:
        # a part that is byte sized at a byte boundary would be a plain field
        ch = [k for k in range(1, 8) if k <= left]
        k = rng.choice(ch)
        parts.append(k)
        left -= k
    return parts


def cond_for(rng, ctrl):
    """(description, predicate over a plain value dict) on an earlier uint8 field."""
    kind = rng.choice(["mask", "eq", "lt", "notnone"])
    k = rng.randrange(8)
    v = rng.randrange(4)
    if kind == "mask":
        return f"{ctrl} bit {k}", (lambda d: d.get(ctrl) is not None and bool(int(d[ctrl]) & (1 << k)))
    if kind == "eq":
        return f"{ctrl} % 4 == {v}", (lambda d: d.get(ctrl) is not None and int(d[ctrl]) % 4 == v)
    if kind == "lt":
        return f"{ctrl} < 128", (lambda d: d.get(ctrl) is not None and int(d[ctrl]) < 128)
    return f"{ctrl} present", (lambda d: d.get(ctrl) is not None)


def as_req(pred, names):
    return lambda s: pred({n: getattr(s, n) for n in names})


def make_schema(rng, depth=0, allow_optional=True):
    segs = []
    ctrls = []
    kinds = set()
    cnt = 0
    names = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]

    def nm():
        nonlocal cnt
        cnt += 1
        return f"{names[cnt % 8]}{cnt}"

    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        cond = None
        if ctrls and rng.random() < 0.4:
            cond = cond_for(rng, rng.choice(ctrls)) + (list(ctrls),)
            kinds.add("cond")
        if r < 0.25:
            n = nm()
            segs.append(Seg("plain", [(n, t.uint8_t)], cond))
            ctrls.append(n)
        elif r < 0.5:
            segs.append(Seg("plain", [(nm(), rng.choice(PLAIN))], cond))
            kinds.add("plain")
        elif r < 0.8:
            total = 8 if rng.random() < 0.8 else 16
            parts = bit_parts(rng, total)
            fs = [(nm(), rng.choice(BITS[p])) for p in parts]
            if total == 16 and rng.random() < 0.4:
                k = rng.choice([1, 2, 3, 4, 5, 6, 7])
                wide = [rng.choice([t.uint8_t, t.uint8_t, t.uint16_t, t.uint24_t, t.uint32_t, t.int8s, t.int16s, t.enum8, t.bitmap16]) for _ in range(rng.choice([1, 1, 2, 3, 5, 8]))]
                fs = [(nm(), rng.choice(BITS[k])), *((nm(), w) for w in wide), (nm(), rng.choice(BITS[8 - k]))]
            segs.append(Seg("bits", fs, cond))
            kinds.add("bits")
            if cond is None:
                ctrls.extend(n for n, ty in fs if ty.__name__.startswith("uint") and gen.int_spec(ty)[0] <= 8)
        elif r < 0.88 and ctrls:
            a, b = rng.choice(PLAIN), rng.choice(PLAIN)
            desc, pred = cond_for(rng, rng.choice(ctrls))
            segs.append(Seg("plain", [(nm(), None)], cond, dyn=(a, b, pred, list(ctrls))))
            kinds.add("dyn")
        elif depth < 2:
            cls, sub, _ = make_schema(rng, depth + 1, allow_optional=False)
            s = Seg("nested", [(nm(), cls)], cond)
            s.sub = sub
            segs.append(s)
            kinds.add("nested")
        else:
            segs.append(Seg("plain", [(nm(), t.uint16_t)], cond))
    if allow_optional and rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            segs.append(Seg("plain", [(nm(), rng.choice(PLAIN))], optional=True))
        kinds.add("optional")
    ann, ns = {}, {}
    for s in segs:
        for n, ty in s.fields:
            kw = {}
            if s.cond is not None:
                kw["requires"] = as_req(s.cond[1], s.cond[2])
            if s.optional:
                kw["optional"] = True
            if s.dyn is not None:
                a, b, pred, use = s.dyn
                kw["dynamic_type"] = (lambda a, b, req: lambda st: a if req(st) else b)(a, b, as_req(pred, use))
                ann[n] = None
            else:
                ann[n] = ty
            if kw or s.dyn is not None:
                ns[n] = StructField(**kw)
    cls = type("Schema", (t.Struct,), {"__annotations__": ann, "__module__": __name__, **ns})
    return cls, segs, kinds


def instance(rng, cls, segs):
    """(plain dict of chosen values, pieces [(name(s), bytes)])"""
    vals, pieces = {}, []
    stop = False
    for s in segs:
        if s.cond is not None and not s.cond[1]({n: vals.get(n) for n in s.cond[2]}):
            continue
        if s.optional and (stop or rng.random() < 0.3):
            stop = True
            continue
        if s.kind == "bits":
            acc = []
            for n, ty in s.fields:
                bits, signed, _ = gen.int_spec(ty)
                v = rng.choice([0, (1 << bits) - 1, 1 << (bits - 1), rng.randrange(1 << bits)])
                if signed and v >= 1 << (bits - 1):
                    v -= 1 << bits
                vals[n] = ty(v)
                acc.append((v, bits))
            pieces.append(([n for n, _ in s.fields], gen.pack_bits(acc), s))
        elif s.kind == "nested":
            (n, ty), = s.fields
            v, enc, _ = instance(rng, ty, s.sub)
            vals[n] = ty(**v)
            pieces.append(([n], enc, s))
        else:
            (n, ty), = s.fields
            if s.dyn is not None:
                a, b, pred, use = s.dyn
                ty = a if pred({k: vals.get(k) for k in use}) else b
            v, enc = gen.build(ty, rng)
            vals[n] = v
            pieces.append(([n], enc, s))
    return vals, b"".join(p[1] for p in pieces), pieces


def refuse(fn, key, msg, wit):
    try:
        r = fn()
    except ValueError:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(key, f"{msg}: raised {type(e).__name__}: {e}", wit) from e
    raise Violation(key, f"{msg}: returned {r!r}", wit)


def one(ctx, idx):
    rng = ctx.rng("schema", idx)
    cls, segs, kinds = make_schema(rng)
    desc = [
        (s.kind, [(n, ty.__name__ if ty else "dynamic") for n, ty in s.fields], s.cond and s.cond[0], s.optional)
        for s in segs
    ]
    names = [n for s in segs for n, _ in s.fields]
    dynamic = {n for s in segs if s.dyn for n, _ in s.fields}
    dyn_ctrl = {n for s in segs if s.dyn for n in s.dyn[3]}
    prev = None
    for _ in range(4):
        vals, enc, pieces = instance(rng, cls, segs)
        wit = {"schema": desc, "values": {k: repr(v) for k, v in vals.items()}, "encoding": enc}
        x = cls(**vals)
        if rng.random() < 0.5:
            y = cls()
            for k, v in vals.items():
                setattr(y, k, v)
            if y != x:
                raise Violation("construct", "assigning fields differs from passing them", wit)
        got = x.serialize()
        if got != enc:
            raise Violation("encoding", f"encoded {got.hex()} instead of {enc.hex()}", wit)
        absent_optional = any(s.optional for s in segs) and not all(
            s.fields[0][0] in vals for s in segs if s.optional
        )
        extra = b"" if absent_optional else rng.randbytes(rng.choice([0, 1, 7]))
        back, rest = cls.deserialize(enc + extra)
        ctx.count("roundtrips")
        if rest != extra:
            raise Violation("leftover", f"left {rest!r}, expected {extra!r}", wit)
        for n in names:
            a, b = getattr(back, n), vals.get(n)
            if not (gen.same(a, b) if b is not None else a is None):
                raise Violation("roundtrip", f"field {n} decoded as {a!r} instead of {b!r}", wit)
        if not (back == x) or back != x:
            raise Violation("equality", "decoded instance does not equal the original", wit)
        # truncation: valid only on a boundary between trailing optional fields
        ok, pos = {len(enc)}, len(enc)
        for _, piece, s in reversed(pieces):
            if not s.optional:
                break
            pos -= len(piece)
            ok.add(pos)
        for k in range(len(enc)) if len(enc) < 60 else sorted(ok | set(rng.sample(range(len(enc)), 40))):
            if k == len(enc):
                continue
            if k in ok:
                p, r = cls.deserialize(enc[:k])
                if r != b"" or p.serialize() != enc[:k]:
                    raise Violation("optional", f"prefix of {k} bytes decoded as {p!r}", wit)
                ctx.count("optional_prefixes")
            else:
                refuse(lambda: cls.deserialize(enc[:k]), "truncated", f"{k} of {len(enc)} bytes", wit)
                ctx.count("truncations")
        # missing mandatory fields
        for ns, piece, s in pieces:
            if s.optional:
                continue
            n = rng.choice(ns)
            if any(n in s2.cond[2] for s2 in segs if s2.cond) or any(n in s2.dyn[3] for s2 in segs if s2.dyn):
                continue  # conditions would change too
            d = dict(vals)
            del d[n]
            refuse(lambda: cls(**d).serialize(), "missing", f"field {n} missing", wit)
            if cls(**d).is_valid:
                raise Violation("missing", f"valid without {n}", wit)
            ctx.count("missing")
        # assigned fields, dictionary, tuple, copies
        if [(f.name) for f, v in x.assigned_fields() if v is not None] != [
            n for n in names if n in vals
        ]:
            raise Violation("assigned", f"{[f.name for f, _ in x.assigned_fields()]}", wit)
        d = x.as_dict()
        if list(d) != names or any(not gen.same(d[n], vals.get(n)) if n in vals else d[n] is not None for n in names):
            raise Violation("as_dict", f"{d}", wit)
        if x.as_tuple() != tuple(d.values()):
            raise Violation("as_tuple", f"{x.as_tuple()}", wit)
        d2 = x.as_dict(skip_missing=True)
        if list(d2) != [n for n in names if n in vals]:
            raise Violation("as_dict", f"skip_missing: {d2}", wit)
        if cls.from_dict(x.as_dict(skip_missing=True, recursive=True)) != x:
            raise Violation("from_dict", "from_dict(as_dict) differs", wit)
        for c in (cls(x), copy.copy(x), copy.deepcopy(x), x.replace()):
            if c != x or c is x or c.serialize() != enc:
                raise Violation("copy", f"copy {c!r}", wit)
        # replace
        if prev is not None:
            n = rng.choice([m for m in names if m not in dyn_ctrl and m not in dynamic] or [""])
        if prev is not None and n:
            r = x.replace(**{n: prev.get(n)})
            for m in names:
                w = prev.get(n) if m == n else vals.get(m)
                if not (gen.same(getattr(r, m), w) if w is not None else getattr(r, m) is None):
                    raise Violation("replace", f"{n}: field {m} is {getattr(r, m)!r}", wit)
            changed = not gen.same(prev.get(n), vals.get(n)) if (prev.get(n) is not None and vals.get(n) is not None) else prev.get(n) is not vals.get(n)
            if (r == x) == changed:
                raise Violation("equality", f"replace({n}) equal={r == x}, changed={changed}", wit)
            if x.serialize() != enc:
                raise Violation("replace", "replace modified the original", wit)
            ctx.count("replacements")
        # matching
        part = {n: v for n, v in vals.items() if rng.random() < 0.5 and n not in dynamic}
        if not x.matches(cls(**part)):
            raise Violation("matches", f"does not match its own fields {list(part)}", wit)
        if prev is not None:
            pattern = cls(**{n: v for n, v in (prev if rng.random() < 0.5 else vals | prev).items() if rng.random() < 0.3 and n not in dynamic})
            want = fits(x, pattern)
            try:
                got = x.matches(pattern)
            except Exception as e:  # noqa: BLE001
                got = f"{type(e).__name__}: {e}"
            if got != want:
                raise Violation("matches", f"{x} matches {pattern}: {got} instead of {want}", wit)
            ctx.count("patterns", bool(pattern.as_dict(skip_missing=True)))
        # freezing
        try:
            f1, f2 = x.freeze(), cls(x).freeze()
            h1, h2 = hash(f1), hash(f2)
        except TypeError:
            pass  # list-valued field
        else:
            ctx.count("frozen")
            if h1 != h2 or f1 != f2 or f1 != x or f1.serialize() != enc:
                raise Violation("freeze", "frozen copies differ", wit)
            try:
                setattr(f1, names[0], None)
            except AttributeError:
                pass
            else:
                raise Violation("freeze", "a frozen instance was modified", wit)
        prev = vals
        ctx.evaluated((str(desc), enc), len(kinds) >= 2)
    for k in kinds:
        ctx.count("schema_with_" + k)
    if idx < 2:
        ctx.sample(desc)


WHOLE = [t.EUI64, t.LVBytes, t.CharacterString, t.LVList[t.uint16_t], t.FixedList[t.uint8_t, 3], t.KeyData, t.LongOctetString, t.Single]


def ragged(ctx, idx):
    """A bit group that does not fill whole bytes cannot be encoded or decoded."""
    rng = ctx.rng("ragged", idx)
    kinds = []
    for _ in range(rng.randrange(0, 3)):
        kinds += [t.uint8_t] if rng.random() < 0.5 else [rng.choice(BITS[p]) for p in bit_parts(rng, 8)]
    parts = bit_parts(rng, rng.choice([8, 16]))
    while len(parts) > 1 and sum(parts) % 8 == 0:
        parts.pop(rng.randrange(len(parts)))
    if sum(parts) % 8 == 0:
        parts = [3]
    kinds += [rng.choice(BITS[p]) for p in parts]
    place = rng.choice(["end", "inside", "twice"])
    if place != "end":
        kinds.append(rng.choice(WHOLE))
    if place == "twice":
        # the rest of the byte comes after the field that interrupts it
        left = -sum(parts) % 8
        kinds += [rng.choice(BITS[p]) for p in bit_parts(rng, left)]
    cls = type("Ragged", (t.Struct,), {"__annotations__": {f"f{k}": ty for k, ty in enumerate(kinds)}, "__module__": __name__})
    vals = {}
    for k, ty in enumerate(kinds):
        spec = gen.int_spec(ty) if issubclass(ty, int) else None
        if spec is not None:
            vals[f"f{k}"] = ty(rng.randrange(1 << (spec[0] - 1)) if spec[0] > 1 else 0)
        else:
            vals[f"f{k}"] = gen.build(ty, rng)[0]
    wit = {"types": [ty.__name__ for ty in kinds], "place": place, "values": repr(vals)}
    refuse(lambda: cls(**vals).serialize(), "ragged", "encoding a schema with part of a byte", wit)
    refuse(lambda: cls.deserialize(bytes(200)), "ragged", "decoding a schema with part of a byte", wit)
    refuse(lambda: cls.deserialize(rng.randbytes(5)), "ragged", "decoding a schema with part of a byte", wit)
    ctx.count("ragged")
    ctx.evaluated(("ragged", tuple(wit["types"])), place != "end")


def int_structs(ctx, idx):
    rng = ctx.rng("int", idx)
    size = rng.choice([8, 16, 24, 32])
    base = {8: t.uint8_t, 16: t.uint16_t, 24: t.uint24_t, 32: t.uint32_t}[size]
    ann, parts, names = {}, [], []
    left = size
    k = 0
    while left:
        for p in bit_parts(rng, 8):
            ann[f"f{k}"] = rng.choice(BITS[p])
            parts.append(p)
            names.append(f"f{k}")
            k += 1
        left -= 8
    cls = type("IntSchema", (t.Struct, base), {"__annotations__": ann, "__module__": __name__})
    for _ in range(20):
        n = rng.randrange(1 << size)
        x = cls(n)
        exp, m = [], n
        for p, ty in zip(parts, ann.values()):
            v = m & ((1 << p) - 1)
            exp.append(v - (1 << p) if gen.int_spec(ty)[1] and v >= 1 << (p - 1) else v)
            m >>= p
        got = [int(getattr(x, nm)) for nm in names]
        wit = {"parts": parts, "n": n, "got": got}
        if got != exp:
            raise Violation("int-fields", f"{n:#x} split as {got}, expected {exp}", wit)
        if int(x) != n or x.serialize() != n.to_bytes(size // 8, "little") or not (x == n):
            raise Violation("int-value", f"{int(x):#x} {x.serialize().hex()}", wit)
        o = rng.choice([n, n + 1, max(0, n - 1), rng.randrange(1 << size)])
        if (x < o, x <= o, x > o, x >= o, x == o) != (n < o, n <= o, n > o, n >= o, n == o):
            raise Violation("int-compare", f"{n} with {o}", wit)
        outer = type("Outer", (t.Struct,), {"__annotations__": {"a": t.uint8_t, "b": cls, "c": t.uint16_t}, "__module__": __name__})
        v = outer(a=1, b=n, c=2)
        enc = b"\x01" + n.to_bytes(size // 8, "little") + b"\x02\x00"
        if v.serialize() != enc or outer.deserialize(enc + b"q") != (v, b"q"):
            raise Violation("int-nested", f"{v} {v.serialize().hex()}", wit)
        ctx.evaluated(("int", tuple(parts), n))
        ctx.count("int_structs")


def shipped(ctx, cls):
    """Every struct zigpy itself defines, against the same reference encoder."""
    rng = ctx.rng("shipped", cls.__module__, cls.__qualname__)
    for _ in range(ctx.n(20, 300)):
        try:
            x, enc = gen.build_struct(cls, rng)
        except (gen.Unsupported, LookupError, AttributeError):
            ctx.count("shipped_unsupported")
            return
        got = x.serialize()
        wit = {"struct": cls.__qualname__, "value": repr(x), "encoding": enc}
        if got != enc:
            raise Violation(f"encoding:{cls.__name__}", f"{got.hex()} instead of {enc.hex()}", wit)
        back, rest = cls.deserialize(enc)
        if rest or back.serialize() != enc or not gen.same(back, x):
            raise Violation(f"roundtrip:{cls.__name__}", f"{back!r} {rest!r}", wit)
        ctx.count("shipped_roundtrips")
        ctx.evaluated((cls.__qualname__, enc))


def fits(x, pattern):
    """Whether every field the pattern gives is the instance's."""
    for f in pattern.fields:
        want, have = getattr(pattern, f.name), getattr(x, f.name)
        if want is None:
            continue
        if isinstance(want, t.Struct):
            if have is None or not fits(have, want):
                return False
        elif have != want:
            return False
    return True


def run(ctx):
    for i in range(ctx.n(800, 20000)):
        ctx.case(f"schema-{i}", one, ctx, i)
    for i in range(ctx.n(150, 2000)):
        ctx.case(f"int-{i}", int_structs, ctx, i)
    for i in range(ctx.n(150, 3000)):
        ctx.case(f"ragged-{i}", ragged, ctx, i)
    mine = [
        c for c in gen.all_subclasses(Struct)
        if c.__module__.startswith("zigpy") and c.__name__ != "Optional"
        and not gen.custom_codec(c)
    ]  # fmt: skip
    mine.sort(key=lambda c: (c.__module__, c.__qualname__))
    for k, c in enumerate(mine):
        ctx.case(f"shipped-{c.__qualname__}-{k}", shipped, ctx, c)
    for k in ("cond", "bits", "dyn", "nested", "optional"):
        ctx.require("schema_with_" + k, 50)
    for k in ("truncations", "missing", "replacements", "frozen", "int_structs", "ragged", "optional_prefixes", "shipped_roundtrips"):
        ctx.require(k, 100)
