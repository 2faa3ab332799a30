"""O02: firmware files parse exactly, and corrupt ones are refused."""

from __future__ import annotations

import hashlib
import logging
import zlib

from harness import otaref
from harness.core import Violation

from zigpy.ota import validators
from zigpy.ota.image import ElementTagId, HueSBLOTAImage, OTAImage, SubElement, parse_ota_image

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: generated firmware files, every truncation of them, bit flips, corrupted length fields and checksums are parsed; "
    "acceptance, header fields, elements, leftover data and re-serialised bytes are compared with an independent parser, the validator with an independent tag walker"
)
NOTE = "Plain, Hue, Legrand, Third Reality and IKEA files with all optional header fields, zero to five elements and trailing data; EBL and GBL firmwares."
RULE = "One evaluation is one file parsed or refused; non-trivial: distinct (container, kind of corruption, accepted, size class)."
ASSUMPTIONS = [
    "Any exception counts as a refusal when a file is parsed, validation has to raise ValidationError.",
    "Unsigned parts of an IKEA container (outside of the embedded image) are not judged when parsing.",
]
FIELDS = ["upgrade_file_id", "header_version", "header_length", "field_control", "manufacturer_id", "image_type", "file_version", "stack_version"]


# --- reference parser ----------------------------------------------------------------
def i(b, at, n):
    return int.from_bytes(b[at : at + n], "little")


def ref_header(b):
    if len(b) < 56 or i(b, 0, 4) != otaref.MAGIC:
        return None
    fc = i(b, 8, 2)
    h = dict(zip(FIELDS, [i(b, 0, 4), *(i(b, 4 + 2 * k, 2) for k in range(5)), i(b, 14, 4), i(b, 18, 2)]))
    h["header_string"], h["image_size"] = b[20:52], i(b, 52, 4)
    at = 56
    for bit, name, n in ((1, "security_credential_version", 1), (2, "upgrade_file_destination", 8), (4, "minimum_hardware_version", 2), (4, "maximum_hardware_version", 2)):
        h[name] = None
        if fc & bit:
            if len(b) < at + n:
                return None
            h[name] = b[at : at + n] if n == 8 else i(b, at, n)
            at += n
    if h["header_length"] != at or h["image_size"] < at or h["image_size"] > len(b):
        return None
    return h, at


def ref_plain(b):
    r = ref_header(b)
    if r is None:
        return None
    h, at = r
    elements = []
    while at < h["image_size"]:
        if at + 6 > h["image_size"]:
            return None
        n = i(b, at + 2, 4)
        if at + 6 + n > h["image_size"]:
            return None
        elements.append((i(b, at, 2), b[at + 6 : at + 6 + n]))
        at += 6 + n
    return "OTAImage", h, elements, b[: h["image_size"]], b[h["image_size"] :]


def ref_hue(b):
    r = ref_header(b)
    if r is None:
        return None
    h, at = r
    body = b[at : h["image_size"]]
    if h["manufacturer_id"] != 4107 or body[:3] != b"\x2a\x00\x01":
        return None
    return "HueSBLOTAImage", h, body, b[: h["image_size"]], b[h["image_size"] :]


def ref_parse(b):
    if len(b) > 4 and i(b, 0, 4) + 21 == len(b):
        return ref_plain(b[4:-17])
    if len(b) > 152 and i(b, 68, 4) + 64 == len(b) and b[:64] == hashlib.sha512(b[64:]).digest():
        return ref_plain(b[152:])
    if b[:4] == b"NGIS":
        if len(b) <= 24:
            return None
        at, n = i(b, 16, 4), i(b, 20, 4)
        if len(b) <= at + n:
            return None
        r = ref_plain(b[at : at + n])
        if r is None or not r[4]:
            return r
        cls, h, elements, data, rest = r
        if len(elements) != 1 or elements[0][0] != 0:
            return None
        # the element is known to be too short
        h = {**h, "image_size": n}
        blob = elements[0][1] + rest
        hlen = h["header_length"]
        data = data[:52] + otaref.u(4, n) + data[56:hlen] + otaref.u(2, 0) + otaref.u(4, len(blob)) + blob
        return cls, h, [(0, blob)], data, b""
    return ref_hue(b) or ref_plain(b)


# --- generation ----------------------------------------------------------------------
def plain(rng, small=False, hue=False):
    kw = {"hv": rng.choice([0x0100, rng.randrange(0x10000)]), "stack": rng.randrange(0x10000), "text": rng.choice([b"", b"EBL sim", rng.randbytes(32)]), "fc_extra": rng.choice([0, 0, 0, 8, 0x8000])}
    if rng.random() < 0.4:
        kw["sec"] = rng.randrange(256)
    if rng.random() < 0.3:
        kw["dest"] = rng.randbytes(8)
    if rng.random() < 0.4:
        kw["hw"] = (rng.randrange(0x10000), rng.randrange(0x10000))
    args = (rng.choice([4107, 4476, rng.randrange(0x10000)]), rng.randrange(0x10000), rng.randrange(1 << 32))
    if hue:
        body = b"\x2a\x00\x01" + rng.randbytes(rng.randint(0, 60 if small else 2000))
        args = (4107, *args[1:])
        n = len(otaref.header(*args, 0, **kw))
        return otaref.header(*args, n + len(body), **kw) + body
    size = lambda: rng.choice([0, 1, rng.randint(0, 30), rng.randint(0, 40 if small else 3000)])  # noqa: E731
    elements = [(rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 0x2A, 0xF000, 0xFFFF]), rng.randbytes(size())) for _ in range(rng.choice([1, 1, 1, 0, 2, 3, 5]))]
    return otaref.image(*args, elements, **kw)


def contain(rng, kind, img, trailing=b""):
    if kind in ("plain", "hue"):
        return img + trailing
    if kind == "legrand":
        return otaref.u(4, len(img + trailing)) + img + trailing + rng.randbytes(17)
    if kind == "thirdreality":
        rest = rng.randbytes(4) + otaref.u(4, 0) + rng.randbytes(80) + img + trailing
        rest = rest[:4] + otaref.u(4, len(rest)) + rest[8:]
        return hashlib.sha512(rest).digest() + rest
    at = rng.choice([24, 40, 40 + 32, rng.randint(24, 200)])
    head = b"NGIS" + rng.randbytes(12) + otaref.u(4, at) + otaref.u(4, len(img + trailing))
    return head + rng.randbytes(at - 24) + img + trailing + rng.randbytes(rng.randint(1, 40))


KINDS = ["plain", "hue", "legrand", "thirdreality", "ikea"]


def judge(ctx, data, kind, how, corrupt):
    want = ref_parse(data)
    try:
        image, rest = parse_ota_image(data)
    except Exception as e:
        if want is not None:
            raise Violation("refused", f"{kind} file ({how}) of {len(data)} bytes was refused: {e!r}", witness={"data": data.hex()[:4000]}) from e
        ctx.count(f"refused: {kind}")
        ctx.evaluated((kind, how, False, len(data) // 200), corrupt)
        return None

    def bad(key, msg):
        raise Violation(key, f"{kind} file ({how}) of {len(data)} bytes: {msg}", witness={"data": data.hex()[:4000]})

    if want is None:
        try:
            shown = image.serialize()[:20].hex()
        except Exception as e:
            shown = repr(e)
        bad("accepted", f"was accepted as {type(image).__name__}, serialised {shown}")
    cls, h, content, raw, leftover = want
    if type(image).__name__ != cls:
        bad("class", f"parsed as {type(image).__name__} instead of {cls}")
    for name, v in h.items():
        got = getattr(image.header, name)
        got = None if got is None else bytes(got.serialize()) if name == "upgrade_file_destination" else bytes(got) if name == "header_string" else int(got)
        if got != v:
            bad("header", f"{name} is {got!r} instead of {v!r}")
    if cls == "OTAImage":
        got = [(int(e.tag_id), bytes(e.data)) for e in image.subelements]
        if got != content:
            bad("elements", f"elements are {[(a, len(b)) for a, b in got]} instead of {[(a, len(b)) for a, b in content]}")
    elif bytes(image.data) != content:
        bad("elements", "content differs")
    if bytes(rest) != leftover:
        bad("leftover", f"{len(rest)} bytes are left over instead of {len(leftover)}")
    try:
        out = image.serialize()
    except Exception as e:
        bad("serialise", f"the parsed image cannot be serialised: {e!r}")
    if bytes(out) != raw:
        bad("serialise", f"serialises to {len(out)} other bytes than the {len(raw)} of the image")
    again, rest2 = type(image).deserialize(out)
    if rest2 or again != image:
        bad("serialise", "parsing the serialised image gives another image")
    ctx.count(f"accepted: {kind}")
    ctx.count("bytes compared", len(raw))
    ctx.evaluated((kind, how, True, len(data) // 200), True)
    return image


def whole(ctx, n):
    rng = ctx.rng("whole", n)
    kind = rng.choice(KINDS)
    img = plain(rng, hue=kind == "hue")
    trailing = rng.choice([b"", b"", rng.randbytes(rng.randint(1, 60)), img])
    data = contain(rng, kind, img, trailing)
    if kind != "ikea" and ref_parse(data) is None:
        raise AssertionError(f"reference refuses a {kind} file")
    judge(ctx, data, kind, "whole, trailing data" if trailing else "whole", False)
    # corruptions
    for _ in range(6):
        b = bytearray(data)
        what = rng.choice(["bit", "bit in header", "byte", "cut", "insert", "delete", "length field", "element length", "extend"])
        if what == "bit":
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif what == "bit in header":
            b[rng.randrange(min(len(b), 230))] ^= 1 << rng.randrange(8)
        elif what == "byte":
            b[rng.randrange(min(len(b), 300))] = rng.choice([0, 255, rng.randrange(256)])
        elif what == "cut":
            del b[rng.randrange(len(b)) :]
        elif what == "insert":
            at = rng.randrange(len(b))
            b[at:at] = rng.randbytes(rng.randint(1, 8))
        elif what == "delete":
            at = rng.randrange(len(b))
            del b[at : at + rng.randint(1, 8)]
        elif what == "extend":
            b += rng.randbytes(rng.randint(1, 30))
        else:
            at = bytes(b).find(otaref.u(4, otaref.MAGIC))
            if at < 0:
                continue
            pos, n_ = rng.choice([(6, 2), (8, 2), (52, 4)]) if what == "length field" else (i(b, at + 6, 2) + 2, 4)
            if at + pos + n_ > len(b):
                continue
            old = i(b, at + pos, n_)
            new = rng.choice([0, 1, 55, 56, 57, old + 1, old - 1, old + 6, old - 6, old * 2, (1 << 8 * n_) - 1, old + len(trailing)]) % (1 << 8 * n_)
            b[at + pos : at + pos + n_] = otaref.u(n_, new)
        judge(ctx, bytes(b), kind, what, True)
        ctx.count("corruptions")


def inconsistent(ctx, n):
    """Lengths that do not fit each other, in otherwise perfect files."""
    rng = ctx.rng("inconsistent", n)
    kind = rng.choice(KINDS)
    img = bytearray(plain(rng, hue=kind == "hue", small=True))
    hlen, size = i(img, 6, 2), i(img, 52, 4)
    what = rng.choice(["header length", "image size", "both"])
    if what != "image size":
        img[6:8] = otaref.u(2, rng.choice([0, 55, 56, 57, 58, 60, 65, 69, hlen - 1, hlen + 1, hlen + 6, size, 0xFFFF]) & 0xFFFF)
    if what != "header length":
        img[52:56] = otaref.u(4, rng.choice([0, 1, 10, 55, 56, hlen - 1, hlen, hlen + 1, hlen + 5, hlen + 6, size - 1, size + 1]))
    for wrap in (kind, "plain"):
        judge(ctx, contain(rng, wrap, bytes(img), rng.choice([b"", rng.randbytes(20)])), wrap, f"inconsistent {what}", True)
        ctx.count("inconsistent files")


def truncations(ctx, n):
    rng = ctx.rng("truncate", n)
    kind = KINDS[n % len(KINDS)]
    img = plain(rng, hue=kind == "hue", small=True)
    data = contain(rng, kind, img)
    for cut in range(len(data)):
        judge(ctx, data[:cut], kind, "truncated", True)
        ctx.count("truncations")
        if kind in ("plain", "hue"):
            try:
                r = parse_ota_image(data[:cut])
            except Exception:
                pass
            else:
                raise Violation("truncated", f"{kind} image truncated from {len(data)} to {cut} bytes was accepted: {r}")


# --- vendor firmwares ----------------------------------------------------------------
def ebl(rng):
    tags = [(b"\0\0", rng.randbytes(140))] + [(rng.choice([b"\xfd\x03", b"\xfe\x01", b"\xfb\x05", rng.randbytes(2)]), rng.randbytes(rng.choice([0, 1, 4, rng.randint(0, 300)]))) for _ in range(rng.randint(0, 5))]
    tags = [(a if a != b"\xfc\x04" else b"xx", v) for a, v in tags]
    b = b"".join(a + len(v).to_bytes(2, "big") + v for a, v in tags) + b"\xfc\x04\x00\x04"
    b += zlib.crc32(b).to_bytes(4, "little")
    return b + b"\xff" * (-len(b) % 64) + b"\xff" * (64 * rng.choice([0, 0, 1]))


def gbl(rng):
    tags = [(b"\xeb\x17\xa6\x03", b"\0\0\0\x03" + rng.randbytes(4))] + [(rng.choice([b"\xf4\x0a\x0a\xf4", b"\xfe\x01\x01\xfe", b"\xfc\x04" + rng.randbytes(2), rng.randbytes(4)]), rng.randbytes(rng.choice([0, 1, 4, rng.randint(0, 300)]))) for _ in range(rng.randint(0, 5))]
    b = b"".join(a + otaref.u(4, len(v)) + v for a, v in tags) + b"\xfc\x04\x04\xfc" + otaref.u(4, 4)
    b += zlib.crc32(b).to_bytes(4, "little")
    return b + rng.choice([b"", b"", b"\xff" * 7, rng.randbytes(5)])


def ref_firmware(b):
    """valid, invalid or unknown"""
    if b[:4] == b"\xeb\x17\xa6\x03":
        t, end, order, padded = 4, b"\xfc\x04\x04\xfc", "little", False
    elif b[:4] == b"\x00\x00\x00\x8c":
        t, end, order, padded = 2, b"\xfc\x04", "big", True
        if len(b) % 64:
            return "invalid"
    else:
        return "unknown"
    at = 0
    while True:
        if at + 2 * t > len(b):
            return "invalid"
        tag, n = b[at : at + t], int.from_bytes(b[at + t : at + 2 * t], order)
        if at + 2 * t + n > len(b):
            return "invalid"
        if tag == end:
            break
        at += 2 * t + n
    start = at + 2 * t
    if padded and set(b[start + n :]) - {255}:
        return "invalid"
    return "valid" if n == 4 and zlib.crc32(b[:start]) == i(b, start, 4) else "invalid"


def run_validator(fn, arg):
    try:
        return fn(arg)
    except validators.ValidationError:
        return "invalid"
    except Exception as e:
        return repr(e)


def firmware(ctx, n):
    rng = ctx.rng("firmware", n)
    names = {"VALID": "valid", "UNKNOWN": "unknown"}
    kind, data = rng.choice([("ebl", ebl(rng)), ("gbl", gbl(rng)), ("other", rng.randbytes(rng.randint(0, 50)))])
    variants = [("whole", data)]
    for _ in range(8):
        b = bytearray(data)
        if not b:
            break
        what = rng.choice(["bit", "checksum", "cut", "cut by blocks", "extend", "padding", "length", "last bytes"])
        if what == "bit":
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif what == "cut":
            del b[rng.randrange(len(b)) :]
        elif what == "cut by blocks":
            del b[64 * rng.randrange(len(b) // 64 + 1) :]
        elif what == "extend":
            b += rng.choice([b"\xff" * 64, b"\xff", rng.randbytes(64), b"\0" * 64])
        elif what == "padding":
            b[-1 - rng.randrange(min(30, len(b)))] = rng.choice([0, 0xFE, 0xFF])
        elif what == "length":
            at = rng.choice([2, 4, 146, 14])
            if at < len(b):
                b[at] = rng.choice([0, 0xFF, rng.randrange(256)])
        elif what == "checksum":
            at = bytes(b).rfind(b"\xfc\x04")
            if at >= 0 and at + 12 <= len(b):
                b[at + rng.randrange(4, 12)] ^= 1 << rng.randrange(8)
        else:
            b[-4:] = rng.randbytes(4)
        variants.append((what, bytes(b)))
    elements, wants = [], []
    for what, b in variants:
        want = ref_firmware(b)
        got = run_validator(validators.validate_firmware, b)
        got = names.get(getattr(got, "name", None), got)
        if got != want:
            raise Violation("validator", f"{kind} firmware ({what}) of {len(b)} bytes is {want}, the validator says {got}", witness={"data": b.hex()[:4000]})
        ctx.count(f"firmware {want}")
        ctx.evaluated((kind, what, want, len(b) // 200), True)
        elements.append(b)
        wants.append(want)
    for _ in range(3):
        picks = [rng.randrange(len(elements)) for _ in range(rng.randint(0, 3))]
        tags = [rng.choice([0, 0, 0, 1, 4]) for _ in picks]
        raw = otaref.image(1, 2, 3, [(t_, elements[k]) for t_, k in zip(tags, picks)])
        image, _ = OTAImage.deserialize(raw)
        relevant = [wants[k] for t_, k in zip(tags, picks) if t_ == 0]
        want = "invalid" if "invalid" in relevant else "unknown" if not relevant or "unknown" in relevant else "valid"
        got = run_validator(validators.validate_ota_image, image)
        got = names.get(getattr(got, "name", None), got)
        if got != want:
            raise Violation("validator", f"an image with {relevant} firmwares (tags {tags}) is {want}, the validator says {got}")
        if validators.check_invalid(image) is not (want == "invalid"):
            raise Violation("validator", f"check_invalid on an image with {relevant} firmwares says {validators.check_invalid(image)}")
        ctx.count("images validated")
    hue, _ = HueSBLOTAImage.deserialize(plain(rng, small=True, hue=True))
    if validators.check_invalid(hue) or validators.validate_ota_image(hue) is not validators.ValidationResult.UNKNOWN:
        raise Violation("validator", "a Hue image is not of unknown validity")


def edited(ctx, n):
    """An image whose declared size is wrong cannot be written."""
    rng = ctx.rng("edited", n)
    raw = plain(rng, small=True)
    image, _ = OTAImage.deserialize(raw)
    if rng.random() < 0.5:
        image.header.image_size += rng.choice([1, -1, 100])
    else:
        image.subelements.append(SubElement(tag_id=ElementTagId.UPGRADE_IMAGE, data=b"123"))
    try:
        out = image.serialize()
    except ValueError:
        ctx.count("inconsistent images not written")
    else:
        raise Violation("written", f"an image whose header declares {image.header.image_size} bytes was written as {len(out)} bytes")


def run(ctx):
    logging.getLogger("zigpy").setLevel(logging.CRITICAL)
    for name, fn, quick, thorough in [("whole", whole, 1500, 60000), ("inconsistent", inconsistent, 1500, 60000), ("truncate", truncations, 60, 2000), ("firmware", firmware, 800, 30000), ("edited", edited, 100, 2000)]:
        for n in range(ctx.n(quick, thorough)):
            ctx.case(f"{name}:{n}", fn, ctx, n)
    rng = ctx.rng("sample")
    d = contain(rng, "ikea", plain(rng, small=True))
    ctx.sample({"container": "ikea", "file": d.hex()[:200], "parsed": repr(ref_parse(d)[1])[:300]})
    for name, m in [("corruptions", 4000), ("truncations", 4000), ("inconsistent files", 1500), *((f"accepted: {k}", 200) for k in KINDS), ("firmware valid", 300), ("firmware invalid", 1500), ("images validated", 1000)]:
        ctx.require(name, m)
