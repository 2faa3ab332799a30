"""N03: install codes yield the specified key only when their checksum is right; permits are passed on exactly."""

from __future__ import annotations

import asyncio
import warnings

from harness import sim, vloop
from harness.core import Violation

import zigpy.exceptions
import zigpy.types as t
from zigpy.util import aes_mmo_hash, convert_install_code

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: install codes, hashes and permit calls are compared with an independent implementation of the block cipher, the hash and the "
    "checksum, and with the radio calls and packets observed"
)
NOTE = "Hash inputs of every length from 0 to 300 bytes; codes of every length from 0 to 40 bytes; every single-byte corruption and byte swap of valid codes; all durations."
RULE = "One evaluation is one hash, code or permit call judged; non-trivial: distinct (kind, length, outcome)."
ASSUMPTIONS = ["Hash inputs are shorter than 8192 bytes (the specification pads longer ones differently; install codes have at most 18)."]


# --- AES-128, written from FIPS 197 --------------------------------------------
def _sbox():
    p = q = 1
    box = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q
        for s in (1, 2, 3, 4):
            x ^= ((q << s) | (q >> (8 - s))) & 0xFF
        box[p] = x ^ 0x63
        if p == 1:
            break
    box[0] = 0x63
    return box


SBOX = _sbox()


def aes(key: bytes, block: bytes) -> bytes:
    w = [list(key[i : i + 4]) for i in range(0, 16, 4)]
    rcon = 1
    for i in range(4, 44):
        x = list(w[i - 1])
        if i % 4 == 0:
            x = [SBOX[b] for b in x[1:] + x[:1]]
            x[0] ^= rcon
            rcon = (rcon << 1) ^ (0x11B if rcon & 0x80 else 0)
        w.append([a ^ b for a, b in zip(w[i - 4], x)])
    s = list(block)

    def add(r):
        for c in range(4):
            for k in range(4):
                s[4 * c + k] ^= w[4 * r + c][k]

    add(0)
    for r in range(1, 11):
        s[:] = [SBOX[b] for b in s]
        s[:] = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 10:
            for c in range(4):
                a = s[4 * c : 4 * c + 4]
                x2 = [((b << 1) ^ (0x1B if b & 0x80 else 0)) & 0xFF for b in a]
                for k in range(4):
                    s[4 * c + k] = x2[k] ^ (x2[(k + 1) % 4] ^ a[(k + 1) % 4]) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4]
        add(r)
    return bytes(s)


def mmo(data: bytes) -> bytes:
    """Matyas-Meyer-Oseas (Zigbee specification B.6): pad with 1, zeros and the 16-bit length in bits."""
    bits = len(data) * 8
    m = data + b"\x80"
    while len(m) % 16 != 14:
        m += b"\0"
    m += bits.to_bytes(2, "big")
    h = bytes(16)
    for i in range(0, len(m), 16):
        h = bytes(a ^ b for a, b in zip(aes(h, m[i : i + 16]), m[i : i + 16]))
    return h


def crc(data: bytes) -> bytes:
    c = 0xFFFF
    for b in data:
        for k in range(8):
            bit = (b >> k & 1) ^ (c & 1)
            c = c >> 1 ^ (0x8408 if bit else 0)
    return (c ^ 0xFFFF).to_bytes(2, "little")


LENGTHS = (8, 10, 14, 18)


def self_check(ctx):
    assert aes(bytes(range(16)), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"  # FIPS 197 C.1
    assert mmo(bytes.fromhex("c0")).hex() == "ae3a102a28d43ee0d4a09e22788b206c"  # Zigbee C.5.1
    assert crc(b"123456789") == (0x906E).to_bytes(2, "little")
    code = bytes.fromhex("83fed3407a939723a5c639b26916d505c3b5")  # Zigbee base device behaviour
    assert crc(code[:-2]) == code[-2:] and mmo(code).hex() == "66b6900981e1ee3ca4206b6b861c02bb"
    ctx.count("published vectors agreed", 4)


def hashes(ctx, n):
    rng = ctx.rng("hash", n)
    for data in (bytes(n), b"\xff" * n, rng.randbytes(n), rng.randbytes(n)):
        want = mmo(data)
        for given in (data, bytearray(data)):
            got = aes_mmo_hash(given)
            if not isinstance(got, t.KeyData) or got.serialize() != want:
                raise Violation("hash", f"hash of {n} bytes {data.hex()} is {got}, expected {want.hex()}")
            if given != data:
                raise Violation("hash-input", "hashing modified its input")
        ctx.count("hashes judged")
    ctx.evaluated(("hash", n), True)


def judge_code(ctx, code, what):
    valid = len(code) in LENGTHS and crc(code[:-2]) == code[-2:]
    got = convert_install_code(code)
    if valid and (not isinstance(got, t.KeyData) or got.serialize() != mmo(code)):
        raise Violation("key", f"code {code.hex()} ({what}) yields {got}, expected {mmo(code).hex()}")
    if not valid and got is not None:
        raise Violation("bad-code", f"the bad code {code.hex()} ({what}) yields the key {got}")
    ctx.count("valid codes" if valid else "bad codes")
    ctx.evaluated(("code", len(code), what, valid), True)
    return valid


def codes(ctx, i):
    rng = ctx.rng("code", i)
    for n in range(41):
        body = rng.choice([rng.randbytes, bytes, lambda k: b"\xff" * k])(max(0, n - 2))
        code = (body + crc(body))[:n]
        if judge_code(ctx, code, "right checksum") != (n in LENGTHS):
            raise RuntimeError("harness")
        judge_code(ctx, body + crc(body)[::-1] if n > 2 else b"", "checksum reversed")
        judge_code(ctx, body + bytes(2) if n > 2 else b"", "checksum zero")
        judge_code(ctx, body + bytes(x ^ 0xFF for x in crc(body)) if n > 2 else b"", "checksum inverted")
        if n in LENGTHS:
            for k in range(n):
                bad = bytearray(code)
                bad[k] ^= rng.choice([1, 0x80, rng.randrange(1, 256)])
                judge_code(ctx, bytes(bad), "byte changed")
            for k in range(n - 1):
                bad = bytearray(code)
                bad[k], bad[k + 1] = bad[k + 1], bad[k]
                judge_code(ctx, bytes(bad), "bytes swapped")
            for cut in (code[:-1], code[1:], code + b"\0", b"\0" + code, code[:-2], code * 2):
                judge_code(ctx, cut, "length changed")
            judge_code(ctx, bytes(n), "zeros")
            judge_code(ctx, b"\xff" * n, "ones")


def permits(ctx, i):
    rng = ctx.rng("permit", i)

    async def main():
        app = sim.make_app()
        net = sim.SimNet(app, rng)
        router = net.add(sim.SimNode(sim.eui(0x77), 0x3344))
        sim.add_ready_device(app, router.ieee, router.nwk)
        for _ in range(30):
            app.sent.clear()
            app.calls.clear()
            op = rng.choice(["key", "bad key", "link key", "open", "node", "node", "coordinator", "unknown", "bad time", "failing node"])
            time_s = rng.choice([0, 1, 60, 253, 254, rng.randrange(255)])
            given = rng.random() < 0.8
            kw = {"time_s": time_s} if given else {}
            time_s = time_s if given else 60
            ieee = sim.eui(rng.randrange(1, 2**63))

            def form(x):
                return rng.choice([x, str(x), [int(b) for b in x]])

            err = None
            want_calls, want_sent = [], []
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if op in ("key", "bad key"):
                        body = rng.randbytes(rng.choice(LENGTHS) - 2)
                        code = body + crc(body)
                        if op == "bad key":
                            code = rng.choice([code[:-1] + bytes([code[-1] ^ 1]), code + b"\0", b"", code[:-2]])
                            if len(code) in LENGTHS and crc(code[:-2]) == code[-2:]:
                                continue
                        else:
                            want_calls = [("permit_with_link_key", (ieee, t.KeyData(mmo(code)), time_s))]
                        await app.permit_with_key(ieee, code, **kw)
                    elif op == "link key":
                        key = t.KeyData(rng.randbytes(16))
                        want_calls = [("permit_with_link_key", (ieee, key, time_s))]
                        await app.permit_with_link_key(ieee, key, **kw)
                    elif op == "open":
                        want_calls = [("permit_ncp", (time_s,))]
                        want_sent = [("broadcast", 0xFFFC, bytes([time_s, 0]))]
                        await app.permit(**kw)
                    elif op in ("node", "failing node"):
                        want_sent = [("unicast", router.nwk, bytes([time_s, 0]))]
                        if op == "failing node":
                            net.fate = lambda *a: "fail"
                        await app.permit(node=form(router.ieee), **kw)
                    elif op == "coordinator":
                        want_calls = [("permit_ncp", (time_s,))]
                        await app.permit(node=form(sim.NCP_IEEE), **kw)
                    elif op == "unknown":
                        await app.permit(node=form(ieee), **kw)
                    else:
                        time_s = rng.choice([-1, 255, 256, 300, 65535, -254])
                        await app.permit(time_s=time_s, **({"node": form(rng.choice([router.ieee, sim.NCP_IEEE]))} if rng.random() < 0.5 else {}))
            except Exception as e:  # noqa: BLE001
                err = e
            finally:
                net.fate = None
            if op == "bad key" and not isinstance(err, ValueError):
                raise Violation("bad-code-permitted", f"permitting with the bad code {code.hex()} gave {err!r}")
            if op == "bad time" and err is None:
                raise Violation("bad-time", f"a permit for {time_s} seconds was accepted")
            if op not in ("bad key", "bad time") and err is not None:
                raise Violation("permit-error", f"{op} for {time_s} s raised {err!r}")
            calls = [(c[1], c[2]) for c in app.calls]
            sent = []
            for _, p in app.sent:
                d = p.data.serialize()
                if (int(p.cluster_id), p.profile_id, p.src_ep, p.dst_ep) != (0x0036, 0, 0, 0) or d[0] != p.tsn:
                    raise Violation("packet", f"{op} sent {p}")
                sent.append(("broadcast" if p.dst.addr_mode == t.AddrMode.Broadcast else "unicast", int(p.dst.address), d[1:]))
            if op == "failing node":
                sent = sent[:1]  # may be repeated
            if calls != want_calls or sent != want_sent:
                raise Violation("permit", f"{op} for {time_s} s: radio calls {calls}, expected {want_calls}; packets {sent}, expected {want_sent}")
            ctx.count("permits judged: " + op)
            ctx.evaluated(("permit", op, time_s), True)

    vloop.run(main())


def run(ctx):
    ctx.case("vectors", self_check, ctx)
    for n in range(301):
        ctx.case(f"hash:{n}", hashes, ctx, n)
    for i in range(ctx.n(30, 600)):
        ctx.case(f"code:{i}", codes, ctx, i)
    for i in range(ctx.n(60, 2000)):
        ctx.case(f"permit:{i}", permits, ctx, i)
    ctx.sample({"install code": "83fed3407a939723a5c639b26916d505c3b5", "key": mmo(bytes.fromhex("83fed3407a939723a5c639b26916d505c3b5")).hex()})
    for name, m in [
        ("published vectors agreed", 4), ("hashes judged", 1000), ("valid codes", 100), ("bad codes", 4000), ("permits judged: key", 60), ("permits judged: bad key", 40),
        ("permits judged: open", 60), ("permits judged: node", 120), ("permits judged: coordinator", 60), ("permits judged: bad time", 60), ("permits judged: failing node", 60),
        ("permits judged: unknown", 60),
    ]:  # fmt: skip
        ctx.require(name, m)
