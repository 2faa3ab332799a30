"""O01: a firmware transfer delivers the exact image or reports failure."""

from __future__ import annotations

import asyncio

from harness import otaref, sim, vloop
from harness.core import Violation

import zigpy.exceptions
from zigpy.ota import OtaImageWithMetadata
from zigpy.ota.image import parse_ota_image
from zigpy.ota.providers import BaseOtaImageMetadata

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: offline checker over the log of requests, transmissions, progress calls and results of updates of simulated devices; "
    "a reference model of the transfer, fed with the log, predicts every response, the outcome and the moment of the end"
)
NOTE = (
    "Devices that read forward, backward, at random, repeatedly, beyond the end or with size zero, at any pace, with slow and failing transmissions, aborts, "
    "silence, cancelled updates, failing progress callbacks, overlapping updates of the same and of other devices, and requests after the end."
)
RULE = "One evaluation is one update whose outcome, end and every response are predicted from the log; non-trivial: distinct (outcome, reading pattern, faults)."
ASSUMPTIONS = [
    "The identification a device puts into its block requests is not judged, the response always carries that of the image.",
    "Errors while the new version is read back after a successful transfer are not judged.",
]
STALL = 30.0
FORCED = 0xFFFFFFFE
OTA = 0x0019


class Update:
    """One call of update_firmware and all that happens to it."""

    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.progress = []
        self.start = self.end = self.result = self.error = None
        self.cancelled_at = None


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.loop = ctx, rng, asyncio.get_running_loop()
        self.app = sim.make_app()
        self.app.on_send = self.on_send
        self.log = []  # (seq, time, kind, device, info)
        self.tsn = {}
        self.fail_rate = rng.choice([0, 0, 0, 0.02, 0.1])
        self.latency = rng.choice([0, 0, 0.05, 0.5, 3.0])
        self.clients = {}
        self.unknown = 0
        self.sending = 0

    def note(self, kind, dev, **info):
        self.log.append((len(self.log), self.loop.time(), kind, dev, info))
        return self.log[-1][0]

    async def on_send(self, pkt):
        dev = next((d for d in self.app.devices.values() if pkt.dst.address == d.nwk), None)
        h = sim.parse_zcl(pkt.data.serialize())
        if pkt.cluster_id != OTA or not h["cluster"]:
            await self.other(dev, pkt, h)
            return
        info = {"cmd": h["cmd"], "tsn": h["tsn"], "payload": h["payload"], "s2c": h["s2c"], "ep": pkt.dst_ep}
        sent = self.note("tx", dev, **info)
        self.sending += 1
        try:
            d = self.latency * self.rng.random()
            if d:
                await asyncio.sleep(d)
            client = self.clients.get(dev.ieee)
            bad = self.rng.random() < self.fail_rate or (client is not None and client.fail_next.pop(h["cmd"], False))
            if bad:
                raise zigpy.exceptions.DeliveryError("no route")
        except BaseException as e:
            self.note("tx-failed", dev, of=sent, error=type(e).__name__)
            raise
        finally:
            self.sending -= 1
        self.note("tx-ok", dev, of=sent)
        self.loop.call_soon(self.client_rx, dev, info)

    def client_rx(self, dev, info):
        c = self.clients.get(dev.ieee)
        if c is not None:
            c.received(info)

    async def other(self, dev, pkt, h):
        """Reading the version back after an update."""
        if pkt.cluster_id == OTA and h["cmd"] == 0x00:
            data = sim.zcl_hdr(h["tsn"], 1, s2c=False) + sim.u16(2) + b"\0" + b"\x23" + sim.u32(7)
            self.loop.call_soon(lambda: self.app.packet_received(sim.rx(dev, OTA, data, src_ep=pkt.dst_ep, tsn=h["tsn"])))

    def request(self, dev, cmd, payload, **info):
        tsn = self.tsn[dev.ieee] = (self.tsn.get(dev.ieee, 0) + 1) % 256
        self.send(dev, cmd, tsn, payload, info)
        return tsn

    def send(self, dev, cmd, tsn, payload, info):
        c = self.clients[dev.ieee]
        c.last_request = (cmd, tsn, payload, info)
        self.note("rx", dev, cmd=cmd, tsn=tsn, **info)
        self.app.packet_received(sim.rx(dev, OTA, sim.zcl_hdr(tsn, cmd, cluster=True) + payload, src_ep=c.ep, tsn=tsn))


class Client:
    """The firmware update client of one device."""

    def __init__(self, w, dev, ep):
        self.w, self.dev, self.ep = w, dev, ep
        self.inbox = asyncio.Queue()
        self.fail_next = {}
        self.last_request = None
        w.clients[dev.ieee] = self

    def received(self, info):
        self.inbox.put_nowait(info)

    async def response(self, tsn, timeout=8.0):
        try:
            async with asyncio.timeout(timeout):
                while True:
                    info = await self.inbox.get()
                    if info["tsn"] == tsn and info["cmd"] != 0:
                        return info
        except TimeoutError:
            return None

    def query(self, q):
        fc = 0 if q["hardware"] is None else 1
        p = bytes([fc]) + sim.u16(q["manufacturer"]) + sim.u16(q["image_type"]) + sim.u32(q["current"]) + (b"" if q["hardware"] is None else sim.u16(q["hardware"]))
        return self.w.request(self.dev, 1, p, query=q)

    def block(self, img, offset, size):
        rng = self.w.rng
        fc = rng.choice([0, 0, 0, 1, 2, 3])
        p = bytes([fc]) + sim.u16(img["manuf"]) + sim.u16(img["type"]) + sim.u32(img["version"]) + sim.u32(offset) + bytes([size])
        p += (self.dev.ieee.serialize() if fc & 1 else b"") + (sim.u16(10) if fc & 2 else b"")
        return self.w.request(self.dev, 3, p, offset=offset, size=size)

    def upgrade_end(self, img, status):
        return self.w.request(self.dev, 6, bytes([status]) + sim.u16(img["manuf"]) + sim.u16(img["type"]) + sim.u32(img["version"]), status=status)

    async def pause(self, pace):
        await asyncio.sleep(self.w.rng.random() * pace)

    async def behave(self, upd):
        """Take part in an update."""
        rng, img, w = self.w.rng, upd.image, self.w
        total = len(upd.data)
        while not self.inbox.empty():
            self.inbox.get_nowait()
        if upd.eager:
            await asyncio.sleep(0.01 + rng.random() * 0.2)
        else:
            try:
                async with asyncio.timeout(20):
                    while (await self.inbox.get())["cmd"] != 0:
                        pass
            except TimeoutError:
                return
            await self.pause(upd.pace)
        if upd.ends == "silent":
            return
        if upd.asks:
            rsp = await self.response(self.query(upd.query))
            if rsp is None or rsp["payload"][0] != 0:
                return
            await self.pause(upd.pace)
        stop_after = rng.randint(0, 30) if upd.ends in ("vanish", "abort", "beyond", "zero", "early") else None
        offset, n = 0, 0
        if upd.pattern == "backward":
            offset = total
        while True:
            if stop_after is not None and n >= stop_after:
                break
            size = upd.size or rng.randint(1, 255)
            if upd.pattern == "random":
                if n >= 20:
                    break
                at = rng.randrange(total)
            elif upd.pattern == "backward":
                if offset <= 0:
                    break
                size = min(size, 40)
                at = max(0, offset - size)
            else:
                if offset >= total:
                    break
                at = offset
            tsn = self.block(img, at, size)
            n += 1
            if rng.random() < 0.1:
                # the network duplicates the request
                await asyncio.sleep(rng.random() * 0.2)
                cmd, t0, p, info = self.last_request
                self.w.note("dup", self.dev, cmd=cmd, tsn=t0)
                self.w.app.packet_received(sim.rx(self.dev, OTA, sim.zcl_hdr(t0, cmd, cluster=True) + p, src_ep=self.ep, tsn=t0))
            if upd.hasty and rng.random() < 0.5:
                await self.pause(0.1)
                if upd.pattern == "forward":
                    continue  # asks for the same block again without waiting
            rsp = await self.response(tsn)
            if rsp is None:
                if rng.random() < 0.5:
                    continue
                break
            if rsp["payload"][0] != 0:
                return
            got = len(rsp["payload"]) - 14
            if got <= 0:
                return
            if upd.pattern == "backward":
                offset = at
            elif rng.random() >= upd.repeat:
                offset = at + got
            await self.pause(upd.pace)
        e = upd.ends
        if e == "vanish":
            return
        if e == "beyond":
            self.block(img, rng.choice([total, total + 1, total + 1000, 0xFFFFFFFF]), rng.randint(1, 255))
            await asyncio.sleep(rng.random())
            self.block(img, 0, 40)
            return
        if e == "zero":
            self.block(img, rng.randrange(total), 0)
            return
        status = 0 if e in ("success", "early") else rng.choice([0x95, 0x96, 0x99, 0x01, 0x97])
        self.upgrade_end(img, status)
        if rng.random() < 0.5:
            await asyncio.sleep(rng.choice([0, 0.01, 0.3]))
            self.block(img, rng.randrange(total), 40)
        if rng.random() < 0.2:
            self.upgrade_end(img, rng.choice([0, 0x95]))


def make_image(rng):
    elements = [(rng.choice([0, 0, 1, 3, 0xF000]), rng.randbytes(rng.choice([0, 1, 39, 40, 41, rng.randint(1, 400), rng.randint(1, 3000)]))) for _ in range(rng.randint(1, 3))]
    m = {"manuf": rng.randrange(0x10000), "type": rng.randrange(0x10000), "version": rng.choice([1, 2, 0x01000000, rng.randrange(1, 0xFFFFFFF0)])}
    kw = {}
    if rng.random() < 0.3:
        kw["hw"] = (rng.randrange(5), rng.randrange(5, 10))
    if rng.random() < 0.2:
        kw["sec"] = rng.randrange(4)
    if rng.random() < 0.1:
        kw["dest"] = rng.randbytes(8)
    hw = kw.get("hw", (None, None))
    m["file"] = {"manufacturer": m["manuf"], "image_type": m["type"], "hw_min": hw[0], "hw_max": hw[1]}
    m["raw"] = otaref.image(m["manuf"], m["type"], m["version"], elements, **kw)
    return m


def make_update(w, dev, n):
    rng = w.rng
    img = make_image(rng)
    force = rng.random() < 0.2
    meta = {"version": img["version"]}
    args = {"file_version": img["version"], "source": f"{dev.ieee} {n}"}
    if rng.random() < 0.5:
        meta["manufacturer"] = args["manufacturer_id"] = img["manuf"]
    if rng.random() < 0.5:
        meta["image_type"] = args["image_type"] = img["type"]
    if rng.random() < 0.2:
        meta["models"] = args["model_names"] = rng.choice([("Sim-1",), ("Other",), ("Other", "Sim-1")])
    if rng.random() < 0.2:
        meta["hw_min"] = args["min_hardware_version"] = rng.randrange(6)
    if rng.random() < 0.2:
        meta["cur_max"] = args["max_current_file_version"] = rng.randrange(img["version"] + 1)
    meta.setdefault("manufacturer", img["manuf"])
    meta.setdefault("image_type", img["type"])
    good = rng.random() < 0.9
    query = {
        "manufacturer": img["manuf"] if good or rng.random() < 0.5 else (img["manuf"] + 1) & 0xFFFF,
        "image_type": img["type"] if good or rng.random() < 0.5 else (img["type"] + 1) & 0xFFFF,
        "current": rng.choice([0, img["version"] - 1, img["version"] // 2] if good else [img["version"], 0xFFFFFFFF]),
        "hardware": rng.choice([6, 5, 5, None] if good else [0, 3, 12, None]),
    }
    firmware, rest = parse_ota_image(img["raw"])
    assert not rest
    data = img["raw"]
    shown = dict(img)
    if force:
        data = data[:14] + sim.u32(FORCED) + data[18:]
        shown["version"] = FORCED
    return Update(
        dev=dev, image=shown, data=data, meta=meta, query=query, force=force, object=OtaImageWithMetadata(metadata=BaseOtaImageMetadata(**args), firmware=firmware),
        admitted=force or (otaref.admits(meta, img["file"], (dev.manufacturer, dev.model), query) and otaref.newer(meta, query["current"])),
        pattern=rng.choice(["forward", "forward", "random", "backward"]), size=rng.choice([None, 1 if len(data) < 200 else 50, 40, 39, 41, 63, 255, 16]),
        pace=rng.choice([0, 0.01, 0.5, 5, 28, 40]), repeat=rng.choice([0, 0, 0.2]), hasty=rng.random() < 0.2, eager=rng.random() < 0.1, asks=rng.random() < 0.8,
        ends=rng.choice(["success"] * 5 + ["early", "abort", "vanish", "silent", "beyond", "zero"]), callback=rng.choice(["ok", "ok", "ok", "none", "raises"]), n=n,
        fails=rng.choice([None] * 12 + [0, 2, 5, 7]),
    )  # fmt: skip


async def run_update(w, upd):
    rng, dev = w.rng, upd.dev
    raise_at = rng.randint(1, 5) if upd.callback == "raises" else None

    def progress(current, total, percent):
        upd.progress.append((current, total, percent))
        if raise_at is not None and len(upd.progress) == raise_at:
            upd.raised = w.note("progress-raised", dev)
            raise RuntimeError("progress")

    upd.raised = None
    client = w.clients[dev.ieee]
    client.fail_next = {upd.fails: True} if upd.fails is not None else {}
    upd.start = w.note("start", dev)
    upd.start_time = w.loop.time()
    task = asyncio.create_task(dev.update_firmware(upd.object, progress_callback=None if upd.callback == "none" else progress, force=upd.force))
    behaviour = asyncio.create_task(client.behave(upd))
    upd.overlap = []

    async def second():
        await asyncio.sleep(rng.random() * 3)
        if dev.ota_in_progress:
            before = len(w.log)
            other = make_update(w, dev, "overlapping")
            upd.overlap.append((await dev.update_firmware(other.object, force=rng.random() < 0.5), len(w.log) - before))

    again = asyncio.create_task(second()) if rng.random() < 0.2 else None
    handle = None
    if rng.random() < 0.1:
        when = rng.choice([0, 0.001, rng.random(), rng.random() * 20])

        def cancel():
            if not task.done():
                upd.cancelled_at = w.loop.time()
                upd.cancelled_seq = w.note("cancel", dev)
                task.cancel()

        handle = w.loop.call_later(when, cancel)
    try:
        upd.result = await task
    except asyncio.CancelledError:
        upd.result = "cancelled"
    except Exception as e:
        upd.error = e
    upd.end_time = w.loop.time()
    upd.end = w.note("end", dev)
    upd.still_marked = dev.ota_in_progress
    for x in (again, handle):
        if x is not None:
            x.cancel()
    # whatever else the device has to say
    await behaviour
    client.fail_next = {}
    for _ in range(rng.randint(0, 3)):
        rng.choice([lambda: client.block(upd.image, rng.randrange(len(upd.data)), 40), lambda: client.query(upd.query), lambda: client.upgrade_end(upd.image, 0)])()
        await asyncio.sleep(rng.random())
    while w.sending:
        await asyncio.sleep(0.1)
    await asyncio.sleep(0.01)
    upd.closed = w.note("closed", dev)


def model(w, upd):
    """(status or None when anything but success will do, time of the end, sequence number of the end, expected progress)"""
    deadline = None
    progress, exact_progress = [], True
    reqs = {}
    sent = {}
    done = None  # (status, time, seq)

    def finish(status, time, seq):
        nonlocal done
        if done is None:
            done = (status, time, seq)

    for seq, time, kind, dev, info in w.log[upd.start : upd.closed + 1]:
        if dev is not upd.dev:
            continue
        if done is None and deadline is not None and time > deadline + 1e-9:
            finish(0x94, deadline, seq)
        if done is not None:
            break
        if kind == "end":
            break
        if kind == "cancel":
            finish("cancelled", time, seq)
        elif kind == "rx":
            reqs[info["tsn"]] = (seq, info)
        elif kind == "tx":
            sent[seq] = info
        elif kind == "progress-raised":
            finish(None, time, seq)
        elif kind in ("tx-ok", "tx-failed"):
            tx = sent.get(info["of"])
            if tx is None:
                continue
            ok = kind == "tx-ok"
            cmd = tx["cmd"]
            if cmd == 0:
                if ok:
                    deadline = time + STALL
                else:
                    finish(None, time, seq)
                continue
            if tx["tsn"] not in reqs:
                continue  # judged with the responses
            req = reqs[tx["tsn"]][1]
            if cmd == 2:
                if not ok:
                    finish(None, time, seq)
                elif tx["payload"][0] != 0:
                    finish(tx["payload"][0], time, seq)
            elif cmd == 5:
                if tx["payload"][0] != 0 or not ok:
                    finish(None, time, seq)
                else:
                    deadline = time + STALL
                    n = len(tx["payload"]) - 14
                    progress.append((req["offset"] + n, len(upd.data)))
            elif cmd == 7:
                finish(req["status"] if ok else None, time, seq)
    if done is None and deadline is not None:
        done = (0x94, deadline, None)
    return done, progress


def judge(ctx, w, upd):
    where = f"update {upd.n} of {upd.dev.ieee} ({upd.pattern}, {upd.ends}, size {upd.size}, {len(upd.data)} bytes)"

    def bad(key, msg):
        raise Violation(key, f"{where}: {msg}", witness={"log": [repr(x)[:300] for x in w.log[upd.start : upd.closed + 1] if x[3] is upd.dev][-60:], "result": repr(upd.result), "error": repr(upd.error)})

    done, progress = model(w, upd)
    if done is None:
        bad("hangs", f"ended with {upd.result} although nothing could have ended it")
    status, t_end, seq_end = done
    # 1. outcome
    if upd.error is not None:
        bad("raised", f"update raised {upd.error!r}")
    if status == "cancelled":
        if upd.result != "cancelled":
            bad("cancelled", f"a cancelled update returned {upd.result}")
    elif upd.result == "cancelled" and status != 0:
        bad("cancelled", "the update was reported cancelled")
    elif status is None:
        if upd.result is None or upd.result == 0:
            bad("false-success", f"the update returned {upd.result!r} although it failed")
    elif upd.result != status and not (status == 0 and upd.result == "cancelled"):
        bad("false-success" if upd.result == 0 else "outcome", f"the update returned {upd.result!r} instead of status {status:#x}")
    if status != 0 and abs(upd.end_time - t_end) > 1e-6:
        bad("end-time", f"the update ended at {upd.end_time:.4f} instead of {t_end:.4f} ({'stalled' if status == 0x94 else status})")
    if status == 0 and upd.result == 0 and upd.end_time - t_end > 200:
        bad("end-time", f"the update ended {upd.end_time - t_end} s after its confirmation")
    if upd.still_marked:
        bad("marked", "the device is still marked as being updated after the end")
    for r, n in upd.overlap:
        ctx.count("overlapping updates refused")
        if r is not None:
            bad("overlap", f"a second update of the device returned {r!r}")
    # 2. responses
    limit = upd.end if seq_end is None else seq_end
    answered = {}
    reqs = {}
    failed = {info["of"] for _, _, kind, _, info in w.log if kind == "tx-failed"}
    for seq, time, kind, dev, info in w.log[upd.start : upd.closed + 1]:
        if dev is not upd.dev:
            continue
        if kind == "rx":
            reqs[info["tsn"]] = (seq, time, info)
        elif kind == "tx":
            if info["cmd"] == 0:
                if not info["s2c"]:
                    ctx.count("notifications with the wrong direction")
                if info["ep"] != w.clients[dev.ieee].ep:
                    bad("endpoint", f"notified endpoint {info['ep']}")
                continue
            if not info["s2c"]:
                bad("direction", f"response {info} goes from client to server")
            req = reqs.get(info["tsn"])
            if req is None:
                bad("unasked", f"response to nothing: {info}")
            if info["cmd"] != req[2]["cmd"] + 1 and info["cmd"] != {1: 2, 3: 5, 6: 7}[req[2]["cmd"]]:
                bad("wrong-response", f"response {info} to {req}")
            answered.setdefault(req[0], []).append((seq, info))
            if info["ep"] != w.clients[dev.ieee].ep:
                bad("endpoint", f"answered endpoint {info['ep']}")
    ident = sim.u16(upd.image["manuf"]) + sim.u16(upd.image["type"]) + sim.u32(upd.image["version"])
    for tsn, (seq, time, info) in reqs.items():
        got = answered.get(seq, [])
        during = time < t_end - 1e-9
        after = time > t_end + 1e-9
        if len(got) > 1:
            bad("twice", f"{info} was answered {len(got)} times")
        if not got:
            if during and status != "cancelled" and upd.result != "cancelled":
                # may still wait for an earlier transmission when the update ends
                if not any(k in ("tx-ok", "tx-failed") and s > seq and s <= limit for s, _, k, d, _ in w.log if d is upd.dev) and time > t_end - 5:
                    continue
                bad("unanswered", f"{info} at {time} was not answered")
            if after and info["cmd"] != 6:
                bad("unanswered", f"{info} after the end was not answered")
            continue
        p = got[0][1]["payload"]
        ctx.count("responses judged")
        if after:
            ctx.count("requests after the end")
            if info["cmd"] == 6:
                bad("handler-remains", f"upgrade end after the end of the update was answered with {p.hex()}")
            if p[0] == 0 or (info["cmd"] == 3 and p[0] != 0x95) or (info["cmd"] == 1 and p[0] != 0x98):
                bad("handler-remains", f"{info} after the end of the update was answered with {p[:20].hex()}")
            continue
        if not during and p[0] != 0:
            continue
        if info["cmd"] == 1:
            if p[0] == 0:
                if not upd.admitted:
                    bad("not-admissible", f"an image that does not suit was offered to {info['query']}")
                if p[1:] != ident + sim.u32(len(upd.data)):
                    bad("offer", f"offer {p.hex()} does not describe the image {ident.hex()} {len(upd.data)}")
                ctx.count("offers")
            elif upd.admitted:
                bad("refused", f"a suitable image was refused with {p.hex()} to {info['query']}, {upd.meta}")
            elif p[0] != 0x98:
                bad("refused", f"unsuitable image refused with status {p[0]:#x}")
        elif info["cmd"] == 3:
            offset, size = info["offset"], info["size"]
            legal = size > 0 and offset < len(upd.data)
            if p[0] != 0:
                if legal:
                    bad("block-refused", f"block {offset}+{size} of {len(upd.data)} was refused with {p[0]:#x}")
                ctx.count("illegal blocks refused")
                continue
            if not legal:
                bad("beyond", f"block {offset}+{size} of {len(upd.data)} was answered with {p[:30].hex()}")
            body = p[14:]
            if p[1:9] != ident or int.from_bytes(p[9:13], "little") != offset or p[13] != len(body):
                bad("block-header", f"block {offset}+{size} came with header {p[1:14].hex()}, image {ident.hex()}")
            if not body or len(body) > min(size, 64):
                bad("block-size", f"block {offset}+{size} has {len(body)} bytes")
            if body != upd.data[offset : offset + len(body)]:
                bad("block-content", f"block {offset}+{size} does not hold the bytes of the image")
            ctx.count("blocks compared")
            ctx.count("bytes compared", len(body))
        elif p[:8] != ident:
            bad("end-response", f"upgrade end was answered with {p.hex()}")
    # 3. progress
    if upd.callback != "none":
        want = [(c, n, 100 * c / n) for c, n in progress]
        if upd.progress != want:
            bad("progress", f"progress was reported as {upd.progress[-5:]} ({len(upd.progress)}), expected {want[-5:]} ({len(want)})")
        ctx.count("progress reports", len(want))
    name = {None: "failure", 0: "success", 0x94: "timeout", "cancelled": "cancelled"}.get(status, "declared failure")
    ctx.count(f"updates: {name}")
    ctx.evaluated((name, upd.pattern, upd.ends, upd.force, upd.callback, upd.fails, bool(w.latency), bool(w.fail_rate), upd.eager), True)
    ctx.state("outcome", (name, upd.ends, upd.pattern))
    return done


def history(ctx, idx):
    async def main():
        rng = ctx.rng("history", idx)
        w = World(ctx, rng)
        # nothing but the harness and zigpy uses timers
        devs = []
        for k in range(rng.randint(1, 3)):
            ep = rng.choice([1, 1, 2, 11])
            eps = {ep: (0x0104, 0x0100, [0, 6], [OTA, 0x0A])}
            if rng.random() < 0.3:
                eps = {ep + 1: (0x0104, 0x0100, [0, 6, OTA], [0x0A]), **eps} if rng.random() < 0.5 else {**eps, ep + 1: (0x0104, 0x0100, [0, 6, OTA], [])}
            dev = sim.add_ready_device(w.app, sim.eui(0xA00 + k), 0x3000 + k, endpoints=eps)
            Client(w, dev, ep)
            devs.append(dev)
        done = []

        async def series(dev):
            await asyncio.sleep(rng.random() * 3)
            for n in range(rng.randint(1, 3)):
                upd = make_update(w, dev, n)
                await run_update(w, upd)
                done.append(upd)
                await asyncio.sleep(rng.choice([0, 0.1, 12]))

        async def bystander():
            """a device that is not being updated asks too"""
            dev = sim.add_ready_device(w.app, sim.eui(0xAFF), 0x30FF, endpoints={1: (0x0104, 0x0100, [0, 6], [OTA])})
            c = Client(w, dev, 1)
            start = len(w.log)
            n = 0
            for _ in range(rng.randint(1, 6)):
                await asyncio.sleep(rng.random() * 4)
                c.block({"manuf": 1, "type": 2, "version": 3}, 0, 40)
                n += 1
            await asyncio.sleep(30)
            got = [i for _, _, k, d, i in w.log[start:] if d is dev and k == "tx"]
            if len(got) != n or any(i["cmd"] != 5 or i["payload"] != b"\x95" for i in got):
                raise Violation("bystander", f"a device that is not being updated asked for {n} blocks and got {[i['payload'][:20].hex() for i in got]}")
            ctx.count("requests of bystanders", n)

        await asyncio.gather(*(series(d) for d in devs), bystander())
        for upd in done:
            judge(ctx, w, upd)
        await asyncio.sleep(0.001)
        left = [h for h in w.loop._scheduled if not h._cancelled]
        if left:
            raise Violation("timer-remains", f"after all updates ended timers remain: {left}")
        ctx.count("histories")
        if idx == 0 and done:
            ctx.sample({"update": {"bytes": len(done[0].data), "pattern": done[0].pattern, "result": repr(done[0].result)}, "log": [f"{t:.2f} {k} {i.get('cmd')} {i.get('offset', '')}" for _, t, k, _, i in w.log[:20]]})

    vloop.run(main())


def cancelled(ctx, idx):
    """No timer outlives an update, however it ends."""

    async def main():
        rng = ctx.rng("timers", idx)
        w = World(ctx, rng)
        dev = sim.add_ready_device(w.app, sim.eui(0xB00), 0x4000, endpoints={1: (0x0104, 0x0100, [0], [OTA])})
        Client(w, dev, 1)
        upd = make_update(w, dev, 0)
        await run_update(w, upd)
        judge(ctx, w, upd)
        left = [h for h in w.loop._scheduled if not h._cancelled]
        if left:
            raise Violation("timer-remains", f"after an update that ended with {upd.result!r} timers remain: {left}")
        ctx.count("updates without leftovers")

    vloop.run(main())


def run(ctx):
    import logging

    logging.getLogger("zigpy").setLevel(logging.CRITICAL)
    for i in range(ctx.n(700, 20000)):
        ctx.case(f"history:{i}", history, ctx, i)
    for i in range(ctx.n(700, 20000)):
        ctx.case(f"timers:{i}", cancelled, ctx, i)
    for name, m in [("histories", 400), ("responses judged", 10000), ("blocks compared", 8000), ("requests after the end", 1500), ("updates: success", 200), ("updates: timeout", 200), ("updates: cancelled", 100), ("overlapping updates refused", 150)]:
        ctx.require(name, m)
