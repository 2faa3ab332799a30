"""N01: formed networks are valid and honour the configuration; channel changes are announced and take effect."""

from __future__ import annotations

import asyncio
import copy
import os
import random
import tracemalloc

from checks.S04 import plain
from harness import sim, vloop
from harness.core import Violation

from zigpy.backups import NetworkBackup
import zigpy.config as conf
import zigpy.exceptions
import zigpy.state
import zigpy.types as t
import zigpy.util

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: random formations and channel changes against a simulated coordinator; every network written to the radio, every packet "
    "sent and the resulting backup are compared with the configuration, the specification's value ranges and an independent channel rating; the "
    "operating system's random source is steered to its extreme values"
)
NOTE = (
    "Formation through form_network and through start-up with automatic forming; radios that can scan without a network and radios that need an "
    "ephemeral one; scans through the coordinator's own management service, through the radio driver and failing; all channel masks; channel changes "
    "with slow radios, delayed and lost replies and any number of announcements."
)
RULE = "One evaluation is one written network, rated scan or channel change; non-trivial: distinct (settings configured, scan kind, channels allowed, chosen channel)."
ASSUMPTIONS = [
    "The centre of the neighbour weighting counts once or twice (the code counts a channel's own energy in addition to the weighted sum, its comment does not).",
    "The configured channel list is not empty.",
]

PENALTY = {11: 2, 15: 1, 20: 1, 25: 1, 26: 2}


def best(energy, allowed, centre):
    """The channels that may be chosen, computed from the documented rating."""

    def at(c):
        return energy[min(max(c, 11), 26)]

    rate = {}
    for c in allowed:
        e = 0.1 * at(c - 2) + 0.5 * at(c - 1) + centre * at(c) + 0.5 * at(c + 1) + 0.1 * at(c + 2)
        rate[c] = (1 + e) * PENALTY.get(c, 3)
    low = min(rate.values())
    return {c for c in allowed if rate[c] <= low * (1 + 1e-9) + 1e-9}


def bests(energy, allowed):
    # beyond 12 and 25 the continuation itself is smoothed; both readings agree on the sum of neighbours
    return best(energy, allowed, 1.0) | best(energy, allowed, 2.0)


class Entropy:
    """The operating system's random source, with extreme values made frequent."""

    def __init__(self, rng):
        self.rng = rng
        self.extremes = 0

    def __call__(self, n):
        if n <= 8 and self.rng.random() < 0.6:
            self.extremes += 1
            return self.rng.choice([b"\x00" * n, b"\xff" * n, b"\xff" * (n - 1) + b"\xfe", b"\xff" * (n - 1) + b"\xfd", b"\x00" * (n - 1) + b"\x01"])
        return self.rng.randbytes(n)

    def __enter__(self):
        self.saved = (os.urandom, random._urandom)
        os.urandom = random._urandom = self
        return self

    def __exit__(self, *exc):
        os.urandom, random._urandom = self.saved


class App(sim.SimApp):
    """A radio with settings of its own."""

    def setup(self, rng, *, formed, kind):
        self.rng = rng
        self.kind = kind  # how the energy scan goes
        self.formed = formed
        self.writes = []
        self.quick = []  # marked as ephemeral
        self.scans = []
        self.moves = []
        self.move_delay = None
        self.energy = {c: rng.choice([0, 5, 80, 255, rng.randrange(256)]) for c in range(11, 27)}
        self.on_send = self.radio_send
        if formed:
            sim.setup_state(self)
        else:
            self.radio_network = self.radio_node = None

    async def load_network_info(self, *, load_devices=False):
        await self._radio("load_network_info", load_devices)
        if not self.formed:
            raise zigpy.exceptions.NetworkNotFormed()
        self.state.network_info = copy.deepcopy(self.radio_network)
        self.state.node_info = copy.deepcopy(self.radio_node)

    async def start_network(self):
        await self._radio("start_network")
        await self.load_network_info(load_devices=False)
        sim.add_coordinator(self)

    async def write_network_info(self, *, network_info, node_info):
        self.writes.append(plain(NetworkBackup(network_info=network_info, node_info=node_info)))
        self.quick.append(network_info.stack_specific.get("form_quickly", False))
        await super().write_network_info(network_info=copy.deepcopy(network_info), node_info=copy.deepcopy(node_info))

    async def radio_send(self, packet):
        if packet.dst.addr_mode != t.AddrMode.NWK or packet.dst.address != 0x0000:
            return
        data = packet.data.serialize()
        if packet.cluster_id != 0x0038 or packet.dst_ep != 0:
            raise Violation("unexpected-packet", f"the coordinator was sent {packet}")
        mask, duration = int.from_bytes(data[1:5], "little"), data[5]
        if duration == 0xFE:
            self.moves.append((asyncio.get_running_loop().time(), mask, data[6:]))
            if self.move_delay is not None:
                asyncio.get_running_loop().call_later(self.move_delay, self.moved, mask, data[6])
            reply = b"\x00" + mask.to_bytes(4, "little") + bytes(5)
        else:
            self.scans.append((mask, duration, data[6]))
            if self.kind == "no answer":
                return
            if self.kind == "failure":
                raise zigpy.exceptions.DeliveryError("no such service")
            if self.kind == "refused":
                reply = self.rng.choice([b"\x84" + bytes(9), b"\x84", b"\xaa" + bytes(9), b"\x80" + mask.to_bytes(4, "little") + bytes(5)])
            else:
                reply = b"\x00" + mask.to_bytes(4, "little") + bytes(4) + bytes([mask.bit_count()])
                reply += bytes(self.energy[c] for c in range(11, 27) if mask & 1 << c)
        asyncio.get_running_loop().call_later(
            self.rng.choice([0.01, 3]), lambda: self.packet_received(sim.rx(0, 0x8038, data[:1] + reply, profile=0, src_ep=0, dst_ep=0, tsn=data[0]))
        )

    def moved(self, mask, update_id):
        self.radio_network.channel = t.uint8_t(mask.bit_length() - 1)
        self.radio_network.nwk_update_id = t.uint8_t(update_id)
        self.radio_moved_at = asyncio.get_running_loop().time()


class DriverScan(App):
    """Most radio libraries implement scanning themselves."""

    async def energy_scan(self, channels, duration_exp, count):
        self.scans.append((int(channels), duration_exp, count))
        await asyncio.sleep(0.2)
        return {c: float(self.energy[c]) for c in channels}


def random_network(rng):
    """A network configuration and what it means."""
    cfg, want = {}, {}
    if rng.random() < 0.35:
        want["channel"] = rng.randrange(11, 27)
        cfg[conf.CONF_NWK_CHANNEL] = rng.choice([want["channel"], str(want["channel"]), hex(want["channel"])])
    allowed = {11, 15, 20, 25}
    if rng.random() < 0.8:
        allowed = set(rng.sample(range(11, 27), rng.choice([1, 2, 4, 9, 16])))
        cfg[conf.CONF_NWK_CHANNELS] = sorted(allowed) if rng.random() < 0.7 else t.Channels.from_channel_list(sorted(allowed))
    want["allowed"] = allowed
    if rng.random() < 0.35:
        v = rng.choice([0, 1, 0xFFFE, rng.randrange(0xFFFF), rng.randrange(0xFFFF)])
        want["pan"] = f"{v:04x}"
        cfg[conf.CONF_NWK_PAN_ID] = rng.choice([v, hex(v), t.PanId(v)])
    if rng.random() < 0.35:
        b = rng.choice([rng.randbytes(8), rng.randbytes(8), bytes(8)])
        want["epid"] = b.hex()
        cfg[conf.CONF_NWK_EXTENDED_PAN_ID] = rng.choice([":".join(f"{x:02x}" for x in b), t.ExtendedPanId(b[::-1])])
    if rng.random() < 0.35:
        want["key"] = rng.choice([rng.randbytes(16), rng.randbytes(16), bytes(16)]).hex()
        cfg[conf.CONF_NWK_KEY] = rng.choice([list(bytes.fromhex(want["key"])), t.KeyData(bytes.fromhex(want["key"]))])
    if rng.random() < 0.35:
        want["tc_key"] = rng.choice([rng.randbytes(16), rng.randbytes(16), bytes(16)]).hex()
        cfg[conf.CONF_NWK_TC_LINK_KEY] = list(bytes.fromhex(want["tc_key"]))
    if rng.random() < 0.35:
        b = rng.choice([rng.randbytes(8), rng.randbytes(8), bytes(8)])
        want["tc_address"] = b.hex()
        cfg[conf.CONF_NWK_TC_ADDRESS] = rng.choice([":".join(f"{x:02x}" for x in b), t.EUI64(b[::-1])])
    if rng.random() < 0.35:
        want["update"] = rng.choice([0, 1, 255, rng.randrange(256)])
        cfg[conf.CONF_NWK_UPDATE_ID] = rng.choice([want["update"], str(want["update"])])
    if rng.random() < 0.35:
        want["seq"] = rng.choice([0, 255, rng.randrange(256)])
        cfg[conf.CONF_NWK_KEY_SEQ] = want["seq"]
    return cfg, want


def judge_network(p, want, fast):
    def need(name, got, ok, expected):
        if not ok:
            raise Violation("network-" + name, f"the network written has {name} {got!r}, expected {expected} (configured: {want}, fast: {fast})")

    if "pan" in want:
        need("pan", p["pan"], p["pan"] == want["pan"], want["pan"])
    else:
        need("pan", p["pan"], 1 <= int(p["pan"], 16) <= 0xFFFE, "1..FFFE")
    if "epid" in want:
        need("epid", p["epid"], p["epid"] == want["epid"], want["epid"])
    else:
        need("epid", p["epid"], len(p["epid"]) == 16 and p["epid"] not in ("00" * 8, "ff" * 8), "not a reserved value")
    key = p["net_key"]["key"]
    need("key", key, key == want["key"] if "key" in want else len(key) == 32 and len(set(key)) > 3, want.get("key", "a random key"))
    need("key seq", p["net_key"]["seq"], p["net_key"]["seq"] == want.get("seq", 0), want.get("seq", 0))
    need("counter", p["net_key"]["tx"], p["net_key"]["tx"] == 0, 0)
    tc = want.get("tc_key", b"ZigBeeAlliance09".hex())
    need("tc key", p["tc_key"]["key"], p["tc_key"]["key"] == tc, tc)
    if "tc_address" in want:
        need("tc address", p["tc_key"]["partner"], p["tc_key"]["partner"] == want["tc_address"], want["tc_address"])
    need("update id", p["update"], p["update"] == want.get("update", 0), want.get("update", 0))
    need("manager", p["manager"], p["manager"] == "0000", 0)
    need("security", p["level"], p["level"] == 5, 5)
    if "channel" in want:
        need("channel", p["channel"], p["channel"] == want["channel"], want["channel"])
    else:
        need("channel", p["channel"], p["channel"] in want["allowed"], want["allowed"])
    need("mask", p["mask"], bool(p["mask"] >> p["channel"] & 1), "containing the channel")
    need("devices", (p["children"], p["table"], p["addresses"]), not (p["children"] or p["table"] or p["addresses"]), "none")
    need("node", (p["node_nwk"], p["node_type"]), (p["node_nwk"], p["node_type"]) == ("0000", "Coordinator"), "a coordinator with address 0")


def formation(ctx, i):
    rng = ctx.rng("form", i)
    cfg, want = random_network(rng)
    kind = rng.choice(["zdo", "driver", "driver", "no answer", "failure", "refused"])
    cls = DriverScan if kind == "driver" else App
    how = rng.choice(["form", "form", "fast", "startup"])
    measure = kind in ("no answer", "failure", "refused") and rng.random() < 0.3
    over = {conf.CONF_NWK: cfg}
    if how == "startup" and rng.random() < 0.5:
        over[conf.CONF_STARTUP_ENERGY_SCAN] = True

    async def main():
        app = cls(sim.make_config(**over))
        formed = how != "startup" and rng.random() < 0.4
        app.setup(rng, formed=formed, kind=kind)
        if formed:
            await app.start_network()
        if measure:
            tracemalloc.start()
        try:
            if how == "startup":
                await app.startup(auto_form=True)
            else:
                await app.form_network(fast=how == "fast")
            peak = tracemalloc.get_traced_memory()[1] if measure else 0
        finally:
            tracemalloc.stop()
        if peak > 64_000_000:
            raise Violation("memory", f"forming a network needed {peak >> 20} MB when the radio could not scan")
        fast = how == "fast"
        for n, p in enumerate(app.writes):
            judge_network(p, want, fast)
            ctx.count("networks judged")
        if app.quick != [fast or n + 1 < len(app.writes) for n in range(len(app.writes))]:
            raise Violation("ephemeral", f"networks marked as quickly formed: {app.quick} (fast: {fast})")
        last = app.writes[-1]
        if fast and app.scans:
            raise Violation("scan", "a quickly formed network was scanned for")
        if not fast and "channel" not in want:
            if kind in ("no answer", "failure", "refused"):
                energy = dict.fromkeys(range(11, 27), 0)
            else:
                energy = app.energy
            if last["channel"] not in bests(energy, want["allowed"]):
                raise Violation("channel-choice", f"channel {last['channel']} chosen for {energy}, allowed {sorted(want['allowed'])}, scan {kind}")
            ctx.count(f"channels chosen: {kind}")
            if not formed and len(app.writes) != 2:
                raise Violation("ephemeral", f"{len(app.writes)} networks written while forming one with a scan")
            if any((m & 0x07FFF800) != 0x07FFF800 for m, _, _ in app.scans[:1]):
                raise Violation("scan-mask", f"channels scanned: {app.scans[0][0]:#x}")
        elif len(app.writes) != 1:
            raise Violation("writes", f"{len(app.writes)} networks written without needing a scan")
        backups = [plain(b) for b in app.backups.backups]
        if fast:
            if backups:
                raise Violation("ephemeral-backup", "an ephemeral network was recorded as backup")
        elif want.get("pan") == "0000":
            ctx.count("pan_id_zero")  # the value that means "not known" in a backup: whether one is made is not judged
        else:
            if len(backups) != 1 or not app.backups.backups[0].is_complete():
                raise Violation("backup", f"{len(backups)} backups recorded (or an incomplete one) after forming")
            diff = [k for k in last if k not in ("time", "node_ieee", "source", "model") and backups[0][k] != last[k]]
            if diff or backups[0]["node_ieee"] != plain(NetworkBackup(network_info=app.radio_network, node_info=app.radio_node))["node_ieee"]:
                raise Violation("backup", f"the recorded backup differs from the formed network in {diff}")
            ctx.count("formed networks recorded")
        if how == "startup":
            await app.shutdown()
        if i < 4:
            ctx.sample({"configured": {k: str(v) for k, v in cfg.items()}, "how": how, "scan": kind, "written": [{k: p[k] for k in ("pan", "epid", "channel")} for p in app.writes]})
        ctx.evaluated((how, kind, formed, tuple(sorted(set(want) - {"allowed"})), len(want["allowed"]), last["channel"]), True)

    with Entropy(rng) as e:
        vloop.run(main())
    ctx.count("extreme random values drawn", e.extremes)


def secrecy(ctx, i):
    """Keys and identifiers are not predictable from the general-purpose random generator."""
    seen = []
    for _ in range(2):
        random.seed(i)

        async def main():
            app = DriverScan(sim.make_config(**{conf.CONF_NWK: {conf.CONF_NWK_CHANNEL: 15}}))
            app.setup(ctx.rng("secret", i), formed=False, kind="driver")
            await app.form_network()
            seen.append(app.writes[-1])

        vloop.run(main())
    for name, a, b in [("network key", *(p["net_key"]["key"] for p in seen)), ("extended PAN id", *(p["epid"] for p in seen))]:
        if a == b:
            raise Violation("predictable", f"two networks have the same {name} {a}")
    ctx.count("pairs of networks compared")
    ctx.evaluated(("secrecy",), True)


def rating(ctx, i):
    rng = ctx.rng("rate", i)
    style = rng.choice(["uniform", "peaks", "flat", "steps", "floats"])
    for _ in range(20):
        if style == "uniform":
            e = {c: rng.randrange(256) for c in range(11, 27)}
        elif style == "peaks":
            e = {c: rng.choice([0, 0, 0, 255]) for c in range(11, 27)}
        elif style == "flat":
            v = rng.randrange(256)
            e = {c: v for c in range(11, 27)}
        elif style == "steps":
            edge = rng.randrange(11, 27)
            e = {c: 255 if c < edge else 3 for c in range(11, 27)}
        else:
            e = {c: rng.random() * 255 for c in range(11, 27)}
        items = list(e.items())
        rng.shuffle(items)
        allowed = sorted(rng.sample(range(11, 27), rng.choice([1, 2, 3, 8, 16])))
        before = dict(items)
        given = dict(items)
        if rng.random() < 0.15:
            allowed = [11, 15, 20, 25]  # the documented default choice
            got = zigpy.util.pick_optimal_channel(given)
        else:
            got = zigpy.util.pick_optimal_channel(given, channels=t.Channels.from_channel_list(allowed))
        if given != before:
            raise Violation("scan-modified", "the scan result was modified")
        ok = bests(e, allowed)
        if got not in ok:
            raise Violation("channel-choice", f"channel {got} chosen, {sorted(ok)} expected, allowed {allowed}, energies {e}")
        ctx.count("ratings judged")
        ctx.evaluated(("rating", style, len(allowed), got), len(allowed) > 1)


def migration(ctx, i):
    rng = ctx.rng("move", i)

    async def main():
        app = App(sim.make_config())
        app.setup(rng, formed=True, kind="zdo")
        app.radio_network.nwk_update_id = t.uint8_t(rng.choice([0, 1, 253, 254, 255, rng.randrange(256)]))
        app.radio_network.channel = t.uint8_t(rng.randrange(11, 27))
        await app.start_network()
        old_id, old = int(app.state.network_info.nwk_update_id), int(app.state.network_info.channel)
        app.move_delay = rng.choice([0.0, 0.5, 5, 30, 300])
        new = rng.randrange(11, 27) if rng.random() < 0.85 else old
        kw = {} if rng.random() < 0.4 else {"num_broadcasts": rng.choice([0, 1, 2, 10])}
        app.sent.clear()
        app.calls.clear()
        t0 = asyncio.get_running_loop().time()
        await app.move_network_to_channel(new, **kw)
        sent = [(w, p) for w, p in app.sent if p.dst.addr_mode == t.AddrMode.Broadcast]
        if new == old:
            if app.sent or app.calls or asyncio.get_running_loop().time() != t0:
                raise Violation("needless-move", f"moving to the current channel sent {len(app.sent)} packets")
            ctx.count("moves to the current channel")
            ctx.evaluated(("same",), True)
            return
        n = kw.get("num_broadcasts", 5)
        if len(sent) != n:
            raise Violation("broadcasts", f"{len(sent)} announcements instead of {n}")
        ids = set()
        for w, p in sent:
            d = p.data.serialize()
            ids.add(d[6] if len(d) == 7 else None)
            if (int(p.dst.address), int(p.cluster_id), p.profile_id, p.src_ep, p.dst_ep) != (0xFFFF, 0x0038, 0, 0, 0) or p.radius is not None and p.radius < 1:
                raise Violation("broadcast", f"announcement {p} is not a network update to all devices")
            if d[0] != p.tsn or len(d) != 7 or d[1:6] != (1 << new).to_bytes(4, "little") + b"\xfe":
                raise Violation("broadcast", f"announcement {d.hex()} for channel {new}")
        if len({p.tsn for _, p in sent}) != len(sent):
            raise Violation("broadcast-tsn", "announcements share a transaction number (the network drops repetitions)")
        if len(app.moves) != 1:
            raise Violation("coordinator", f"the coordinator was moved {len(app.moves)} times")
        when, mask, rest = app.moves[0]
        ids.add(rest[0] if len(rest) == 1 else None)
        if mask != 1 << new:
            raise Violation("coordinator", f"the coordinator was told mask {mask:#x} for channel {new}")
        if sent and when < max(w for w, _ in sent):
            raise Violation("order", "the coordinator moved before the last announcement")
        if len(ids) != 1 or ids & {None, old_id}:
            raise Violation("update-id", f"update numbers announced: {ids}, old one {old_id}")
        if app.radio_network.channel != new or app.state.network_info.channel != new:
            raise Violation("not-in-effect", f"finished with the radio on {app.radio_network.channel}, known {app.state.network_info.channel}, wanted {new}")
        if asyncio.get_running_loop().time() > max(app.radio_moved_at, when) + 60:
            raise Violation("late", "finished long after the channel was in effect")
        if app.writes:
            raise Violation("coordinator", "the network was rewritten")
        ctx.count("channel changes judged")
        ctx.evaluated(("move", n, app.move_delay, old_id in (254, 255)), True)

    vloop.run(main())


def run(ctx):
    for i in range(ctx.n(2500, 40000)):
        ctx.case(f"form:{i}", formation, ctx, i)
    for i in range(ctx.n(10, 100)):
        ctx.case(f"secrecy:{i}", secrecy, ctx, i)
    for i in range(ctx.n(1000, 20000)):
        ctx.case(f"rate:{i}", rating, ctx, i)
    for i in range(ctx.n(1000, 15000)):
        ctx.case(f"move:{i}", migration, ctx, i)
    for name, m in [
        ("networks judged", 500), ("formed networks recorded", 250), ("extreme random values drawn", 500), ("channels chosen: driver", 50), ("channels chosen: zdo", 20),
        ("channels chosen: no answer", 20), ("channels chosen: failure", 20), ("channels chosen: refused", 20), ("ratings judged", 4000), ("channel changes judged", 100), ("moves to the current channel", 20),
        ("pairs of networks compared", 5),
    ]:  # fmt: skip
        ctx.require(name, m)
