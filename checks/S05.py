"""S05: the backup history keeps every network and only its newest state."""

from __future__ import annotations

import asyncio
import copy
import os
import shutil
import tempfile

from checks.S04 import plain
from harness import dbwork, sim, vloop
from harness.core import Violation

import zigpy.backups
from zigpy.backups import NetworkBackup
import zigpy.config as conf
import zigpy.exceptions
import zigpy.state
from zigpy.state import Key
import zigpy.types as t
from zigpy.zdo.types import LogicalType

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: random histories of backups, restores, radio changes, failures and restarts against a simulated radio are compared, after "
    "every step, with a reference list maintained from the property; radio writes, events and the database are observed"
)
NOTE = (
    "Radios that build new state objects and radios that update them in place; changes of every single identity field and of every other one; counters "
    "going up, down and staying, close to their maximum; incomplete backups of every kind; real database restarts with validation on and off; "
    "periodic backups under virtual time."
)
RULE = "One evaluation is one step judged; non-trivial: distinct (operation, what changed, list length, outcome)."
ASSUMPTIONS = ["The wall clock does not go backwards, so that backups made later carry later times (two backups of one microsecond are not told apart in the database)."]

IDENTITY = ("node_nwk", "node_type", "node_ieee", "epid", "pan", "update", "manager", "channel", "level", "tc_key.key", "net_key.key")


def field(p, name):
    for part in name.split("."):
        p = p[part]
    return p


def identity(p):
    return tuple(field(p, f) for f in IDENTITY)


def counter(p):
    return p["net_key"]["tx"]


def complete(p):
    return (
        p["node_ieee"] != "ff" * 8 and p["epid"] != "ff" * 8 and p["pan"] not in ("0000", "ffff") and 11 <= p["channel"] <= 26
        and p["net_key"]["key"] != "ff" * 16
    )  # fmt: skip


class Radio:
    """What the coordinator has stored; survives restarts."""

    def __init__(self, rng, n):
        self.rng = rng
        self.formed = True
        self.in_place = rng.choice(["", "", "flat", "deep", "deep"])
        self.network = zigpy.state.NetworkInfo(
            extended_pan_id=t.ExtendedPanId(sim.eui(0x5000 + n)), pan_id=t.PanId(0x1A00 + n), nwk_update_id=t.uint8_t(n % 3), nwk_manager_id=t.NWK(0),
            channel=t.uint8_t(rng.choice([11, 15, 26])), channel_mask=t.Channels.from_channel_list([15]), security_level=t.uint8_t(5),
            network_key=Key(key=t.KeyData(rng.randbytes(16)), tx_counter=t.uint32_t(100)),
            tc_link_key=Key(key=t.KeyData(b"ZigBeeAlliance09"), partner_ieee=sim.NCP_IEEE), source="sim",
        )  # fmt: skip
        self.node = zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=sim.NCP_IEEE, logical_type=LogicalType.Coordinator, model="m", manufacturer="x", version="1")

    def plain(self, when="?"):
        p = plain(NetworkBackup(network_info=self.network, node_info=self.node))
        p["time"] = when
        return p

    def change(self, what=None):
        """Change one thing; returns what."""
        rng, n, o = self.rng, self.network, self.node
        what = what or rng.choice([*CHANGES])
        k = n.network_key
        if what == "counter up":
            k.tx_counter = t.uint32_t(min(k.tx_counter + rng.choice([1, 500]), 2**32 - 1))
        elif what == "counter down":
            k.tx_counter = t.uint32_t(rng.randrange(0, k.tx_counter + 1))
        elif what == "counter huge":
            k.tx_counter = t.uint32_t(2**32 - rng.choice([1, 2, 5000, 20000]))
        elif what == "channel":
            n.channel = t.uint8_t(rng.choice([c for c in range(11, 27) if c != n.channel]))
        elif what == "update id":
            n.nwk_update_id = t.uint8_t((n.nwk_update_id + 1) % 256)
        elif what == "pan":
            n.pan_id = t.PanId(rng.randrange(1, 0xFFF0))
        elif what == "epid":
            n.extended_pan_id = t.ExtendedPanId(sim.eui(rng.randrange(1, 2**16)))
        elif what == "manager":
            n.nwk_manager_id = t.NWK(rng.choice([0, 0x1234, 0x3412]))
        elif what == "security":
            n.security_level = t.uint8_t(rng.choice([0, 5, 7]))
        elif what == "network key":
            k.key = t.KeyData(rng.randbytes(16))
        elif what == "tc link key":
            n.tc_link_key.key = t.KeyData(rng.randbytes(16))
        elif what == "node ieee":
            o.ieee = sim.eui(rng.randrange(1, 2**16))
        elif what == "node nwk":
            o.nwk = t.NWK(rng.choice([0, 0x55]))
        elif what == "node type":
            o.logical_type = rng.choice([LogicalType.Coordinator, LogicalType.Router])
        elif what == "children":
            n.children = [*n.children[-3:], sim.eui(rng.randrange(1, 99))]
        elif what == "addresses":
            n.nwk_addresses = {sim.eui(5): t.NWK(rng.randrange(0xFFF0))}
        elif what == "key table":
            n.key_table = [Key(key=t.KeyData(rng.randbytes(16)), tx_counter=1, rx_counter=2, seq=0, partner_ieee=sim.eui(9))]
        elif what == "stack":
            n.stack_specific = {"a": {"b": rng.randrange(9)}}
        elif what == "metadata":
            n.metadata = {"v": rng.randrange(9)}
            n.source = rng.choice(["sim", "other"])
        elif what == "model":
            o.model = rng.choice(["m", "n", None])
            o.version = rng.choice(["1", "2", None])
        elif what == "mask":
            n.channel_mask = t.Channels.from_channel_list(rng.sample(range(11, 27), 3))
        elif what == "tc counters":
            n.tc_link_key.tx_counter = rng.randrange(99)
            n.tc_link_key.partner_ieee = sim.eui(rng.randrange(99))
        elif what == "key seq":
            k.seq = t.uint8_t(rng.randrange(4))
            k.rx_counter = rng.randrange(99)
        return what


SAME = ["counter up", "counter up", "counter down", "counter huge", "children", "addresses", "key table", "stack", "metadata", "model", "mask", "tc counters", "key seq"]
OTHER = ["channel", "update id", "pan", "epid", "manager", "security", "network key", "tc link key", "node ieee", "node nwk", "node type"]
CHANGES = SAME + OTHER


class App(dbwork.DbApp):
    radio: Radio = None

    async def load_network_info(self, *, load_devices=False):
        await self._radio("load_network_info", load_devices)
        r = self.radio
        if not r.formed:
            raise zigpy.exceptions.NetworkNotFormed()
        n, o = copy.deepcopy(r.network), copy.deepcopy(r.node)
        if not load_devices:
            n.key_table, n.children, n.nwk_addresses = [], [], {}
        if r.in_place:
            # Everything is updated where it is: keys, lists and mappings too
            for src, dst in ((n, self.state.network_info), (o, self.state.node_info)):
                for f in src.__dataclass_fields__:
                    old, new = getattr(dst, f), getattr(src, f)
                    if r.in_place == "deep" and isinstance(old, Key):
                        for g in new.__dataclass_fields__:
                            setattr(old, g, getattr(new, g))
                    elif r.in_place == "deep" and type(old) is list and type(new) is list:
                        old[:] = new
                    elif r.in_place == "deep" and type(old) is dict and type(new) is dict:
                        old.clear()
                        old.update(new)
                    else:
                        setattr(dst, f, new)
        else:
            self.state.network_info, self.state.node_info = n, o

    async def write_network_info(self, *, network_info, node_info):
        await self._radio("write_network_info", network_info=network_info, node_info=node_info)
        r = self.radio
        if not 0 <= network_info.network_key.tx_counter <= 2**32 - 1:
            raise Violation("counter-range", f"frame counter {network_info.network_key.tx_counter:#x} was written to the radio")
        r.network, r.node = copy.deepcopy(network_info), copy.deepcopy(node_info)
        if r.node.ieee == t.EUI64.UNKNOWN:
            r.node.ieee = sim.NCP_IEEE
        r.formed = True

    async def start_network(self):
        await self._radio("start_network")
        self.add_coordinator and sim.add_coordinator(self)


def break_backup(rng, b):
    b = copy.deepcopy(b)
    what = rng.choice(["ieee", "epid", "pan0", "panF", "channel", "key"])
    if what == "ieee":
        b.node_info.ieee = t.EUI64.UNKNOWN
    elif what == "epid":
        b.network_info.extended_pan_id = t.ExtendedPanId.convert("ff:ff:ff:ff:ff:ff:ff:ff")
    elif what.startswith("pan"):
        b.network_info.pan_id = t.PanId(0 if what == "pan0" else 0xFFFF)
    elif what == "channel":
        b.network_info.channel = t.uint8_t(rng.choice([0, 10, 27, 255]))
    else:
        b.network_info.network_key.key = t.KeyData([0xFF] * 16)
    return what, b


class History:
    def __init__(self, ctx, rng, path):
        self.ctx, self.rng, self.path = ctx, rng, path
        self.radio = Radio(rng, rng.randrange(3))
        self.model = []  # plain backups, oldest first
        self.events = []
        self.want_events = []
        self.log = []
        self.app = None
        self.validate = False

    # events
    def network_backup_created(self, b):
        self.events.append(("created", plain(b)))

    def network_backup_removed(self, b):
        self.events.append(("removed", plain(b)))

    def add(self, p):
        """The property, applied to the reference list."""
        if not complete(p):
            return
        for old in list(self.model):
            if identity(old) == identity(p) and counter(old) <= counter(p):
                self.model.remove(old)
                self.want_events.append(("removed", old))
        self.model.append(p)
        self.want_events.append(("created", p))

    def seen(self, load_devices, when):
        p = self.radio.plain(when)
        if not load_devices:
            p.update(table=[], children=[], addresses={})
        return p

    def check(self, op):
        got = [plain(b) for b in self.app.backups.backups]
        if got != self.model:
            for n, (a, b) in enumerate(zip(self.model, got)):
                if a != b:
                    d = [f"{k}: {a[k]!r}/{b[k]!r}" for k in a if a[k] != b[k]]
                    key = "stored-backup-changed" if n < len(self.model) - 1 and len(got) == len(self.model) else "list"
                    raise Violation(key, f"after {op} ({self.log[-4:]}): backup {n} (expected/held): {d[:4]}; {len(self.model)} expected, {len(got)} held")
            raise Violation("list", f"after {op} ({self.log[-4:]}): {len(self.model)} backups expected, {len(got)} held")
        recent = self.app.backups.most_recent_backup()
        if (recent is None) != (not self.model) or (recent is not None and plain(recent) != self.model[-1]):
            raise Violation("most-recent", f"after {op}: the most recent backup is not the one added last")
        if self.events != self.want_events:
            e, w = [k for k, _ in self.events], [k for k, _ in self.want_events]
            raise Violation("events", f"after {op} ({self.log[-4:]}): events {e}, expected {w} (or with other backups)")
        for i, x in enumerate(self.app.backups.backups):
            for y in self.app.backups.backups[i + 1 :]:
                px, py = plain(x), plain(y)
                same = identity(px) == identity(py)
                if x.is_compatible_with(y) != same or y.is_compatible_with(x) != same:
                    raise Violation("compatible", f"is_compatible_with is {x.is_compatible_with(y)} for {px} and {py}")
                if y.supersedes(x) != (same and counter(py) > counter(px)) or x.supersedes(y) != (same and counter(px) > counter(py)):
                    raise Violation("supersedes", f"supersedes is {y.supersedes(x)}/{x.supersedes(y)} for counters {counter(px)}, {counter(py)}, same network: {same}")
        self.ctx.count("steps judged")
        self.ctx.evaluated((op, self.log[-1][1:] if self.log else None, len(got)), bool(got))
        self.events.clear()
        self.want_events.clear()

    async def open(self, auto_form=False):
        self.validate = self.rng.random() < 0.6
        cfg = dbwork.config(self.path, **{conf.CONF_NWK_VALIDATE_SETTINGS: self.validate})
        App.radio = self.radio
        app = self.app = await App.new(cfg, start_radio=False)
        loaded = [plain(b) for b in app.backups.backups]
        if loaded != self.model:
            raise Violation("restart", f"{len(self.model)} backups before the restart, {len(loaded)} (or different ones) after: {self.log[-6:]}")
        app.backups.add_listener(self)
        last = self.model[-1] if self.model else None
        expect = None
        n0 = len(app.calls)
        if not self.radio.formed:
            if not auto_form:
                expect = zigpy.exceptions.NetworkNotFormed
            elif last is not None:
                self.log.append(("auto-restore",))
                if not complete(last):
                    expect = ValueError
        elif self.validate and last is not None and identity(self.radio.plain()) != identity(last):
            expect = zigpy.exceptions.NetworkSettingsInconsistent
        formed = self.radio.formed
        try:
            await app.startup(auto_form=auto_form)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            if expect is None or not isinstance(e, expect):
                raise Violation("startup-error", f"start-up failed with {e!r}, expected {expect}; validation {self.validate}") from e
            if expect is zigpy.exceptions.NetworkSettingsInconsistent:
                if plain(e.old_state) != last or identity(plain(e.new_state)) != identity(self.radio.plain()):
                    raise Violation("inconsistent-states", "the reported states are not the last backup and the radio's settings") from e
                self.ctx.count("conflicts reported")
            if "disconnect" not in [c[1] for c in app.calls[n0:]]:
                raise Violation("not-disconnected", "the radio was left connected") from e
            self.check("failed start-up")
            return False
        if expect is not None:
            raise Violation("no-error", f"start-up succeeded, expected {expect.__name__}; validation {self.validate}")
        writes = [c for c in app.calls[n0:] if c[1] == "write_network_info"]
        if formed and writes:
            raise Violation("write-at-startup", "the radio's network was overwritten at start-up")
        if not formed:
            if len(writes) != 1 and last is not None:
                raise Violation("auto-restore", f"{len(writes)} writes when restoring the last backup at start-up")
            if last is not None:
                self.judge_write(writes[0][3], last, 10000)
            p = self.seen(False, plain(app.backups.most_recent_backup())["time"])
            self.add(p)
            self.ctx.count("networks restored or formed at start-up")
        elif last is not None:
            self.ctx.count("compatible starts" if identity(self.radio.plain()) == identity(last) else "conflicting starts without validation")
        self.check("start-up")
        return True

    async def close(self):
        await self.app.shutdown()
        self.app.backups.remove_listener(self)

    def judge_write(self, kw, want, increment):
        got = plain(NetworkBackup(network_info=kw["network_info"], node_info=kw["node_info"]))
        want = copy.deepcopy(want)
        want["time"] = got["time"]
        want["net_key"]["tx"] = min(want["net_key"]["tx"] + increment, 2**32 - 1)
        if got != want:
            d = [f"{k}: {want[k]!r}/{got[k]!r}" for k in want if want[k] != got[k]]
            raise Violation("restored-settings", f"written to the radio (expected/written): {d[:4]}")

    # operations
    async def op_change(self):
        self.log.append(("change", self.radio.change()))

    async def op_create(self):
        rng, app = self.rng, self.app
        await asyncio.sleep(rng.choice([0.001, 1, 3600]))
        ld = rng.random() < 0.6
        fail = rng.random() < 0.1
        if fail:
            app.faults["load_network_info"] = [rng.choice([ConnectionError("x"), asyncio.TimeoutError(), RuntimeError("x")])]
        n0 = len(app.calls)
        try:
            b = await app.backups.create_backup(load_devices=ld)
        except (ConnectionError, asyncio.TimeoutError, RuntimeError):
            if not fail:
                raise
            self.ctx.count("backups failed on purpose")
        else:
            if fail:
                raise Violation("error-swallowed", "create_backup succeeded although the radio failed")
            if [c[1:3] for c in app.calls[n0:]] != [("load_network_info", (ld,))]:
                raise Violation("create-calls", f"creating a backup made radio calls {app.calls[n0:]}")
            p = self.seen(ld, plain(b)["time"])
            if plain(b) != p:
                raise Violation("created-backup", f"the created backup {plain(b)} is not the radio's state {p}")
            self.add(p)
        self.log.append(("create", ld, fail))
        self.check("create")

    async def op_add(self):
        """A backup from somewhere else."""
        rng = self.rng
        await asyncio.sleep(1)
        other = Radio(rng, rng.randrange(3)) if rng.random() < 0.3 else copy.copy(self.radio)
        other.network, other.node = copy.deepcopy(other.network), copy.deepcopy(other.node)
        what = other.change()
        b = NetworkBackup(network_info=other.network, node_info=other.node)
        bad = rng.random() < 0.35
        if bad:
            what, b = break_backup(rng, b)
        p = plain(b)
        if b.is_complete() != complete(p):
            raise Violation("complete", f"is_complete is {b.is_complete()} for {p}")
        if bad and complete(p):
            raise RuntimeError("harness")
        before = copy.deepcopy(b)
        self.app.backups.add_backup(b)
        self.add(p)
        if plain(before) != plain(b):
            raise Violation("add-modifies", "adding a backup modified it")
        self.log.append(("add", what))
        if bad:
            self.ctx.count("incomplete backups offered")
        self.check("add")

    async def op_restore(self):
        rng, app = self.rng, self.app
        await asyncio.sleep(1)
        bs = app.backups.backups
        b = rng.choice(bs) if bs and rng.random() < 0.7 else NetworkBackup(network_info=copy.deepcopy(self.radio.network), node_info=copy.deepcopy(self.radio.node))
        if rng.random() < 0.3:
            b = copy.deepcopy(b)
            b.network_info.network_key.tx_counter = t.uint32_t(2**32 - rng.choice([1, 10, 10001]))
        bad = rng.random() < 0.25
        what = None
        if bad:
            what, b = break_backup(rng, b)
        kw = {}
        if rng.random() < 0.6:
            kw["counter_increment"] = rng.choice([0, 1, 10000, 50000])
        if rng.random() < 0.3:
            kw["create_new"] = rng.random() < 0.5
        allow = rng.random() < 0.4
        if allow:
            kw["allow_incomplete"] = True
        fail = rng.random() < 0.15
        if fail:
            app.faults["write_network_info"] = [rng.choice([ConnectionError("x"), RuntimeError("x")])]
        want = plain(b)
        bad = not complete(want)
        n0 = len(app.calls)
        err = None
        try:
            await app.backups.restore_backup(b, **kw)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            err = e
        app.faults.pop("write_network_info", None)
        calls = app.calls[n0:]
        if plain(b) != want:
            raise Violation("restore-modifies", "restoring a backup modified it")
        writes = [c for c in calls if c[1] == "write_network_info"]
        over = want["net_key"]["tx"] + kw.get("counter_increment", 10000) > 2**32 - 1
        if bad and not allow:
            if err is None or writes:
                raise Violation("incomplete-restored", f"a backup with a bad {what} was restored ({len(writes)} writes)")
            self.ctx.count("incomplete restores refused")
        elif fail:
            if err is None:
                raise Violation("error-swallowed", "restoring succeeded although the radio failed")
            if len(calls) != 1:
                raise Violation("after-failure", f"the radio was used after the failed write: {calls[1:]}")
        elif over and err is not None:
            if writes:  # refusing is fine, too
                raise Violation("counter-range", "restoring failed after writing")
        else:
            if err is not None:
                raise Violation("restore-fails", f"restoring failed: {err!r}")
            if len(writes) != 1:
                raise Violation("writes", f"restoring wrote {len(writes)} times")
            self.judge_write(writes[0][3], want, kw.get("counter_increment", 10000))
            if kw.get("create_new", True):
                self.add(self.seen(False, plain(app.backups.most_recent_backup())["time"] if complete(self.radio.plain()) else "?"))
            elif len(calls) != 1:
                raise Violation("writes", f"restoring without creating a new backup made calls {[c[1] for c in calls]}")
            self.ctx.count("restores judged")
            if over:
                self.ctx.count("restores at the counter's maximum")
        self.log.append(("restore", what, fail, over, *kw))
        self.check("restore")

    async def op_restart(self):
        rng = self.rng
        await self.close()
        r = rng.random()
        if r < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                self.log.append(("offline change", self.radio.change(rng.choice(SAME if rng.random() < 0.5 else OTHER))))
        elif r < 0.6:
            self.radio.formed = False
        self.log.append(("restart",))
        while not await self.open(auto_form=rng.random() < 0.6):
            await self.close()
            self.log.append(("failed start",))
            last = self.model[-1] if self.model else None
            if last is not None and self.radio.formed and rng.random() < 0.5:
                self.radio.formed = False  # the user erases the network

    async def op_periodic(self):
        """Periodic backups keep the list current whatever fails."""
        rng, app = self.rng, self.app
        await asyncio.sleep(1)
        period = rng.choice([10.0, 600.0])
        t0 = asyncio.get_running_loop().time()
        n0 = len(app.calls)
        app.backups.start_periodic_backups(period)
        rounds = rng.randrange(1, 5)
        want = []
        for k in range(rounds):
            fail = rng.random() < 0.3
            if fail:
                app.faults["load_network_info"] = [rng.choice([ConnectionError("x"), asyncio.TimeoutError(), RuntimeError("x")])]
            await asyncio.sleep(0.01 if k == 0 else period)
            want.append(k * period)
            if not fail:
                self.add(self.seen(False, plain(app.backups.most_recent_backup())["time"] if complete(self.radio.plain()) else "?"))
            self.log.append(("periodic", fail))
            self.check("periodic")
            self.log.append(("change", self.radio.change()))
        app.backups.stop_periodic_backups()
        await asyncio.sleep(3 * period)
        times = [c[0] - t0 for c in app.calls[n0:] if c[1] == "load_network_info"]
        if len(times) != rounds or any(abs(a - b) > 0.5 for a, b in zip(times, want)):
            raise Violation("periodic", f"with a period of {period} backups were made at {times}, expected {want}")
        self.ctx.count("periodic backups", rounds)
        self.check("periodic stop")

    OPS = [("change", 8), ("create", 6), ("add", 4), ("restore", 3), ("restart", 2), ("periodic", 1)]

    async def run(self, steps):
        self.radio.formed = self.rng.random() < 0.8
        while not await self.open(auto_form=self.rng.random() < 0.7):
            await self.close()
        for _ in range(steps):
            name = self.rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            await getattr(self, "op_" + name)()
        await self.close()


def history(ctx, i):
    rng = ctx.rng("history", i)
    tmp = tempfile.mkdtemp(prefix="s05-")
    try:
        h = History(ctx, rng, os.path.join(tmp, "b.db"))
        vloop.run(h.run(rng.choice([10, 25, 40])), max_steps=3_000_000)
        ctx.count("histories")
        ctx.sample({"history": i, "steps": [list(map(str, x)) for x in h.log[:12]], "backups at the end": len(h.model)})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def pairs(ctx, i):
    """is_compatible_with, supersedes and the replacement rule for single differences."""
    rng = ctx.rng("pairs", i)
    a = Radio(rng, 1)
    for what in [*SAME, *OTHER, "several"]:
        b = copy.copy(a)
        b.network, b.node = copy.deepcopy(a.network), copy.deepcopy(a.node)
        for _ in range(1 if what != "several" else 3):
            b.change(None if what == "several" else what)
        x, y = (NetworkBackup(network_info=r.network, node_info=r.node) for r in (a, b))
        px, py = plain(x), plain(y)
        same = identity(px) == identity(py)
        if x.is_compatible_with(y) != same or y.is_compatible_with(x) != same:
            raise Violation("compatible", f"is_compatible_with is {x.is_compatible_with(y)} for backups differing in {what} only")
        if y.supersedes(x) != (same and counter(py) > counter(px)):
            raise Violation("supersedes", f"supersedes is {y.supersedes(x)} for backups differing in {what} only")
        m = zigpy.backups.BackupManager(None)
        quiet = [rng.random() < 0.4, rng.random() < 0.4]
        events = []

        class L:
            def network_backup_created(self, b):
                events.append(("created", plain(b)))

            def network_backup_removed(self, b):
                events.append(("removed", plain(b)))

        m.add_listener(L())
        for z, q in zip((x, y), quiet):
            if q:
                m.add_backup(z, suppress_event=True)
            else:
                m.add_backup(z)
        keep = [px, py] if not same or counter(px) > counter(py) else [py]
        if [plain(z) for z in m.backups] != keep:
            raise Violation("replacement", f"adding a backup differing in {what}: {len(m.backups)} kept, {len(keep)} expected")
        expected = [] if quiet[0] else [("created", px)]
        if not quiet[1]:
            expected += ([("removed", px)] if len(keep) == 1 else []) + [("created", py)]
        if events != expected:
            raise Violation(
                "announcements",
                f"adding backups {['quietly' if q else 'normally' for q in quiet]} announced {[e[0] for e in events]}, "
                f"expected {[e[0] for e in expected]}",
            )
        if [plain(m[k]) for k in range(len(keep))] != keep or plain(m[-1]) != keep[-1]:
            raise Violation("replacement", "backups by index")
        ctx.count("pairs judged")
        ctx.evaluated(("pair", what, same, len(keep)), True)


def run(ctx):
    for i in range(ctx.n(60, 1000)):
        ctx.case(f"pairs:{i}", pairs, ctx, i)
    for i in range(ctx.n(120, 4000)):
        ctx.case(f"history:{i}", history, ctx, i)
    for name, m in [
        ("histories", 100), ("steps judged", 1500), ("pairs judged", 1000), ("restores judged", 150), ("conflicts reported", 20),
        ("networks restored or formed at start-up", 20), ("incomplete backups offered", 80), ("incomplete restores refused", 20),
        ("restores at the counter's maximum", 20), ("periodic backups", 80), ("backups failed on purpose", 20),
    ]:  # fmt: skip
        ctx.require(name, m)
