"""N02: starting and shutting down always pair, whatever fails."""

from __future__ import annotations

import asyncio
import errno
import logging
import pathlib
import shutil
import sqlite3
import tempfile

from harness import sim, vloop
from harness.core import Violation

import zigpy.config as conf
import zigpy.exceptions
import zigpy.state
import zigpy.types as t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: a trace checker over every radio call, transmission, database connection and event of an application on virtual time; "
    "every step of start-up is made to fail, hang and be cancelled in turn, shutdown is placed at random moments and inside of running activities"
)
NOTE = (
    "Start-up with and without forming or restoring a network, database, energy scan and periodic activities, followed by a retry; running applications with interviews, "
    "removals, scans, discoveries, failing and slow periodic activities; shutdown with failing radio and database, repeated, concurrent and caused by the loss of the connection."
)
RULE = "One evaluation is one start-up with a fault, or one operation until two days after shutdown; non-trivial: distinct (faulty step, fault, outcome) or (activities, trigger, faults)."
ASSUMPTIONS = [
    "Requests of the user that are under way, and answers to messages received just before, are not background activity.",
    "A shutdown that is itself cancelled is not judged.",
]
QUIET = 2 * 24 * 3600
EPS = 1e-3


class Connections:
    """Every SQLite connection that was opened, and whether it was closed."""

    def __init__(self):
        self.open = set()
        self.total = 0
        self.real = sqlite3.connect

    def connect(self, *a, **k):
        outer = self

        class Tracked(sqlite3.Connection):
            def close(self):
                super().close()
                outer.open.discard(id(self))

        db = self.real(*a, factory=Tracked, **k)
        self.keep = [*getattr(self, "keep", []), db]
        self.open.add(id(db))
        self.total += 1
        return db


class Radio(sim.SimApp):
    def __init__(self, config):
        super().__init__(config)
        self.log = []  # {"n", "name", "t", "end", "error"}
        self.plan = {}  # step number -> callable() -> exception | delay | "cancel"
        self.chance = None  # callable(name) -> like plan
        self.begin = []  # callbacks(record)
        self.net = None
        self.task = None
        self.scan_reply = True
        self.connected = self.gone = False

    async def step(self, name, then=None):
        loop = asyncio.get_running_loop()
        rec = {"n": len(self.log), "name": name, "t": loop.time(), "end": None, "error": None}
        self.log.append(rec)
        for cb in list(self.begin):
            cb(rec)
        what = self.plan.pop(rec["n"], None)
        if what is None and self.chance is not None:
            what = self.chance(name)
        try:
            if what == "cancel":
                self.task.cancel()
                await asyncio.sleep(1000)
            elif isinstance(what, (int, float)):
                await asyncio.sleep(what)
            elif what is not None:
                await asyncio.sleep(0)
                raise what
            if then is not None:
                await then
        except BaseException as e:
            rec["error"] = e
            raise
        finally:
            if then is not None:
                then.close()
            rec["end"] = loop.time()

    async def _radio(self, name, *args, **kw):
        if name == "permit_ncp":
            name += f" {args[0]}"
        try:
            await self.step(name)
        finally:
            # even if disconnecting fails nothing is received any more
            self.gone = {"connect": False, "disconnect": True}.get(name, self.gone)
        self.connected = {"connect": True, "disconnect": False}.get(name, self.connected)

    async def send_packet(self, p):
        data = p.data.serialize()
        cluster, bc = int(p.cluster_id), p.dst.addr_mode == t.AddrMode.Broadcast
        if p.dst_ep == 0 and cluster == 0x36 and bc:
            name = f"permit broadcast {data[1]}"
        elif p.dst_ep == 0 and cluster == 0x38:
            name = "energy scan"
        elif cluster in (0x31, 0x32) and p.dst_ep == 0:
            name = "topology"
        elif cluster == 0x19 and bc:
            name = "ota broadcast"
            if not (0 <= data[4] <= 100 and len(data) == 5):
                raise Violation("image notify", f"a broadcast is {data.hex()}")
        else:
            name = "send"
        await self.step(name, self.transmit(name, data, p))

    async def transmit(self, name, data, p):
        if name == "energy scan" and self.scan_reply:
            rsp = bytes([data[0], 0]) + sim.u32(0x07FFF800) + b"\0\0" + b"\0\0" + bytes([16]) + bytes(range(16))
            asyncio.get_running_loop().call_later(0.3, self.packet_received, sim.rx(0, 0x8038, rsp, profile=0, src_ep=0, dst_ep=0, tsn=data[0]))
        elif self.net is not None:
            await self.net.on_send(p)


class Net(sim.SimNet):
    def deliver(self, *a):
        if not self.app.gone:
            super().deliver(*a)


class Lost:
    def __init__(self):
        self.events = []

    def connection_lost(self, exc):
        self.events.append((asyncio.get_running_loop().time(), exc))


def config(rng, tmp):
    on = lambda p=0.5: rng.random() < p  # noqa: E731
    return {
        conf.CONF_DATABASE: f"{tmp}/zigbee.db" if on(0.6) else None,
        conf.CONF_STARTUP_ENERGY_SCAN: on(),
        conf.CONF_WATCHDOG_ENABLED: on(0.8),
        conf.CONF_NWK_BACKUP_ENABLED: on(0.7),
        conf.CONF_NWK_BACKUP_PERIOD: rng.choice([1, 15, 24 * 60]),
        conf.CONF_TOPO_SCAN_ENABLED: on(0.7),
        conf.CONF_TOPO_SCAN_PERIOD: rng.choice([20, 60, 240]),
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: on(0.8), conf.CONF_OTA_BROADCAST_ENABLED: on(0.8), conf.CONF_OTA_PROVIDERS: [], conf.CONF_OTA_BROADCAST_INITIAL_DELAY: rng.choice([0, 60, 14040]), conf.CONF_OTA_BROADCAST_INTERVAL: rng.choice([100, 14040])},
        conf.CONF_NWK_VALIDATE_SETTINGS: on(0.3),
        conf.CONF_NWK: {conf.CONF_NWK_CHANNEL: rng.choice([None, 15])},
    }


FAULTS = {
    "delivery": lambda: zigpy.exceptions.DeliveryError("simulated"),
    "interference": lambda: zigpy.exceptions.DeliveryError("simulated", status=t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE),
    "reset": lambda: ConnectionResetError("simulated"),
    "refused": lambda: ConnectionRefusedError(errno.ECONNREFUSED, "simulated"),
    "unreachable": lambda: OSError(errno.ENETUNREACH, "simulated"),
    "io": lambda: OSError(errno.EIO, "simulated"),
    "timeout": lambda: asyncio.TimeoutError(),
    "runtime": lambda: RuntimeError("simulated"),
    "not formed": lambda: zigpy.exceptions.NetworkNotFormed(),
    "controller": lambda: zigpy.exceptions.ControllerException("simulated"),
    "cancel": lambda: "cancel",
    "slow": lambda: 17.0,
}
TRANSIENT = {"reset", "refused", "unreachable"}


class Run:
    """An application, what is known about it and the rules its trace has to obey."""

    def __init__(self, ctx, rng, tmp):
        self.ctx, self.rng, self.tmp = ctx, rng, tmp
        self.cfg = sim.make_config(**config(rng, tmp))
        self.auto_form = rng.random() < 0.6
        self.formed = rng.random() < 0.6
        self.lost = Lost()
        self.app = None
        self.started = None

    def bad(self, key, msg):
        log = [{k: (round(v, 3) if isinstance(v, float) else repr(v) if k == "error" and v else v) for k, v in r.items()} for r in self.app.log[-60:]]
        raise Violation(key, msg, witness={"config": {k: v for k, v in self.cfg.items() if k != conf.CONF_DEVICE}, "formed": self.formed, "auto_form": self.auto_form, "trace": log})

    def prepare(self, app, plan, backup):
        self.app = app
        app.plan = plan
        sim.setup_state(app)
        app.formed = self.formed
        if backup:
            app.backups.add_backup(app.backups.from_network_state(), suppress_event=True)
            if backup == "other":
                app.backups.backups[-1].network_info.network_key.key = t.KeyData(b"x" * 16)
        if not self.formed:
            app.state.network_info, app.state.node_info = zigpy.state.NetworkInfo(), zigpy.state.NodeInfo()
        app.add_listener(self.lost)
        app.task = asyncio.current_task()

    def rules_started(self, first):
        """The trace of a completed start-up: steps from `first` on."""
        names = [r["name"] for r in self.app.log[first:]]
        if names[0] != "connect" or names.count("connect") != 1:
            self.bad("connect", f"start-up did not begin by connecting once: {names}")
        if self.cfg[conf.CONF_WATCHDOG_ENABLED] and names[1] != "watchdog_feed":
            self.bad("watchdog", f"the watchdog is not fed first: {names}")
        if not self.cfg[conf.CONF_WATCHDOG_ENABLED] and "watchdog_feed" in names:
            self.bad("watchdog", "a disabled watchdog is fed")
        if "disconnect" in names:
            self.bad("disconnect", f"a completed start-up disconnected: {names}")
        if "start_network" not in names:
            self.bad("network", f"the network was not started: {names}")
        last = len(names) - 1 - names[::-1].index("start_network")
        closes = [n for n in names[last:] if n.startswith("permit")]
        if "permit broadcast 0" not in closes or "permit_ncp 0" not in closes[closes.index("permit broadcast 0") :] and not any(r["name"] == "permit broadcast 0" and r["error"] for r in self.app.log[first:]):
            self.bad("joining", f"joining was not closed at start-up: {names[last:]}")
        if not all(n.endswith(" 0") for n in names if n.startswith("permit")):
            self.bad("joining", f"joining was opened at start-up: {names}")
        scans = names.count("energy scan")
        if self.cfg[conf.CONF_STARTUP_ENERGY_SCAN] != ("energy scan" in names[last:]):
            self.bad("scan", f"start-up energy scan configured: {self.cfg[conf.CONF_STARTUP_ENERGY_SCAN]}, performed: {scans}")

    def rules_running(self, first, mark, t0, t1, restarts):
        """Periodic activities until `t1`; start-up was the steps from `first` to `mark` and ended at `t0`."""
        ctx, app, cfg = self.ctx, self.app, self.cfg

        def series(name, since=mark):
            return [r for r in app.log[since:] if r["name"] == name]

        def gaps(kind, recs, period, origin, until=t1):
            """Every iteration starts one period after the end of the one before."""
            due = origin
            for r in recs:
                if abs(r["t"] - due) > EPS:
                    self.bad(kind, f"{kind}: an iteration was due at {due:.1f} and happened at {r['t']:.1f} (start-up ended at {t0:.1f}, period {period})")
                if r["end"] is None:
                    return
                due = r["end"] + period
                ctx.count(f"{kind} iterations")
            if due < until - EPS:
                self.bad(kind, f"{kind}: an iteration was due at {due:.1f} but did not happen before {until:.1f} (start-up ended at {t0:.1f}, period {period})")

        feeds = series("watchdog_feed", first)
        if cfg[conf.CONF_WATCHDOG_ENABLED]:
            failed = next((k for k, r in enumerate(feeds) if r["error"] is not None and not isinstance(r["error"], asyncio.CancelledError)), None)
            if failed is None:
                gaps("watchdog", feeds[1:], 30, feeds[0]["end"] + 30)
                want = []
            else:
                if len(feeds) > failed + 1:
                    self.bad("watchdog", f"the watchdog is fed {len(feeds) - failed - 1} times after a failure")
                gaps("watchdog", feeds[1 : failed + 1], 30, feeds[0]["end"] + 30, feeds[failed]["t"])
                want = [(feeds[failed]["end"], feeds[failed]["error"])]
            if [(round(a, 3), b) for a, b in self.lost.events] != [(round(a, 3), b) for a, b in want]:
                self.bad("connection lost", f"announced {self.lost.events} instead of {want}")
            ctx.count("connection losses announced", len(want))
        elif feeds or self.lost.events:
            self.bad("watchdog", f"a disabled watchdog: {len(feeds)} feeds, announced {self.lost.events}")
        if restarts:
            return
        loads = series("load_network_info")
        if cfg[conf.CONF_NWK_BACKUP_ENABLED]:
            gaps("backup", loads, 60 * cfg[conf.CONF_NWK_BACKUP_PERIOD], t0)
        elif loads:
            self.bad("backup", "disabled backups are made")
        ota = cfg[conf.CONF_OTA]
        sends = series("ota broadcast")
        if ota[conf.CONF_OTA_ENABLED] and ota[conf.CONF_OTA_BROADCAST_ENABLED]:
            gaps("ota broadcast", sends, ota[conf.CONF_OTA_BROADCAST_INTERVAL], t0 + ota[conf.CONF_OTA_BROADCAST_INITIAL_DELAY])
        elif sends:
            self.bad("ota broadcast", "disabled broadcasts are made")
        topo = series("topology")
        if cfg[conf.CONF_TOPO_SCAN_ENABLED]:
            most = 60 * cfg[conf.CONF_TOPO_SCAN_PERIOD] + 1500
            at = t0
            for r in topo + [{"t": t1}]:
                if r["t"] - at > most:
                    self.bad("topology", f"no scan took place between {at:.1f} and {r['t']:.1f}, the period is {60 * cfg[conf.CONF_TOPO_SCAN_PERIOD]} s")
                at = r["t"]
            ctx.count("topology requests", len(topo))
        elif topo and not self.manual_scan:
            self.bad("topology", "disabled topology scans are made")

    async def rules_silent(self, what, conns, db_closed):
        app, n = self.app, len(self.app.log)
        if app.connected and not any(r["name"] == "disconnect" and r["error"] for r in app.log):
            self.bad("left connected", f"the radio is still connected after {what}")
        if db_closed and conns.open:
            self.bad("database open", f"{len(conns.open)} database connections are open after {what}")
        events = len(self.lost.events)
        ops = vloop.DbHooks.ops
        await asyncio.sleep(QUIET)
        if len(app.log) != n:
            self.bad("activity", f"after {what}: {[(r['name'], round(r['t'], 2)) for r in app.log[n : n + 10]]}, shutdown ended at {self.done:.2f}")
        if len(self.lost.events) != events:
            self.bad("activity", f"after {what} the connection was announced as lost")
        if db_closed and vloop.DbHooks.ops != ops:
            self.bad("activity", f"after {what} the database was used {vloop.DbHooks.ops - ops} times")


# --- start-up ------------------------------------------------------------------------------
def tolerated(name, fault, r):
    """Steps that may fail without failing start-up."""
    return (
        fault == "slow"
        or name == "send"  # discovery of an unknown sender
        or (name == "energy scan" and fault in ("delivery", "interference", "timeout"))
        or (name in ("permit broadcast 0", "permit_ncp 0") and fault == "interference")
        or (name in ("load_network_info", "start_network") and fault == "not formed" and r.auto_form)
        # backups are periodic: they may fail
        or (name == "load_network_info" and r.cfg[conf.CONF_NWK_BACKUP_ENABLED])
    )


async def attempt(ctx, key, plan, conns, tmp):
    """One start-up with the given faults; the same key gives the same run."""
    rng = ctx.rng("startup", key)
    r = Run(ctx, rng, tmp)
    backup = rng.choice([None, None, "same", "other"])
    scan_reply = rng.random() < 0.7
    via_new = rng.random() < 0.3
    r.manual_scan = False
    error = None

    class Prepared(Radio):
        def __init__(self, c):
            super().__init__(c)
            self.scan_reply = scan_reply
            r.prepare(self, plan, backup)

    async def go():
        if via_new:
            await Prepared.new(r.cfg, auto_form=r.auto_form)
            r.mark = len(r.app.log)
            return
        app = await Prepared.new(r.cfg, start_radio=False)
        app.task = asyncio.current_task()
        await app.startup(auto_form=r.auto_form)
        r.mark = len(r.app.log)

    task = asyncio.create_task(go())
    try:
        await task
    except asyncio.CancelledError as e:
        error = e
    except Exception as e:
        error = e
    r.t0 = asyncio.get_running_loop().time()
    return r, error, via_new


async def finish(r, conns, what):
    """Shut down and stay silent."""
    await r.app.shutdown()
    r.done = asyncio.get_running_loop().time()
    await r.rules_silent(what, conns, True)


def startup(ctx, n):
    tmp = tempfile.mkdtemp(prefix="n02-")
    conns = Connections()

    async def baseline():
        r, error, via_new = await attempt(ctx, n, {}, conns, tmp)
        steps = [x["name"] for x in r.app.log]
        if error is None:
            r.rules_started(0)
            await asyncio.sleep(3700)
            r.rules_running(0, r.mark, r.t0, asyncio.get_running_loop().time(), False)
            await finish(r, conns, "shutdown")
        else:
            refused = (not r.formed and not r.auto_form and isinstance(error, zigpy.exceptions.NetworkNotFormed)) or isinstance(error, zigpy.exceptions.NetworkSettingsInconsistent)
            if not refused:
                r.bad("failed", f"start-up without a fault failed: {error!r}")
            await failed(r, error, via_new, None, "refused settings")
        ctx.count("start-ups without fault")
        return steps, error

    async def failed(r, error, via_new, injected, fault):
        r.done = r.t0
        if r.app.log[-1]["name"] != "disconnect":
            r.bad("not disconnected", f"a start-up that failed with {error!r} ended with {[x['name'] for x in r.app.log[-3:]]}")
        await r.rules_silent(f"a failed start-up ({fault})", conns, via_new)
        if via_new:
            ctx.count("failed constructions")
            return
        if injected is None:
            await finish(r, conns, "shutdown after a failed start-up")
            return
        # it can be tried again
        first = len(r.app.log)
        r.app.plan = {}
        try:
            await r.app.startup(auto_form=r.auto_form)
        except (zigpy.exceptions.NetworkSettingsInconsistent, zigpy.exceptions.NetworkNotFormed):
            ctx.count("retries refused")
        except Exception as e:
            r.bad("retry", f"start-up after a failed one ({fault}) failed: {e!r}")
        else:
            r.rules_started(first)
            mark, t0 = len(r.app.log), asyncio.get_running_loop().time()
            await asyncio.sleep(3700)
            r.rules_running(first, mark, t0, asyncio.get_running_loop().time(), False)
            ctx.count("retries completed")
        await finish(r, conns, "shutdown after a second start-up")

    async def faulty(k, name, fault, base_error):
        injected = FAULTS[fault]()
        plan = {k: injected}
        r, error, via_new = await attempt(ctx, n, plan, conns, tmp)
        if len(r.app.log) <= k or r.app.log[k]["name"] != name:
            r.bad("unpredictable", f"step {k} is {r.app.log[k]['name'] if len(r.app.log) > k else None} instead of {name}")
        what = f"step {k} ({name}) with fault {fault}"
        if error is None:
            if not tolerated(name, fault, r):
                r.bad("swallowed", f"start-up completed although {what}")
            r.rules_started(0)
            await asyncio.sleep(3700)
            if name != "load_network_info":
                r.rules_running(0, r.mark, r.t0, asyncio.get_running_loop().time(), False)
            await finish(r, conns, f"shutdown, {what}")
        else:
            if fault == "cancel":
                fine = isinstance(error, asyncio.CancelledError)
            elif fault in TRANSIENT:
                fine = isinstance(error, zigpy.exceptions.TransientConnectionError) and error.__cause__ is injected
            elif isinstance(injected, Exception):
                fine = error is injected or type(error) is type(base_error)
            else:
                fine = type(error) is type(base_error)
            if not fine:
                r.bad("cause", f"start-up raised {error!r} (cause {error.__cause__!r}), {what}")
            await failed(r, error, via_new, injected, what)
        ctx.evaluated((name, fault, type(error).__name__, via_new, r.auto_form, r.formed), True)
        ctx.count("start-ups with fault")
        ctx.state("faulty steps", (name, fault))

    def fresh(coro):
        sqlite3.connect = conns.connect
        try:
            return vloop.run(coro)[0]
        finally:
            sqlite3.connect = conns.real
            for db in getattr(conns, "keep", []):
                db.close()
            conns.open.clear()
            conns.keep = []
            shutil.rmtree(tmp)
            pathlib.Path(tmp).mkdir()

    try:
        steps, base_error = fresh(baseline())
        rng = ctx.rng("faults", n)
        for k, name in enumerate(steps if base_error is None else steps[:-1]):
            if name == "disconnect" or name in ("topology", "ota broadcast") or (k and name == "watchdog_feed" and k > 1):
                break
            for fault in sorted(FAULTS) if not ctx.quick else rng.sample(sorted(FAULTS), 4):
                fresh(faulty(k, name, fault, base_error))
    finally:
        shutil.rmtree(tmp)


# --- construction with a failing database --------------------------------------------------
def construction(ctx, n):
    rng = ctx.rng("construction", n)
    tmp = tempfile.mkdtemp(prefix="n02-")
    path = f"{tmp}/zigbee.db"
    conns = Connections()
    old = rng.random() < 0.6
    with_radio = rng.random() < 0.5
    cfg = sim.make_config(**{conf.CONF_DATABASE: path, conf.CONF_NWK_BACKUP_ENABLED: False, conf.CONF_TOPO_SCAN_ENABLED: False, conf.CONF_STARTUP_ENERGY_SCAN: False})

    async def populate():
        app = await Radio.new(cfg, start_radio=False)
        sim.setup_state(app)
        for k in range(3):
            dev = sim.add_ready_device(app, sim.eui(0x900 + k), 0x300 + k)
            app.device_initialized(dev)
        app.backups.add_backup(app.backups.from_network_state())
        await vloop.settle(200)
        await app.shutdown()

    async def new(k, fault):
        """Construct with operation `k` of the database failing; (error, operations)."""
        error, count, app = None, 0, None
        task = None
        boom = sqlite3.OperationalError("disk I/O error")

        def before(fn):
            nonlocal count
            count += 1
            if count == k + 1:
                if fault == "cancel":
                    task.cancel()
                else:
                    raise boom

        vloop.DbHooks.before = before
        vloop.DbHooks.delay = lambda: 0.01
        task = asyncio.create_task(Radio.new(cfg, auto_form=True, start_radio=with_radio))
        try:
            app = await task
        except (Exception, asyncio.CancelledError) as e:
            error = e
        operations = count
        vloop.DbHooks.before = None
        what = f"construction with the database failing at operation {k} of {'an existing' if old else 'a new'} file ({fault})"
        if error is None:
            await app.shutdown()
            await asyncio.sleep(100)
            if conns.open:
                raise Violation("database open", f"after shutdown, {what}: {len(conns.open)} connections are open")
        else:
            await asyncio.sleep(100)
            if fault is None:
                raise error
            if fault == "cancel" and not isinstance(error, asyncio.CancelledError) or fault == "error" and error is not boom:
                raise Violation("cause", f"{what}: raised {error!r}")
            if conns.open:
                raise Violation("database open", f"{what} raised {error!r} and left {len(conns.open)} connections open")
        ctx.evaluated((old, with_radio, fault, k, type(error).__name__), True)
        ctx.count("constructions with a failing database", fault is not None)
        ctx.count("constructions that raised", error is not None)
        return operations

    def fresh(coro):
        sqlite3.connect = conns.connect
        try:
            return vloop.run(coro)[0]
        finally:
            vloop.DbHooks.reset()
            sqlite3.connect = conns.real
            for db in getattr(conns, "keep", []):
                db.close()
            conns.open.clear()
            conns.keep = []

    try:
        if old:
            fresh(populate())
            shutil.copy(path, path + ".orig")

        def restore():
            for f in (path, path + "-wal", path + "-shm"):
                pathlib.Path(f).unlink(missing_ok=True)
            if old:
                shutil.copy(path + ".orig", path)

        restore()
        total = fresh(new(-1, None))
        for k in range(total) if not ctx.quick else sorted(rng.sample(range(total), 6)):
            for fault in ("error", "cancel"):
                if k == 0 and fault == "cancel":
                    continue  # the connection is still the SQLite library's
                restore()
                fresh(new(k, fault))
    finally:
        shutil.rmtree(tmp)


# --- probing for a radio ------------------------------------------------------------------------
def probing(ctx, n):
    rng = ctx.rng("probing", n)
    path = rng.choice(["/dev/null", "socket://example.org:1234"])
    base = {conf.CONF_DEVICE_PATH: path}
    if rng.random() < 0.4:
        base[conf.CONF_DEVICE_BAUDRATE] = rng.choice([57600, 115200, 230400])
    if rng.random() < 0.3:
        base[conf.CONF_DEVICE_FLOW_CONTROL] = rng.choice(["hardware", "software", None])

    def override():
        o = {}
        if rng.random() < 0.8:
            o[conf.CONF_DEVICE_BAUDRATE] = rng.choice([57600, 115200, 230400])
        if rng.random() < 0.4:
            o[conf.CONF_DEVICE_FLOW_CONTROL] = rng.choice(["hardware", "software", None])
        return o

    overrides = [override() for _ in range(rng.randrange(5))]
    defaults = {conf.CONF_DEVICE_BAUDRATE: 115200, conf.CONF_DEVICE_FLOW_CONTROL: None}
    want = []
    for o in [{}, *overrides]:
        full = {**defaults, **base, **o}
        if full not in want:
            want.append(full)
    outcomes = [rng.choice(["fails", "fails", "fails", "works", "cancelled"]) for _ in want]
    log = []

    class Probed(sim.SimApp):
        _probe_configs = overrides

        async def connect(self):
            k = sum(x[0] == "connect" for x in log)
            log.append(("connect", id(self), dict(self.config[conf.CONF_DEVICE])))
            await asyncio.sleep(0.1)
            what = outcomes[k] if k < len(outcomes) else "fails"
            if what == "cancelled":
                task.cancel()
                await asyncio.sleep(5)
            if what == "fails":
                raise rng.choice([RuntimeError("no radio"), TimeoutError(), asyncio.TimeoutError(), OSError("x"), ConnectionResetError()])

        async def disconnect(self):
            log.append(("disconnect", id(self), None))

    async def main():
        nonlocal task
        task = asyncio.create_task(Probed.probe(dict(base)))
        try:
            return await task
        except asyncio.CancelledError:
            return "cancelled"

    task = None
    result, _ = vloop.run(main())
    end = next((k for k, o in enumerate(outcomes) if o != "fails"), None)
    expected = False if end is None else want[end] if outcomes[end] == "works" else "cancelled"
    tried = want if end is None else want[: end + 1]
    what = f"probing {base} with {overrides}, which {outcomes}"
    if [x[2] for x in log if x[0] == "connect"] != tried:
        raise Violation("probe settings", f"{what}: tried {[x[2] for x in log if x[0] == 'connect']}, expected {tried}")
    if result != expected:
        raise Violation("probe result", f"{what}: returned {result}, expected {expected}")
    if [x[0] for x in log] != ["connect", "disconnect"] * len(tried) or any(a[1] != b[1] for a, b in zip(log[::2], log[1::2])):
        raise Violation("probe left connected", f"{what}: {[x[0] for x in log]}")
    ctx.count("radios probed for")
    ctx.count("probes that found a radio", isinstance(expected, dict))
    ctx.count("probes cancelled", expected == "cancelled")
    ctx.evaluated(("probe", str(base), str(overrides), str(outcomes)), True)


# --- operation and shutdown --------------------------------------------------------------------
def operation(ctx, n):
    rng = ctx.rng("operation", n)
    tmp = tempfile.mkdtemp(prefix="n02-")
    conns = Connections()

    async def main():
        loop = asyncio.get_running_loop()
        r = Run(ctx, rng, tmp)
        r.formed, r.manual_scan = True, False
        app = await Radio.new(r.cfg, start_radio=False)
        r.prepare(app, {}, None)
        net = Net(app, rng)
        app.net = net
        net.latency = lambda: rng.choice([0.01, 0.2, 2.0])
        for k in range(rng.randint(0, 3)):
            node = net.add(sim.SimNode(sim.eui(0x900 + k), 0x300 + k))
            if rng.random() < 0.6:
                sim.add_ready_device(app, node.ieee, node.nwk)
        await app.startup(auto_form=r.auto_form)
        t0, mark = loop.time(), len(app.log)
        r.rules_started(0)
        net.loss = rng.choice([0, 0.1, 0.6])
        net.tx_fail = rng.choice([0, 0.1, 0.4])
        net.tx_latency = lambda: rng.choice([0, 0, 0.05, 1.0])

        flaky, slow = rng.choice([0, 0, 0.1, 0.5]), rng.choice([0, 0.2, 0.8])
        feed_fails = rng.choice([0, 0, 0.02, 0.2])

        def chance(name):
            if name == "watchdog_feed" and rng.random() < feed_fails:
                return rng.choice([RuntimeError("watchdog"), TimeoutError(), ConnectionResetError()])
            if name in ("load_network_info", "ota broadcast", "topology") and rng.random() < flaky:
                return rng.choice([RuntimeError("x"), zigpy.exceptions.DeliveryError("x"), TimeoutError(), OSError("x")])
            if rng.random() < slow and name != "disconnect":
                return rng.choice([0.01, 1.0, 10.0, 25.0])
            return None

        app.chance = chance
        restarts = False
        acts, ended = [], False
        horizon = rng.choice([0, 0.5, 40, 400, 5000, 40000, 200000])
        stop = asyncio.Event()
        trigger = rng.choice(["time", "time", "step", "lost"])
        after = rng.choice([0, 0, 0.5, 5.0])
        which = rng.choice(["watchdog_feed", "load_network_info", "ota broadcast", "topology", "send"])

        def hook(rec):
            if trigger == "step" and rec["name"] == which and rec["t"] > t0 + horizon / 20:
                loop.call_later(after, stop.set)

        app.begin.append(hook)

        class OnLost:
            def connection_lost(self, exc):
                if trigger == "lost":
                    if after:
                        loop.call_later(after, stop.set)
                    else:
                        stop.set()

        app.add_listener(OnLost())

        def act():
            nonlocal restarts
            if ended:
                return
            what = rng.choice(["join", "rejoin", "remove", "scan", "discover", "restart"])
            acts.append(what)
            nodes = list(net.nodes.values())
            if what == "join":
                node = net.add(sim.SimNode(sim.eui(0xA00 + len(acts)), 0x400 + len(acts)))
                app.handle_join(t.NWK(node.nwk), node.ieee, t.NWK(0))
            elif what == "rejoin" and nodes:
                node = rng.choice(nodes)
                app.handle_join(t.NWK(node.nwk), node.ieee, t.NWK(0))
            elif what == "remove" and nodes:
                app.create_task(app.remove(rng.choice(nodes).ieee))
            elif what == "scan":
                r.manual_scan = True
                x = asyncio.create_task(app.topology.scan())
                x.add_done_callback(lambda x: x.cancelled() or x.exception())
                keep.append(x)
            elif what == "discover":
                app.handle_relays(t.NWK(0x7000 + len(acts)), [])
            elif what == "restart" and rng.random() < 0.3:
                restarts = True
                app.ota.start_periodic_broadcasts(50, 100)
                app.backups.start_periodic_backups(100)
                app.topology.start_periodic_scans(1000)

        keep = []
        for _ in range(rng.choice([0, 0, 1, 3, 6])):
            when = rng.choice([0, horizon * rng.random(), max(0, horizon - rng.choice([0, 0.01, 0.3, 2, 8]))])
            loop.call_later(when, act)
        try:
            async with asyncio.timeout(horizon):
                await stop.wait()
        except TimeoutError:
            pass
        if r.manual_scan:
            for _ in range(3):  # a scan that was just asked for begins
                await asyncio.sleep(0)
        t1, ended = loop.time(), True
        r.rules_running(0, mark, t0, t1, restarts)
        running = sorted({x["name"] for x in app.log if x["end"] is None})
        # the interviews and everything else are under way
        fault = rng.choice([None, None, "disconnect", "checkpoint", "both", "slow"])
        app.chance = lambda name: None
        if fault in ("disconnect", "both"):
            app.chance = lambda name: rng.choice([RuntimeError("x"), OSError("x"), TimeoutError()]) if name == "disconnect" else None
        elif fault == "slow":
            app.chance = lambda name: 3.0 if name == "disconnect" else None
        if fault in ("checkpoint", "both"):

            def before(fn):
                if "wal_checkpoint" in repr(fn):
                    raise sqlite3.OperationalError("disk I/O error")

            vloop.DbHooks.before = before
        times = rng.choice([1, 1, 2])
        try:
            async with asyncio.timeout(600):
                if times == 2 and rng.random() < 0.5:
                    await asyncio.gather(app.shutdown(), app.shutdown())
                else:
                    for _ in range(times):
                        await app.shutdown()
        except TimeoutError:
            r.bad("shutdown", "shutdown did not end within ten minutes")
        except Exception as e:
            r.bad("shutdown", f"shutdown raised {e!r}")
        r.done = loop.time()
        if not any(x["name"] == "disconnect" for x in app.log):
            r.bad("not disconnected", "shutdown did not disconnect the radio")
        await r.rules_silent(f"shutdown (during {running}, fault {fault}, {times} times, {acts})", conns, True)
        lost = bool(r.lost.events)
        ctx.count("operations")
        ctx.count("shutdowns during an activity", bool(running))
        ctx.count("database connections", conns.total)
        for a in acts:
            ctx.count(f"act: {a}")
        for a in running:
            ctx.count(f"shutdown during: {a}")
        ctx.state("shutdown points", (tuple(running), fault, times, lost, tuple(sorted(set(acts)))))
        ctx.evaluated((tuple(running), fault, times, lost, tuple(sorted(set(acts)))), True)
        ctx.sample({"config": {str(k): str(v) for k, v in r.cfg.items() if k not in (conf.CONF_DATABASE, conf.CONF_DEVICE)}, "ran": t1 - t0, "steps": len(app.log), "running": running, "fault": fault, "acts": acts})

    sqlite3.connect = conns.connect
    try:
        vloop.run(main(), max_steps=2_000_000)
    finally:
        vloop.DbHooks.reset()
        sqlite3.connect = conns.real
        for db in getattr(conns, "keep", []):
            db.close()
        shutil.rmtree(tmp)


def run(ctx):
    for name, m in (
        ("backup iterations", 10000),
        ("connection losses announced", 20),
        ("constructions that raised", 120),
        ("failed constructions", 100),
        ("ota broadcast iterations", 10000),
        ("probes cancelled", 40),
        ("probes that found a radio", 40),
        ("radios probed for", 300),
        ("retries completed", 250),
        ("shutdown during: load_network_info", 6),
        ("shutdown during: ota broadcast", 3),
        ("shutdown during: send", 15),
        ("shutdown during: topology", 8),
        ("shutdown during: watchdog_feed", 4),
        ("start-ups with fault", 500),
        ("topology requests", 10000),
        ("watchdog iterations", 80000),
    ):
        ctx.require(name, m)
    logging.getLogger("zigpy").setLevel(logging.CRITICAL + 1)
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
    for n in range(ctx.n(40, 800)):
        ctx.case(f"startup:{n}", startup, ctx, n)
    for n in range(ctx.n(20, 30)):
        ctx.case(f"construction:{n}", construction, ctx, n)
    for n in range(ctx.n(400, 8000)):
        ctx.case(f"probing:{n}", probing, ctx, n)
    for n in range(ctx.n(250, 8000)):
        ctx.case(f"operation:{n}", operation, ctx, n)
