"""D06: topology scans report complete tables and discover unknown nodes."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation
from harness.sim import u16

import zigpy.config as conf
import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdo_t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: simulated devices serve random tables page by page over a faulty radio on a virtual clock; the recorded tables, "
    "announcements, requests and discovery broadcasts of every scan are compared with what was served"
)
NOTE = (
    "Networks of routers, end devices and half-interviewed devices with 0..40 entries per table, page sizes 1..6, reserved addresses, "
    "every route status, lost and failed page requests around the retry limit, garbled pages, devices refusing one or both tables, "
    "tables changing between scans, overlapping scans, partial scans, failing discovery broadcasts, and periodic scanning "
    "with failing scans, preempting manual scans and stopping at any moment."
)
RULE = "One evaluation is one table of one device after one scan; non-trivial: distinct (entries, pages, page faults, outcome, filtered entries)."


class RadioBug(Exception):
    pass


def nb(rng, ieee, nwk):
    return (
        b"\x00\x11\x22\x33\x44\x55\x66\x77"
        + ieee
        + u16(nwk)
        + bytes([rng.randrange(3) | rng.randrange(3) << 2 | rng.randrange(5) << 4, rng.randrange(3), rng.randrange(16), rng.randrange(256)])
    )


class World:
    def __init__(self, rng, **over):
        self.rng = rng
        self.app = sim.make_app(**{conf.CONF_TOPO_SKIP_COORDINATOR: rng.random() < 0.2, **over})
        self.skip_coord = self.app.config[conf.CONF_TOPO_SKIP_COORDINATOR]
        self.net = sim.SimNet(self.app, rng)
        self.base = self.app.on_send
        self.app.on_send = self.on_send
        self.net.latency = lambda: 0.01
        self.log = []
        self.reqs = []  # (time, node key, cluster, start, tsn)
        self.events = []
        self.discovered = []
        self.bcast_fail = 0.0
        self.app.topology.add_listener(self)
        self.devs = {}
        self.kinds = {}
        self.node = {}
        self.fault = {}  # (key, cluster, start) -> list of fates, consumed
        self.hard = set()  # (key, cluster) answered with garbage in this scan
        n = rng.randrange(1, 6)
        self.keys = [-1, *range(n)]
        for k in self.keys:
            if k == -1:
                d = self.app._device
                kind = "coordinator"
                node = sim.SimNode(sim.NCP_IEEE, 0)
            else:
                kind = rng.choice(["router", "router", "router", "sleepy", "no-desc"])
                ieee, nwk = sim.eui(0x6000_0000 + k), 0x2000 + k
                node = sim.SimNode(ieee, nwk, logical=2 if kind == "sleepy" else 1)
                if kind == "no-desc":
                    d = self.app.add_device(ieee, t.NWK(nwk))
                else:
                    d = sim.add_ready_device(self.app, ieee, nwk, logical=zdo_t.LogicalType.EndDevice if kind == "sleepy" else zdo_t.LogicalType.Router)
            self.net.add(node)
            self.devs[k], self.kinds[k], self.node[k] = d, kind, node
        self.by_ieee = {d.ieee: k for k, d in self.devs.items()}
        self.by_nwk = {int(d.nwk): k for k, d in self.devs.items()}
        self.unsup = {(k, c) for k in self.keys for c in (0x31, 0x32) if rng.random() < 0.12}
        self.known_unsup = set()
        for k, c in self.unsup:
            self.node[k].zdo_override[c] = lambda p: b"\x84"
        self.short = set()
        for k in self.keys:
            self.node[k].page = rng.choice([1, 2, 3, 3, 6])
        self.model = {}  # (key, cluster) -> list of raw entries

    # topology listener
    def neighbors_updated(self, ieee, table):
        self.events.append((0x31, self.by_ieee.get(ieee), [e.serialize() for e in table]))

    def routes_updated(self, ieee, table):
        self.events.append((0x32, self.by_ieee.get(ieee), [e.serialize() for e in table]))

    def new_tables(self):
        rng = self.rng
        for k in self.keys:
            size = lambda: rng.choice([0, 1, 2, 3, 5, 8, rng.randrange(40)])  # noqa: E731
            addrs = [int(d.nwk) for d in self.devs.values()] + [0xA000 + rng.randrange(6) for _ in range(2)]
            t31 = []
            for _ in range(size()):
                x = rng.random()
                if x < 0.1:
                    ieee = b"\x00" * 8
                elif x < 0.2:
                    ieee = b"\xff" * 8
                elif x < 0.25:
                    ieee = b"\xff" * 7 + b"\x00"
                else:
                    ieee = sim.eui(rng.randrange(1, 2**40)).serialize()
                t31.append(nb(rng, ieee, rng.choice(addrs)))
            t32 = [
                u16(rng.choice(addrs)) + bytes([rng.choice([0, 0, 0, 3, 3, rng.randrange(8)]) | rng.randrange(8) << 3]) + u16(rng.choice(addrs))
                for _ in range(size())
            ]
            self.node[k].neighbors, self.node[k].routes = t31, t32

    def plan_faults(self):
        """Returns the set of (key, cluster) whose scan must fail this time."""
        rng = self.rng
        self.fault, failing = {}, set()
        for k in self.keys:
            for c, tab in ((0x31, self.node[k].neighbors), (0x32, self.node[k].routes)):
                page = self.node[k].page
                for s in range(0, 1 if (k, c) in self.unsup else max(1, len(tab)), page):
                    if rng.random() < 0.12:
                        n = rng.choice([1, 2, 2, 3, 3, 4])
                        self.fault[k, c, s] = [rng.choice(["lost", "fail", "noreply", "timeout"]) for _ in range(n)]
                        if n >= 3:
                            failing.add((k, c))
                    elif rng.random() < 0.03:
                        self.fault[k, c, s] = [rng.choice(["garbage", "bug"])] * 9
                        failing.add((k, c))
        return failing

    async def on_send(self, pkt):
        data = pkt.data.serialize()
        if pkt.dst.addr_mode == t.AddrMode.Broadcast:
            if pkt.dst_ep == 0 and pkt.cluster_id == 0x0001:
                self.discovered.append(int.from_bytes(data[1:3], "little"))
            if self.rng.random() < self.bcast_fail:
                raise self.rng.choice([zigpy.exceptions.DeliveryError("busy"), RadioBug("x")])
            return
        key = self.by_nwk.get(int(pkt.dst.address))
        c = int(pkt.cluster_id)
        if pkt.dst_ep == 0 and c in (0x31, 0x32):
            self.reqs.append((asyncio.get_running_loop().time(), key, c, data[1]))
            f = self.fault.get((key, c, data[1]))
            if f:
                fate = f.pop(0)
                if fate == "fail":
                    raise zigpy.exceptions.DeliveryError("no ack")
                if fate == "timeout":
                    raise asyncio.TimeoutError
                if fate == "bug":
                    raise RadioBug("x")
                if fate == "garbage":
                    node = self.node[key]
                    asyncio.get_running_loop().call_later(0.01, self.net.deliver, node, c | 0x8000, 0, 0, 0, data[:1] + b"\x00\x05")
                    return
                return
        await self.base(pkt)

    def scannable(self, k):
        return self.kinds[k] in ("router", "coordinator") and not (k == -1 and self.skip_coord)

    def expected(self, k, c):
        if c == 0x31:
            return [e for e in self.node[k].neighbors if e[8:16] not in (b"\x00" * 8, b"\xff" * 8)]
        return [e for e in self.node[k].routes if e[2] & 7 != 3]

    def table(self, k, c):
        tab = self.app.topology.neighbors if c == 0x31 else self.app.topology.routes
        return [e.serialize() for e in tab.get(self.devs[k].ieee, [])]

    def wit(self, **kw):
        return {"log": self.log[-30:], "kinds": self.kinds, "unsupported": sorted(self.unsup), "requests": self.reqs[-60:], **kw}

    def judge(self, ctx, keys, failing, n_req, n_ev, n_disc, complete=True):
        """Judge one finished scan of the devices `keys`."""
        reqs, events, disc = self.reqs[n_req:], self.events[n_ev:], self.discovered[n_disc:]
        for k in self.keys:
            for c in (0x31, 0x32):
                mine = [r for r in reqs if r[1] == k and r[2] == c]
                evs = [e for e in events if e[0] == c and e[1] == k]
                before = self.model.get((k, c), [])
                if not self.scannable(k) or k not in keys:
                    if mine:
                        raise Violation("scanned-unscannable", f"device {k} ({self.kinds[k]}) was scanned: {mine}", self.wit())
                    if self.table(k, c) != before or evs:
                        raise Violation("bystander", f"table {c:#x} of device {k} changed or was announced: {evs}", self.wit())
                    continue
                both = {(k, 0x31), (k, 0x32)} <= self.known_before
                if (k, c) in self.known_before:
                    if mine:
                        raise Violation("asked-again", f"device {k} answered unsupported for {c:#x} and was asked again", self.wit())
                    want, outcome = [], "known-unsupported"
                elif (k, c) in self.unsup and self.served(k, c, mine):
                    want, outcome = [], "unsupported"
                    self.known_unsup.add((k, c))
                elif (k, c) in failing:
                    want, outcome = before, "failed"
                    if not mine:
                        raise Violation("not-scanned", f"table {c:#x} of device {k} was not requested", self.wit())
                else:
                    want, outcome = self.expected(k, c), "ok"
                    full = self.node[k].neighbors if c == 0x31 else self.node[k].routes
                    starts = list(dict.fromkeys(r[3] for r in mine))
                    ideal = list(range(0, max(1, len(full)), self.node[k].page))
                    if starts != ideal:
                        raise Violation("pages", f"table {c:#x} of device {k} ({len(full)} entries): pages {starts}, expected {ideal}", self.wit())
                got = self.table(k, c)
                if got != want:
                    raise Violation(
                        f"table-{outcome}",
                        f"table {c:#x} of device {k}: {[e.hex() for e in got]}, expected {[e.hex() for e in want]}",
                        self.wit(),
                    )
                if len(evs) != 1 and not (both and not evs):
                    raise Violation("announced", f"table {c:#x} of device {k} announced {len(evs)} times in one scan", self.wit())
                if evs and evs[0][2] != want:
                    raise Violation("announced", f"table {c:#x} of device {k} announced as {evs[0][2]}", self.wit())
                self.model[k, c] = want
                full = self.node[k].neighbors if c == 0x31 else self.node[k].routes
                ctx.evaluated((len(full), len({r[3] for r in mine}), len(mine), outcome, len(full) - len(want)))
                ctx.count(f"table_{outcome}")
                ctx.count("pages", len({r[3] for r in mine}))
        want = set()
        for (k, c), tab in self.model.items():
            for e in tab:
                if c == 0x31:
                    want.add(int.from_bytes(e[16:18], "little"))
                elif e[2] & 7 == 0:
                    want |= {int.from_bytes(e[0:2], "little"), int.from_bytes(e[3:5], "little")}
        want -= set(self.by_nwk)
        if set(disc) & set(self.by_nwk):
            raise Violation("discovered-known", f"discovery of known addresses {[hex(d) for d in disc]}", self.wit())
        if not want <= set(disc):
            raise Violation("not-discovered", f"addresses {[hex(w) for w in want - set(disc)]} were not discovered", self.wit())
        if len(disc) != len(set(disc)):
            raise Violation("discovered-twice", f"{[hex(d) for d in disc]}", self.wit())
        extra = set(disc) - want
        if extra:
            raise Violation("discovered-extra", f"addresses {[hex(w) for w in extra]} are in no active entry", self.wit())
        ctx.count("discoveries", len(disc))
        ctx.state("scans", tuple((r[1], r[2], r[3]) for r in reqs))

    def served(self, k, c, mine):
        # the refusal got through unless every attempt was lost
        return not ((k, c) in self.failing)


def run(ctx):
    def manual(rng):
        async def main():
            w = World(rng)
            topo = w.app.topology
            for n in range(rng.randrange(1, 5)):
                if rng.random() < 0.8:
                    w.new_tables()
                w.failing = w.plan_faults()
                w.bcast_fail = rng.choice([0, 0, 0.5])
                w.known_before = set(w.known_unsup)
                keys = w.keys
                arg = ()
                if rng.random() < 0.3:
                    keys = rng.sample(w.keys, rng.randrange(1, len(w.keys) + 1))
                    devs = [w.devs[k] for k in keys]
                    arg = (rng.choice([devs, tuple(devs), set(devs), (d for d in devs)]),)
                marks = (len(w.reqs), len(w.events), len(w.discovered))
                # the first of two overlapping scans only sees devices that do not refuse, so that the state before the second is known
                first = [d for k, d in w.devs.items() if (k, 0x31) not in w.unsup and (k, 0x32) not in w.unsup and rng.random() < 0.7]
                overlap = bool(first) and rng.random() < 0.4
                w.log.append(("scan", list(keys), "overlap" if overlap else "", sorted(w.failing)))
                if overlap:
                    # the first scan gets some of the way, faults are planned afresh for the second one
                    a = asyncio.ensure_future(topo.scan(first))
                    await vloop.settle(3)
                    await asyncio.sleep(rng.choice([0, 0.005, 1, 3, 10, 40]) * rng.random())
                    was_done = a.done()
                    w.failing = w.plan_faults()
                    # whatever the first scan finished is the state before the second one
                    for k in w.keys:
                        for c in (0x31, 0x32):
                            w.model[k, c] = w.table(k, c)
                    t_start = asyncio.get_running_loop().time()
                    marks = (len(w.reqs), len(w.events), len(w.discovered))
                    b = asyncio.ensure_future(topo.scan(*arg))
                    res = await asyncio.gather(a, b, return_exceptions=True)
                    if not was_done and not isinstance(res[0], asyncio.CancelledError):
                        raise Violation("not-cancelled", f"the earlier scan ended with {res[0]!r}", w.wit())
                    if res[1] is not None:
                        raise Violation("scan-raised", f"the scan raised {res[1]!r}", w.wit())
                    # requests already waiting when the second scan starts may still leave in the same instant
                    marks = (marks[0] + sum(1 for r in w.reqs[marks[0] :] if r[0] == t_start and not was_done and r[1] not in keys), *marks[1:])
                    ctx.count("overlaps" if not was_done else "sequential")
                else:
                    try:
                        await topo.scan(*arg)
                    except Exception as e:  # noqa: BLE001
                        raise Violation("scan-raised", f"the scan raised {e!r}", w.wit()) from None
                w.judge(ctx, set(keys), w.failing, *marks)
            for u in asyncio.get_running_loop().unhandled:
                raise Violation("unhandled", f"{u}", w.wit())
            ctx.sample({"kinds": w.kinds, "log": w.log, "requests": w.reqs[:6]})

        vloop.run(main())

    def periodic(rng):
        async def main():
            w = World(rng)
            topo = w.app.topology
            loop = asyncio.get_running_loop()
            period = rng.choice([300, 1000])
            w.bcast_fail = rng.choice([0, 0.3])
            w.failing = set()
            if not any(w.scannable(k) and (k, 0x31) not in w.unsup for k in w.keys):
                return
            probe = next(k for k in w.keys if w.scannable(k) and (k, 0x31) not in w.unsup)
            t0 = loop.time()
            topo.start_periodic_scans(period)
            if rng.random() < 0.3:
                topo.start_periodic_scans(period)  # restarting does not double the scans
            due = t0 + period
            for n in range(rng.randrange(2, 6)):
                w.new_tables()
                for k in w.keys:  # keep scans shorter than the period
                    del w.node[k].neighbors[12:], w.node[k].routes[12:]
                    w.node[k].page = max(3, w.node[k].page)
                w.fault = {}
                bad = rng.random() < 0.3
                if bad:
                    w.failing = w.plan_faults()
                mark = len(w.reqs)
                await asyncio.sleep(due - loop.time() - 0.5)
                if any(r[0] >= due - 0.4 for r in w.reqs) or len(w.reqs) != mark:
                    raise Violation("periodic-early", "requests before the period was over", w.wit())
                preempt = rng.random() < 0.3
                await asyncio.sleep(0.5 + 0.05)
                if not [r for r in w.reqs[mark:]]:
                    raise Violation("periodic-missed", f"no scan at period {n + 1}", w.wit(period=period))
                if preempt:
                    await asyncio.sleep(rng.random() * 5)
                    w.fault = {}
                    running = topo._scan_task is not None and not topo._scan_task.done()
                    m2 = len(w.reqs)
                    await topo.scan()
                    if not any(r[1] == probe for r in w.reqs[m2:]):
                        raise Violation("not-scanned", "manual scan did nothing", w.wit())
                    ctx.count("preempted" if running else "not_preempted")
                    done = loop.time()
                else:
                    # wait for the scan to be over
                    last = -1
                    while last != len(w.reqs) + len(w.discovered):
                        last = len(w.reqs) + len(w.discovered)
                        await asyncio.sleep(60)
                    done = None
                if not bad:
                    for k in w.keys:
                        for c in (0x31, 0x32):
                            if w.scannable(k) and (k, c) not in w.unsup and w.table(k, c) != w.expected(k, c):
                                raise Violation("table-ok", f"table {c:#x} of device {k} after a periodic scan", w.wit())
                ctx.count("periodic_scans")
                # the next one is due a period after the end of this one (when exactly is not specified: resynchronise)
                mark = len(w.reqs)
                if preempt or done is None:
                    limit = loop.time() + period + 400
                    found = None
                    w.fault = {}
                    while loop.time() < limit:
                        await asyncio.sleep(5)
                        if len(w.reqs) != mark:
                            found = w.reqs[mark][0]
                            break
                    if found is None:
                        raise Violation("periodic-stopped", f"periodic scanning stopped after period {n + 1} (preempted={preempt}, faults={bad})", w.wit())
                    await asyncio.sleep(rng.choice([0, 3, 200]))
                    break_now = rng.random() < 0.5
                    if break_now:
                        break
                    last = -1
                    while last != len(w.reqs) + len(w.discovered):
                        last = len(w.reqs) + len(w.discovered)
                        await asyncio.sleep(60)
                    # restart to know the next deadline
                    topo.stop_periodic_scans()
                    await vloop.settle(5)
                    topo.start_periodic_scans(period)
                    due = loop.time() + period
            running = topo._scan_task is not None and not topo._scan_task.done()
            topo.stop_periodic_scans()
            await vloop.settle(10)
            mark = len(w.reqs), len(w.discovered)
            await asyncio.sleep(3 * period + 1000)
            if (len(w.reqs), len(w.discovered)) != mark:
                raise Violation("not-stopped", f"requests after periodic scanning was stopped (scan running at that time: {running})", w.wit())
            ctx.count("stopped_mid_scan" if running else "stopped_idle")
            ctx.evaluated(("periodic", period, running, len(w.keys)))

        vloop.run(main())

    for k in range(ctx.n(500, 8000)):
        ctx.case(f"scan-{k}", manual, ctx.rng("m", k))
    for k in range(ctx.n(200, 3000)):
        ctx.case(f"periodic-{k}", periodic, ctx.rng("p", k))
    ctx.require("table_ok", 1000)
    ctx.require("table_failed", 100)
    ctx.require("table_unsupported", 50)
    ctx.require("table_known-unsupported", 50)
    ctx.require("pages", 3000)
    ctx.require("discoveries", 300)
    ctx.require("overlaps", 50)
    ctx.require("periodic_scans", 100)
    ctx.require("preempted", 20)
    ctx.require("stopped_mid_scan", 20)
