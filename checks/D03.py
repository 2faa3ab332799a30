"""D03: removing a device asks it to leave and forgets it."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdo_t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: requests at the radio, announced events and the device table are watched during and long after "
    "removals, with every kind of answer, loss, delivery fault, radio exception, delay and interleaved traffic"
)
NOTE = (
    "Targets are routers, sleepy children, half interviewed devices and devices being interviewed; neighbour tables of "
    "other devices list the target zero or more times; the leave exchange is answered, refused, garbled, lost, delayed, "
    "fails or raises in the radio library; several removals run at once; other devices keep talking."
)
RULE = "One evaluation is one removal followed to its end; non-trivial: distinct (target kind, leave outcome, options, parents, traffic)."
ASSUMPTIONS = ["bounded time is taken as 60 s (the leave attempt is limited to 30 s for sleepy devices)"]


class RadioBug(Exception):
    pass


OUTCOMES = ["ok", "refuse", "unsupported", "garbage", "noreply", "lost", "fail", "timeout-exc", "controller", "formation", "bug", "oserror", "hang", "late"]


def neighbor(ieee, nwk):
    return zdo_t.Neighbor(
        extended_pan_id=t.ExtendedPanId.convert("00:11:22:33:44:55:66:77"),
        ieee=ieee,
        nwk=t.NWK(nwk),
        device_type=zdo_t.Neighbor.DeviceType.EndDevice,
        rx_on_when_idle=zdo_t.Neighbor.RxOnWhenIdle.Off,
        relationship=zdo_t.Neighbor.Relationship.Child,
        reserved1=0,
        permit_joining=zdo_t.Neighbor.PermitJoins.NotAccepting,
        reserved2=0,
        depth=t.uint8_t(15),
        lqi=t.uint8_t(200),
    )


def run(ctx):
    def case(rng, outcome):
        async def main():
            app = sim.make_app()
            net = sim.SimNet(app, rng)
            loop = asyncio.get_running_loop()
            log, events = [], []
            n_dev = rng.randrange(2, 7)
            kinds, devs, nodes = [], [], []
            removed = set()
            for k in range(n_dev):
                kind = rng.choice(["router", "router", "sleepy", "sleepy", "no-desc", "half", "interviewing"])
                ieee, nwk = sim.eui(0x3000_0000 + k), 0x4000 + k
                node = net.add(sim.SimNode(ieee, nwk, logical=2 if kind == "sleepy" else 1, caps=0x80 if kind == "sleepy" else 0x8E))
                if kind in ("router", "sleepy"):
                    d = sim.add_ready_device(
                        app, ieee, nwk, logical=zdo_t.LogicalType.EndDevice if kind == "sleepy" else zdo_t.LogicalType.Router, caps=node.caps
                    )
                elif kind == "half":
                    d = app.add_device(ieee, t.NWK(nwk))
                    d.node_desc = sim.node_desc(zdo_t.LogicalType.EndDevice if rng.random() < 0.5 else zdo_t.LogicalType.Router)
                    node.logical = int(d.node_desc.logical_type)
                    d.add_endpoint(1)
                else:
                    d = app.add_device(ieee, t.NWK(nwk))
                kinds.append(kind)
                devs.append(d)
                nodes.append(node)
            targets = rng.sample(range(n_dev), rng.choice([1, 1, 1, 2]))
            members = {}
            for gid in range(1, rng.randrange(1, 4)):
                g = app.groups.add_group(gid, f"g{gid}")
                members[gid] = set()
                for d in devs:
                    for ep in d.non_zdo_endpoints:
                        if rng.random() < 0.6:
                            g.add_member(ep)
                            members[gid].add(ep.unique_id)
            for x in targets:  # what it answers to a group membership scan
                for ep in devs[x].non_zdo_endpoints:
                    nodes[x].groups[ep.endpoint_id] = {g for g, m in members.items() if ep.unique_id in m}
            parents = {}
            for x in targets:
                ps = rng.sample(range(n_dev), rng.randrange(0, min(3, n_dev)))
                parents[x] = []
                for p in ps:
                    parents[x].append(p)
                    for _ in range(rng.choice([1, 1, 2])):
                        app.topology.neighbors[devs[p].ieee].append(neighbor(devs[x].ieee, devs[x].nwk))
                if rng.random() < 0.3:
                    app.topology.neighbors[sim.NCP_IEEE].append(neighbor(devs[x].ieee, devs[x].nwk))
                    parents[x].append(-1)
            for p in range(n_dev):  # unrelated entries
                if rng.random() < 0.3:
                    app.topology.neighbors[devs[p].ieee].append(neighbor(sim.eui(0x99), 0x9999))
            if rng.random() < 0.3:
                app.topology.neighbors[sim.eui(0x77)].append(neighbor(devs[targets[0]].ieee, devs[targets[0]].nwk))
                if rng.random() < 0.5:
                    app.topology.routes[devs[p].ieee].append(
                        zdo_t.Route(DstNWK=t.NWK(0x4000), RouteStatus=zdo_t.RouteStatus.Active, MemoryConstrained=0, ManyToOne=0, RouteRecordRequired=0, Reserved=0, NextHop=t.NWK(0))
                    )
            by_ieee = {d.ieee: k for k, d in enumerate(devs)}
            leaves = []
            interview_ok = rng.random() < 0.5

            class L:
                def __getattr__(self, name):
                    if not name.startswith("device_") and name != "raw_device_initialized":
                        raise AttributeError(name)
                    return lambda d: (events.append((round(loop.time() - 1000, 3), name, by_ieee.get(d.ieee, -1))), log.append(events[-1]))

            app.add_listener(L())
            base = app.on_send
            reqs = []
            own_reqs = {x: [] for x in targets}

            async def on_send(pkt):
                data = pkt.data.serialize()
                node = net.node_for(pkt)
                dst = by_ieee.get(node.ieee, None) if node is not None else ("coordinator" if pkt.dst.address == 0 else None)
                reqs.append((loop.time(), dst, int(pkt.cluster_id), pkt.dst_ep))
                if pkt.dst_ep == 0 and pkt.cluster_id == 0x0034 and dst in targets and data[1:9] == devs[dst].ieee.serialize():
                    own_reqs[dst].append(reqs[-1])
                if pkt.dst_ep == 0 and pkt.cluster_id == 0x0034:
                    leaves.append((dst, data[1:]))
                    log.append((round(loop.time() - 1000, 3), "leave", dst, data[1:].hex()))
                    o = outcome if dst in targets and data[1:9] == devs[dst].ieee.serialize() else rng.choice([q for q in OUTCOMES if q != "hang"])
                    if o == "fail":
                        raise zigpy.exceptions.DeliveryError("no ack")
                    if o == "timeout-exc":
                        raise asyncio.TimeoutError
                    if o == "controller":
                        raise zigpy.exceptions.ControllerException("radio")
                    if o == "formation":
                        raise zigpy.exceptions.NetworkNotFormed("radio")
                    if o == "bug":
                        if dst not in targets:
                            return
                        raise RadioBug("radio library bug")
                    if o == "oserror":
                        if dst not in targets:
                            return
                        raise OSError("serial port gone")
                    if o == "hang":
                        await asyncio.sleep(10_000)
                    if o in ("lost", "noreply") or node is None:
                        return
                    st = {"ok": b"\x00", "refuse": b"\x88", "unsupported": b"\x84", "garbage": b""}.get(o, b"\x00")
                    delay = 0.05 if o != "late" else rng.choice([6.5, 20, 40])
                    loop.call_later(delay, net.deliver, node, 0x8034, 0, 0, 0, data[:1] + st)
                    return
                if node is not None and interview_ok is False:
                    return
                await base(pkt)

            app.on_send = on_send
            for k, kind in enumerate(kinds):
                if kind == "interviewing":
                    app.handle_join(devs[k].nwk, devs[k].ieee, None)
            if "interviewing" in kinds:
                await asyncio.sleep(rng.choice([0, 0.005, 0.02, 0.1]))
                # an interview may be over by now
            events.clear()
            others = [k for k in range(n_dev) if k not in targets]
            before = {k: (app.devices[devs[k].ieee], int(devs[k].nwk)) for k in others}
            opts = {}
            unknown = sim.eui(0x5555)
            await app.remove(unknown)
            await vloop.settle(5)
            if leaves or any(e[1] in ("device_removed", "device_left") for e in events):
                raise Violation("unknown-removal", f"removing an unknown device did {leaves} {events}", {"log": log})

            async def one(x):
                if x != targets[0]:
                    await asyncio.sleep(rng.random())
                rc, rj = rng.random() < 0.5, rng.random() < 0.4
                opts[x] = (rc, rj)
                kw = {}
                if not rc or rng.random() < 0.5:
                    kw["remove_children"] = rc
                if rj or rng.random() < 0.5:
                    kw["rejoin"] = rj
                log.append((round(loop.time() - 1000, 3), "remove", x, kinds[x], rc, rj))
                sleepy_at[x] = app.devices[devs[x].ieee].node_desc is not None and app.devices[devs[x].ieee].node_desc.is_end_device
                initializing[x] = devs[x].initializing
                await app.remove(devs[x].ieee, **kw)
                t_removed[x] = loop.time()

            sleepy_at, t_removed, initializing = {}, {}, {}
            jobs = [asyncio.ensure_future(one(x)) for x in targets]
            traffic = rng.choice([0, 0, 1, 3])
            chat = []
            for _ in range(traffic):
                await asyncio.sleep(rng.choice([0.01, 0.5, 2]) * rng.random())
                k = rng.choice([rng.randrange(n_dev), rng.choice(targets)])
                if devs[k].ieee in app.devices:
                    chat.append(k)
                    if k in targets and rng.random() < 0.6:
                        # announces itself, maybe from a new address, maybe while it is being removed
                        d = app.devices[devs[k].ieee]
                        if rng.random() < 0.6:
                            node = net.nodes.pop(int(d.nwk))
                            node.nwk = 0x6000 + len(log)
                            net.nodes[node.nwk] = node
                        else:
                            node = nodes[k]
                        log.append((round(loop.time() - 1000, 3), "announcement of", k, node.nwk))
                        app.handle_join(t.NWK(node.nwk), d.ieee, None)
                        ctx.count("announcements during removals", k in t_removed)
                        continue
                    log.append((round(loop.time() - 1000, 3), "packet from", k))
                    app.packet_received(sim.rx(devs[k], 6, sim.zcl_hdr(rng.randrange(256), 0x0A, s2c=True) + b"\x00\x00\x10\x01"))
            await asyncio.gather(*jobs)
            await asyncio.sleep(62)
            t_end = loop.time()
            wit = {"log": log, "kinds": kinds, "targets": targets, "parents": parents, "outcome": outcome}
            for x in targets:
                rc, rj = opts[x]
                if devs[x].ieee in app.devices:
                    raise Violation("not-forgotten", f"device {x} is still in the table 60 s after its removal", wit)
                try:
                    app.get_device(nwk=devs[x].nwk)
                    raise Violation("not-forgotten", "still found by network address", wit)
                except KeyError:
                    pass
                n = [e for e in events if e[1] == "device_removed" and e[2] == x]
                if len(n) != 1:
                    raise Violation("removed-event", f"removal announced {len(n)} times", wit)
                again = [e for e in events if e[2] == x and e[1].endswith("device_initialized") and 1000 + e[0] > t_removed[x] + 0.001]
                if again:
                    raise Violation("initialized-while-removed", f"announced as ready after its removal was: {again}", wit)
                for name, tables in (("neighbours", app.topology.neighbors), ("routes", app.topology.routes)):
                    if tables.get(devs[x].ieee):
                        raise Violation("tables-kept", f"the {name} of the removed device {x} are still held", wit)
            nreq = len(reqs)
            await asyncio.sleep(400)
            late = [e for e in events if e[2] in targets and 1000 + e[0] > t_end]
            if late:
                raise Violation("events-after-removal", f"announced after the removal: {late}", wit)
            if any(r[1] in targets and r[2] != 0x0034 for r in reqs[nreq:]):
                raise Violation("requests-after-removal", f"requests to a removed device: {reqs[nreq:]}", wit)
            for x in targets:
                rc, rj = opts[x]
                own = [p for d, p in leaves if d == x and p[:8] == devs[x].ieee.serialize()]
                want = devs[x].ieee.serialize() + bytes([(0x40 if rc else 0) | (0x80 if rj else 0)])
                expect_own = 1
                if sleepy_at[x] and x in parents[x]:
                    expect_own = None  # lists itself: also asked as its own parent
                if x in chat or any(r[1] == x and r not in own_reqs[x] and abs(r[0] - t_removed[x]) < 30 for r in reqs):
                    # other exchanges with the device may use up the time of the leave attempt
                    ctx.count("busy_targets")
                elif (expect_own == 1 and own != [want]) or (expect_own is None and want not in own):
                    raise Violation("leave-request", f"leave requests {[o.hex() for o in own]}, expected {want.hex()}", wit)
                wantp = devs[x].ieee.serialize() + bytes([0x40 | (0x80 if rj else 0)])
                for p in range(-1, n_dev):
                    if p == x:
                        continue
                    dst = "coordinator" if p == -1 else p
                    got = [q for d, q in leaves if d == dst and q[:8] == devs[x].ieee.serialize()]
                    if sleepy_at[x] and p in parents[x]:
                        alive = p == -1 or p not in targets
                        if alive and (not got or any(q != wantp for q in got)):
                            raise Violation("parent", f"parent {p} got {[q.hex() for q in got]}, expected {wantp.hex()}", wit)
                        ctx.count("parents_asked")
                    elif got:
                        raise Violation("parent", f"device {p} was asked to remove {x}: {[q.hex() for q in got]}", wit)
                if devs[x].ieee in app.devices:
                    raise Violation("resurrected", f"removed device {x} is in the table again", wit)
                # any other packet from the device (including answers it gives as a parent) may restart its interview meanwhile
                if x not in chat and initializing[x] and not any(x in parents[y] for y in targets if y != x):
                    bad = [e for e in events if e[2] == x and e[1] != "device_removed" and 1000 + e[0] > t_removed[x]]
                    if bad:
                        raise Violation("interview-not-cancelled", f"after removal: {bad}", wit)
                    badr = [r for r in reqs if r[1] == x and r[2] != 0x0034 and r[0] > t_removed[x] + 0.001]
                    if badr:
                        raise Violation("interview-not-cancelled", f"interview requests after the removal: {badr}", wit)
                    ctx.count("interviews_cancelled")
            for k in others:
                d = app.devices.get(devs[k].ieee)
                if d is None or int(d.nwk) != before[k][1] or (kinds[k] in ("router", "sleepy") and d is not before[k][0]):
                    raise Violation("bystander", f"device {k} changed: {d}", wit)
            gone = {devs[x].ieee for x in targets}
            for gid, m in members.items():
                have = set(app.groups[gid]) if gid in app.groups else None
                if have is None or {u for u in have if u[0] in gone}:
                    raise Violation("group-membership", f"group {gid} after the removal: {have}", wit)
                if {u for u in m if u[0] not in gone} != have:
                    raise Violation("bystander", f"group {gid} had {sorted(map(str, m))}, now {sorted(map(str, have))}", wit)
                ctx.count("group_members_removed", len(m) - len(have))
            if [k for k in app.devices if k != sim.NCP_IEEE and by_ieee.get(k) is None]:
                raise Violation("bystander", f"unexpected devices {list(app.devices)}", wit)
            for u in loop.unhandled:
                e = u.get("exception")
                if e is not None and not isinstance(e, (RadioBug, OSError)):
                    raise Violation("unhandled", f"unhandled {e!r}", wit)
            for x in targets:
                ctx.evaluated((kinds[x], outcome, opts[x], len(parents[x]), bool(chat), initializing[x]))
                ctx.count("removals")
                ctx.count(f"outcome_{outcome}")
                ctx.count(f"kind_{kinds[x]}")
            ctx.state("interleavings", tuple(e[1:] for e in log))
            ctx.sample(log[:10])

        vloop.run(main())

    for k in range(ctx.n(1100, 22000)):
        rng = ctx.rng(k)
        ctx.case(f"removal-{k}", case, rng, OUTCOMES[k % len(OUTCOMES)])
    ctx.require("removals", 700)
    ctx.require("parents_asked", 60)
    ctx.require("interviews_cancelled", 40)
    ctx.require("group_members_removed", 200)
    ctx.require("announcements during removals", 40)
    for o in OUTCOMES:
        ctx.require(f"outcome_{o}", 30)
