"""D02: the device table follows joins, announcements, address responses, relays, leaves and removals."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.exceptions
import zigpy.types as t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: after every step of random join/announce/leave/relay/removal histories the device table, all "
    "address look-ups, the announced events and the discovery requests on the air are compared with a reference table"
)
NOTE = (
    "Histories over a small pool of IEEE and network addresses (so that addresses move, get reused and collide), delivered "
    "through the radio callbacks and as ZDO packets, well-formed, truncated and with failure status, from known and unknown "
    "senders in both addressing modes; interviews run in the background on silent, failing or answering devices."
)
RULE = "One evaluation is one step of a history judged against the reference table; non-trivial: distinct (step kind, relation to the table)."
ASSUMPTIONS = [
    "while several known devices claim one network address, a look-up by it may return any of them",
    "removal is waited for before the same device is heard again",
]


def run(ctx):
    def case(rng, nsteps):
        async def main():
            app = sim.make_app()
            net = sim.SimNet(app, rng)
            silent = rng.random()
            removed_once = set()

            def fate(p, n):
                # only devices whose address is theirs alone answer, so that no answer is taken for another one's
                if n is None or len(ever.get(n.nwk, ())) > 1 or n.ieee in removed_once or list(table.values()).count(n.nwk) != 1 or table.get(n.ieee) != n.nwk:
                    return "lost"
                return "lost" if rng.random() < silent else None

            net.fate = fate
            deliver = net.deliver

            def unambiguous(node, *a):
                if len(ever.get(node.nwk, ())) == 1 and table.get(node.ieee) == node.nwk and node.ieee not in removed_once:
                    deliver(node, *a)

            net.deliver = unambiguous
            events, seen_msgs, bcasts = [], [], []
            base_send = app.on_send

            async def on_send(pkt):
                if pkt.dst.addr_mode == t.AddrMode.Broadcast:
                    bcasts.append((int(pkt.cluster_id), pkt.data.serialize()[1:], int(pkt.dst.address), pkt.dst_ep, int(pkt.profile_id)))
                    return
                await base_send(pkt)

            app.on_send = on_send

            class L:
                def device_joined(self, d):
                    events.append(("joined", d.ieee, int(d.nwk)))

                def device_left(self, d):
                    events.append(("left", d.ieee, int(d.nwk)))

                def device_removed(self, d):
                    events.append(("removed", d.ieee, int(d.nwk)))

                def handle_message(self, d, *a):
                    seen_msgs.append((d.ieee, a))

            app.add_listener(L())
            ieees = [sim.eui(0x2000_0000 + i) for i in range(5)]
            nwks = rng.sample(range(1, 0xFFF7), 6)
            table = {}  # ieee -> nwk (in order of appearance)
            ever = {}
            for i in ieees:
                if rng.random() < 0.3:
                    n = rng.choice(nwks)
                    table[i] = n
                    ever[n] = ever.get(n, set()) | {i}
                    net.nodes[n] = sim.SimNode(i, n)
                    sim.add_ready_device(app, i, n)
            relays = {}
            trace = []

            def w():
                return {"table": {str(k): hex(v) for k, v in table.items()}, "trace": trace}

            def verify(kind, rel):
                ctx.evaluated((kind, rel))
                ctx.count(f"step_{kind}")
                ctx.state("tables", (tuple(table.items()), kind))
                got = {k: int(d.nwk) for k, d in app.devices.items() if k != sim.NCP_IEEE}
                if got != table:
                    raise Violation("table", f"table {got}, expected {table}", w())
                for k, d in app.devices.items():
                    if d.ieee != k or type(k) is not t.EUI64:
                        raise Violation("table-key", f"{d.ieee} is stored under {k!r}", w())
                for i in ieees:
                    try:
                        d = app.get_device(ieee=i)
                    except KeyError:
                        d = None
                    if (d is not None) != (i in table) or (d is not None and d is not app.devices[i]):
                        raise Violation("lookup-ieee", f"look-up of {i} gave {d}", w())
                for n in [*nwks, 0x0000, 0xFFF0]:
                    owners = [k for k, v in table.items() if v == n]
                    try:
                        d = app.get_device(nwk=t.NWK(n) if rng.random() < 0.5 else n)
                    except KeyError:
                        d = None
                    if n == 0:
                        ok = d is not None and d.ieee == sim.NCP_IEEE
                    else:
                        ok = d is None if not owners else d is not None and d.ieee in owners
                    if not ok:
                        raise Violation("lookup-nwk", f"look-up of {n:#06x} gave {d}, owners {owners}", w())
                ctx.count("lookups", len(ieees) + len(nwks) + 2)

            for step in range(nsteps):
                events.clear(), seen_msgs.clear(), bcasts.clear()
                want_ev, want_b = [], []
                r = rng.random()
                i, n = rng.choice(ieees), rng.choice(nwks)
                if i in table and rng.random() < 0.5:
                    n = table[i]
                rel = ("new" if i not in table else "same" if table[i] == n else "moved", n in table.values())

                def announce(i, n):
                    if table.get(i) != n:
                        want_ev.append(("joined", i, n))
                        table[i] = n
                        ever[n] = ever.get(n, set()) | {i}
                        if len(ever[n]) == 1:
                            net.nodes[n] = sim.SimNode(i, n)

                def unknown(n):
                    want_b.append(n)

                pkt = None
                if r < 0.25:
                    kind = "join"
                    announce(i, n)
                    trace.append((kind, str(i), hex(n)))
                    app.handle_join(t.NWK(n), rng.choice([i, list(i), t.EUI64(i)]), rng.choice([None, t.NWK(0), t.NWK(nwks[0])]), handle_rejoin=rng.random() < 0.8)
                elif r < 0.5:
                    annce = rng.random() < 0.4
                    kind = "annce" if annce else "addr_rsp"
                    status = 0 if rng.random() < 0.75 else rng.choice([0x80, 0x81, 0x85])
                    if annce:
                        cl, body = 0x0013, sim.u16(n) + i.serialize() + bytes([rng.choice([0x80, 0x8E])])
                    else:
                        cl, body = rng.choice([0x8000, 0x8001]), bytes([status]) + i.serialize() + sim.u16(n)
                        if rng.random() < 0.2:
                            body += b"\x01\x00" + sim.u16(0x4242)
                    cut = rng.random() < 0.12
                    if cut:
                        body = body[: rng.randrange(0, 10 if annce else 11)]
                    src = n if rng.random() < 0.7 else rng.choice(nwks)
                    ok = not cut and (annce or status == 0)
                    rel += (ok, src == n)
                    if ok:
                        announce(i, n)
                    known = src in table.values()
                    if not known:
                        unknown(src)
                    pkt = sim.rx(src, cl, bytes([rng.randrange(256)]) + body, profile=0, src_ep=0, dst_ep=0)
                elif r < 0.62:
                    kind = "leave"
                    if i in table:
                        want_ev.append(("left", i, table[i]))
                    trace.append((kind, str(i)))
                    app.handle_leave(t.NWK(n), i)
                elif r < 0.75:
                    kind = "relays"
                    rl = [rng.choice([0, *nwks]) for _ in range(rng.randrange(4))]
                    trace.append((kind, hex(n), rl))
                    app.handle_relays(t.NWK(n), [t.NWK(x) for x in rl])
                    owners = [k for k, v in table.items() if v == n]
                    if not owners:
                        unknown(n)
                    else:
                        want = [x for j, x in enumerate(rl) if x != 0 and x not in rl[:j]]
                        if not any([int(x) for x in app.devices[k].relays or []] == want for k in owners):
                            raise Violation("relays", f"relays {rl} of {n:#x} not recorded", w())
                elif r < 0.92:
                    kind = "packet"
                    by_ieee = rng.random() < 0.3
                    if by_ieee:
                        class P:
                            ieee = i
                            nwk = n

                        pkt = sim.rx(P, 6, sim.zcl_hdr(1, 0x0A, s2c=True) + b"\x00\x00\x10\x01", src_mode="ieee")
                        rel = ("ieee", i in table)
                    else:
                        pkt = sim.rx(n, rng.choice([0, 6]), sim.zcl_hdr(rng.randrange(256), 0x0A, s2c=True) + b"\x00\x00\x10\x01")
                        rel = ("nwk", n in table.values())
                        if n not in table.values():
                            unknown(n)
                else:
                    kind = "remove"
                    trace.append((kind, str(i)))
                    if i in table:
                        want_ev.append(("removed", i, table[i]))
                    await app.remove(i)
                if pkt is not None:
                    trace.append((kind, str(i), hex(n), str(pkt.src), pkt.data.serialize().hex()))
                    app.packet_received(pkt)
                    if pkt.src.addr_mode == t.AddrMode.NWK:
                        owners = [k for k, v in table.items() if v == pkt.src.address]
                    else:
                        owners = [k for k in table if k == pkt.src.address]
                    got = [k for k, _ in seen_msgs]
                    if (got and got[0] not in owners) or bool(got) != bool(owners) or len(got) > 1:
                        raise Violation("sender", f"message from {pkt.src} attributed to {got}, owners {owners}", w())
                got_ev = list(events)
                await vloop.settle(10)
                got_b = list(bcasts)
                if kind == "remove" and i in table:
                    await asyncio.sleep(40)
                    del table[i]
                    removed_once.add(i)
                if sorted(map(str, got_ev)) != sorted(map(str, want_ev)):
                    raise Violation("events", f"{kind}: announced {got_ev}, expected {want_ev}", w())
                if len(events) != len(got_ev):
                    raise Violation("events", f"{kind}: later announced {events[len(got_ev):]}", w())
                disc = [int.from_bytes(b[1][:2], "little") for b in got_b if b[0] == 0x0001]
                if sorted(disc) != sorted(want_b):
                    raise Violation("discovery", f"{kind}: discovery requests for {disc}, expected {want_b}", w())
                for b in got_b:
                    if b[0] != 0x0001 or b[3] != 0 or b[4] != 0 or b[1][2:] != b"\x00\x00" or b[2] not in (0xFFFD, 0xFFFC, 0xFFFF):
                        raise Violation("discovery", f"malformed discovery request {b}", w())
                ctx.count("discoveries", len(disc))
                ctx.count("events", len(got_ev))
                verify(kind, rel)
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.choice([0.01, 1, 30]) * rng.random())
                    events.clear()
                    verify("later", rel[0])
            ctx.sample(trace[:8])

        vloop.run(main())

    for k in range(ctx.n(500, 10000)):
        rng = ctx.rng(k)
        ctx.case(f"history-{k}", case, rng, rng.randrange(5, 40))
    ctx.require("step_join", 1500)
    ctx.require("step_annce", 500)
    ctx.require("step_addr_rsp", 700)
    ctx.require("step_leave", 600)
    ctx.require("step_relays", 600)
    ctx.require("step_packet", 800)
    ctx.require("step_remove", 300)
    ctx.require("discoveries", 300)
