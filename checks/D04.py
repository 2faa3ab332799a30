"""D04: group membership stays consistent from both sides."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.exceptions
import zigpy.types as t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: a shadow of all groups is maintained from the announced events alone and, with a reference model fed by "
    "the answers devices put on the air, compared with both sides of the membership tables after every step"
)
NOTE = (
    "Random histories of additions, removals, scans and direct table operations on endpoints with and without the Groups "
    "cluster, with every shape of device answer (confirmation, already a member, not found, no space, default response, garbled, "
    "lost, delivery failure), sequential with an exact model and concurrent with the shadow, plus cancellations and rejoins."
)
RULE = "One evaluation is one group operation judged; non-trivial: distinct (operation, answer, relation before)."

ANSWERS = ["ok", "ok", "ok", "dup", "notfound", "nospace", "failure", "unsup", "default-ok", "default-fail", "default-unsup", "garbage", "lost", "fail"]
STATUS = {"dup": 0x8A, "notfound": 0x8B, "nospace": 0x89, "failure": 0x01, "unsup": 0x81}
OTHER = {f"status-{s:02x}": s for s in (0x7E, 0x7F, 0x80, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x8C, 0x8D, 0x94, 0xC0, 0xC1, 0xC3)}
STATUS |= OTHER
ANSWERS = [*ANSWERS * 3, *OTHER]


class World:
    def __init__(self, rng):
        self.rng = rng
        self.app = sim.make_app()
        self.net = sim.SimNet(self.app, rng)
        self.app.on_send = self.on_send
        self.shadow = {}  # gid -> set of unique ids, from events only
        self.trace = []
        self.answer = "ok"
        self.packets = []
        self.on_air = {}  # unique id -> set of groups the device has
        self.latency = lambda: 0.02
        self.bad = None
        self.app.groups.add_listener(self)
        self.eps = []
        for k in range(3):
            eps = {}
            for e in range(1, rng.choice([2, 2, 3, 4])):
                ins, outs = rng.choice([([0, 4, 6], []), ([0, 4, 6], []), ([0, 6], []), ([0], [4])])
                eps[e] = (0x0104, 0x0100, ins, outs)
            d = sim.add_ready_device(self.app, sim.eui(0x4000_0000 + k), 0x5000 + k, eps)
            self.net.add(sim.SimNode(d.ieee, 0x5000 + k, endpoints=eps))
            self.eps += d.non_zdo_endpoints
        self.n_events = 0

    def wit(self):
        return {"trace": self.trace[-30:], "shadow": {k: sorted(map(str, v)) for k, v in self.shadow.items()}}

    def fail(self, key, msg):
        if self.bad is None:
            self.bad = Violation(key, msg, self.wit())

    # events
    def group_added(self, g):
        self.n_events += 1
        self.trace.append(("event group_added", getattr(g, "group_id", g)))
        if g is None or int(g.group_id) in self.shadow:
            return self.fail("event", f"group_added announced for {g!r} which exists")
        self.shadow[int(g.group_id)] = set()

    def group_removed(self, g):
        self.n_events += 1
        self.trace.append(("event group_removed", getattr(g, "group_id", g)))
        if g is None or int(g.group_id) not in self.shadow:
            return self.fail("event", f"group_removed announced for {g!r} which does not exist")
        if self.shadow[int(g.group_id)]:
            self.fail("event", "group removed with members that were not announced as removed")
        del self.shadow[int(g.group_id)]

    def group_member_added(self, g, ep):
        self.n_events += 1
        self.trace.append(("event member_added", int(g.group_id), str(ep.unique_id)))
        s = self.shadow.get(int(g.group_id))
        if s is None or ep.unique_id in s:
            return self.fail("event", f"member_added announced for {ep.unique_id} of group {g.group_id}: {s}")
        s.add(ep.unique_id)

    def group_member_removed(self, g, ep):
        self.n_events += 1
        self.trace.append(("event member_removed", int(g.group_id), str(ep.unique_id)))
        s = self.shadow.get(int(g.group_id))
        if s is None:
            # members are announced as removed when their group goes
            return self.fail("event", f"member_removed announced for unknown group {g.group_id}")
        if ep.unique_id not in s:
            return self.fail("event", f"member_removed announced for {ep.unique_id} which is no member")
        s.discard(ep.unique_id)

    async def on_send(self, pkt):
        data = pkt.data.serialize()
        node = self.net.node_for(pkt)
        if node is None or pkt.dst_ep == 0:
            return
        h = sim.parse_zcl(data)
        a = self.answer() if callable(self.answer) else self.answer
        self.packets.append((node.ieee, pkt.dst_ep, int(pkt.cluster_id), h["cmd"], h["payload"], a))
        self.trace.append(("sent", str(node.ieee), pkt.dst_ep, int(pkt.cluster_id), h["cmd"], h["payload"].hex(), a))
        if a == "fail":
            raise zigpy.exceptions.DeliveryError("no ack")
        if a == "lost":
            return
        p = h["payload"]
        gid = int.from_bytes(p[:2], "little")
        mine = self.on_air.setdefault((node.ieee, pkt.dst_ep), set())
        if a.startswith("default"):
            st = {"default-ok": 0, "default-fail": 1, "default-unsup": 0x81}[a]
            if st == 0 and h["cmd"] == 0:
                mine.add(gid)
            elif st == 0 and h["cmd"] == 3:
                mine.discard(gid)
            rep = node.default_rsp(h, st)
        elif h["cmd"] in (0, 3):
            st = STATUS.get(a, 0)
            if h["cmd"] == 0 and st in (0, 0x8A):
                mine.add(gid)
            if h["cmd"] == 3 and st in (0, 0x8B):
                mine.discard(gid)
            rep = node.reply(h, h["cmd"], bytes([st]) + p[:2], cluster=True)
        elif h["cmd"] == 2:
            gs = sorted(mine)
            self.rng.shuffle(gs)
            rep = node.reply(h, 2, bytes([self.rng.choice([0, 5, 0xFE, 0xFF]), len(gs)]) + b"".join(map(sim.u16, gs)), cluster=True)
        else:
            return
        if a == "garbage":
            rep = rep[: self.rng.choice([3, len(rep) - 1])]
        asyncio.get_running_loop().call_later(self.latency(), self.net.deliver, node, pkt.cluster_id, 0x0104, pkt.dst_ep, 1, rep)

    def compare(self):
        """Both sides of the tables against the shadow built from the events."""
        if self.bad is not None:
            raise self.bad
        groups = self.app.groups
        got = {int(g): set(v.members) for g, v in groups.items()}
        if got != self.shadow:
            raise Violation("shadow", f"groups {got}, announced {self.shadow}", self.wit())
        for gid, g in groups.items():
            if int(g.group_id) != int(gid):
                raise Violation("key", f"group {g.group_id} stored under {gid}", self.wit())
            for uid, ep in g.items():
                if ep.unique_id != uid or ep not in self.eps:
                    raise Violation("member", f"{uid} -> {ep}", self.wit())
        for ep in self.eps:
            a = {int(x) for x in ep.member_of}
            b = {g for g, m in self.shadow.items() if ep.unique_id in m}
            if a != b or any(groups.get(k) is not v for k, v in ep.member_of.items()):
                raise Violation("one-sided", f"{ep.unique_id} lists groups {a}, the groups list it in {b}", self.wit())


def gids(rng):
    return rng.choice([1, 2, 3, 0x1234, 0xFFF7, 0x0000])


def run(ctx):
    def sequential(rng):
        async def main():
            w = World(rng)
            groups = w.app.groups
            model, names = {}, {}  # gid -> set(uid)

            def need(gid, name=None):
                if gid not in model:
                    model[gid] = set()
                    names[gid] = name

            for step in range(rng.randrange(5, 40)):
                ep = rng.choice(w.eps)
                gid = gids(rng)
                name = rng.choice([None, "kitchen", "häll", ""])
                w.answer = a = rng.choice(ANSWERS)
                w.packets.clear()
                before = ep.unique_id in model.get(gid, ())
                has = 4 in ep.in_clusters
                op = rng.choice(["add", "add", "add", "remove", "remove", "scan", "scan", "group", "drop", "drop-missing", "member", "unmember", "dev-add", "dev-remove", "drift", "rejoin"])
                w.trace.append((op, str(ep.unique_id), gid, name, a))
                exc = res = None
                targets = [ep] if not op.startswith("dev") else ep.device.non_zdo_endpoints
                expect_pkts = []

                def effect(e, cmd):
                    """What the device's answer means; False when the exchange fails."""
                    if 4 not in e.in_clusters:
                        return
                    expect_pkts.append((e.device.ieee, e.endpoint_id, 4, cmd))
                    if a in ("garbage", "lost", "fail"):
                        return "raise"
                    good = {0: ("ok", "dup", "default-ok"), 3: ("ok", "notfound", "default-ok")}[cmd]
                    if a in good:
                        if cmd == 0:
                            need(gid, name)
                            model[gid].add(e.unique_id)
                        elif gid in model:
                            model[gid].discard(e.unique_id)
                    return None

                try:
                    if op == "add":
                        fails = effect(ep, 0)
                        res = await ep.add_to_group(gid, name)
                    elif op == "remove":
                        fails = effect(ep, 3)
                        res = await ep.remove_from_group(gid)
                    elif op in ("dev-add", "dev-remove"):
                        fails = None
                        for e in targets:
                            fails = effect(e, 0 if op == "dev-add" else 3)
                            if fails:
                                break
                        if op == "dev-add":
                            await ep.device.add_to_group(gid, name)
                        else:
                            await ep.device.remove_from_group(gid)
                    elif op in ("scan", "rejoin"):
                        fails = None
                        if op == "rejoin":
                            w.app.handle_join(ep.device.nwk, ep.device.ieee, None)
                            targets = ep.device.non_zdo_endpoints
                        for e in targets:
                            if 4 in e.in_clusters:
                                expect_pkts.append((e.device.ieee, e.endpoint_id, 4, 2))
                                if a not in ("garbage", "lost", "fail") and not a.startswith("default"):
                                    now = w.on_air.get(e.unique_id_air, set()) if hasattr(e, "unique_id_air") else w.on_air.get((e.device.ieee, e.endpoint_id), set())
                                    for g in now:
                                        need(g)
                                        model[g].add(e.unique_id)
                                    for g, m in model.items():
                                        if g not in now:
                                            m.discard(e.unique_id)
                        if op == "scan":
                            await ep.group_membership_scan()
                        else:
                            await asyncio.sleep(150)
                    elif op == "group":
                        need(gid, name)
                        fails = None
                        g = groups.add_group(gid, name)
                        if g is not groups[gid]:
                            raise Violation("add-group", "returned group is not the stored one", w.wit())
                    elif op == "drop":
                        fails = None
                        if gid in model:
                            g = groups[gid]
                            del model[gid], names[gid]
                            r = groups.remove_group(rng.choice([gid, g, t.Group(gid)]))
                            if r is not g or g.members or list(g):
                                raise Violation("drop", "a removed group has members", w.wit())
                    elif op == "drop-missing":
                        fails = None
                        if gid not in model:
                            r = groups.pop(gid, None)
                            if r is not None:
                                raise Violation("drop", f"popping a missing group gave {r}", w.wit())
                            fails = "raise"
                            groups.remove_group(gid)
                    elif op in ("member", "unmember"):
                        fails = None
                        if gid in model:
                            if op == "member":
                                model[gid].add(ep.unique_id)
                                groups[gid].add_member(ep)
                            else:
                                model[gid].discard(ep.unique_id)
                                groups[gid].remove_member(ep)
                    else:  # the device changes its groups by itself
                        fails = None
                        s = w.on_air.setdefault((ep.device.ieee, ep.endpoint_id), set())
                        (s.discard if gid in s else s.add)(gid)
                except Violation:
                    raise
                except (asyncio.TimeoutError, zigpy.exceptions.ZigbeeException, KeyError) as e:
                    exc = e
                if (exc is not None) != (fails == "raise"):
                    raise Violation("failure-report", f"{op} with answer {a} ended with {exc!r}", w.wit())
                sent = [p[:4] for p in w.packets]
                if sent != expect_pkts:
                    raise Violation("packets", f"{op} sent {sent}, expected {expect_pkts}", w.wit())
                for p in w.packets:
                    if p[3] in (0, 3) and int.from_bytes(p[4][:2], "little") != gid:
                        raise Violation("packets", f"{op} of {gid} sent {p}", w.wit())
                    if p[3] == 0:
                        want = (name or "").encode()
                        if p[4][2:] != bytes([len(want)]) + want:
                            raise Violation("packets", f"name {name!r} sent as {p[4][2:]}", w.wit())
                    if p[3] == 2 and p[4] != b"\x00":
                        raise Violation("packets", f"scan sent {p}", w.wit())
                got = {int(k): set(v.members) for k, v in groups.items()}
                if got != model:
                    raise Violation("membership", f"after {op} with answer {a}: groups {got}, expected {model}", w.wit())
                if res is not None and has and (a == "ok" or a in STATUS) and int(res) != STATUS.get(a, 0):
                    raise Violation("result", f"{op} returned {res!r} for answer {a}", w.wit())
                if res is not None and not has and int(res) == 0:
                    raise Violation("result", f"{op} without Groups cluster returned {res!r}", w.wit())
                for g, n in names.items():
                    if n is not None and groups[g].name != n:
                        raise Violation("name", f"group {g} is named {groups[g].name!r}, added as {n!r}", w.wit())
                w.compare()
                ctx.evaluated((op, a if w.packets else None, before, has, gid in model))
                ctx.count(f"op_{op}")
                ctx.count(f"answer_{a}", len(w.packets))
                ctx.state("tables", tuple(sorted((k, len(v)) for k, v in model.items())))
            ctx.count("announcements", w.n_events)
            ctx.sample(w.trace[:10])

        vloop.run(main())

    def concurrent(rng):
        async def main():
            w = World(rng)
            w.answer = lambda: rng.choice(ANSWERS)
            w.latency = lambda: rng.choice([0.01, 0.1, 1]) * rng.random()
            groups = w.app.groups

            async def worker():
                for _ in range(rng.randrange(2, 8)):
                    await asyncio.sleep(rng.choice([0, 0.01, 1]) * rng.random())
                    ep, gid = rng.choice(w.eps), gids(rng)
                    op = rng.choice(["add", "add", "remove", "scan", "drop", "rejoin"])
                    w.trace.append((op, str(ep.unique_id), gid))
                    try:
                        if op == "drop":
                            if gid in groups:
                                groups.pop(gid)
                            continue
                        if op == "rejoin":
                            w.app.handle_join(ep.device.nwk, ep.device.ieee, None)
                            continue
                        coro = {"add": lambda: ep.add_to_group(gid), "remove": lambda: ep.remove_from_group(gid), "scan": ep.group_membership_scan}[op]()
                        if rng.random() < 0.2:
                            task = asyncio.ensure_future(coro)
                            await asyncio.sleep(0.3 * rng.random())
                            task.cancel()
                            await asyncio.gather(task, return_exceptions=True)
                        else:
                            await coro
                    except (asyncio.TimeoutError, zigpy.exceptions.ZigbeeException):
                        pass
                    w.compare()
                    ctx.evaluated(("concurrent", op))
                    ctx.count("concurrent_ops")

            await asyncio.gather(*(worker() for _ in range(rng.randrange(2, 6))))
            await asyncio.sleep(200)
            w.compare()
            # a complete scan of answering devices brings both sides to what the devices have
            w.answer = "ok"
            for ep in w.eps:
                await ep.group_membership_scan()
                if 4 in ep.in_clusters:
                    have = w.on_air.get((ep.device.ieee, ep.endpoint_id), set())
                    if {int(g) for g in ep.member_of} != have:
                        raise Violation("scan", f"after a scan {ep.unique_id} is in {set(ep.member_of)}, the device reported {have}", w.wit())
            w.compare()
            ctx.state("interleavings", tuple(map(str, w.trace)))
            ctx.count("announcements", w.n_events)

        vloop.run(main())

    for k in range(ctx.n(1200, 20000)):
        ctx.case(f"seq-{k}", sequential, ctx.rng("s", k))
    for k in range(ctx.n(1200, 20000)):
        ctx.case(f"conc-{k}", concurrent, ctx.rng("c", k))
    for op in ["add", "remove", "scan", "group", "drop", "drop-missing", "member", "unmember", "dev-add", "dev-remove", "drift", "rejoin"]:
        ctx.require(f"op_{op}", 250)
    ctx.require("concurrent_ops", 3000)
    ctx.require("announcements", 4000)
