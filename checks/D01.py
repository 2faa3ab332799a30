"""D01: interviews end with a complete device or an announced failure."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.device
import zigpy.types as t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: an online reference interview is stepped by every packet seen at the radio and every announced "
    "event while simulated devices lose, fail, delay, repeat or garble single exchanges and rejoin at arbitrary moments"
)
NOTE = (
    "Simulated devices with 0-5 endpoints (inactive ones, repeated ones, endpoint 0 listed, missing or partial model "
    "information) answer each interview exchange with a scripted fate; joins, announcements and address responses with the "
    "same or a new network address and stray packets interrupt the interview. The reference predicts the next request, "
    "what is already known, the number of tolerated failures and the exact sequence of announcements."
)
RULE = "One evaluation is one simulated device history; non-trivial: distinct sequence of exchange fates and interruptions."
ASSUMPTIONS = [
    "a device whose descriptors are all known counts as initialised when it joins with a new address, even if its model was never read",
    "stray packets of a device with incomplete descriptors start a new interview, as the application documents",
]
BAD = ["lost", "noreply", "fail", "err", "err-short", "err-bare", "err-full", "late", "garbage"]


class Fail(Exception):
    pass


class Ref:
    """What the interview of one device must do."""

    def __init__(self, node):
        self.node = node
        self.nd = None
        self.eps = None
        self.sd = {}
        self.cached = {}
        self.missing = {}
        self.model = self.manuf = None
        self.run = None
        self.pending = None  # (expected exchange, fate, delivered_at)
        self.want = None
        self.expected = []
        self.interviewed = set()  # positions of the announcements a finished interview makes
        self.observed = []
        self.runs = self.restarts = 0
        self.exchanges = 0
        self.ended = None

    @property
    def initialized(self):
        return self.nd is not None and bool(self.eps) and all(e in self.sd for e in self.eps)

    def start(self):
        if self.run is not None:
            self.settle_pending()
        if self.run is not None:
            self.restarts += 1
        self.runs += 1
        self.pending = None
        self.run = self.interview()
        self.want = None
        self.step(None)

    def step(self, outcome):
        try:
            self.want = self.run.send(outcome)
        except StopIteration as e:
            self.run = self.want = None
            self.ended = e.value
            if e.value:
                self.expected += ["raw", "init"]
                self.interviewed.add(len(self.expected))
            else:
                self.expected += ["failure"]

    def settle_pending(self):
        """Keep what the pending exchange has brought."""
        if self.pending is None:
            return
        fate, delivered = self.pending
        if fate == "ok" and delivered <= asyncio.get_running_loop().time():
            self.pending = None
            self.step(fate)

    def over(self):
        """Something showed that the current exchange is finished, whatever its outcome."""
        if self.pending is not None:
            fate, delivered = self.pending
            if fate == "ok" and (delivered is None or delivered > asyncio.get_running_loop().time()):
                raise Violation("early-progress", "the interview moved on before the answer arrived", self.witness())
            self.pending = None
            self.step(fate)

    def witness(self):
        return {"want": self.want, "log": self.log_[-40:], "expected": self.expected, "observed": self.observed}

    def interview(self):
        for _ in range(5):
            try:
                yield from self.attempt()
            except Fail:
                continue
            return True
        return False

    def attempt(self):
        n = self.node
        if self.nd is None:
            if (yield ("zdo", 2, None)) != "ok":
                raise Fail
            self.nd = n.node_desc_bytes()
        if not self.eps:
            if (yield ("zdo", 5, None)) != "ok":
                raise Fail
            eps = []
            for e in n.active_list:
                if e != 0 and e not in eps:
                    eps.append(e)
            self.eps = eps
        if not self.eps or not all(e in self.sd for e in self.eps):
            for e in self.eps:
                if e in self.sd:
                    continue
                if (yield ("zdo", 4, e)) != "ok":
                    raise Fail
                self.sd[e] = n.endpoints.get(e)
        if self.model is None or self.manuf is None:
            for e in self.eps:
                if self.model is not None and self.manuf is not None:
                    break
                if self.sd[e] is None or 0 not in self.sd[e][2]:
                    continue
                cached, missing = self.cached.setdefault(e, {}), self.missing.setdefault(e, set())
                for names in ([4, 5], [4], [5]):
                    want = [a for a in names if a not in cached and a not in missing]
                    if not want:
                        continue
                    r = yield ("read", e, tuple(want))
                    if r == "ok":
                        for a in want:
                            v = n.model_attrs.get((e, a))
                            if v is None:
                                missing.add(a)
                            else:
                                cached[a] = v
                    elif r == "timeout" and len(names) == 2:
                        continue
                    elif r == "default":
                        continue
                    else:
                        raise Fail
                if 5 in cached:
                    self.model = cached[5]
                if 4 in cached:
                    self.manuf = cached[4]


def make_node(rng, idx, nwk):
    n_eps = rng.choice([0, 1, 1, 1, 2, 2, 3, 5]) if rng.random() < 0.9 else 0
    ids = rng.sample([1, 2, 3, 8, 11, 13, 100, 232, 240, 242, 254], n_eps)
    eps, inactive = {}, []
    for e in ids:
        if rng.random() < 0.12:
            inactive.append(e)
            continue
        pool = [3, 4, 5, 6, 8, 0x0300, 0x0500, 0x0B04, 0xFC11, 0xFFF1]
        ins = rng.sample(pool, rng.randrange(0, 6))
        if rng.random() < 0.75:
            ins.insert(rng.randrange(len(ins) + 1), 0)
        outs = rng.sample(pool + [0x19, 0x0A, 0], rng.randrange(0, 5))
        prof = rng.choice([0x0104, 0x0104, 0xC05E, 0xA1E0, 0x1234])
        eps[e] = (prof, rng.choice([0x0100, 0x0000, 0x0051, 0x0302, 0x1234]), ins, outs)
    node = sim.SimNode(
        sim.eui(0x1000_0000 + idx + (rng.randrange(1 << 20) << 32)),
        nwk,
        logical=rng.choice([1, 1, 2]),
        caps=rng.choice([0x8E, 0x80, 0x8C]),
        manuf_code=rng.randrange(1 << 16),
        endpoints=eps,
        model=None,
    )
    node.endpoints = eps  # (an empty mapping is meant)
    node.inactive = inactive
    node.inactive_eps = set(inactive)
    order = ids[:]
    if rng.random() < 0.1:
        order.insert(rng.randrange(len(order) + 1), 0)
    if order and rng.random() < 0.08:
        order.append(rng.choice(order))
    node.active_list = order
    node.zdo_override[0x0005] = lambda p: b"\x00" + sim.u16(node.nwk) + bytes([len(order)]) + bytes(order)
    node.model_attrs = {}
    # Some devices spread the two over their endpoints
    with_basic = [e for e in ids if e in eps and 0 in eps[e][2]]
    only = {}
    if len(with_basic) > 1 and rng.random() < 0.4:
        only = {e: rng.choice([(4,), (5,), ()]) for e in with_basic}
    for e, (_, _, ins, _) in eps.items():
        if 0 in ins:
            for a, word in ((4, "Maker"), (5, "Model")):
                if a in only[e] if e in only else rng.random() < 0.8:
                    s = f"{word}-{rng.randrange(1000)}" if rng.random() < 0.85 else rng.choice(["", "ünï-1", "x" * 60])
                    node.model_attrs[(e, a)] = s
                    node.attrs.setdefault((e, 0), {})[a] = (0x42, sim.lvstr(s))
    return node


class World:
    def __init__(self, ctx, rng, nnodes, mode):
        self.ctx, self.rng, self.mode = ctx, rng, mode
        self.app = sim.make_app()
        self.net = sim.SimNet(self.app, rng)
        self.app.on_send = self.on_send
        self.refs = {}
        self.events = []
        self.script = {}
        for i in range(nnodes):
            node = make_node(rng, i, 0x1000 + i)
            self.net.add(node)
            r = Ref(node)
            r.log_ = []
            self.refs[node.ieee] = r
        self.app.add_listener(self)

    # --- events announced by the application
    def ev(self, name, dev):
        r = self.refs[dev.ieee]
        r.over()
        r.observed.append(name)
        r.log_.append((self.now(), "event", name))
        if r.observed != r.expected[: len(r.observed)]:
            # the order of the announcements within one moment is judged when both are known
            if r.observed[-1] != r.expected[len(r.observed) - 1 : len(r.observed)]:
                raise_later(self, Violation("announcement", f"{name} announced, expected {r.expected[len(r.observed)-1:]}", r.witness()))
        if name == "init":
            self.check_device(r, dev)
            if len(r.observed) in r.interviewed and dev.status != zigpy.device.Status.ENDPOINTS_INIT:
                raise_later(self, Violation("status", f"status of the interviewed device is {dev.status!r}", r.witness()))

    def now(self):
        return round(asyncio.get_running_loop().time() - 1000, 4)

    def device_joined(self, dev):
        self.ev("joined", dev)

    def raw_device_initialized(self, dev):
        self.ev("raw", dev)

    def device_initialized(self, dev):
        self.ev("init", dev)

    def device_init_failure(self, dev):
        self.ev("failure", dev)

    def check_device(self, r, dev):
        n = r.node
        w = r.witness()
        if self.app.devices.get(n.ieee) is not dev:
            raise_later(self, Violation("not-in-table", "the announced device is not the one in the table", w))
        got = {
            "node_desc": dev.node_desc.serialize() if dev.node_desc is not None else None,
            "nwk": int(dev.nwk),
            "endpoints": {
                e: (None if ep.status == 3 else (int(ep.profile_id), int(ep.device_type), sorted(ep.in_clusters), sorted(ep.out_clusters)))
                for e, ep in dev.endpoints.items()
                if e != 0
            },
            "model": dev.model,
            "manufacturer": dev.manufacturer,
        }
        want = {
            "node_desc": r.nd,
            "nwk": n.nwk,
            "endpoints": {e: (None if s is None else (s[0], s[1], sorted(set(s[2])), sorted(set(s[3])))) for e, s in r.sd.items()},
            "model": r.model,
            "manufacturer": r.manuf,
        }
        for k in got:
            if got[k] != want[k]:
                raise_later(self, Violation(f"device:{k}", f"{k} is {got[k]!r}, the device reported {want[k]!r}", w))
        self.ctx.count("devices_compared")

    # --- packets
    async def on_send(self, pkt):
        node = self.net.node_for(pkt)
        if node is None:
            return
        r = self.refs[node.ieee]
        data = pkt.data.serialize()
        if pkt.dst_ep == 0:
            what = ("zdo", int(pkt.cluster_id), data[3] if pkt.cluster_id == 4 else None)
        else:
            h = sim.parse_zcl(data)
            if pkt.cluster_id == 4:
                for rep in node.handle(pkt):
                    asyncio.get_running_loop().call_later(0.013 + self.rng.random() / 100, self.deliver, node, *rep)
                return
            ids = tuple(int.from_bytes(h["payload"][i : i + 2], "little") for i in range(0, len(h["payload"]) - 1, 2))
            what = ("read", pkt.dst_ep, tuple(sorted(ids))) if pkt.cluster_id == 0 and h["cmd"] == 0 and not h["cluster"] else ("zcl", pkt.dst_ep, int(pkt.cluster_id), h["cmd"])
        r.over()
        r.log_.append((self.now(), "request", what))
        if r.want is None:
            raise_later(self, Violation("unexpected-request", f"{what} requested while no interview should run", r.witness()))
            return
        if what != r.want:
            raise_later(self, Violation("wrong-request", f"{what} requested, expected {r.want}", r.witness()))
            return
        r.exchanges += 1
        self.ctx.count("exchanges")
        fate = self.fate(r, what)
        r.log_.append((self.now(), "fate", fate))
        self.ctx.count(f"fate_{fate}")
        loop = asyncio.get_running_loop()
        lat = 0.011 + self.rng.random() / 50
        replies = [] if fate == "lost" else node.handle(pkt)
        if fate == "fail":
            r.pending = ("fail", None)
            raise sim.zigpy.exceptions.DeliveryError("no ack")
        if fate in ("lost", "noreply"):
            r.pending = ("timeout", None)
            return
        if fate == "late":
            r.pending = ("timeout", None)
            lat = 29 + self.rng.random() * 5
        elif fate == "slow":
            lat = 0.5 + self.rng.random() * 4.2
        if fate in ("ok", "slow", "dup"):
            r.pending = ("ok", loop.time() + lat)
        if fate in ("err", "err-short", "err-bare", "err-full", "garbage"):
            cluster, prof, se, de, d = replies[0]
            if what[0] == "read":
                # a default response carrying a failure
                h = sim.parse_zcl(data)
                replies = [(cluster, prof, se, de, node.default_rsp(h, self.rng.choice([0x01, 0x81, 0x82])))]
                r.pending = ("default", loop.time() + lat)
            else:
                st = self.rng.choice([0x80, 0x81, 0x82, 0x84, 0x85, 0x88])
                body = bytes([st]) + sim.u16(node.nwk)
                if fate == "err":
                    body += {2: b"", 4: b"\x00", 5: b"\x00"}[what[1]]
                elif fate == "err-bare":
                    body = body[:1]
                elif fate == "err-full":  # a failure that carries a descriptor all the same
                    body = body[:1] + d[2:]
                elif fate == "garbage":
                    body = d[1 : self.rng.randrange(1, max(2, len(d) - 1))]
                replies = [(cluster, prof, se, de, d[:1] + body)]
                r.pending = ("err", loop.time() + lat)
        for rep in replies:
            loop.call_later(lat, self.deliver, node, *rep)
            if fate == "dup":
                loop.call_later(lat + 0.001, self.deliver, node, *rep)

    def fate(self, r, what):
        rng = self.rng
        if self.mode == "clean":
            return rng.choice(["ok", "ok", "slow", "dup"])
        if isinstance(self.mode, tuple):  # exactly these failing attempts in a row at exchange k
            k, nfail = self.mode
            if r.exchanges > k and r.script_left > 0:
                r.script_left -= 1
                f = rng.choice(BAD)
            else:
                f = "ok"
        else:
            f = rng.choice(BAD) if rng.random() < self.mode else rng.choice(["ok", "ok", "ok", "slow", "dup"])
        if f == "err-short" and what[0] == "zdo" and what[1] == 2:
            f = "err"
        if f == "garbage" and what[0] == "read":
            f = "noreply"
        return f

    def deliver(self, node, cluster, profile, se, de, data):
        # anything heard from a device that is not being interviewed and not known starts an interview
        r = self.refs[node.ieee]
        known = node.ieee in self.app.devices
        if known:
            if r.pending is not None and r.pending[1] is not None and r.pending[1] <= asyncio.get_running_loop().time():
                pass
            self.heard(r)
        self.net.deliver(node, cluster, profile, se, de, data)

    def heard(self, r):
        self.flush_failures(r)
        if r.run is None and not r.initialized:
            r.log_.append((self.now(), "heard"))
            r.start()

    def flush_failures(self, r):
        # an interview that ended without any further packet has announced its end already
        pass

    def join(self, r, how, nwk):
        """The device announces itself."""
        n = r.node
        known = n.ieee in self.app.devices
        moved = known and nwk != n.nwk
        if moved:
            del self.net.nodes[n.nwk]
            n.nwk = nwk
            self.net.nodes[nwk] = n
        r.settle_pending()
        r.log_.append((self.now(), "join", how, nwk, "moved" if moved else "known" if known else "new"))
        if not known or moved:
            r.expected.append("joined")
        if (not known or moved) and r.initialized and r.run is None:
            r.expected += ["raw", "init"]
        elif not known or moved or not r.initialized:
            r.start()
        if how == "join":
            self.app.handle_join(t.NWK(nwk), n.ieee, None)
        elif how == "annce":
            self.app.packet_received(
                sim.rx(nwk, 0x0013, b"\x77" + sim.u16(nwk) + n.ieee.serialize() + b"\x8e", profile=0, src_ep=0, dst_ep=0)
            )
        else:
            self.app.packet_received(
                sim.rx(nwk, 0x8001, b"\x78\x00" + n.ieee.serialize() + sim.u16(nwk), profile=0, src_ep=0, dst_ep=0)
            )

    def stray(self, r):
        n = r.node
        if n.ieee not in self.app.devices:
            return
        kind = self.rng.randrange(3)
        r.settle_pending()
        self.heard(r)
        if kind == 0:
            pkt = sim.rx(n.nwk, 0x0013 | 0x8000, b"\x55\x00", profile=0, src_ep=0, dst_ep=0)
        else:
            ep = self.rng.choice(list(n.endpoints) or [1])
            pkt = sim.rx(
                n.nwk, self.rng.choice([0, 6, 8]), sim.zcl_hdr(self.rng.randrange(256), 0x0A, s2c=True) + b"\x00\x00\x20\x01", src_ep=ep, dst_ep=1
            )
        self.app.packet_received(pkt)


def raise_later(world, v):
    if not hasattr(world, "bad"):
        world.bad = v


def run(ctx):
    def case(rng, mode, interrupts, nnodes):
        async def main():
            w = World(ctx, rng, nnodes, mode)
            loop = asyncio.get_running_loop()
            refs = list(w.refs.values())
            for r in refs:
                r.script_left = mode[1] if isinstance(mode, tuple) else 0
            nxt = 0x2000

            async def device(r):
                nonlocal nxt
                await asyncio.sleep(rng.random() * 0.5)
                w.join(r, rng.choice(["join", "annce", "addr"]), r.node.nwk)
                for _ in range(interrupts):
                    await asyncio.sleep(rng.choice([0.01, 0.05, 0.3, 3, 20, 60, 200]) * (0.3 + rng.random()))
                    if w.__dict__.get("bad"):
                        return
                    k = rng.random()
                    if k < 0.35:
                        w.join(r, rng.choice(["join", "annce", "addr"]), r.node.nwk)
                    elif k < 0.7:
                        nxt += 1
                        w.join(r, rng.choice(["join", "annce", "addr"]), nxt)
                    else:
                        w.stray(r)

            await asyncio.gather(*(device(r) for r in refs))
            for _ in range(40):
                await asyncio.sleep(100)
                if all(r.run is None for r in refs):
                    break
            await asyncio.sleep(200)
            if w.__dict__.get("bad"):
                raise w.bad
            for r in refs:
                r.over()
                if r.run is not None:
                    raise Violation("stuck", f"the interview stopped while waiting for {r.want}", r.witness())
                if r.observed != r.expected:
                    raise Violation("announcements", f"announced {r.observed}, expected {r.expected}", r.witness())
                d = w.app.devices[r.node.ieee]
                if d.initializing:
                    raise Violation("stuck", "still marked as initialising", r.witness())
                if d.is_initialized and not r.initialized:
                    raise Violation("reported-initialised", "incomplete device reported as initialised", r.witness())
                ctx.count("completed", r.observed.count("init"))
                ctx.count("failed", r.observed.count("failure"))
                ctx.count("restarts", r.restarts)
                ctx.count("histories")
                fates = tuple(x[2] for x in r.log_ if x[1] in ("fate",)) + tuple(x[1:] for x in r.log_ if x[1] == "join" and False)
                ctx.state("fate_sequences", fates)
                ctx.evaluated((fates, tuple(r.observed), r.runs), nontrivial=len(fates) > 0)
            for u in loop.unhandled:
                if u.get("exception") is not None:
                    raise Violation("unhandled", f"unhandled {u['exception']!r}", refs[0].witness())
            ctx.sample([(r.log_[:12], r.observed) for r in refs])

        vloop.run(main())

    n = ctx.n(90, 1500)
    for i in range(n):
        rng = ctx.rng("clean", i)
        ctx.case(f"clean-{i}", case, rng, "clean", 0, 1)
    for i in range(ctx.n(600, 8000)):
        rng = ctx.rng("script", i)
        ctx.case(f"script-{i}", case, rng, (i % 9, i // 9 % 7), 0, 1)
    for i in range(ctx.n(600, 8000)):
        rng = ctx.rng("loss", i)
        ctx.case(f"loss-{i}", case, rng, rng.choice([0.1, 0.3, 0.5, 0.8, 1.0]), 0, 1)
    for i in range(ctx.n(1500, 20000)):
        rng = ctx.rng("history", i)
        ctx.case(f"history-{i}", case, rng, rng.choice(["clean", 0.1, 0.3, 0.6]), rng.randrange(1, 8), rng.choice([1, 1, 2, 3]))
    ctx.require("histories", 1000)
    ctx.require("completed", 600)
    ctx.require("failed", 150)
    ctx.require("restarts", 150)
    ctx.require("devices_compared", 600)
