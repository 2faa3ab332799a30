"""R08: one misbehaving event listener never affects the others."""

from __future__ import annotations

import asyncio

from harness import sim, vloop
from harness.core import Violation

import zigpy.group
import zigpy.topology
import zigpy.types as t
import zigpy.util

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: recording listeners with planted misbehaviour on every event-raising component; "
    "recorded deliveries compared with a reference model of registration order and survival"
)
NOTE = (
    "Applications, devices, endpoints, clusters, groups and bare components; up to 8 listeners with or "
    "without context that raise, return errors, are not awaitable, miss the event, unregister themselves or others or "
    "register new ones during delivery; synchronous and asynchronous events; real events driven by packets."
)
RULE = "One evaluation is one raised event; non-trivial: distinct (component, event flavour, listener line-up)."


class Bare(zigpy.util.ListenableMixin):
    pass


def run(ctx):
    def components(rng):
        app = sim.make_app()
        dev = sim.add_ready_device(app, sim.eui(0xB01), 0x1301)
        app.groups.add_group(5, "five")
        return app, dev, [
            ("app", app), ("device", dev), ("endpoint", dev.endpoints[1]), ("cluster", dev.endpoints[1].in_clusters[6]),
            ("groups", app.groups), ("group", app.groups[5]), ("zdo", dev.zdo), ("topology", app.topology), ("bare", Bare()),
        ]  # fmt: skip

    class Lst:
        def __init__(self, name, flavour, context, log, comp):
            self.name, self.flavour, self.context, self.log, self.comp = name, flavour, context, log, comp
            self.other = None
            self.others = None
            if flavour == "notimpl":
                return
            if flavour == "noncallable":
                self.ev = self.aev = 5
                return
            self.ev, self.aev = self._ev, self._aev

        def act(self, args):
            self.log.append((self.name, args))
            if self.flavour == "self":
                self.comp.remove_listener(self)
            elif self.flavour == "other":
                self.comp.remove_listener(self.other)
            elif self.flavour == "all":
                for o in self.others:
                    self.comp.remove_listener(o)
            elif self.flavour == "add":
                self.comp.add_listener(Lst(f"new{self.name}", "ok", False, self.log, self.comp))

        def _ev(self, *args):
            self.act(args)
            if self.flavour == "raise":
                raise RuntimeError("listener")
            if self.flavour == "raiseval":
                raise KeyError(self.name)
            return ("r", self.name)

        def _aev(self, *args):
            self.act(args)
            if self.flavour in ("raise",):
                raise RuntimeError("listener")  # synchronously
            if self.flavour == "notawaitable":
                return 17

            async def go():
                await asyncio.sleep(hash(self.name) % 3 * 0.1)
                if self.flavour == "raiseval":
                    raise ValueError(self.name)
                if self.flavour == "cancelled":
                    raise asyncio.CancelledError
                return ("r", self.name)

            return go()

    async def history(idx):
        rng = ctx.rng(idx)
        app, dev, comps = components(rng)
        for cname, comp in rng.sample(comps, 4):
            base = set(comp._listeners)
            log = []
            regs = []
            for k in range(rng.randint(1, 8)):
                flavour = rng.choice(["ok", "ok", "ok", "raise", "raiseval", "self", "other", "all", "add", "notimpl", "noncallable", "notawaitable", "cancelled"])
                lst = Lst(k, flavour, rng.random() < 0.4, log, comp)
                regs.append(lst)
                (comp.add_context_listener if lst.context else comp.add_listener)(lst)
            for lst in regs:
                lst.other = rng.choice(regs)
                lst.others = list(regs)
            model = list(regs)  # registered, in order
            for _ in range(rng.randint(1, 4)):
                asy = rng.random() < 0.5
                args = tuple(rng.choice([1, "x", b"", None, (2, 3)]) for _ in range(rng.randint(0, 3)))
                del log[:]
                line = list(model)
                try:
                    if asy:
                        res = await comp.async_event("aev", *args)
                    else:
                        res = comp.listener_event("ev", *args)
                except Exception as e:  # noqa: BLE001
                    raise Violation("error-reached-component", f"{cname} async={asy}: {e!r}", [(x.name, x.flavour) for x in line]) from None
                # model: a removed listener may or may not see the event in progress
                removed, must, results = set(), [], []
                added = []
                for x in line:
                    if x.flavour == "self":
                        removed.add(x)
                    elif x.flavour == "other":
                        removed.add(x.other)
                    elif x.flavour == "all":
                        removed.update(x.others)
                    elif x.flavour == "add":
                        added.append(x)
                implements = [x for x in line if x.flavour not in ("notimpl", "noncallable")]
                full = [(x.name, ((comp,) if x.context else ()) + args) for x in implements]
                got = list(log)
                gotnames = [g[0] for g in got]
                for want in full:
                    n = got.count(want)
                    x = regs[want[0]] if isinstance(want[0], int) else None
                    if n > 1 or (n == 0 and x not in removed):
                        raise Violation("delivery", f"{cname} async={asy}: listener {want[0]} called {n} times with {want[1]!r}", {"log": got, "line": [(x.name, x.flavour, x.context) for x in line]})
                order = [w[0] for w in full if w[0] in gotnames]
                if [g for g in gotnames if g in order] != order:
                    raise Violation("order", f"{cname}: delivered {gotnames}, registered {order}", None)
                bad = {"raise", "raiseval"} | ({"cancelled", "notawaitable"} if asy else set())
                want_res = [("r", w[0]) for w in full if w[0] in gotnames and not (isinstance(w[0], int) and regs[w[0]].flavour in bad)]
                if [r for r in res if isinstance(r, tuple) and r[1] in [w[0] for w in full]] != want_res or (any(not isinstance(r, tuple) for r in res)):
                    raise Violation("results", f"{cname} async={asy}: results {res}, expected {want_res}", [(x.name, x.flavour) for x in line])
                for x in removed:
                    if x in model:
                        model.remove(x)
                # `add` registers new ones: forget them again to keep the model simple
                for key, (o, _) in list(comp._listeners.items()):
                    if isinstance(o, Lst) and isinstance(o.name, str):
                        comp.remove_listener(o)
                live = [o for key, (o, _) in comp._listeners.items() if isinstance(o, Lst)]
                if live != model:
                    raise Violation("registry", f"{cname}: {[x.name for x in live]} registered, expected {[x.name for x in model]}", None)
                ctx.count("async_events" if asy else "events")
                ctx.count("misbehaving", sum(x.flavour != "ok" for x in line))
                ctx.count("deliveries", len(got))
                ctx.evaluated((cname, asy, tuple((x.flavour, x.context) for x in line)))
            for x in model:
                comp.remove_listener(x)
            if set(comp._listeners) != base:
                raise Violation("registry", f"{cname}: listeners left behind", None)
        # listeners which all compare equal to each other stay separate listeners
        b, log = Bare(), []

        class Equal(Lst):
            def __eq__(self, other):
                return isinstance(other, Equal)

            __hash__ = None

        twins = [Equal(i, "ok", False, log, b) for i in range(rng.randint(2, 5))]
        for x in twins:
            b.add_listener(x)
        expected = list(range(len(twins)))
        for i in rng.sample(range(len(twins)), len(twins)):
            b.remove_listener(twins[i])
            expected.remove(i)
            del log[:]
            b.listener_event("ev")
            if [e[0] for e in log] != expected:
                raise Violation("equal-listeners", f"after removing listener {i}: {[e[0] for e in log]} told, expected {expected}")
            ctx.count("equal_listener_removals")
        # the same listener registered twice, removed once
        b, log = Bare(), []
        x = Lst(0, "ok", False, log, b)
        b.add_listener(x)
        b.add_context_listener(x)
        b.listener_event("ev")
        if log != [(0, ()), (0, (b,))]:
            raise Violation("double-registration", repr(log))
        b.remove_listener(x)
        b.listener_event("ev")
        if len(log) != 3:
            raise Violation("double-registration", repr(log))

    async def real_events(idx):
        """The library's own events, with saboteurs registered before and after a witness."""
        rng = ctx.rng("real", idx)
        app, dev, comps = components(rng)
        log = []

        class Witness:
            def __init__(self, name, comp):
                self.name, self.comp = name, comp

            def __getattr__(self, attr):
                if attr.startswith("__"):
                    raise AttributeError(attr)

                def rec(*args):
                    log.append((self.name, attr, len(args)))

                return rec

        class Saboteur(Witness):
            def __getattr__(self, attr):
                if attr.startswith("__"):
                    raise AttributeError(attr)

                def rec(*args):
                    if rng.random() < 0.3:
                        self.comp.remove_listener(self)
                    raise rng.choice([RuntimeError, KeyError, ValueError, AttributeError])("sabotage")

                return rec

        for cname, comp in comps:
            sab = [Saboteur(f"s{cname}", comp) for _ in range(3)]
            wit = [Witness(f"{cname}{i}", comp) for i in range(2)]
            for x in (sab[0], wit[0], sab[1], wit[1], sab[2]):
                (comp.add_context_listener if rng.random() < 0.3 else comp.add_listener)(x)

        def check(comp, event, fn, n=1):
            del log[:]
            try:
                fn()
            except Exception as e:  # noqa: BLE001
                raise Violation("error-reached-component", f"{comp}.{event}: {e!r}") from None
            names = [e[0] for e in log if e[1] == event and e[0][:-1] == comp]
            if names != [f"{comp}0", f"{comp}1"] * n:
                raise Violation("real-event", f"{comp}.{event}: delivered to {names} ({n} expected)", list(log))
            ctx.count("real_events")
            ctx.evaluated((comp, event, "real"))

        on = dev.endpoints[1].in_clusters[6]
        check("cluster", "attribute_updated", lambda: app.packet_received(sim.rx(dev, 6, sim.zcl_hdr(1, 0x0A, s2c=True) + b"\0\0\x10\x01")))
        check("cluster", "cluster_command", lambda: app.packet_received(sim.rx(dev, 6, sim.zcl_hdr(2, 2, cluster=True))))
        check("cluster", "general_command", lambda: app.packet_received(sim.rx(dev, 6, sim.zcl_hdr(3, 0x0A, s2c=True) + b"\0\0\x10\x00")))
        check("device", "device_last_seen_updated", lambda: app.packet_received(sim.rx(dev, 6, sim.zcl_hdr(4, 0x0A, s2c=True) + b"\0\0\x10\x01")))
        check("device", "device_relays_updated", lambda: app.handle_relays(dev.nwk, [1, 2]))
        check("app", "device_joined", lambda: app.handle_join(0x2222, sim.eui(0xB55), 0))
        check("app", "device_left", lambda: app.handle_leave(dev.nwk, dev.ieee))
        check("app", "device_initialized", lambda: app.device_initialized(dev))
        check("groups", "group_added", lambda: app.groups.add_group(9, "nine"))
        check("groups", "group_member_added", lambda: app.groups[5].add_member(dev.endpoints[1]))
        check("group", "member_added", lambda: app.groups[5].add_member(dev.endpoints[1]), 0)
        check("groups", "group_member_removed", lambda: app.groups[5].remove_member(dev.endpoints[1]))
        check("groups", "group_removed", lambda: app.groups.pop(9))
        check("zdo", "device_announce", lambda: app.packet_received(sim.rx(dev, 0x13, b"\x09" + sim.u16(dev.nwk) + dev.ieee.serialize() + b"\x8e", profile=0, src_ep=0, dst_ep=0)))
        check("zdo", "zdo_device_annce", lambda: app.packet_received(sim.rx(dev, 0x13, b"\x0a" + sim.u16(dev.nwk) + dev.ieee.serialize() + b"\x8f", profile=0, src_ep=0, dst_ep=0)))
        check("zdo", "permit_duration", lambda: app.packet_received(sim.rx(dev, 0x36, b"\x0b\x3c\x00", profile=0, src_ep=0, dst_ep=0)))
        check("cluster", "attribute_cleared", lambda: on.update_attribute(0, None))
        check("cluster", "unsupported_attribute_added", lambda: on.add_unsupported_attribute(0x4003))
        check("cluster", "unsupported_attribute_removed", lambda: on.remove_unsupported_attribute(0x4003))
        check("app", "connection_lost", lambda: app.connection_lost(RuntimeError("x")))
        check("app", "device_removed", lambda: app.listener_event("device_removed", dev))
        await vloop.settle()

    for k in range(ctx.n(2500, 80000)):
        ctx.case(k, lambda: vloop.run(history(k)))
    for k in range(ctx.n(150, 2000)):
        ctx.case(f"real-{k}", lambda: vloop.run(real_events(k)))
    for n, m in [("events", 3000), ("async_events", 3000), ("misbehaving", 8000), ("deliveries", 10000), ("real_events", 1000), ("equal_listener_removals", 3000)]:
        ctx.require(n, m)
