"""O04: firmware sources and update notifications follow the configuration."""

from __future__ import annotations

import asyncio
import math
import pathlib
import shutil
import tempfile
import warnings

from harness import sim, vloop
from harness.core import Violation

import zigpy.config as conf
import zigpy.ota.providers as prov
import zigpy.types as t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: every source consulted for firmware queries is recorded and compared with a model of the "
    "configuration; every notification at the radio is judged by a model of the schedule on a virtual clock"
)
NOTE = (
    "Random configurations of sources (listed, extra, disabled, overriding, deprecated keys) queried by devices of many "
    "manufacturers; random schedules of notifications with failing and slow transmissions, restarts, stops and networks of "
    "different size."
)
RULE = (
    "One evaluation: one configuration with its queries, or one schedule of notifications. Non-trivial: the configuration "
    "enables a source beyond the default ones or removes one; the schedule has at least two notifications."
)
ASSUMPTIONS = ["the key `allow_advanced_ota_dir` and the folder given with it are documented as unused and not judged"]

# kind -> (manufacturer codes, default URL known to exist)
CODES = {
    "ikea": {4476}, "ledvance": {4489, 4364}, "salus": {4216, 43981}, "sonoff": {4742}, "inovelli": {4655},
    "thirdreality": {4659, 4877, 5127}, "z2m": set(), "z2m_local": set(), "zigpy_local": set(), "zigpy_remote": set(), "advanced": set(),
}  # fmt: skip
DEFAULT = ["ledvance", "sonoff", "inovelli", "thirdreality"]
LEGACY = {
    "ikea": conf.CONF_OTA_IKEA, "inovelli": conf.CONF_OTA_INOVELLI, "ledvance": conf.CONF_OTA_LEDVANCE, "salus": conf.CONF_OTA_SALUS,
    "sonoff": conf.CONF_OTA_SONOFF, "thirdreality": conf.CONF_OTA_THIRDREALITY, "z2m": conf.CONF_OTA_Z2M_REMOTE_INDEX,
}  # fmt: skip
MANUFS = sorted({c for s in CODES.values() for c in s} | {0x1234, 0x5678, 0x0000, 0xFFFE})


class Src:
    """A source: kind, where it is (None: its default place), which manufacturers it serves."""

    def __init__(self, kind, where=None, manufs=None, override=False):
        self.kind, self.where, self.override = kind, where, override
        self.manufs = frozenset(CODES[kind] if manufs is None else manufs)

    def key(self):
        return (self.kind, self.where, self.manufs)

    def serves(self, manuf):
        return not self.manufs or manuf in self.manufs


def rand_src(rng, root, n):
    kind = rng.choice(list(CODES))
    d = {"type": kind}
    where = manufs = None
    if kind in ("z2m_local", "zigpy_local"):
        where = str(root / f"index{rng.randrange(3)}.json")
        d["index_file"] = rng.choice([where, pathlib.Path(where)])
    elif kind == "advanced":
        where = str(root / f"dir{rng.randrange(2)}")
        d["path"] = where
        d["warning"] = conf.CONF_OTA_ALLOW_ADVANCED_DIR_STRING
    elif kind == "zigpy_remote" or rng.random() < 0.5:
        where = f"https://host{rng.randrange(4)}.example.org/{kind}.json"
        d["url"] = where
    if rng.random() < 0.4:
        manufs = rng.sample(MANUFS, rng.choice([0, 1, 1, 2, 3]))  # none at all: every manufacturer
        d["manufacturer_ids"] = manufs if rng.random() < 0.7 else [hex(m) for m in manufs]
    elif rng.random() < 0.2:
        d["manufacturer_ids"] = None
    over = rng.random() < 0.25
    if over or rng.random() < 0.2:
        d["override_previous"] = over
    return d, Src(kind, where, manufs, over)


def rand_config(rng, root, sink):
    """(configuration, model: list of sources)"""
    cfg = {conf.CONF_OTA_ENABLED: rng.choice([True, True, True, "on", False]), conf.CONF_OTA_BROADCAST_ENABLED: False}
    enabled = cfg[conf.CONF_OTA_ENABLED] is not False
    with_ = [Src(k) for k in DEFAULT]
    if rng.random() < 0.4:
        rs = [rand_src(rng, root, k) for k in range(rng.randrange(4))]
        cfg[conf.CONF_OTA_PROVIDERS] = [d for d, _ in rs]
        with_ = [s for _, s in rs]
    extra = []
    if rng.random() < 0.6:
        rs = [rand_src(rng, root, k) for k in range(rng.randint(0, 5))]
        cfg[conf.CONF_OTA_EXTRA_PROVIDERS] = [d for d, _ in rs]
        extra = [s for _, s in rs]
    without = set()
    if rng.random() < 0.5:
        names = rng.sample(list(CODES), rng.randint(1, 5))
        cfg[conf.CONF_OTA_DISABLE_DEFAULT_PROVIDERS] = names
        without = set(names) - {s.kind for s in extra}
    with_ = with_ + extra
    if rng.random() < 0.5:
        # one of the deprecated keys per kind of source; later keys cannot contradict earlier ones
        for kind, key in LEGACY.items():
            if rng.random() < 0.35:
                v = rng.choice([True, True, "yes", False, "off", f"https://legacy.example.org/{kind}"])
                cfg[key] = v
                if v in (False, "off"):
                    without.add(kind)
                else:
                    with_.append(Src(kind, v if str(v).startswith("http") else None))
                    without.discard(kind)
        if rng.random() < 0.3:
            p = str(root / "index1.json")
            cfg[conf.CONF_OTA_Z2M_LOCAL_INDEX] = p
            with_.append(Src("z2m_local", p))
            without.discard("z2m_local")
        if rng.random() < 0.3:
            lst = []
            for k in range(rng.randint(1, 2)):
                d = {"url": f"https://remote{k}.example.org/i.json"}
                manufs = []
                if rng.random() < 0.5:
                    manufs = d["manufacturer_ids"] = rng.sample(MANUFS, 2)
                lst.append(d)
                with_.append(Src("zigpy_remote", d["url"], manufs))
            without.discard("zigpy_remote")
            cfg[conf.CONF_OTA_REMOTE_PROVIDERS] = lst
    out = []
    for s in with_:
        if s.kind in without:
            continue
        if s.override:
            out = [o for o in out if o.kind != s.kind]
        out.append(s)
    return cfg, out if enabled else []


def describe(p):
    """The consulted source as the model names it; its default place is None."""
    kind = type(p).NAME
    where = getattr(p, "index_file", None) or getattr(p, "path", None)
    if where is None:
        where = p.url
        if where == type(p).DEFAULT_URL and kind != "zigpy_remote":
            where = None
    return (kind, None if where is None else str(where), frozenset(int(m) for m in p.manufacturer_ids))


def sources(ctx, idx, root):
    rng = ctx.rng("src", idx)
    cfg, model = rand_config(rng, root, ctx)
    consulted, broken = [], rng.random() < 0.3
    wit = {"config": repr(cfg), "model": [repr(s.key()) for s in model]}
    patched = []

    async def recording(self):
        consulted.append(self)
        if broken and len(consulted) % 2:
            raise OSError("unreachable")
        return []

    async def main():
        app = sim.make_app(**{conf.CONF_OTA: cfg})
        await app.startup()
        for k, manuf in enumerate(rng.sample(MANUFS, 6)):
            dev = sim.add_ready_device(app, sim.eui(0x100 + k), 0x100 + k)
            dev.node_desc = sim.node_desc(1, manuf=manuf)
            cmd = sim.zigpy.zcl.clusters.general.Ota.ServerCommandDefs.query_next_image.schema(
                field_control=0, manufacturer_code=manuf, image_type=1, current_file_version=1
            )
            consulted.clear()
            res = await app.ota.get_ota_images(dev, cmd)
            got = {describe(p) for p in consulted}
            want = {s.key() for s in model if s.serves(manuf)}
            w = {**wit, "manufacturer": manuf}
            if got - want:
                raise Violation("unexpected-source", f"consulted {got - want}", w)
            if want - got:
                raise Violation("missing-source", f"did not consult {want - got}", w)
            if res.upgrades or res.downgrades:
                raise Violation("images", f"images from nowhere {res}", w)
            ctx.count("queries")
            ctx.count("consultations", len(got))
        await app.shutdown()

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            for c in {prov.BaseOtaProvider, *prov.OTA_PROVIDER_TYPES.values()}:
                if "load_index" in c.__dict__:
                    patched.append((c, c.__dict__["load_index"]))
                    c.load_index = recording
            vloop.run(main())
        finally:
            for c, fn in patched:
                c.load_index = fn
    kinds = {s.kind for s in model}
    ctx.count("configurations")
    ctx.count("with_override", any(s.override for s in model))
    ctx.count("with_disabled", conf.CONF_OTA_DISABLE_DEFAULT_PROVIDERS in cfg)
    ctx.count("with_legacy", any(k in cfg for k in LEGACY.values()))
    ctx.state("kinds", tuple(sorted(kinds)))
    ctx.evaluated(tuple(sorted(map(str, (s.key() for s in model)))), kinds != set(DEFAULT))


def notifications(ctx, idx):
    rng = ctx.rng("ntf", idx)
    log, sent = [], []
    enabled, bcast = rng.random() < 0.9, rng.random() < 0.85
    delay = rng.choice([0, 0.1, 5, 3600, rng.uniform(0, 20000)])
    interval = rng.choice([1, 60, 3.9 * 3600, rng.uniform(0.5, 30000)])
    cfg = {conf.CONF_OTA_ENABLED: enabled, conf.CONF_OTA_PROVIDERS: []}
    if not bcast or rng.random() < 0.5:
        cfg[conf.CONF_OTA_BROADCAST_ENABLED] = bcast
    if rng.random() < 0.9:
        cfg[conf.CONF_OTA_BROADCAST_INITIAL_DELAY] = delay
    else:
        delay = 3.9 * 3600
    if rng.random() < 0.9:
        cfg[conf.CONF_OTA_BROADCAST_INTERVAL] = interval
    else:
        interval = 3.9 * 3600
    wit = lambda: {"config": repr(cfg), "log": log[-40:], "sent": [repr(s) for s in sent[-6:]]}  # noqa: E731

    async def main():
        loop = asyncio.get_running_loop()
        app = sim.make_app(**{conf.CONF_OTA: cfg})
        n_dev = rng.choice([0, 1, 5, 13, 14, 15, 16, 20, 29, 60, 149])
        nwk = app.state.node_info.nwk

        def grow(k):
            for _ in range(k):
                j = len(app.devices) + 1
                sim.add_ready_device(app, sim.eui(0x1000 + j), 0x1000 + j)

        state = {"next": None, "interval": interval, "busy": False, "gen": 0}
        mode = rng.choice(["ok", "ok", "fail", "slow", "mixed"])

        async def on_send(pkt):
            if pkt.dst.addr_mode != t.AddrMode.Broadcast or pkt.dst_ep == 0:
                return
            now = loop.time()
            sent.append((now, pkt))
            h = sim.parse_zcl(pkt.data.serialize())
            if (pkt.cluster_id, pkt.profile_id, h["cluster"], h["s2c"], h["cmd"]) != (0x19, 0x0104, True, True, 0):
                raise_later(Violation("other-broadcast", f"{pkt}", wit()))
                return
            n = len(app.devices)
            want_jit = {100} if n <= 15 else {math.floor(1500 / n), math.ceil(1500 / n)}
            p = h["payload"]
            if manual:
                addr, jit = manual[0]
                if jit is not None:
                    want_jit = {jit}
            else:
                addr = t.BroadcastAddress.ALL_DEVICES
                if state["next"] is None or abs(now - state["next"]) > 1e-6:
                    raise_later(Violation("schedule", f"notification at {now}, due at {state['next']}", wit()))
                state["next"], state["busy"] = None, True
            if (len(p), p[:1]) != (2, b"\x00") or p[1] not in want_jit:
                raise_later(Violation("content", f"notification {p.hex()} with {n} devices, expected share {want_jit}", wit()))
            if pkt.dst.address != addr or pkt.dst_ep != 0xFF or pkt.src_ep != 1 or pkt.src.address != nwk or h["tsn"] != pkt.tsn or not h["disable_default"]:
                raise_later(Violation("packet", f"{pkt}", wit()))
            ctx.count("notifications")
            ctx.state("devices", n)
            m = mode if mode != "mixed" else rng.choice(["ok", "fail", "slow"])
            log.append((now, "notification", m))
            gen, is_manual = state["gen"], bool(manual)
            try:
                if m == "slow":
                    await asyncio.sleep(rng.choice([0.01, 2, 90]))
                if m == "fail" or rng.random() < 0.1:
                    ctx.count("failed")
                    raise rng.choice([sim.zigpy.exceptions.DeliveryError("busy"), RuntimeError("broken"), TimeoutError(), ValueError()])
            finally:
                if not is_manual and gen == state["gen"]:
                    state["busy"] = False
                    state["next"] = loop.time() + state["interval"]

        fault = []

        def raise_later(v):
            fault.append(v)

        manual = []
        app.on_send = on_send
        await app.startup()
        grow(n_dev)
        active = enabled and bcast
        if active:
            state["next"] = loop.time() + delay
        else:
            state["interval"] = None
        log.append((loop.time(), "started", active))
        rounds = 0
        for _ in range(rng.randint(2, 8)):
            op = rng.choice(["wait", "wait", "wait", "grow", "manual", "restart", "stop", "start"])
            log.append((loop.time(), op))
            if op == "wait":
                iv = state["interval"] or interval
                await asyncio.sleep(min(40000, rng.choice([0.3, 1.5, 4.2]) * iv + rng.choice([0, delay])) + 0.003)
            elif op == "grow":
                grow(rng.randint(1, 9))
            elif op == "manual" and not state["busy"]:
                # time is standing still here: nothing scheduled may fall into a manual notification
                addr = rng.choice([t.BroadcastAddress.ALL_DEVICES, t.BroadcastAddress.RX_ON_WHEN_IDLE, t.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR])
                jit = rng.choice([None, 0, 1, 40, 100])
                if state["next"] is not None and state["next"] - loop.time() < 100:
                    continue
                manual.append((addr, jit))
                kw = {}
                if addr != t.BroadcastAddress.ALL_DEVICES or rng.random() < 0.5:
                    kw["broadcast_address"] = addr
                if jit is not None:
                    kw["jitter"] = jit
                before = len(sent)
                try:
                    await app.ota.broadcast_notify(**kw)
                except Exception as e:  # noqa: BLE001
                    log.append((loop.time(), repr(e)))
                manual.clear()
                if len(sent) != before + 1:
                    raise Violation("manual", f"{len(sent) - before} broadcasts for one call", wit())
                ctx.count("manual")
            elif op in ("stop", "restart", "start"):
                state["gen"] += 1
                state["busy"] = False
                if op != "start":
                    app.ota.stop_periodic_broadcasts()
                    state["next"] = state["interval"] = None
                if op != "stop":
                    state["interval"] = rng.choice([interval, 30, 700])
                    d = rng.choice([0, 1, delay])
                    app.ota.start_periodic_broadcasts(initial_delay=d, interval=state["interval"])
                    state["next"] = loop.time() + d
                    ctx.count("restarts")
                await asyncio.sleep(0)
                if state["next"] is not None:
                    await asyncio.sleep(0.001)
            if fault:
                raise fault[0]
            if state["next"] is not None and state["next"] < loop.time() - 1e-6:
                raise Violation("missed", f"no notification at {state['next']}, now {loop.time()}", wit())
            rounds += 1
        if rng.random() < 0.2:
            await asyncio.sleep(max(0, (state["next"] or 0) - loop.time()))  # stop at the very moment
            if fault:
                raise fault[0]
        state["gen"] += 1
        await app.shutdown()
        state["next"] = state["interval"] = None
        n = len(sent)
        await asyncio.sleep(100000)
        if len(sent) != n or fault:
            raise fault[0] if fault else Violation("after-shutdown", f"{len(sent) - n} notifications after shutdown", wit())
        ctx.count("schedules")
        ctx.count("inactive", not active)
        ctx.evaluated((idx, len(sent), mode), len(sent) >= 2)

    vloop.run(main())


def identity(ctx, idx, root):
    """Sources are the same exactly when kind, place and manufacturers are."""
    rng = ctx.rng("identity", idx)
    kinds = rng.choice([["advanced"], ["z2m_local"], ["zigpy_local", "z2m_local"], ["ikea"], ["z2m", "ikea"], list(CODES)])

    def one():
        kind = rng.choice(kinds)
        cls = prov.OTA_PROVIDER_TYPES[kind]
        kw = {}
        where = None
        if kind in ("z2m_local", "zigpy_local"):
            where = kw["index_file"] = root / f"index{rng.randrange(2)}.json"
        elif kind == "advanced":
            where = kw["path"] = root / f"dir{rng.randrange(2)}"
        elif rng.random() < 0.6 or kind == "zigpy_remote":
            where = kw["url"] = f"https://host{rng.randrange(2)}.example.org/"
        manufs = tuple(sorted(CODES[kind]))
        if rng.random() < 0.6:
            manufs = rng.choice([(), (1,), (1, 2)])
            kw["manufacturer_ids"] = rng.choice([list, tuple])(manufs)
        else:
            manufs = tuple(cls.MANUFACTURER_IDS)
        kw["override_previous"] = False
        return cls(**kw), (kind, str(where), manufs)

    made = [one() for _ in range(6)]
    for a, ka in made:
        for b, kb in made:
            if (a == b) is not (ka == kb) or (a != b) is (ka == kb):
                raise Violation("source-equality", f"{a} and {b} compare equal: {a == b}", [ka, kb])
            if ka == kb and hash(a) != hash(b):
                raise Violation("source-hash", f"{a}: equal ones hash differently", [ka, kb])
            ctx.count("equal_sources" if ka == kb else "different_sources")
    if len({a for a, _ in made}) != len({k for _, k in made}):
        raise Violation("source-set", f"{len({a for a, _ in made})} different of {made}", None)
    ctx.evaluated(("identity", tuple(sorted(k for _, k in made))))


def run(ctx):
    root = pathlib.Path(tempfile.mkdtemp(prefix="verif-o04-"))
    try:
        for k in range(3):
            (root / f"index{k}.json").write_text("{}")
        for k in range(2):
            (root / f"dir{k}").mkdir()
        for i in range(ctx.n(700, 12000)):
            ctx.case(f"sources-{i}", sources, ctx, i, root)
        for i in range(ctx.n(500, 12000)):
            ctx.case(f"notifications-{i}", notifications, ctx, i)
            ctx.case(f"identity-{i}", identity, ctx, i, root)
    finally:
        shutil.rmtree(root)
    ctx.require("configurations", 400)
    ctx.require("queries", 2000)
    ctx.require("consultations", 4000)
    ctx.require("with_override", 80)
    ctx.require("with_disabled", 150)
    ctx.require("with_legacy", 150)
    ctx.require("schedules", 400)
    ctx.require("notifications", 2000)
    ctx.require("failed", 300)
    ctx.require("manual", 100)
    ctx.require("restarts", 150)
    ctx.require("inactive", 50)
    ctx.require("equal_sources", 2000)
    ctx.require("different_sources", 2000)
