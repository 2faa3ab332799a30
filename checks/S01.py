"""S01: a restart restores everything that was persisted."""

from __future__ import annotations

import asyncio
import os
import shutil
import tempfile

from harness import dbwork, sim, vloop
from harness.core import Violation

import zigpy.types as t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: random histories on a real application with a real database file; the application's state is recorded at the "
    "moment of each clean shutdown and compared with the state a new application loads"
)
NOTE = (
    "Interviewed devices (plain, with class based and builder quirks, with inactive endpoints, several endpoints and profiles), reports and "
    "updates of every storable type, clearing, support changes, address changes, route records, groups and members, topology scans, removals "
    "with traffic and announcements in between, re-joins with other descriptors, network backups, shutdowns at any moment, several restarts, "
    "restarts with the quirks missing and present again. Database operations take no time or random time."
)
RULE = "One evaluation is one restart compared; non-trivial: distinct (devices, groups, tables, attributes, kinds of changes before it)."


def judge(ctx, want, got, what, skip=()):
    n = 0
    for key, msg in dbwork.compare(want, got):
        if key in skip:
            continue
        n += 1
        if key in ctx.known:
            ctx.violation(key, msg)
            continue
        raise Violation(key, f"{what}: {msg}")
    return n


async def history(ctx, rng, path):
    w = dbwork.World(rng, path)
    delay = rng.choice([None, None, lambda: rng.choice([0.0, 0.002, 0.05])])
    try:
        vloop.DbHooks.delay = delay
        await w.open()
        for r in range(rng.randrange(2, 5)):
            before = dict(w.stats)
            for _ in range(rng.randrange(0, 25)):
                await w.step()
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.choice([0, 0.01, 40]))
            if rng.random() < 0.5:
                await asyncio.sleep(60)
            want = await w.close()
            changed = tuple(sorted(k for k, v in w.stats.items() if v != before.get(k)))
            await w.open()
            judge(ctx, want, w.loaded, "after a restart")
            nat = 0
            for d in want["devices"].values():
                for e in d["endpoints"].values():
                    for c in e["clusters"].values():
                        nat += len(c["attrs"])
                        ctx.count("unsupported attributes restored", len(c["unsupported"]))
                if d["relays"]:
                    ctx.count("route records restored")
                if d["class"] != "Device":
                    ctx.count("quirked devices restored")
            ctx.count("restarts compared")
            ctx.count("devices restored", len(want["devices"]))
            ctx.count("attributes restored", nat)
            ctx.count("group memberships restored", sum(len(g[1]) for g in want["groups"].values()))
            ctx.count("neighbours restored", sum(map(len, want["neighbors"].values())))
            ctx.count("routes restored", sum(map(len, want["routes"].values())))
            ctx.count("backups restored", len(want["backups"]))
            ctx.state("histories", (changed, len(want["devices"]), len(want["groups"]), nat))
            ctx.evaluated((changed, len(want["devices"]), len(want["groups"]), len(want["neighbors"]), len(want["backups"]), nat > 0), len(changed) > 0)
            # loading alone changes nothing
            if rng.random() < 0.4:
                first = w.loaded
                await w.close()
                await w.open()
                judge(ctx, first, w.loaded, "after loading twice")
                ctx.count("idempotent reloads")
            # nor does loading without the quirks
            if rng.random() < 0.25:
                first = w.loaded
                await w.close()
                with dbwork.use_quirks(rng.choice([(), ("v1",), ("v2",)])):
                    await w.open()
                    if set(w.loaded["devices"]) != set(first["devices"]):
                        raise Violation("quirk-toggle", "devices are missing when their quirk is not installed")
                    for key, msg in dbwork.compare(first, w.loaded):
                        dev = msg.split()[1] if msg.startswith("device") else None
                        dev = dev and dev.rstrip(":")
                        if dev and first["devices"][dev]["class"] == "Device":
                            if key not in ctx.known:
                                raise Violation(key, f"a restart without the quirks changed an unrelated device: {msg}")
                        ctx.count("differences without quirks")
                    await w.close()
                await w.open()
                judge(ctx, first, w.loaded, "after restarting without and with the quirks again")
                ctx.count("quirks missing for one restart")
        await w.close()
    finally:
        vloop.DbHooks.reset()
    for k, v in w.stats.items():
        ctx.count(f"op {k}", v)
    return w


def case(ctx, i):
    rng = ctx.rng("history", i)
    d = tempfile.mkdtemp(prefix="s01-")
    try:
        with dbwork.use_quirks(("v1", "v2")):
            _, loop = vloop.run(history(ctx, rng, os.path.join(d, "z.db")), max_steps=3_000_000)
        for u in loop.unhandled:
            ctx.count("unhandled exceptions in the loop")
    finally:
        shutil.rmtree(d, ignore_errors=True)


async def recorded(ctx, rng, path):
    """The recorded findings, one after the other."""
    w = dbwork.World(rng, path)
    w.nwk = 0x2000
    await w.open()
    for k, (eps, mod) in enumerate(
        [
            ({1: (0x0104, 0x0100, [0, 6], [0x19]), 2: (0x0104, 0x0100, [6], [])}, "Q-v1"),
            ({1: (0x0104, 0x0100, [0, 3, 6], [0x19])}, "Q-v2"),
        ]
    ):
        node = sim.SimNode(sim.eui(0x7100_0000 + k), 0x3000 + k, endpoints=eps, manufacturer="QCo", model=mod)
        w.place(k, node)
        w.app.handle_join(t.NWK(node.nwk), node.ieee, t.NWK(0))
        await asyncio.sleep(20)
    v1, v2 = (w.app.get_device(ieee=w.nodes[k].ieee) for k in (0, 1))
    w.app.groups.add_group(3, "three").add_member(v1.endpoints[7])
    v2.endpoints[1].in_clusters[dbwork.Virtual.cluster_id].add_unsupported_attribute(0)
    on = v2.endpoints[1].in_clusters[6]
    on.update_attribute(0xF001, t.EUI64.convert("aa:bb:cc:dd:11:22:33:44"))
    on.update_attribute(0xF002, t.KeyData(bytes(16)))
    await asyncio.sleep(1)
    want = await w.close()
    await w.open()
    judge(ctx, want, w.loaded, "after a restart")
    await w.close()


def case_recorded(ctx):
    d = tempfile.mkdtemp(prefix="s01-")
    try:
        with dbwork.use_quirks(("v1", "v2")):
            vloop.run(recorded(ctx, ctx.rng("recorded"), os.path.join(d, "z.db")))
    finally:
        shutil.rmtree(d, ignore_errors=True)


async def later(ctx, rng, path):
    """Quirks installed after the device was used: what they dropped must not get in the way of what they kept."""
    w = dbwork.World(rng, path)
    with dbwork.use_quirks(()):
        await w.open()
        for k in range(rng.randint(2, 4)):
            eps, mod = rng.choice(
                [
                    ({1: (0x0104, 0x0100, [0, 6], [0x19]), 2: (0x0104, 0x0100, [6], [])}, "Q-v1"),
                    ({1: (0x0104, 0x0100, [0, 3, 6], [0x19]), 2: (0x0104, 0x0100, [3, 6], [])}, "Q-v2"),
                    ({1: (0x0104, 0x0100, [0, 3, 6], [0x19]), 2: (0x0104, 0x0100, [3, 6], [])}, "plain"),
                ]
            )
            node = sim.SimNode(sim.eui(0x7200_0000 + k), 0x3000 + k, endpoints=eps, manufacturer="QCo", model=mod)
            w.place(k, node)
            w.app.handle_join(t.NWK(node.nwk), node.ieee, t.NWK(0))
            await asyncio.sleep(20)
        places = [
            c
            for d in w.app.devices.values()
            for ep in d.non_zdo_endpoints
            for c in (*ep.in_clusters.values(), *ep.out_clusters.values())
            if d.model in ("Q-v1", "Q-v2", "plain")
        ]
        for _ in range(rng.randint(5, 40)):
            c = rng.choice(places)
            known = [a for a in c.attributes if a not in (4, 5) or c.cluster_id]
            a = rng.choice([*known, 0x7700 + rng.randrange(3)])
            if rng.random() < 0.6:
                c.add_unsupported_attribute(int(a))
            elif a == 0 and c.cluster_id in (0, 6):
                c.update_attribute(0, t.uint8_t(rng.randrange(2)) if c.cluster_id == 0 else t.Bool(rng.randrange(2)))
        await asyncio.sleep(1)
        plain = await w.close()
    which = rng.choice([("v1", "v2"), ("v1",), ("v2",)])
    with dbwork.use_quirks(which):
        await w.open()
        if set(plain["devices"]) != set(w.loaded["devices"]):
            raise Violation("quirk-toggle", "devices are missing when a quirk is installed")
        for k, a in plain["devices"].items():
            b = w.loaded["devices"][k]
            dropped = False
            for e, x in a["endpoints"].items():
                for cl, p in x["clusters"].items():
                    q = b["endpoints"].get(e, {"clusters": {}})["clusters"].get(cl)
                    if q is None:
                        dropped = True
                        ctx.count("clusters with stored rows dropped by a later quirk", bool(p["unsupported"]))
                    elif p["unsupported"] != q["unsupported"] or {a: v[0] for a, v in p["attrs"].items()} != {a: v[0] for a, v in q["attrs"].items()}:
                        raise Violation("later-quirk", f"device {k} ({b['class']}) endpoint {e} cluster {cl}: {p} before the quirk was installed, {q} after")
                    else:
                        ctx.count("clusters kept by a later quirk", b["class"] != "Device")
            if dropped == (b["class"] == "Device"):
                raise Violation("later-quirk", f"device {k} is a {b['class']} with {which} installed")
        await w.close()
    with dbwork.use_quirks(()):
        await w.open()
        judge(ctx, plain, w.loaded, "after a restart with quirks and one without them again")
        await w.close()
    ctx.count("quirks installed later")
    ctx.evaluated(("later", which, len(places)), True)


def case_later(ctx, i):
    rng = ctx.rng("later", i)
    d = tempfile.mkdtemp(prefix="s01-")
    try:
        vloop.run(later(ctx, rng, os.path.join(d, "z.db")))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    for i in range(ctx.n(60, 800)):
        ctx.case(f"later:{i}", case_later, ctx, i)
    ctx.case("recorded", case_recorded, ctx)
    for i in range(ctx.n(260, 4000)):
        ctx.case(f"history:{i}", case, ctx, i)
    for name, m in [
        ("restarts compared", 200), ("devices restored", 400), ("attributes restored", 1200), ("unsupported attributes restored", 500),
        ("group memberships restored", 20), ("neighbours restored", 80), ("routes restored", 80), ("backups restored", 150),
        ("route records restored", 120), ("quirked devices restored", 100), ("idempotent reloads", 60), ("quirks missing for one restart", 30),
        ("quirks installed later", 40), ("clusters kept by a later quirk", 100), ("clusters with stored rows dropped by a later quirk", 20),
        ("op announce-during-removal", 10), ("op traffic-during-removal", 15), ("op twins", 100),
    ]:  # fmt: skip
        ctx.require(name, m)
    ctx.sample({"operations": {k: v for k, v in ctx.counters.items() if k.startswith("op ")}})
