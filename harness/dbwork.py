"""Histories over a real application with a real database file (S01, S02, S03)."""

from __future__ import annotations

import asyncio
import datetime
import math
import os

from harness import sim, vloop
from harness.sim import u16

import zigpy.config as conf
import zigpy.quirks
from zigpy.quirks import CustomCluster, CustomDevice
from zigpy.quirks.registry import DeviceRegistry
from zigpy.quirks.v2 import QuirkBuilder
import zigpy.state
import zigpy.types as t
from zigpy.zcl import ClusterType, foundation
from zigpy.zcl.clusters.general import Basic, OnOff
from zigpy.zcl.foundation import BaseAttributeDefs, ZCLAttributeDef

CLUSTERS = [0x0000, 0x0001, 0x0003, 0x0004, 0x0006, 0x0008, 0x000C, 0x0500, 0x0702, 0xFC77]


class Virtual(CustomCluster):
    cluster_id = 0xFC88
    ep_attribute = "dbwork_virtual"

    class AttributeDefs(BaseAttributeDefs):
        foo = ZCLAttributeDef(id=0x0000, type=t.uint8_t)
        bar = ZCLAttributeDef(id=0x0102, type=t.CharacterString)


class QOnOff(CustomCluster, OnOff):
    pass


class QuirkV1(CustomDevice):
    """Keeps endpoint 1, drops all others, renames the device."""

    signature = {
        "models_info": [("QCo", "Q-v1")],
        "endpoints": {
            1: {"profile_id": 0x0104, "device_type": 0x0100, "input_clusters": [0, 6], "output_clusters": [0x19]},
            2: {"profile_id": 0x0104, "device_type": 0x0100, "input_clusters": [6], "output_clusters": []},
        },
    }
    replacement = {
        "manufacturer": "Renamed",
        "model": "Renamed-v1",
        "endpoints": {
            1: {"profile_id": 0x0104, "device_type": 0x0100, "input_clusters": [0, QOnOff, Virtual], "output_clusters": [0x19]},
            7: {"profile_id": 0x0104, "device_type": 0x0100, "input_clusters": [Virtual], "output_clusters": []},
        },
    }


def register_quirks(registry, which=("v1", "v2")):
    if "v1" in which:
        registry.add_to_registry(QuirkV1)
    if "v2" in which:
        (
            QuirkBuilder("QCo", "Q-v2", registry=registry)
            .adds(Virtual)
            .replaces(QOnOff)
            .removes(0x0003)
            .add_to_registry()
        )


class use_quirks:
    """Swap the global registry's content for the duration."""

    def __init__(self, which):
        self.which = which

    def __enter__(self):
        self.reg = zigpy.quirks._DEVICE_REGISTRY
        self.saved = dict(self.reg.__dict__)
        fresh = DeviceRegistry()
        self.reg.__dict__.clear()
        self.reg.__dict__.update(fresh.__dict__)
        register_quirks(self.reg, self.which)
        return self

    def __exit__(self, *a):
        self.reg.__dict__.clear()
        self.reg.__dict__.update(self.saved)


class DbApp(sim.SimApp):
    def __init__(self, config):
        super().__init__(config)
        sim.setup_state(self)
        self.at_disconnect = None

    async def load_network_info(self, *, load_devices=False):
        # a radio library builds new objects each time
        await super().load_network_info(load_devices=load_devices)
        self.state.network_info = self.state.network_info.replace()
        self.state.node_info = self.state.node_info.replace()

    async def disconnect(self):
        await super().disconnect()
        if self.at_disconnect is not None:
            self.at_disconnect()


def config(path, **over):
    return sim.make_config(**{conf.CONF_DATABASE: str(path), **over})


def storable(v):
    """Can SQLite hold this value (as opposed to e.g. lists, structures, NaN)?"""
    if isinstance(v, (t.EUI64, str, bytes)):
        return True
    if isinstance(v, int):
        return -(2**63) <= v < 2**63
    if isinstance(v, float):
        return not math.isnan(v)
    return False


def norm(v):
    if isinstance(v, t.EUI64):
        return ("eui64", str(v))
    if isinstance(v, bool) or isinstance(v, int):
        return ("n", int(v))
    if isinstance(v, float):
        return ("n", "nan") if math.isnan(v) else ("n", int(v) if v.is_integer() else float(v))
    if isinstance(v, str):
        return ("s", str(v))
    if isinstance(v, bytes):
        return ("b", bytes(v).hex())
    return ("other", repr(v))


def ts(v):
    if v is None:
        return None
    return v.timestamp() if isinstance(v, datetime.datetime) else float(v)


def snap_device(d):
    eps = {}
    for e, ep in d.endpoints.items():
        if e == 0:
            continue
        cls = {}
        for typ, cs in (("in", ep.in_clusters), ("out", ep.out_clusters)):
            for cid, c in cs.items():
                cls[(typ, int(cid))] = {
                    "attrs": {
                        int(a): (norm(v), storable(v), ts(c._attr_last_updated.get(a)), a in c.attributes) for a, v in c._attr_cache.items()
                    },
                    "unsupported": sorted(map(str, c.unsupported_attributes)),
                    "virtual": isinstance(c, Virtual),
                }
        eps[e] = {
            "profile": None if ep.profile_id is None else int(ep.profile_id),
            "type": None if ep.device_type is None else int(ep.device_type),
            "type_class": type(ep.device_type).__name__ if ep.profile_id in (0x0104, 0xC05E) else None,
            "status": int(ep.status),
            "clusters": cls,
            "groups": sorted(int(g) for g in ep.member_of),
        }
    return {
        "nwk": int(d.nwk),
        "status": int(d.status),
        "node_desc": None if d.node_desc is None else d.node_desc.serialize().hex(),
        "manufacturer": d.manufacturer,
        "model": d.model,
        "class": type(d).__name__,
        "initialized": d.is_initialized,
        "last_seen": d.last_seen,
        "relays": None if d.relays is None else [int(r) for r in d.relays],
        "endpoints": eps,
    }


def snapshot(app, devices, leaving=()):
    """`leaving`: addresses of devices whose removal has been announced but is not finished."""
    leaving = {str(i) for i in leaving}
    devices = {str(d.ieee): d for d in devices}
    return {
        "devices": {k: snap_device(d) for k, d in devices.items()},
        "groups": {int(g): (grp.name, sorted(f"{m[0]}/{m[1]}" for m in grp if str(m[0]) not in leaving)) for g, grp in app.groups.items()},
        "neighbors": {
            str(i): [n.serialize().hex() for n in ns] for i, ns in app.topology.neighbors.items() if ns and i != sim.NCP_IEEE and str(i) not in leaving
        },
        "routes": {
            str(i): [r.serialize().hex() for r in rs] for i, rs in app.topology.routes.items() if rs and i != sim.NCP_IEEE and str(i) not in leaving
        },
        "backups": [b.as_dict() for b in app.backups.backups],
    }


def compare(want, got, slack=30.0, virtual_ok=True):
    """Yield (key, message) for every difference."""
    for part in ("neighbors", "routes"):
        w = {k: v for k, v in want[part].items() if k in want["devices"]}
        if w != got[part]:
            for k in sorted(set(w) | set(got[part])):
                if w.get(k) != got[part].get(k):
                    yield part, f"{part} of {k}: {w.get(k)} in memory, {got[part].get(k)} after the restart"
        extra = sorted(set(want[part]) - set(want["devices"]))
        if extra:
            yield f"{part}-of-unknown", f"{part} kept in memory for devices that are gone: {extra}"
    if want["groups"] != got["groups"]:
        for g in sorted(set(want["groups"]) | set(got["groups"])):
            a, b = want["groups"].get(g), got["groups"].get(g)
            if a == b:
                continue
            if a and b and a[0] == b[0] and not set(b[1]) - set(a[1]):
                lost = sorted(set(a[1]) - set(b[1]))
                key = "group-member-virtual-endpoint" if all(m.endswith("/7") for m in lost) else "groups"
                yield key, f"group {g}: members {lost} lost in the restart"
            else:
                yield "groups", f"group {g}: {a} in memory, {b} after the restart"
    if want["backups"] != got["backups"]:
        yield "backups", f"backups: {len(want['backups'])} in memory, {len(got['backups'])} after the restart, or different"
    wd, gd = want["devices"], got["devices"]
    for k in sorted(set(wd) | set(gd)):
        if k not in gd:
            yield "device-lost", f"device {k} ({wd[k]['model']}) is missing after the restart"
            continue
        if k not in wd:
            yield "device-extra", f"device {k} exists after the restart only"
            continue
        a, b = wd[k], gd[k]
        for f in ("nwk", "status", "node_desc", "manufacturer", "model", "class", "initialized", "relays"):
            if a[f] != b[f]:
                yield f"device-{f}", f"device {k}: {f} {a[f]!r} in memory, {b[f]!r} after the restart"
        la, lb = a["last_seen"], b["last_seen"]
        if (la is None) != (lb is None) or (la is not None and abs(la - lb) > slack + 0.01):
            yield "device-last_seen", f"device {k}: last seen {la} in memory, {lb} after the restart"
        ea, eb = a["endpoints"], b["endpoints"]
        if sorted(ea) != sorted(eb):
            yield "endpoints", f"device {k}: endpoints {sorted(ea)} in memory, {sorted(eb)} after the restart"
        for e in sorted(set(ea) & set(eb)):
            x, y = ea[e], eb[e]
            for f in ("profile", "type", "type_class", "status"):
                if x[f] != y[f]:
                    yield f"endpoint-{f}", f"device {k} endpoint {e}: {f} {x[f]!r} in memory, {y[f]!r} after the restart"
            if x["groups"] != y["groups"]:
                lost = e == 7 and not set(y["groups"]) - set(x["groups"])
                yield ("group-member-virtual-endpoint" if lost else "groups"), (
                    f"device {k} endpoint {e}: member of {x['groups']} in memory, {y['groups']} after the restart"
                )
            if set(x["clusters"]) != set(y["clusters"]):
                yield "clusters", f"device {k} endpoint {e}: clusters {sorted(x['clusters'])} in memory, {sorted(y['clusters'])} after the restart"
            for c in sorted(set(x["clusters"]) & set(y["clusters"])):
                p, q = x["clusters"][c], y["clusters"][c]
                if a["class"] == "QuirkV1":
                    # starts with empty caches when interviewed; the interviewed values come back with a restart
                    q = {**q, "attrs": {k: x for k, x in q["attrs"].items() if k in p["attrs"]}}
                    q["unsupported"] = sorted(set(q["unsupported"]) & set(p["unsupported"]))
                if p["unsupported"] != q["unsupported"]:
                    key = "unsupported-virtual-cluster" if p["virtual"] and not set(q["unsupported"]) - set(p["unsupported"]) else "unsupported"
                    yield key, f"device {k} endpoint {e} cluster {c}: unsupported {p['unsupported']} in memory, {q['unsupported']} after the restart"
                for at in sorted(set(p["attrs"]) | set(q["attrs"])):
                    v, w = p["attrs"].get(at), q["attrs"].get(at)
                    where = f"device {k} endpoint {e} cluster {c} attribute {at:#06x}"
                    if v is None or w is None or v[0] != w[0]:
                        key = "attribute-value"
                        if v is not None and not v[1]:
                            key = "unstorable-attribute-value"
                        elif v is not None and w is not None and v[0][0] == "eui64" and w[0] == ("s", v[0][1]) and not v[3]:
                            key = "undeclared-eui64-attribute"
                        yield key, f"{where}: {v and v[0]} in memory, {w and w[0]} after the restart"
                    elif abs((v[2] or 0.0) - (w[2] or 0.0)) > slack + 0.01:
                        yield "attribute-time", f"{where}: updated at {v[2]} in memory, {w[2]} after the restart"


class World:
    """Devices that outlive the application object."""

    def __init__(self, rng, path, n=5):
        self.rng = rng
        self.path = path
        self.nodes = {}
        self.app = None
        self.net = None
        self.gone = []  # device objects whose removal was announced
        self.known = {}  # ieee -> True: interviewed
        self.final = None
        self.stats = {}
        self.nwk = 0x1000
        self.n = n
        self.tasks = []
        self.base_net = None
        self.trace = []

    def did(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    # --- events
    def device_removed(self, dev):
        self.gone.append(dev)

    def device_initialized(self, dev):
        self.known[dev.ieee] = dev

    def registered(self):
        gone = {id(d) for d in self.gone}
        for d in self.app.devices.values():
            if d.ieee == sim.NCP_IEEE or id(d) in gone:
                continue
            if self.known.get(d.ieee) is d:
                yield d

    # --- life cycle
    async def open(self, **over):
        self.trace.clear()
        self.gone.clear()
        self.known.clear()
        self.app = await DbApp.new(config(self.path, **over), auto_form=False)
        if self.base_net is not None:
            self.app.radio_network = self.base_net
        self.known = {d.ieee: d for d in self.app.devices.values() if d.ieee != sim.NCP_IEEE}
        self.app.add_listener(self)
        self.net = sim.SimNet(self.app, self.rng)
        self.net.latency = lambda: self.rng.choice([0.01, 0.1])
        for nd in self.nodes.values():
            self.net.add(nd)
        self.loaded = snapshot(self.app, self.registered())

    async def close(self):
        app = self.app

        def grab():
            gone = {id(d) for d in self.gone}
            self.final = snapshot(app, self.registered(), [d.ieee for d in app.devices.values() if id(d) in gone])

        app.at_disconnect = grab
        self.base_net = app.radio_network
        await app.shutdown()
        app.remove_listener(self)
        for tk in self.tasks:
            tk.cancel()
        self.tasks.clear()
        return self.final

    # --- node construction
    def new_node(self, k):
        rng = self.rng
        quirk = rng.random()
        if quirk < 0.15:
            eps = {1: (0x0104, 0x0100, [0, 6], [0x19]), 2: (0x0104, 0x0100, [6], [])}
            man, mod = "QCo", "Q-v1"
        elif quirk < 0.3:
            eps = {1: (0x0104, 0x0100, [0, 3, 6], [0x19])}
            man, mod = "QCo", "Q-v2"
        else:
            eps = {}
            for e in rng.sample([1, 2, 3, 10, 242], rng.choice([1, 1, 2, 3])):
                eps[e] = (
                    rng.choice([0x0104, 0xC05E, 0xA1E0, 0x0104]),
                    rng.choice([0x0100, 0x0000, 0x0061, 0xBEEF]),
                    sorted(rng.sample(CLUSTERS, rng.randrange(1, 6))),
                    sorted(rng.sample(CLUSTERS, rng.randrange(0, 3))),
                )
                if rng.random() < 0.4:
                    # the same cluster on both sides
                    eps[e] = (*eps[e][:3], sorted({rng.choice(eps[e][2]), *eps[e][3]}))
            if rng.random() < 0.8:
                e = next(iter(eps))
                eps[e] = (*eps[e][:2], sorted({0, *eps[e][2]}), eps[e][3])
            man, mod = rng.choice(["SimCo", "Ünï", "", "tail\0\0"]), rng.choice(["Sim-1", "Sim-2", "x" * 40])
        self.nwk += 1
        node = sim.SimNode(
            sim.eui(0x7000_0000 + k), self.nwk, logical=rng.choice([1, 1, 2]), caps=rng.choice([0x8E, 0x80, 0x84]),
            manuf_code=rng.randrange(0x10000), endpoints=eps, manufacturer=man, model=mod,
        )  # fmt: skip
        if rng.random() < 0.4 and quirk >= 0.3:
            # a different name on another endpoint
            for (e, c), at in node.attrs.items():
                if c == 0 and e != next(iter(eps)) and rng.random() < 0.5:
                    at[5] = (0x42, sim.lvstr(f"other-{e}"))
        if rng.random() < 0.25 and quirk >= 0.3:
            node.inactive_eps = {rng.choice([77, 200])}
        if rng.random() < 0.1:
            node.attrs.clear()
        node.page = rng.choice([1, 3])
        return node

    def place(self, k, node):
        old = self.nodes.pop(k, None)
        if old is not None:
            self.net.nodes.pop(int(old.nwk), None)
        self.nodes[k] = node
        self.net.add(node)

    def pick(self):
        ds = list(self.registered())
        return self.rng.choice(ds) if ds else None

    def key_of(self, d):
        for k, nd in self.nodes.items():
            if nd.ieee == d.ieee:
                return k
        return None

    def cluster(self, d):
        eps = [ep for ep in d.non_zdo_endpoints if ep.in_clusters or ep.out_clusters]
        if not eps:
            return None
        ep = self.rng.choice(eps)
        return self.rng.choice([*ep.in_clusters.values(), *ep.out_clusters.values()])

    # --- operations
    async def op_join(self):
        rng = self.rng
        free = [k for k in range(self.n) if k not in self.nodes or self.nodes[k].ieee not in self.app.devices]
        if not free:
            return await self.op_move()
        k = rng.choice(free)
        node = self.new_node(k) if k not in self.nodes or rng.random() < 0.6 else self.nodes[k]
        self.place(k, node)
        self.app.handle_join(t.NWK(node.nwk), node.ieee, t.NWK(0))
        if rng.random() < 0.4:
            self.app.handle_relays(t.NWK(node.nwk), [t.NWK(rng.randrange(1, 0xFFF0)) for _ in range(rng.randrange(0, 3))])
        if rng.random() < 0.9:
            await asyncio.sleep(20)
        self.did("join")

    async def op_move(self):
        d = self.pick()
        if d is None or (k := self.key_of(d)) is None:
            return
        node = self.nodes[k]
        self.net.nodes.pop(int(node.nwk), None)
        self.nwk += 1
        node.nwk = self.nwk
        self.net.add(node)
        self.app.handle_join(t.NWK(node.nwk), node.ieee, t.NWK(0))
        if self.rng.random() < 0.7:
            await asyncio.sleep(5)
        self.did("move")

    ANALOG_VALUES = [
        (0x20, t.uint8_t(7)), (0x21, t.uint16_t(65535)), (0x27, t.uint64_t(2**63 - 1)), (0x27, t.uint64_t(2**64 - 5)),
        (0x2F, t.int64s(-(2**63))), (0x39, t.Single(1.5)), (0x39, t.Single(float("nan"))), (0x3A, t.Double(-0.25)),
        (0x39, t.Single(float("inf"))), (0x41, t.LVBytes(b"\x00\xff")), (0x42, t.CharacterString("ab\u20ac")), (0x42, t.CharacterString("5")),
        (0x10, t.Bool.true), (0xF0, t.EUI64.convert("aa:bb:cc:dd:11:22:33:44")), (0xF1, t.KeyData(bytes(range(16)))),
        (0x30, t.enum8(3)), (0x18, t.bitmap8(0x81)), (0xE2, t.UTCTime(700000000)),
    ]  # fmt: skip

    async def op_report(self):
        rng = self.rng
        d = self.pick()
        c = d and self.cluster(d)
        if not c or isinstance(c, Virtual):
            return
        attrs = [a for a in c.attributes if not (c.cluster_id == 0 and a in (4, 5))]
        if attrs and rng.random() < 0.7:
            a = rng.choice(attrs)
            adef = c.attributes[a]
            tid = foundation.DataType.from_python_type(adef.type).type_id if adef.zcl_type is None else int(adef.zcl_type)
            cand = [v for v in self.ANALOG_VALUES if v[0] == tid]
            if cand:
                tid, v = rng.choice(cand)
                body = v.serialize()
            else:
                try:
                    size = {8: 1}.get(tid) or len(adef.type(0).serialize())
                except Exception:  # noqa: BLE001
                    return
                body = bytes(rng.randrange(100) for _ in range(size))
                if tid in (0x42, 0x41):
                    body = b"\x02hi"
        else:
            a = rng.randrange(0xF000, 0xF010)
            tid, v = rng.choice(self.ANALOG_VALUES)
            body = v.serialize()
        self.app.packet_received(
            sim.rx(
                d, c.cluster_id,
                sim.zcl_hdr(rng.randrange(256), 0x0A, s2c=c.cluster_type == ClusterType.Server) + u16(a) + bytes([tid]) + body,
                src_ep=c.endpoint.endpoint_id, profile=c.endpoint.profile_id or 0x0104,
            )
        )  # fmt: skip
        self.did("report")

    async def op_update(self):
        rng = self.rng
        d = self.pick()
        c = d and self.cluster(d)
        if not c:
            return
        attrs = [a for a in c.attributes if not (c.cluster_id == 0 and a in (4, 5))]
        if not attrs:
            return
        self.change(c, rng.choice(attrs), rng.random())

    async def op_twins(self):
        """Changes of one attribute in clusters that differ in side, endpoint or device only."""
        rng = self.rng
        sets = {}
        for d in self.registered():
            for ep in d.non_zdo_endpoints:
                for side in (ep.in_clusters, ep.out_clusters):
                    for c in side.values():
                        sets.setdefault(c.cluster_id, []).append(c)
        sets = [v for v in sets.values() if len(v) > 1]
        if not sets:
            return
        cs = rng.choice(sets)
        both = [c for c in cs if sum(q.endpoint is c.endpoint for q in cs) > 1]
        if both and rng.random() < 0.7:
            ep = rng.choice(both).endpoint
            cs = [c for c in cs if c.endpoint is ep]
        attrs = [a for a in cs[0].attributes if all(a in c.attributes for c in cs) and not (cs[0].cluster_id == 0 and a in (4, 5))]
        if not attrs:
            return
        attrs = rng.sample(attrs, min(len(attrs), 2))
        for _ in range(rng.randrange(3, 9)):
            self.change(rng.choice(cs), rng.choice(attrs), rng.choice([0.1, 0.5, 0.85, 0.95]))
        self.did("twins")

    def change(self, c, a, r):
        rng = self.rng
        if r < 0.2:
            c.update_attribute(a, None)
            self.did("clear")
        elif r < 0.8:
            typ = c.attributes[a].type
            if issubclass(typ, str):
                v = typ(rng.choice(["x", "", "long " * 5, "5"]))
            elif issubclass(typ, t.EUI64):
                v = t.EUI64.convert("00:11:22:33:44:55:66:%02x" % rng.randrange(4))
            elif issubclass(typ, (int, float)):
                v = typ(rng.randrange(3))
            else:
                return
            c.update_attribute(a, v)
            self.did("update")
        elif r < 0.92:
            c.add_unsupported_attribute(a)
            self.did("unsupported")
        else:
            c.remove_unsupported_attribute(a)
            self.did("supported")

    async def op_read(self):
        rng = self.rng
        d = self.pick()
        c = d and self.cluster(d)
        if not c or isinstance(c, Virtual) or c.cluster_type != ClusterType.Server:
            return
        attrs = list(c.attributes)
        if not attrs:
            return
        try:
            await c.read_attributes(rng.sample(attrs, min(len(attrs), 3)))
        except Exception:  # noqa: BLE001
            return
        self.did("read")

    async def op_relays(self):
        rng = self.rng
        d = self.pick()
        if d is None:
            return
        if rng.random() < 0.2:
            d.relays = None
        else:
            self.app.handle_relays(d.nwk, [t.NWK(rng.choice([0, 0x11, 0x22, 0x22, 0xBEEF])) for _ in range(rng.randrange(0, 4))])
        self.did("relays")

    async def op_group(self):
        rng = self.rng
        gid = rng.randrange(1, 6)
        r = rng.random()
        d = self.pick()
        if r < 0.2:
            self.app.groups.add_group(gid, rng.choice(["a", "b", "Ünï", None, ""]))
        elif r < 0.35:
            self.app.groups.pop(gid, None)
        elif d is not None and list(d.non_zdo_endpoints):
            ep = rng.choice(list(d.non_zdo_endpoints))
            if r < 0.55:
                try:
                    await ep.add_to_group(gid, rng.choice(["n1", "n2"]))
                except Exception:  # noqa: BLE001
                    return
            elif r < 0.75:
                if gid in self.app.groups:
                    self.app.groups[gid].add_member(ep)
            elif r < 0.9:
                if gid in self.app.groups:
                    self.app.groups[gid].remove_member(ep)
            else:
                try:
                    await ep.remove_from_group(gid)
                except Exception:  # noqa: BLE001
                    return
        self.did("group")

    def table(self, node):
        rng = self.rng
        others = [n for n in self.nodes.values() if n is not node]
        node.neighbors = [
            bytes(range(8))
            + (o.ieee.serialize() if rng.random() < 0.8 else sim.eui(0x123).serialize())
            + u16(o.nwk)
            + bytes([rng.randrange(3) | rng.randrange(3) << 2 | rng.randrange(5) << 4, rng.randrange(3), rng.randrange(16), rng.randrange(256)])
            for o in others
            if rng.random() < 0.6
        ]
        node.routes = [
            u16(rng.randrange(1, 0xFFF0)) + bytes([rng.choice([0, 1, 2, 3]) | rng.randrange(8) << 3]) + u16(rng.randrange(1, 0xFFF0))
            for _ in range(rng.randrange(0, 5))
        ]

    async def op_scan(self):
        rng = self.rng
        ds = list(self.registered())
        ds = rng.sample(ds, rng.randrange(0, len(ds) + 1)) if ds else []
        for nd in self.nodes.values():
            if rng.random() < 0.8:
                self.table(nd)
        if rng.random() < 0.3:
            self.tasks.append(asyncio.create_task(self.app.topology.scan(ds)))
            await asyncio.sleep(rng.choice([0, 0.02, 1]))
        else:
            try:
                await self.app.topology.scan(ds)
            except asyncio.CancelledError:  # preempted by a scan started earlier
                self.did("preempted scan")
        self.did("scan")

    async def op_remove(self):
        rng = self.rng
        d = self.pick()
        if d is None:
            return
        k = self.key_of(d)
        node = self.nodes.get(k)
        silent = rng.random() < 0.4
        if silent and node is not None:
            node.zdo_override[0x0034] = lambda p: None
        await self.app.remove(d.ieee)
        what = rng.random()
        if what < 0.25 and node is not None:
            await asyncio.sleep(rng.choice([0, 0.005, 1]))
            if rng.random() < 0.5:
                self.net.nodes.pop(int(node.nwk), None)
                self.nwk += 1
                node.nwk = self.nwk
                self.net.add(node)
            self.app.handle_join(t.NWK(node.nwk), node.ieee, t.NWK(0))
            self.did("announce-during-removal")
        elif what < 0.5:
            c = self.cluster(d)
            if c is not None and c.cluster_id != 0 and c.attributes:
                for at, ad in list(c.attributes.items())[:3]:
                    if issubclass(ad.type, int):
                        c.update_attribute(at, ad.type(1))
            self.app.handle_relays(d.nwk, [t.NWK(0x77)])
            d.update_last_seen()
            if silent:
                self.tasks.append(asyncio.create_task(self.app.topology.scan([d])))
            self.did("traffic-during-removal")
        if rng.random() < 0.8:
            await asyncio.sleep(40)
        if node is not None:
            node.zdo_override.pop(0x0034, None)
        self.did("remove")

    async def op_backup(self):
        rng = self.rng
        app = self.app
        await asyncio.sleep(1)  # no two backups at one instant
        ni = app.radio_network
        key = ni.network_key.replace(tx_counter=rng.choice([ni.network_key.tx_counter + rng.randrange(0, 500), rng.randrange(0, 300)]))
        ni = ni.replace(network_key=key)
        if rng.random() < 0.3:
            ni = ni.replace(channel=t.uint8_t(rng.randrange(11, 15)), nwk_update_id=t.uint8_t(rng.randrange(3)))
        if rng.random() < 0.3:
            ni = ni.replace(
                children=[sim.eui(rng.randrange(1, 99))], nwk_addresses={sim.eui(5): t.NWK(0x55)},
                key_table=[zigpy.state.Key(key=t.KeyData(bytes(range(1, 17))), tx_counter=5, rx_counter=6, seq=1, partner_ieee=sim.eui(5))],
                stack_specific={"x": {"y": [1, 2]}}, metadata={"z": "ü"},
            )  # fmt: skip
        app.radio_network = ni
        await app.backups.create_backup(load_devices=rng.random() < 0.5)
        self.did("backup")

    async def op_idle(self):
        await asyncio.sleep(self.rng.choice([0.1, 5, 31, 100, 3600]))
        d = self.pick()
        if d is not None and self.rng.random() < 0.5:
            d.update_last_seen()
        self.did("idle")

    OPS = [
        ("join", 5), ("move", 1), ("report", 6), ("update", 5), ("twins", 2), ("read", 2), ("relays", 2), ("group", 5), ("scan", 2), ("remove", 1.5),
        ("backup", 1.5), ("idle", 2),
    ]  # fmt: skip

    async def step(self):
        name = self.rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
        self.trace.append((round(asyncio.get_running_loop().time(), 2), name))
        await getattr(self, "op_" + name)()
        return name
