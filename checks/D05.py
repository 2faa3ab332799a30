"""D05: quirk selection is deterministic and keeps the device's identity."""

from __future__ import annotations

import asyncio
import collections
import datetime
import pathlib
import sys
import types

from harness import sim, vloop
from harness.core import Violation

import zigpy.endpoint
import zigpy.exceptions
import zigpy.quirks
from zigpy.quirks import CustomCluster, CustomDevice, CustomEndpoint
from zigpy.quirks.registry import DeviceRegistry
from zigpy.quirks.v2 import CustomDeviceV2, QuirkBuilder
import zigpy.types as t
from zigpy.zcl import ClusterType
from zigpy.zcl.clusters.general import Basic, Identify, LevelControl, OnOff, OnOffConfiguration
from zigpy.zcl.foundation import BaseAttributeDefs, ZCLAttributeDef
import zigpy.zdo.types as zdo_t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: random handlers are registered and removed around lookups of random devices; every lookup is judged by an "
    "independent matcher, and the device it returns is compared attribute by attribute with the handler's declaration and the original"
)
NOTE = (
    "Handlers are class based (signature and replacement dictionaries, custom endpoint and cluster classes) and builder based "
    "(filters, additions, removals, replacements, constants, entities, node descriptor), generated from the devices with one-place "
    "near misses so that matching and almost matching handlers compete; private and global registries; purging by source directory; "
    "and the replacement made by the application when an interview ends."
)
RULE = "One evaluation is one device lookup judged; non-trivial: distinct (kind of match, number of competing and near-miss handlers, declared changes)."

MANUFS = ["ACME", "Borg", None]
MODELS = ["x1", "x2", None]
CIDS = [0x0000, 0x0003, 0x0006, 0x0007, 0x0008]
STD = {0: Basic, 3: Identify, 6: OnOff, 7: OnOffConfiguration, 8: LevelControl}
ROOT = pathlib.Path("/nonexistent/custom-quirks")


class CBasic(CustomCluster, Basic):
    class AttributeDefs(Basic.AttributeDefs):
        extra = ZCLAttributeDef(id=0xFF10, type=t.uint8_t)


class COnOff(CustomCluster, OnOff):
    pass


class CLevel(CustomCluster, LevelControl):
    pass


class CManuf(CustomCluster):
    cluster_id = 0xFC55
    ep_attribute = "cmanuf"

    class AttributeDefs(BaseAttributeDefs):
        foo = ZCLAttributeDef(id=0x0000, type=t.uint8_t)
        bar = ZCLAttributeDef(id=0x0102, type=t.uint16_t)


class CManuf2(CustomCluster):
    cluster_id = 0xFC56
    ep_attribute = "cmanuf2"

    class AttributeDefs(BaseAttributeDefs):
        foo = ZCLAttributeDef(id=0x0000, type=t.uint8_t)


CUSTOM = {0: CBasic, 6: COnOff, 8: CLevel, 0xFC55: CManuf, 0xFC56: CManuf2}
NUM = {k: [a for a in k.AttributeDefs if issubclass(a.type, int) and a.type is not t.Bool] for k in CUSTOM.values()}


class CEndpoint(CustomEndpoint):
    pass


class CDeviceV2(CustomDeviceV2):
    pass


# a copy of the builder call living in a file of its own, for purge_custom_quirks
_ns = {"QuirkBuilder": QuirkBuilder}
exec(compile("def build(*a, **kw):\n    return QuirkBuilder(*a, **kw)\n", str(ROOT / "mine.py"), "exec"), _ns)
_mod = types.ModuleType("d05_custom_quirk")
_mod.__file__ = str(ROOT / "sub" / "mine_v1.py")
sys.modules["d05_custom_quirk"] = _mod


def rand_device(rng, app, n):
    eps = {}
    for e in rng.sample([1, 2, 3, 242], rng.choice([1, 1, 2, 3])):
        eps[e] = (
            rng.choice([0x0104, 0xC05E]),
            rng.choice([0x0000, 0x0100]),
            sorted(rng.sample(CIDS, rng.randrange(0, 4))),
            sorted(rng.sample(CIDS, rng.randrange(0, 3))),
        )
    if rng.random() < 0.8 and 1 not in eps:
        eps[1] = (0x0104, 0x0100, [0, 6], [])
    d = sim.add_ready_device(app, sim.eui(0x5000_0000 + n), 0x1000 + n, dict(sorted(eps.items())))
    d._manufacturer = d._model = None
    d.manufacturer = rng.choice(MANUFS)
    d.model = rng.choice(MODELS)
    d.lqi = rng.choice([None, rng.randrange(256)])
    d.rssi = rng.choice([None, rng.randrange(-128, 20)])
    if rng.random() < 0.8:
        d.last_seen = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=rng.randrange(10**7))
    d.relays = rng.choice([None, [t.NWK(rng.randrange(1, 0xFFF0))]])
    d.skip_configuration = rng.random() < 0.3
    d.status = rng.choice([1, 2])
    d.node_desc = sim.node_desc(rng.choice([zdo_t.LogicalType.Router, zdo_t.LogicalType.EndDevice]), rng.choice([0x8E, 0x80, 0x84]))
    for ep in d.non_zdo_endpoints:
        for cl in list(ep.in_clusters.values()) + list(ep.out_clusters.values()):
            for a in rng.sample(list(cl.attributes), min(len(cl.attributes), rng.randrange(0, 3))):
                cl._attr_cache[a] = rng.randrange(100)
                cl._attr_last_updated[a] = datetime.datetime(2024, 5, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=rng.randrange(10**6))
            if rng.random() < 0.3:
                cl.unsupported_attributes.add(rng.choice(list(cl.attributes)))
    return d


def describe(d):
    return {
        "manufacturer": d.manufacturer,
        "model": d.model,
        "endpoints": {
            e: (ep.profile_id, ep.device_type, sorted(ep.in_clusters), sorted(ep.out_clusters))
            for e, ep in d.endpoints.items()
            if e != 0
        },
    }


def snapshot(d):
    return (
        d.ieee, d.nwk, d.lqi, d.rssi, d.last_seen, d.relays, d.status, d.node_desc, d.manufacturer, d.model, d.skip_configuration,
        tuple(
            (
                e, id(ep), ep.profile_id, ep.device_type, ep.status,
                tuple((c, id(cl), tuple(sorted(cl._attr_cache.items())), tuple(sorted(map(str, cl.unsupported_attributes)))) for c, cl in ep.in_clusters.items()),
                tuple((c, id(cl), tuple(sorted(cl._attr_cache.items()))) for c, cl in ep.out_clusters.items()),
            )
            for e, ep in d.endpoints.items()
            if e != 0
        ),
    )  # fmt: skip


def rand_signature(rng, dev):
    """The device's own signature with zero or one near miss. -> {ep: (profile|None, type|None, ins, outs)}"""
    sig = {}
    for e, (p, dt, i, o) in describe(dev)["endpoints"].items():
        sig[e] = [p if rng.random() < 0.8 else None, dt if rng.random() < 0.8 else None, list(i), list(o)]
    miss = rng.choice([None, None, "profile", "type", "in+", "in-", "out+", "out-", "ep+", "ep-", "swap"])
    if miss and sig:
        e = rng.choice(list(sig))
        if miss == "profile":
            sig[e][0] = rng.choice([0x0109, 0x0000])
        elif miss == "type":
            sig[e][1] = rng.choice([0x0051, 0x0000 if sig[e][1] else 0x0001])
        elif miss in ("in+", "out+"):
            sig[e][2 if miss == "in+" else 3].append(rng.choice([0x0500, 0x0B04]))
        elif miss in ("in-", "out-"):
            lst = sig[e][2 if miss == "in-" else 3]
            if lst:
                lst.pop(rng.randrange(len(lst)))
        elif miss == "ep+":
            sig[9] = [None, None, [], []]
        elif miss == "ep-":
            del sig[e]
        elif miss == "swap":
            sig[e][2], sig[e][3] = sig[e][3], sig[e][2]
    for v in sig.values():
        rng.shuffle(v[2])
        rng.shuffle(v[3])
    return sig


def sig_dict(rng, sig):
    out = {}
    for e, (p, dt, i, o) in sig.items():
        d = {}
        if p is not None:
            d["profile_id"] = p
        if dt is not None:
            d["device_type"] = dt
        if i or rng.random() < 0.5:
            d["input_clusters"] = i
        if o or rng.random() < 0.5:
            d["output_clusters"] = o
        out[e] = d
    return out


def sig_match(desc, sig):
    if set(desc["endpoints"]) != set(sig):
        return False
    for e, (p, dt, i, o) in sig.items():
        dp, ddt, di, do = desc["endpoints"][e]
        if p is not None and p != dp:
            return False
        if dt is not None and dt != ddt:
            return False
        if set(i) != set(di) or set(o) != set(do):
            return False
    return True


class V1:
    kind = "v1"

    def __init__(self, rng, devs, n, glob):
        self.rng = rng
        base = rng.choice(devs)
        self.sig = rand_signature(rng, base) if rng.random() < 0.95 else None
        s = {}
        if self.sig is not None:
            s["endpoints"] = sig_dict(rng, self.sig)
        mode = rng.random()
        near = lambda own, pool: own if own is not None and rng.random() < 0.85 else rng.choice([p for p in pool if p])  # noqa: E731
        if mode < 0.3:
            self.infos = list(
                dict.fromkeys([(near(base.manufacturer, MANUFS), near(base.model, MODELS)) for _ in range(rng.choice([1, 2, 3]))])
            )
            s["models_info"] = list(self.infos)
            if rng.random() < 0.3:
                s["models_info"].append(s["models_info"][0])
        else:
            m = near(base.manufacturer, MANUFS) if rng.random() < 0.6 else None
            mo = near(base.model, MODELS) if rng.random() < 0.6 else None
            if m is not None:
                s["manufacturer"] = m
            if mo is not None:
                s["model"] = mo
            self.infos = [(m, mo)]
        # the replacement; endpoints without a profile or type take them from the original
        rep = {}
        self.eps = {}
        own = set(self.sig or {})
        for e in rng.sample([1, 2, 3, 11], rng.randrange(0, 4)):
            p = rng.choice([0x0104, 0x0109])
            dt = rng.choice([0x0100, 0x0051])
            if e in own:
                p = rng.choice([p, None])
                dt = rng.choice([dt, None])
            ins = {}
            outs = {}
            for c in rng.sample(CIDS + [0xFC55], rng.randrange(0, 4)):
                ins[c] = CUSTOM.get(c) if rng.random() < 0.5 or c == 0xFC55 else None
            for c in rng.sample(CIDS + [0xFC55], rng.randrange(0, 3)):
                outs[c] = CUSTOM.get(c) if rng.random() < 0.5 or c == 0xFC55 else None
            data = {}
            if p is not None:
                data["profile_id"] = p
            if dt is not None:
                data["device_type"] = dt
            if ins or rng.random() < 0.5:
                data["input_clusters"] = [k or c for c, k in ins.items()]
            if outs or rng.random() < 0.5:
                data["output_clusters"] = [k or c for c, k in outs.items()]
            custom_ep = rng.random() < 0.2
            rep[e] = (CEndpoint, data) if custom_ep else data
            self.eps[e] = (p, dt, ins, outs, CEndpoint if custom_ep else CustomEndpoint)
        self.rep = {}
        if rng.random() < 0.9 or rep:
            self.rep["endpoints"] = rep
        if rng.random() < 0.2:
            self.rep["node_desc"] = sim.node_desc(zdo_t.LogicalType.EndDevice, 0x80)
        if rng.random() < 0.2:
            self.rep["manufacturer"] = "Renamed"
        if rng.random() < 0.2:
            self.rep["model"] = "Renamed-1"
        if rng.random() < 0.2:
            self.rep["skip_configuration"] = rng.random() < 0.8
        self.signature = s
        self.custom_dir = rng.random() < 0.3
        ns = {"replacement": self.rep}
        self.auto = glob and rng.random() < 0.5
        if self.auto:
            ns["signature"] = s
        ns["__module__"] = "d05_custom_quirk" if self.custom_dir else __name__
        self.cls = type(CustomDevice)(f"Quirk{n}", (CustomDevice,), ns)
        if not self.auto:
            self.cls.signature = s

    def matches(self, desc, info):
        m, mo = info
        if m is not None and m != desc["manufacturer"] or mo is not None and mo != desc["model"]:
            return False
        return self.sig is not None and sig_match(desc, self.sig)

    def __repr__(self):
        return f"v1 {self.cls.__name__} {self.infos} {self.sig} custom={self.custom_dir}"


class V2:
    kind = "v2"

    def __init__(self, rng, devs, n, reg):
        base = rng.choice(devs)
        self.custom_dir = rng.random() < 0.3
        mk = _ns["build"] if self.custom_dir else QuirkBuilder
        near = lambda own, pool: own if own is not None and rng.random() < 0.9 else rng.choice([p for p in pool if p])  # noqa: E731
        self.keys = list(dict.fromkeys([(near(base.manufacturer, MANUFS), near(base.model, MODELS)) for _ in range(rng.choice([1, 1, 2]))]))
        kw = {} if reg is None else {"registry": reg}
        if rng.random() < 0.5:
            b = mk(*self.keys[0], **kw)
        else:
            b = mk(**kw)
            b.applies_to(*self.keys[0])
        for k in self.keys[1:]:
            rng.choice([b.applies_to, b.also_applies_to])(*k)
        self.filters = []
        if rng.random() < 0.6:
            sig = rand_signature(rng, base)
            b.filter(zigpy.quirks.signature_matches({"endpoints": sig_dict(rng, sig)}))
            self.filters.append(("signature", sig))
        if rng.random() < 0.3:
            ep = rng.choice([1, 2, 3])
            b.filter(lambda d: ep in d.endpoints)
            self.filters.append(("ep", ep))
        if rng.random() < 0.1:
            b.filter(lambda d: False)
            self.filters.append(("never", None))
        b.friendly_name(model=f"m{n}", manufacturer="f")
        self.skip = None
        if rng.random() < 0.4:
            self.skip = rng.random() < 0.7
            b.skip_configuration(self.skip) if not self.skip or rng.random() < 0.5 else b.skip_configuration()
        self.node_desc = None
        if rng.random() < 0.3:
            self.node_desc = sim.node_desc(zdo_t.LogicalType.EndDevice, rng.choice([0x80, 0x84]))
            b.node_descriptor(self.node_desc)
        self.cls = CustomDeviceV2
        if rng.random() < 0.2:
            self.cls = CDeviceV2
            b.device_class(CDeviceV2)
        # changes, each slot (endpoint, direction, cluster) touched by at most one of them
        self.changes = []
        used = set()
        occ = set()
        eps = [e for e in base.endpoints if e != 0]
        for _ in range(rng.randrange(0, 5)):
            op = rng.choice(["adds", "adds", "removes", "replaces", "occurrences"])
            e = rng.choice(eps)
            server = rng.random() < 0.6
            ct = ClusterType.Server if server else ClusterType.Client
            ekw = {}
            if e != 1 or rng.random() < 0.5:
                ekw["endpoint_id"] = e
            if not server or rng.random() < 0.5:
                ekw["cluster_type"] = ct
            if op == "adds":
                c = rng.choice(CIDS + [0xFC55])
                if (e, server, c) in used or c in occ:
                    continue
                used.add((e, server, c))
                k = CUSTOM.get(c) if rng.random() < 0.6 or c == 0xFC55 else None
                consts = {}
                if k is not None and rng.random() < 0.5:
                    consts = {a: rng.choice([0, rng.randrange(1, 200)]) for a in rng.sample(NUM[k], min(2, len(NUM[k])))}
                    ekw["constant_attributes"] = consts
                b.adds(k or c, **ekw)
                self.changes.append((op, e, server, c, k, consts))
            elif op == "removes":
                c = rng.choice(CIDS)
                if (e, server, c) in used or c in occ:
                    continue
                used.add((e, server, c))
                b.removes(c, **ekw)
                self.changes.append((op, e, server, c))
            elif op == "replaces":
                k = rng.choice(list(CUSTOM.values()))
                c = rng.choice(CIDS) if rng.random() < 0.4 else k.cluster_id
                slots = {(e, server, c), (e, server, k.cluster_id)}
                if slots & used or {c, k.cluster_id} & occ:
                    continue
                used |= slots
                if c != k.cluster_id or rng.random() < 0.3:
                    ekw["cluster_id"] = c
                b.replaces(k, **ekw)
                self.changes.append((op, e, server, c, k))
            else:
                k = rng.choice([CBasic, COnOff, CLevel])
                if k.cluster_id in occ or any(u[2] == k.cluster_id for u in used):
                    continue
                occ.add(k.cluster_id)
                srv, cli = rng.choice([(True, True), (True, False), (False, True)])
                okw = {}
                if not srv:
                    okw["replace_server_instances"] = False
                if not cli:
                    okw["replace_client_instances"] = False
                b.replace_cluster_occurrences(k, **okw)
                self.changes.append((op, k, srv, cli))
        if any(c[0] != "occurrences" for c in self.changes):
            need = {c[1] for c in self.changes if c[0] != "occurrences"}
            b.filter(lambda d: need <= set(d.endpoints))
            self.filters.append(("eps", need))
        self.entities = {}
        for j in range(rng.choice([0, 0, 1, 3])):
            e, c = rng.choice([1, 2]), rng.choice(CIDS)
            ct = rng.choice([ClusterType.Server, ClusterType.Client])
            name = f"attr{j}"
            f = rng.choice(["switch", "number", "binary_sensor", "sensor"])
            getattr(b, f)(name, c, cluster_type=ct, endpoint_id=e, translation_key=f"k{j}", fallback_name="n")
            self.entities.setdefault((e, c, ct), []).append(name)
        self.triggers = None
        if rng.random() < 0.2:
            self.triggers = {("press", f"b{rng.randrange(5)}"): {"command": "on"}}
            b.device_automation_triggers(self.triggers)
        if rng.random() < 0.15:
            # cloning without the names and registering under them again must be the same handler
            cl = b.clone()
            for k in self.keys:
                cl.applies_to(*k)
            b = cl
        self.entry = b.add_to_registry()

    def matches(self, desc, key):
        if key != (desc["manufacturer"], desc["model"]):
            return False
        for k, v in self.filters:
            if k == "signature" and not sig_match(desc, v):
                return False
            if k == "ep" and v not in desc["endpoints"]:
                return False
            if k == "never":
                return False
            if k == "eps" and not v <= set(desc["endpoints"]):
                return False
        return True

    def __repr__(self):
        return f"v2 {self.keys} filters={self.filters} changes={self.changes} custom={self.custom_dir}"


class Model:
    def __init__(self):
        self.v1 = {}  # (m, mo) -> handlers, newest first
        self.v2 = {}

    def choice(self, desc):
        m = [h for h in self.v2.get((desc["manufacturer"], desc["model"]), []) if h.matches(desc, (desc["manufacturer"], desc["model"]))]
        if len(m) > 1:
            return "ambiguous"
        if m:
            return m[0]
        man, mod = desc["manufacturer"], desc["model"]
        for info in dict.fromkeys([(man, mod), (man, None), (None, mod), (None, None)]):
            for h in self.v1.get(info, []):
                if h.matches(desc, info):
                    return h
        return None


def check_names(q, wit):
    """A server cluster is reached by its name, whichever class serves it now."""
    for e, ep in q.endpoints.items():
        if e == 0:
            continue
        names = collections.Counter(c.ep_attribute for c in ep.in_clusters.values())
        for cid, c in ep.in_clusters.items():
            n = c.ep_attribute
            if n is None or names[n] > 1 or hasattr(type(ep), n):
                continue
            got = getattr(ep, n, None)
            if got is not c:
                raise Violation("cluster-by-name", f"endpoint {e}: {n} is {got!r}, cluster {cid:#06x} of the endpoint is {c!r}", wit)


def check_identity(src, q, h, wit):
    check_names(q, wit)
    if src.is_initialized and q.non_zdo_endpoints and q.node_desc is not None and not q.is_initialized:
        raise Violation("identity", f"the device is no longer set up: endpoints {[(e, ep.status) for e, ep in q.endpoints.items() if e]}", wit)
    for name in ("ieee", "nwk", "lqi", "rssi", "last_seen", "relays", "status", "application"):
        if getattr(q, name) != getattr(src, name):
            raise Violation("identity", f"{name} became {getattr(q, name)}, was {getattr(src, name)}", wit)
    rep = h.rep if h.kind == "v1" else {}
    want = {
        "manufacturer": rep.get("manufacturer", src.manufacturer),
        "model": rep.get("model", src.model),
        "node_desc": rep.get("node_desc", src.node_desc),
        "skip_configuration": rep.get("skip_configuration", src.skip_configuration),
    }
    if h.kind == "v2":
        want["skip_configuration"] = bool(h.skip)
        if h.node_desc is not None:
            want["node_desc"] = h.node_desc
    for k, v in want.items():
        if getattr(q, k) != v:
            raise Violation("declared-attribute", f"{k} is {getattr(q, k)!r}, expected {v!r}", wit)


def check_cluster(q, ep, c, cl, k, server, wit):
    cls = k or STD[c]
    if k is not None and type(cl) is not k or k is None and (not isinstance(cl, STD[c]) or isinstance(cl, CustomCluster)):
        raise Violation("cluster-class", f"cluster {c:#06x} of endpoint {ep.endpoint_id} is {type(cl).__name__}, expected {cls.__name__}", wit)
    if cl.is_server != server:
        raise Violation("cluster-side", f"cluster {c:#06x} (server={server}) says is_server={cl.is_server}", wit)
    if cl.endpoint is not ep or ep.device is not q or cl.cluster_id != c:
        raise Violation("cluster-owner", f"cluster {c:#06x} belongs to {cl.endpoint}", wit)


def check_v1(src, q, h, wit):
    if type(q) is not h.cls:
        raise Violation("wrong-class", f"got {type(q)}, expected {h.cls}", wit)
    check_identity(src, q, h, wit)
    if set(q.endpoints) != set(h.eps) | {0}:
        raise Violation("endpoints", f"endpoints {sorted(q.endpoints)}, declared {sorted(h.eps)}", wit)
    for e, (p, dt, ins, outs, ecls) in h.eps.items():
        ep = q.endpoints[e]
        if type(ep) is not ecls:
            raise Violation("endpoint-class", f"endpoint {e} is {type(ep)}", wit)
        wp = p if p is not None else src.endpoints[e].profile_id
        wd = dt if dt is not None else src.endpoints[e].device_type
        if (ep.profile_id, ep.device_type) != (wp, wd):
            raise Violation("endpoint-type", f"endpoint {e}: {ep.profile_id}/{ep.device_type}, expected {wp}/{wd}", wit)
        for have, want, server in ((ep.in_clusters, ins, True), (ep.out_clusters, outs, False)):
            if set(have) != set(want):
                raise Violation("clusters", f"endpoint {e} server={server}: {sorted(have)}, declared {sorted(want)}", wit)
            for c, k in want.items():
                check_cluster(q, ep, c, have[c], k, server, wit)


def check_v2(ctx, src, q, h, wit, net):
    if type(q) is not h.cls:
        raise Violation("wrong-class", f"got {type(q)}, expected {h.cls}", wit)
    if q.quirk_metadata != h.entry or q.quirk_metadata.friendly_name != h.entry.friendly_name:
        raise Violation("wrong-class", f"entry {q.quirk_metadata}", wit)
    check_identity(src, q, h, wit)
    want = {}
    for e, ep in src.endpoints.items():
        if e == 0:
            continue
        for server, cl in ((True, ep.in_clusters), (False, ep.out_clusters)):
            want[e, server] = {c: (None, True, {}) for c in cl}
    for ch in h.changes:
        if ch[0] == "adds":
            _, e, server, c, k, consts = ch
            retained = k is None and c in want[e, server]
            want[e, server][c] = (k, retained, consts)
        elif ch[0] == "removes":
            want[ch[1], ch[2]].pop(ch[3], None)
        elif ch[0] == "replaces":
            _, e, server, c, k = ch
            want[e, server].pop(c, None)
            want[e, server][k.cluster_id] = (k, False, {})
        else:
            _, k, srv, cli = ch
            for (e, server), cl in want.items():
                if (srv if server else cli) and k.cluster_id in cl:
                    cl[k.cluster_id] = (k, False, {})
    if set(q.endpoints) != set(src.endpoints):
        raise Violation("endpoints", f"endpoints {sorted(q.endpoints)}, original {sorted(src.endpoints)}", wit)
    for (e, server), cl in want.items():
        ep = q.endpoints[e]
        o = src.endpoints[e]
        if (ep.profile_id, ep.device_type) != (o.profile_id, o.device_type):
            raise Violation("endpoint-type", f"endpoint {e}: {ep.profile_id}/{ep.device_type}", wit)
        have = ep.in_clusters if server else ep.out_clusters
        if set(have) != set(cl):
            raise Violation("clusters", f"endpoint {e} server={server}: {sorted(have)}, expected {sorted(cl)}", wit)
        for c, (k, retained, consts) in cl.items():
            check_cluster(q, ep, c, have[c], k, server, wit)
            if retained:
                oc = (o.in_clusters if server else o.out_clusters)[c]
                if have[c] is oc:
                    raise Violation("cluster-owner", "cluster object shared with the original", wit)
                for a in oc.attributes:
                    if have[c].get(a) != oc.get(a):
                        raise Violation("cached-data", f"cluster {c:#06x} attribute {a:#06x}: {have[c].get(a)}, was {oc.get(a)}", wit)
                    if have[c]._attr_last_updated.get(a) != oc._attr_last_updated.get(a):
                        raise Violation("cached-data", f"cluster {c:#06x} attribute {a:#06x} lost its update time", wit)
                if have[c].unsupported_attributes != oc.unsupported_attributes:
                    raise Violation("cached-data", f"cluster {c:#06x} unsupported attributes {have[c].unsupported_attributes}, were {oc.unsupported_attributes}", wit)
                ctx.count("retained_clusters")
                ctx.count("retained_values", len(oc._attr_cache))
            elif retained is False and not consts and have[c]._attr_cache and k is not None:
                # a freshly created cluster starts without values
                o2 = (o.in_clusters if server else o.out_clusters).get(c)
                if o2 is None:
                    raise Violation("cached-data", f"new cluster {c:#06x} holds {have[c]._attr_cache}", wit)
            for a, v in consts.items():
                for key in (a.name, a.id):
                    if have[c].get(key) != v:
                        raise Violation("constant", f"constant {a.name} of cluster {c:#06x} reads {have[c].get(key)!r} (by {key}), declared {v}", wit)
                before = len(net.app.sent)
                (ok, bad), _ = vloop.run(have[c].read_attributes([a.name]))
                if ok != {a.name: v} or bad or len(net.app.sent) != before:
                    raise Violation("constant", f"reading constant {a.name}={v} gave {ok} {bad}, packets {len(net.app.sent) - before}", wit)
                ctx.count("constants")
    got = {k: [m.attribute_name for m in v] for k, v in q.exposes_metadata.items() if v}
    if got != h.entities:
        raise Violation("entities", f"exposes {got}, declared {h.entities}", wit)
    trig = getattr(q, "device_automation_triggers", None)
    if (trig and {k: dict(v) for k, v in trig.items()}) != h.triggers:
        raise Violation("triggers", f"{trig}, declared {h.triggers}", wit)


class Net:
    def __init__(self, app):
        self.app = app


def run(ctx):
    def case(rng, glob):
        app = sim.make_app()
        net = Net(app)
        reg = zigpy.quirks.DEVICE_REGISTRY if glob else DeviceRegistry()
        model = Model()
        live = []
        h_all = []
        log = []
        devs = [rand_device(rng, app, k) for k in range(rng.randrange(1, 4))]
        log += [f"device {k}: {describe(d)}" for k, d in enumerate(devs)]
        last = {}

        def unregister(h, info):
            (model.v1 if h.kind == "v1" else model.v2)[info].remove(h)

        def lookup(k, through_app):
            d = devs[k]
            desc = describe(d)
            want = model.choice(desc)
            before = snapshot(d)
            wit = {"log": log[-40:], "want": repr(want), "device": desc}
            events = []
            got = None
            if through_app:

                class L:
                    def raw_device_initialized(self, dev):
                        events.append(("raw", dev))

                    def device_initialized(self, dev):
                        events.append(("init", dev))

                lst = L()
                app.add_listener(lst)
            try:
                if through_app:
                    app.devices[d.ieee] = d
                    app.device_initialized(d)
                    got = app.devices[d.ieee]
                elif glob and rng.random() < 0.5:
                    got = zigpy.quirks.get_device(d)
                elif rng.random() < 0.5:
                    got = zigpy.quirks.get_device(d, reg)
                else:
                    got = reg.get_device(d)
            except zigpy.exceptions.MultipleQuirksMatchException:
                if want != "ambiguous":
                    raise Violation("refused", "refused although not ambiguous", wit) from None
                if through_app:
                    app.remove_listener(lst)
            else:
                if through_app:
                    app.remove_listener(lst)
                if want == "ambiguous":
                    raise Violation("ambiguous-accepted", f"several handlers match but got {got}", wit)
                if want is None:
                    if got is not d:
                        raise Violation("not-generic", f"no handler matches but got {type(got).__name__}", wit)
                elif want.kind == "v1":
                    check_v1(d, got, want, wit)
                else:
                    check_v2(ctx, d, got, want, wit, net)
                if through_app:
                    if [e[0] for e in events] != ["raw", "init"] or events[0][1] is not d or events[1][1] is not got:
                        raise Violation("app-events", f"{events}", wit)
                    if app.get_device(nwk=d.nwk) is not got:
                        raise Violation("app-table", "the table does not hold the replacement", wit)
                    app.devices[d.ieee] = d
                    ctx.count("through_app")
                if got is not d and reg.get_device(got) is not got:
                    raise Violation("not-idempotent", "looking up an already replaced device replaced it again", wit)
            if snapshot(d) != before:
                raise Violation("original-changed", "the lookup changed the original device", wit)
            n_comp = len(live)
            near = sum(1 for h in live if h.kind == "v1" and h.sig is not None and set(h.sig) == set(desc["endpoints"]))
            kind = want if isinstance(want, str) else want.kind if want else "generic"
            ctx.count(f"match_{kind}")
            ctx.evaluated((kind, n_comp, near, tuple(sorted(str(c[0]) for c in want.changes)) if kind == "v2" else tuple(sorted(want.rep)) if kind == "v1" else ()))
            ctx.state("choices", (k, repr(want)))
            last[k] = got
            return got, want

        try:
            for step in range(rng.randrange(8, 20)):
                op = rng.choice(["v1", "v1", "v1", "v2", "remove", "lookup", "lookup", "lookup", "again", "purge"])
                if op == "v1":
                    h = V1(rng, devs, step, glob)
                    if not h.auto:
                        reg.add_to_registry(h.cls)
                    for info in h.infos:
                        model.v1.setdefault(info, []).insert(0, h)
                    live.append(h)
                    h_all.append(h)
                    log.append(f"add {h}")
                elif op == "v2":
                    h = V2(rng, devs, step, None if glob else reg)
                    for key in h.keys:
                        model.v2.setdefault(key, []).append(h)
                    live.append(h)
                    log.append(f"add {h}")
                elif op == "again" and live:
                    h = rng.choice(live)
                    if h.kind == "v1" and all(h in model.v1.get(i, []) for i in h.infos):
                        reg.add_to_registry(h.cls)
                        log.append(f"re-add {h.cls.__name__}")
                elif op == "remove" and live:
                    h = rng.choice(live)
                    if h.kind == "v1":
                        if len(h.signature.get("models_info", [])) != len(set(h.signature.get("models_info", []))):
                            continue
                        reg.remove(h.cls)
                        for i in h.infos:
                            unregister(h, i)
                        live.remove(h)
                        log.append(f"remove {h.cls.__name__}")
                        ctx.count("removed_v1")
                    else:
                        # removal goes through a device the handler was applied to
                        for k, q in last.items():
                            if isinstance(q, CustomDeviceV2) and q.quirk_metadata is h.entry:
                                key = (q.manufacturer, q.model)
                                if h not in model.v2.get(key, []):
                                    continue
                                if q not in reg:
                                    raise Violation("membership", f"{q} is not in the registry", {"log": log})
                                reg.remove(q)
                                unregister(h, key)
                                if q in reg:
                                    raise Violation("membership", "still in the registry after its removal", {"log": log})
                                log.append(f"remove {h} for {key}")
                                ctx.count("removed_v2")
                                if not any(h in v for v in model.v2.values()):
                                    live.remove(h)
                                break
                elif op == "purge" and rng.random() < 0.5:
                    root = rng.choice([ROOT, ROOT, pathlib.Path("/nonexistent/other")])
                    reg.purge_custom_quirks(root)
                    log.append(f"purge {root}")
                    if root == ROOT:
                        for tab in (model.v1, model.v2):
                            for v in tab.values():
                                v[:] = [h for h in v if not h.custom_dir]
                        ctx.count("purged", sum(1 for h in live if h.custom_dir))
                        live[:] = [h for h in live if not h.custom_dir]
                if h_all and rng.random() < 0.5:
                    # every class registered, and no other, is found in the registry
                    h = rng.choice(h_all)
                    have = any(h in v for v in model.v1.values())
                    if (h.cls in reg) is not have:
                        raise Violation("membership-class", f"{h}: registered {have}, found {not have}", {"log": log})
                    ctx.count(f"membership_{have}")
                if op == "lookup":
                    lookup(rng.randrange(len(devs)), glob and rng.random() < 0.5)
            for k in range(len(devs)):
                lookup(k, glob)
            for (manuf, mdl), hs in list(model.v1.items()):
                # what is registered can be listed, latest first
                have = list(zigpy.quirks.get_quirk_list(manuf, mdl) if glob else zigpy.quirks.get_quirk_list(manuf, mdl, reg))
                if have != [h.cls for h in hs]:
                    raise Violation("listed", f"registered for {manuf!r} {mdl!r}: {have}, expected {hs}", {"log": log})
                ctx.count("listed", len(hs))
            ctx.sample(log[:12])
        finally:
            if glob:
                reg._registry.clear()
                reg._registry_v2.clear()

    async def configured(idx):
        """Setting up a device runs each quirk cluster's own set-up once, and nothing else."""
        rng = ctx.rng("config", idx)
        app = sim.make_app()
        calls = []
        args = (rng.random(), "arg")
        kw = {"x": rng.random()}

        class Base(CustomCluster):
            async def apply_custom_configuration(self, *a, **k):
                calls.append((self.endpoint.endpoint_id, self.is_server, int(self.cluster_id), a == args and k == kw))
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.random())

        def cluster(cid):
            kind = rng.choice(["int", "plain", "quirk", "hook", "hook", "inherited"])
            if kind == "int":
                return cid, False
            if kind == "plain":
                return zigpy.zcl.Cluster._registry[cid], False
            if kind == "quirk":
                return type("Q", (CustomCluster,), {"cluster_id": cid}), False
            if kind == "inherited":
                return type("I", (type("H", (Base,), {"cluster_id": cid}),), {"cluster_id": cid}), True
            return type("H", (Base,), {"cluster_id": cid}), True

        eps = rng.sample([1, 2, 3, 11, 242], rng.randint(1, 4))
        ids = [0, 3, 4, 5, 6, 8]
        dev = sim.add_ready_device(app, sim.eui(0x99), 0x77, endpoints={e: (0x0104, 0x100, rng.sample(ids, 3), rng.sample(ids, 2)) for e in eps})
        rep, want = {}, []
        for e in eps:
            sides = {}
            for key, server in (("input_clusters", True), ("output_clusters", False)):
                sides[key] = []
                for cid in rng.sample(ids, rng.randint(0, 4)):
                    c, hook = cluster(cid)
                    sides[key].append(c)
                    if hook:
                        want.append((e, server, cid, True))
            rep[e] = {"profile_id": 0x0104, "device_type": 0x100, **sides}
        if rng.random() < 0.5:
            cls = type("Dev", (CustomDevice,), {"signature": None, "replacement": {"endpoints": rep}})
            q = cls(app, dev.ieee, dev.nwk, dev)
        else:
            reg = DeviceRegistry()
            b = QuirkBuilder("m", "n", registry=reg)
            want = []
            for e in eps:
                for server, cids in ((True, dev.endpoints[e].in_clusters), (False, dev.endpoints[e].out_clusters)):
                    for cid in list(cids):
                        c, hook = cluster(int(cid))
                        if not isinstance(c, int) and issubclass(c, CustomCluster):
                            b.replaces(c, cluster_type=ClusterType.Server if server else ClusterType.Client, endpoint_id=e)
                            if hook:
                                want.append((e, server, int(cid), True))
            b.add_to_registry()
            dev.manufacturer, dev.model = "m", "n"
            q = reg.get_device(dev)
        for _ in range(2):
            calls.clear()
            await q.apply_custom_configuration(*args, **kw)
            if sorted(calls) != sorted(want):
                raise Violation("set-up", f"set-up hooks run {sorted(calls)}, expected {sorted(want)}", {"replacement": repr(rep)})
        if app.sent:
            raise Violation("set-up-sent", f"setting up a device sent {len(app.sent)} packets", None)
        ctx.count("hooks_run", len(want))
        ctx.evaluated(("config", type(q).__name__, len(eps), len(want)), bool(want))

    for k in range(ctx.n(400, 5000)):
        ctx.case(f"config-{k}", lambda: vloop.run(configured(k)))
    ctx.require("hooks_run", 800)

    for k in range(ctx.n(2500, 40000)):
        rng = ctx.rng(k)
        ctx.case(f"quirks-{k}", case, rng, k % 4 == 0)
    for kind, n in (("v1", 700), ("v2", 600), ("generic", 3000), ("ambiguous", 100)):
        ctx.require(f"match_{kind}", n)
    ctx.require("retained_clusters", 1000)
    ctx.require("retained_values", 1000)
    ctx.require("constants", 100)
    ctx.require("removed_v1", 300)
    ctx.require("removed_v2", 20)
    ctx.require("purged", 100)
    ctx.require("through_app", 300)
    ctx.require("listed", 1000)
    ctx.require("membership_True", 1000)
    ctx.require("membership_False", 100)
