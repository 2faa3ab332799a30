"""Z01: the attribute cache always reflects what the device last said."""

from __future__ import annotations

import asyncio
import math

from harness import gen, sim, vloop
from harness.core import Violation

from checks.T03 import SIMPLE, any_value

import zigpy.exceptions
import zigpy.quirks
import zigpy.types as t
import zigpy.zcl
from zigpy.zcl import foundation as f

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: online reference model of the cache and the unsupported set, stepped at every answer or report "
    "injected at the radio boundary; cache, results and listener events compared after each step"
)
NOTE = (
    "Random histories of concurrent reads, writes, undivided writes, reporting set-up, reports, explicit updates and clears "
    "on many clusters (plain and quirk clusters with constant attributes) against a scripted device that answers with "
    "successes, per-attribute failures, omitted, reordered, repeated and extra records, wrongly typed values, default "
    "responses, undecodable bytes, silence and delivery failures."
)
RULE = (
    "One evaluation is one answer, report or local change after which the whole cache and unsupported set are compared; "
    "non-trivial: distinct (operation, answer shape, cluster)."
)
ASSUMPTIONS = [
    "packets are delivered in separate event-loop passes (two packets handed over in the same pass may be applied in either order)",
    "a successful write response is the single SUCCESS record of the ZCL specification",
]
CLUSTERS = [0x0000, 0x0001, 0x0003, 0x0006, 0x0008, 0x0101, 0x0102, 0x0201, 0x0202, 0x0300, 0x0402, 0x0500, 0x0702, 0x0B04, 0xFC11]
ST = f.Status


def python_of(value):
    """A value comparable across types."""
    if isinstance(value, float):
        return ("f", "nan" if math.isnan(value) else float(value))
    if isinstance(value, bool):
        return ("i", int(value))
    if isinstance(value, int):
        return ("i", int(value))
    if isinstance(value, (bytes, bytearray)):
        return ("b", bytes(value))
    if isinstance(value, list):
        return (type(value).__name__, tuple(python_of(x) for x in value))
    return (type(value).__name__, repr(value))


def normalise(cluster, attrid, raw):
    d = cluster.attributes.get(attrid)
    if d is None:
        return raw, False
    try:
        return d.type(raw), True
    except (ValueError, TypeError, OverflowError, KeyError):
        return raw, False


def run(ctx):
    base = zigpy.zcl.Cluster._registry[0x0000]

    class QuirkBasic(zigpy.quirks.CustomCluster, base):
        _CONSTANT_ATTRIBUTES = {0x0004: "Constant Maker", 0x0007: 3, 0x0010: "", 0x0011: 0}

    level = zigpy.zcl.Cluster._registry[0x0008]

    class QuirkLevel(zigpy.quirks.CustomCluster, level):
        cluster_id = 0x0008

    async def history(idx):
        rng = ctx.rng(idx)
        app = sim.make_app()
        cid = rng.choice(CLUSTERS)
        dev = sim.add_ready_device(app, sim.eui(0xD000 + idx), 0x2200, endpoints={1: (0x0104, 0x100, sorted({cid, 0x0000, 0x0008}), [0x0019])})
        ep = dev.endpoints[1]
        consts = {}
        flavour = rng.choice(["plain", "plain", "quirk"])
        if flavour == "quirk":
            qc = rng.choice([QuirkBasic, QuirkLevel])
            cid = qc.cluster_id
            ep.in_clusters.pop(cid)
            ep.add_input_cluster(cid, qc(ep, is_server=True))
            consts = qc._CONSTANT_ATTRIBUTES or {}
        cl = ep.in_clusters[cid]
        dev._concurrent_requests_semaphore.max_value = 32
        other = next(c for i, c in ep.in_clusters.items() if i != cid)

        cache, unsup = {}, set()
        expected, events = [], []

        class Listener:
            def attribute_updated(self, a, v, ts):
                events.append(("upd", int(a), python_of(v)))
                if abs(ts.timestamp() - vloop.now()) > 0.001:
                    raise_later.append(f"update of 0x{a:04x} stamped {ts}")

            def attribute_cleared(self, a):
                events.append(("clr", int(a)))

            def unsupported_attribute_added(self, a):
                events.append(("uns+", int(a)))

            def unsupported_attribute_removed(self, a):
                events.append(("uns-", int(a)))

        raise_later = []
        cl.add_listener(Listener())
        oevents = []
        other.add_context_listener(type("O", (), {k: (lambda s, *a, k=k: oevents.append((k, a))) for k in ("attribute_updated", "unsupported_attribute_added")})())

        known = [a for a in cl.attributes if a not in (0xFFFD, 0xFFFE)]
        pool = rng.sample(known, min(len(known), rng.choice([2, 4, 8])))
        for c in consts:
            if rng.random() < 0.6 and c not in pool:
                pool.append(c)
        pool += [x for x in (0xF0A1, 0xF0A2) if x not in cl.attributes]
        names = {a: cl.attributes[a].name for a in pool if a in cl.attributes}

        # -- model steps
        def m_set(a, v):
            cache[a] = v
            expected.append(("upd", a, python_of(v)))

        def m_uns(a):
            if a not in unsup:
                unsup.add(a)
                expected.append(("uns+", a))

        def m_sup(a):
            if a in unsup:
                unsup.discard(a)
                expected.append(("uns-", a))

        trace = []

        def check(step, key):
            trace.append(step)
            ctx.evaluated((flavour, cid, key))
            ctx.count("cache_comparisons")
            wit = {"cluster": hex(cid), "trace": trace[-25:]}
            got = {int(a): python_of(v) for a, v in cl._attr_cache.items()}
            want = {a: python_of(v) for a, v in cache.items()}
            if got != want:
                d = {hex(a): (got.get(a), want.get(a)) for a in set(got) | set(want) if got.get(a) != want.get(a)}
                raise Violation(f"cache-after-{key}", f"cached versus confirmed values differ {d} after {step}", wit)
            for a, v in cache.items():
                dflt = object()
                for k in [a, names.get(a)]:
                    if k is None or a not in cl.attributes:
                        continue
                    pub = cl.get(k, dflt)
                    exp = consts.get(a, v)
                    if pub is dflt or python_of(pub) != python_of(exp):
                        raise Violation("get", f"get({k!r}) returned {pub!r}, expected {exp!r}", wit)
                d = cl.attributes.get(a)
                if d is not None and a in typed and not isinstance(cl._attr_cache[a], d.type):
                    raise Violation("declared-type", f"0x{a:04x} is cached as {type(cl._attr_cache[a])}, declared {d.type}", wit)
            for a in pool:
                if a not in cache and a in cl.attributes and a not in consts and cl.get(a, None) is not None:
                    raise Violation("get-missing", f"get({a}) invents {cl.get(a)!r}", wit)
            gotu = {int(x) for x in cl.unsupported_attributes if not isinstance(x, str)}
            gotn = {x for x in cl.unsupported_attributes if isinstance(x, str)}
            wantn = {cl.attributes[a].name for a in unsup if a in cl.attributes}
            if gotu != unsup or gotn != wantn:
                raise Violation(f"unsupported-after-{key}", f"marked unsupported {gotu | gotn}, device said {unsup | wantn} after {step}", wit)
            if events != expected:
                k = next((i for i, (x, y) in enumerate(zip(events, expected)) if x != y), min(len(events), len(expected)))
                raise Violation(f"events-after-{key}", f"announced {events[k:k+4]}, expected {expected[k:k+4]} after {step}", wit)
            events.clear(), expected.clear()
            if raise_later:
                raise Violation("timestamp", raise_later[0], wit)
            if oevents:
                raise Violation("other-cluster", f"another cluster announced {oevents}", wit)
            ctx.state("cache shapes", (cid, tuple(sorted(want)), tuple(sorted(unsup))))

        typed = set()

        def confirm(a, raw):
            v, ok = normalise(cl, a, raw)
            (typed.add if ok else typed.discard)(a)
            m_set(a, v)
            return v

        def value_for(a, wrong=0.25):
            """(python value, type id, bytes) as a device could send for the attribute."""
            d = cl.attributes.get(a)
            if d is not None and rng.random() >= wrong:
                try:
                    tid = int(d.zcl_type)
                    if tid in SIMPLE:
                        v, enc = any_value(rng, tid)
                        return v, tid, enc
                except Exception:  # noqa: BLE001
                    pass
            tid = rng.choice([0x10, 0x20, 0x21, 0x23, 0x28, 0x29, 0x30, 0x39, 0x42, 0x41, 0x18, 0xE2, 0xF0])
            v, enc = any_value(rng, tid)
            return v, tid, enc

        def usable(tid, v):
            """Values the cluster treats as a clear or cannot compare are not sent."""
            return v is not None

        pending = []  # requests seen on the air: (pkt, header)

        async def on_send(pkt):
            h = sim.parse_zcl(pkt.data.serialize())
            if h["type"] == 0 and h["cmd"] in (0x00, 0x02, 0x03, 0x06):
                if failsend and rng.random() < failsend[0]:
                    failed_tsn.add(h["tsn"])
                    raise zigpy.exceptions.DeliveryError("no ack")
                pending.append((pkt, h))

        failsend = [rng.choice([0, 0, 0.1])]
        failed_tsn = set()
        app.on_send = on_send
        ops = {}  # tsn -> op

        def send(h, cmd, body):
            data = sim.zcl_hdr(h["tsn"], cmd, s2c=True, manuf=h["manuf"]) + body
            app.packet_received(sim.rx(dev, cid, data, tsn=h["tsn"]))

        async def flush():
            await vloop.settle(12)

        def keyed(attrs):
            return [names[a] if a in names and rng.random() < 0.5 else a for a in attrs]

        # -- operations
        async def op_read():
            attrs = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            keys = keyed(attrs)
            kw = rng.choice([{}, {}, {}, {"allow_cache": True}, {"only_cache": True}])
            keys = list(dict.fromkeys(keys))
            attrs = [next(a for a in pool if k == a or names.get(a) == k) for k in keys]
            op = {"kind": "read", "keys": keys, "attrs": attrs, "kw": kw, "succ": {}, "fail": {}}
            if kw:
                rest = []
                for k, a in zip(keys, attrs):
                    if a in cache:
                        op["succ"][k] = cache[a]
                    elif a in unsup:
                        op["fail"][k] = ST.UNSUPPORTED_ATTRIBUTE
                    else:
                        rest.append(a)
                op["air"] = [] if kw.get("only_cache") else rest
            else:
                op["air"] = list(attrs)
            before = len(app.sent)
            op["local"] = [a for a in op["air"] if a in consts]
            op["air"] = [a for a in op["air"] if a not in consts]
            op["task"] = asyncio.ensure_future(cl.read_attributes(keys, **kw))
            op["name"] = f"read {keys} {kw}"
            await flush()
            mine = app.sent[before:]
            if not op["air"]:
                if mine:
                    raise Violation("cached-read-traffic", f"{op['name']} is answered locally but sent {mine}", trace[-20:])
                read_consts(op)
                ctx.count("cached_reads")
                finish(op)
                check(op["name"], "local-read")
            else:
                if len(mine) != 1:
                    raise Violation("read-traffic", f"{op['name']} sent {len(mine)} packets", trace[-20:])
                h = sim.parse_zcl(mine[0][1].data.serialize())
                ids = [int.from_bytes(h["payload"][i : i + 2], "little") for i in range(0, len(h["payload"]), 2)]
                if sorted(ids) != sorted(op["air"]) and sorted(set(ids)) != sorted(set(op["air"])):
                    raise Violation("read-request", f"{op['name']} asked the device for {ids}", trace[-20:])
                op["ids"] = ids
                register(op, h)

        def read_consts(op):
            for a in op["local"]:
                v = confirm(a, consts[a])
                m_sup(a)
                for k, b in zip(op["keys"], op["attrs"]):
                    if a == b:
                        op["succ"][k] = v

        def register(op, h):
            op["h"] = h
            if h["tsn"] in failed_tsn:
                failed_tsn.discard(h["tsn"])
                t_ = op["task"]
                if not t_.done() or not isinstance(t_.exception(), zigpy.exceptions.DeliveryError):
                    raise Violation("delivery", f"{op['name']} did not fail with the delivery error: {t_}", trace[-20:])
                ctx.count("failed_operations")
                check(op["name"] + " undelivered", "delivery-failure")
                return
            ops[h["tsn"]] = op

        async def op_write():
            undiv = rng.random() < 0.35
            attrs = rng.sample([a for a in pool if a in names], min(len(names), rng.choice([1, 1, 2, 3])))
            recs = {}
            for a in attrs:
                d = cl.attributes[a]
                try:
                    v, _ = gen.build(d.type, rng)
                except Exception:  # noqa: BLE001
                    continue
                if isinstance(v, t.Struct) or v is None or (isinstance(v, float) and math.isnan(v)):
                    continue
                recs[a] = v
            if not recs:
                return
            arg = dict(zip(keyed(list(recs)), recs.values()))
            op = {"kind": "undivided" if undiv else "write", "recs": recs, "name": f"write{'U' if undiv else ''} {arg}"}
            before = len(app.sent)
            fn = cl.write_attributes_undivided if undiv else cl.write_attributes
            op["task"] = asyncio.ensure_future(fn(arg))
            await flush()
            mine = app.sent[before:]
            if len(mine) != 1:
                if op["task"].done() and op["task"].exception() is not None:
                    raise Violation("write-failed", f"{op['name']}: {op['task'].exception()!r}", trace[-20:])
                raise Violation("write-traffic", f"{op['name']} sent {len(mine)} packets", trace[-20:])
            register(op, sim.parse_zcl(mine[0][1].data.serialize()))

        async def op_config():
            attrs = rng.sample(list(names), min(len(names), rng.choice([1, 2, 3])))
            attrs = [a for a in attrs if reportable(a)]
            if not attrs:
                return
            arg = {k: (1, 300, 1) for k in keyed(attrs)}
            op = {"kind": "config", "attrs": attrs, "name": f"configure {list(arg)}"}
            before = len(app.sent)
            op["task"] = asyncio.ensure_future(cl.configure_reporting_multiple(arg))
            await flush()
            mine = app.sent[before:]
            if len(mine) != 1:
                raise Violation("config-traffic", f"{op['name']} sent {len(mine)} packets: {op['task']}", trace[-20:])
            register(op, sim.parse_zcl(mine[0][1].data.serialize()))

        def reportable(a):
            try:
                return int(f.DataType.from_python_type(cl.attributes[a].type).type_id) in SIMPLE and not issubclass(
                    cl.attributes[a].type, (t.TimeOfDay, t.Date, t.EUI64, t.KeyData)
                )
            except Exception:  # noqa: BLE001
                return False

        def finish(op, exc=None):
            tk = op["task"]
            if not tk.done():
                raise Violation("not-finished", f"{op['name']} is still waiting after its answer", trace[-20:])
            got = tk.exception()
            if exc is not None:
                if got is None or not isinstance(got, exc):
                    raise Violation("failure", f"{op['name']} ended with {got!r}/{tk}, expected {exc}", trace[-20:])
                ctx.count("failed_operations")
                return
            if got is not None:
                raise Violation(f"raised-{op['kind']}", f"{op['name']} raised {got!r}", trace[-20:])
            if op["kind"] == "read":
                s, fl = tk.result()
                for what, g, w in (("values", s, {k: python_of(v) for k, v in op["succ"].items()}), ("statuses", fl, {k: int(v) for k, v in op["fail"].items()})):
                    g2 = {k: (python_of(v) if what == "values" else int(v)) for k, v in g.items()}
                    extra = set(g2) - set(w) - op.get("extra", set())
                    if {k: g2.get(k) for k in w} != w or extra:
                        raise Violation(f"result-{what}", f"{op['name']} returned {what} {g2}, device said {w}", trace[-20:])
                ctx.count("read_results")

        async def answer(op):
            h = op["h"]
            kind = op["kind"]
            shape = rng.choice(["ok", "ok", "ok", "mixed", "mixed", "default", "garbage", "silence"])
            key = f"{kind}-{shape}"
            cmdrsp = {"read": 0x01, "write": 0x04, "undivided": 0x04, "config": 0x07}[kind]
            step = f"{op['name']} answered {shape}"
            if shape == "silence":
                op["silent"] = True
                silent.append(op)
                return
            if shape == "default":
                st = rng.choice([ST.UNSUP_GENERAL_COMMAND, ST.FAILURE, ST.MALFORMED_COMMAND, ST.NOT_AUTHORIZED])
                send(h, 0x0B, bytes([h["cmd"], st]))
                if kind == "read":
                    read_consts(op)
                    for k, a in zip(op["keys"], op["attrs"]):
                        if a in op["air"]:
                            op["fail"][k] = st
                await flush()
                finish(op)
                if kind != "read":
                    res = op["task"].result()
                    if isinstance(res[0], list) or int(res.status) != st or int(res.command_id) != h["cmd"]:
                        raise Violation("default-response", f"{op['name']} returned {res!r} for a default response {st!r}", trace[-20:])
                check(step, key)
                ctx.count("default_responses")
                return
            if shape == "garbage":
                body = rng.choice([b"\x01", b"\x05\x00\x00\x42\x20abc", b"\x05\x00\x00\xfe\x01"]) if kind == "read" else None
                if kind != "read":
                    body = b"\x86\x01"
                send(h, cmdrsp, body)
                await flush()
                finish(op, zigpy.exceptions.ParsingError)
                check(step, key)
                ctx.count("undecodable_answers")
                return
            body = b""
            if kind == "read":
                ids = list(op["ids"])
                recs = []
                for a in dict.fromkeys(ids):
                    if shape == "mixed" and rng.random() < 0.5:
                        st = rng.choice([ST.UNSUPPORTED_ATTRIBUTE, ST.UNSUPPORTED_ATTRIBUTE, ST.WRITE_ONLY, ST.FAILURE, ST.NOT_AUTHORIZED])
                        recs.append((a, st, None))
                    else:
                        v, tid, enc = value_for(a)
                        recs.append((a, 0, (v, tid, enc)))
                recs = [next(r for r in recs if r[0] == a) for a in ids]
                if shape == "mixed":
                    if rng.random() < 0.4:
                        rng.shuffle(recs)
                    if rng.random() < 0.3 and len(recs) > 1:
                        recs.pop(rng.randrange(len(recs)))
                    if rng.random() < 0.3:
                        a = rng.choice(pool)
                        if a not in ids and a not in consts:
                            v, tid, enc = value_for(a)
                            recs.insert(rng.randrange(len(recs) + 1), (a, 0, (v, tid, enc)))
                            op["extra"] = {a, names.get(a, a)}
                read_consts(op)
                for a, st, val in recs:
                    mine = [k for k, b in zip(op["keys"], op["attrs"]) if b == a and a not in consts]
                    if st == 0:
                        v, tid, enc = val
                        body += sim.u16(a) + b"\x00" + bytes([tid]) + enc
                        nv = confirm(a, v)
                        m_sup(a)
                        for k in mine:
                            op["succ"][k] = nv
                            op["fail"].pop(k, None)
                    else:
                        body += sim.u16(a) + bytes([st])
                        if st == ST.UNSUPPORTED_ATTRIBUTE:
                            m_uns(a)
                        for k in mine:
                            op["fail"][k] = st
                step = f"{op['name']} answered {[(hex(a), int(s), v and v[:2]) for a, s, v in recs]}"
            elif kind in ("write", "undivided"):
                recs = op["recs"]
                if shape == "ok":
                    body = b"\x00"
                    for a, v in recs.items():
                        typed.add(a)
                        m_set(a, v)
                else:
                    bad = [a for a in recs if rng.random() < 0.6] or [next(iter(recs))]
                    for a in bad:
                        body += bytes([rng.choice([0x86, 0x87, 0x88, 0x8D])]) + sim.u16(a)
                    if kind == "write":
                        for a, v in recs.items():
                            if a not in bad:
                                typed.add(a)
                                m_set(a, v)
                    step += f" rejecting {bad}"
            else:
                if shape == "ok":
                    body = b"\x00"
                    for a in op["attrs"]:
                        m_sup(a)
                    sameset(expected)
                else:
                    listed = [a for a in op["attrs"] if rng.random() < 0.8] or op["attrs"][:1]
                    sts = {a: rng.choice([0x86, 0x86, 0x8C, 0x00]) for a in listed}
                    if not any(sts.values()):
                        sts[listed[0]] = 0x86
                    for a, st in sts.items():
                        body += bytes([st, 0]) + sim.u16(a)
                    for a, st in sts.items():
                        if st == 0x86:
                            m_uns(a)
                    for a, st in sts.items():
                        if st == 0:
                            m_sup(a)
                    step += f" {sts}"
                    sameset(expected)
            send(h, cmdrsp, body)
            await flush()
            finish(op)
            if kind == "config":
                sameset(events)
            check(step, key)
            ctx.count(f"answers_{kind}")

        def sameset(lst):
            lst.sort(key=repr)

        async def report():
            attrs = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))]
            body = b""
            txt = []
            for a in attrs:
                v, tid, enc = value_for(a)
                body += sim.u16(a) + bytes([tid]) + enc
                confirm(a, v)
                txt.append((hex(a), v))
            data = sim.zcl_hdr(rng.randrange(256), 0x0A, s2c=True, disable_default=True) + body
            app.packet_received(sim.rx(dev, cid, data))
            await flush()
            check(f"report {txt}", "report")
            ctx.count("reports")

        async def local():
            a = rng.choice(pool)
            k = rng.random()
            if k < 0.5:
                v, _, _ = value_for(a, 0)
                typed.discard(a)
                cl.update_attribute(a, v)
                m_set(a, v)
                check(f"update 0x{a:04x} {v!r}", "update")
            elif k < 0.8:
                cl.update_attribute(a, None)
                if a in cache:
                    del cache[a]
                    typed.discard(a)
                    expected.append(("clr", a))
                check(f"clear 0x{a:04x}", "clear")
            elif k < 0.9:
                key = rng.choice(keyed([a]))
                cl.add_unsupported_attribute(key)
                m_uns(a)
                check(f"mark {key} unsupported", "mark")
            else:
                key = rng.choice(keyed([a]))
                cl.remove_unsupported_attribute(key)
                m_sup(a)
                check(f"unmark {key}", "unmark")

        silent = []
        for _ in range(rng.randint(10, 40)):
            r = rng.random()
            if r < 0.3 and len(ops) < 4:
                await op_read()
            elif r < 0.45 and len(ops) < 4:
                await op_write()
            elif r < 0.52 and len(ops) < 4:
                await op_config()
            elif r < 0.75 and ops:
                tsn = rng.choice(list(ops))
                await answer(ops.pop(tsn))
            elif r < 0.88:
                await report()
            elif r < 0.96:
                await local()
            else:
                await asyncio.sleep(rng.choice([0.01, 0.5]))
        while ops:
            await answer(ops.pop(rng.choice(list(ops))))
        if silent:
            await asyncio.sleep(60)
            for op in silent:
                finish(op, asyncio.TimeoutError)
            check("timeouts", "timeout")
            ctx.count("timeouts", len(silent))
        if idx < 3:
            ctx.sample({"cluster": hex(cid), "flavour": flavour, "trace": trace[-12:]})

    for i in range(ctx.n(700, 20000)):
        if ctx.stop:
            break
        ctx.case(i, lambda i=i: vloop.run(history(i)))
    for k, m in (("cache_comparisons", 5000), ("read_results", 1000), ("cached_reads", 200), ("reports", 800), ("answers_read", 700),
                 ("answers_write", 200), ("answers_undivided", 100), ("answers_config", 60), ("default_responses", 200),
                 ("undecodable_answers", 200), ("failed_operations", 300), ("timeouts", 100)):  # fmt: skip
        ctx.require(k, ctx.n(m, m * 10))
