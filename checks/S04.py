"""S04: network backups survive every exchange format unchanged."""

from __future__ import annotations

import copy
import datetime
import json

from harness import sim
from harness.core import Violation

import zigpy.backups
from zigpy.backups import NetworkBackup
import zigpy.config as conf
import zigpy.state
from zigpy.state import Key
import zigpy.types as t
from zigpy.zdo.types import LogicalType

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: the real conversions are called on random backups and documents and their results compared, field by field, with an "
    "independent reading and writing of both formats; single defects are put into documents and the refusal is observed"
)
NOTE = (
    "Random backups over every field (boundary addresses, counters, masks, duplicate-free key tables, children, addresses, nested stack specific data, "
    "time zones), documents of the open coordinator format as written by zigpy and by other software (optional parts left out), old dictionaries "
    "without version; every field of both kinds of documents removed, mistyped, truncated or extended one at a time."
)
RULE = "One evaluation is one conversion judged; non-trivial: distinct (format, shape of the backup or defect)."
ASSUMPTIONS = [
    "Metadata keys do not collide with the ones the open coordinator format reserves (node, network, link_key_seqs, creation_time, date).",
    "Numbers in documents are taken as given.",
]

UTC = datetime.timezone.utc


def rand_eui(rng):
    r = rng.random()
    if r < 0.05:
        return t.EUI64.convert("00:00:00:00:00:00:00:00")
    return t.EUI64([t.uint8_t(x) for x in rng.randbytes(8)])


def rand_key(rng, partner=None, link=False):
    return Key(
        key=rng.choice([t.KeyData(rng.randbytes(16)), t.KeyData(rng.randbytes(16)), t.KeyData(bytes(16))]),
        tx_counter=rng.choice([0, 1, 0xFFFFFFFF, rng.randrange(2**32)]),
        rx_counter=rng.choice([0, 0xFFFFFFFF, rng.randrange(2**32)]) if link or rng.random() < 0.3 else 0,
        seq=rng.choice([0, 1, 255]),
        partner_ieee=partner or rng.choice([t.EUI64.UNKNOWN, rand_eui(rng)]),
    )


def rand_json(rng, depth=0):
    r = rng.random()
    if depth < 3 and r < 0.3:
        return {rng.choice(["a", "ezsp", "zstack", "tclk_seed", "ü", "devices"]): rand_json(rng, depth + 1) for _ in range(rng.randrange(0, 3))}
    if depth < 3 and r < 0.4:
        return [rand_json(rng, depth + 1) for _ in range(rng.randrange(0, 3))]
    return rng.choice([None, True, 0, -1, 2**40, 1.5, "", "text", "ffee", "ünï"])


def rand_dict(rng):
    return {rng.choice(["ezsp", "zstack", "b", "ü", "devices", "hashed_tclk"]): rand_json(rng) for _ in range(rng.choice([0, 0, 1, 2]))}


def rand_time(rng):
    tz = rng.choice([UTC, UTC, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(-datetime.timedelta(hours=8))])
    return datetime.datetime(
        rng.randrange(1970, 2100), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60),
        rng.choice([0, 1, 999999, rng.randrange(10**6)]), tzinfo=tz,
    )  # fmt: skip


def rand_backup(rng):
    pool = [rand_eui(rng) for _ in range(rng.choice([0, 1, 2, 5, 12]))]
    pool = list({str(e): e for e in pool}.values())
    pick = lambda: rng.sample(pool, rng.randrange(0, len(pool) + 1))  # noqa: E731
    nwk = lambda: t.NWK(rng.choice([0, 1, 0x1234, 0xFFF7, 0xFFFE, rng.randrange(0x10000)]))  # noqa: E731
    net = zigpy.state.NetworkInfo(
        extended_pan_id=t.ExtendedPanId(rand_eui(rng)),
        pan_id=t.PanId(rng.choice([1, 0x12, 0x1A2B, 0xFFFE, rng.randrange(0x10000)])),
        nwk_update_id=t.uint8_t(rng.choice([0, 1, 254, 255])),
        nwk_manager_id=rng.choice([t.NWK(0), nwk()]),
        channel=t.uint8_t(rng.randrange(11, 27)),
        channel_mask=t.Channels.from_channel_list(rng.sample(range(11, 27), rng.randrange(0, 17))),
        security_level=t.uint8_t(rng.randrange(8)),
        network_key=rand_key(rng),
        tc_link_key=rand_key(rng) if rng.random() < 0.7 else Key(key=conf.CONF_NWK_TC_LINK_KEY_DEFAULT, partner_ieee=rand_eui(rng)),
        key_table=[rand_key(rng, p, link=True) for p in pick()],
        children=pick(),
        nwk_addresses={e: nwk() for e in pick()},
        stack_specific=rand_dict(rng),
        metadata=rand_dict(rng),
        source=rng.choice([None, "bellows@0.30", "zigpy-znp@0.9", "ü"]),
    )
    node = zigpy.state.NodeInfo(
        nwk=rng.choice([t.NWK(0), nwk()]), ieee=rand_eui(rng), logical_type=rng.choice([LogicalType.Coordinator, LogicalType.Router, LogicalType.EndDevice]),
        model=rng.choice([None, "model", "ü"]), manufacturer=rng.choice([None, "Co", ""]), version=rng.choice([None, "1.2", ""]),
    )  # fmt: skip
    return NetworkBackup(backup_time=rand_time(rng), network_info=net, node_info=node)


def h(v):
    """Number or address as the documents' hexadecimal text, most significant digit first."""
    if isinstance(v, int):
        return f"{int(v):04x}"
    return bytes(v)[::-1].hex()


def plain_key(k):
    return {"key": bytes(k.key).hex(), "tx": int(k.tx_counter), "rx": int(k.rx_counter), "seq": int(k.seq), "partner": h(k.partner_ieee)}


def plain(b, keys=True):
    """A backup as plain data; lists that are sets sorted."""
    n, o = b.network_info, b.node_info
    return {
        "version": b.version,
        "time": (b.backup_time.isoformat()),
        "epid": h(n.extended_pan_id), "pan": h(n.pan_id), "update": int(n.nwk_update_id), "manager": h(n.nwk_manager_id), "channel": int(n.channel),
        "mask": int(n.channel_mask), "level": int(n.security_level), "net_key": plain_key(n.network_key), "tc_key": plain_key(n.tc_link_key),
        "table": sorted((plain_key(k) for k in n.key_table), key=lambda k: k["partner"]), "children": sorted(map(h, n.children)),
        "addresses": {h(e): h(a) for e, a in n.nwk_addresses.items()}, "stack": copy.deepcopy(n.stack_specific), "meta": copy.deepcopy(n.metadata),
        "source": n.source, "node_nwk": h(o.nwk), "node_ieee": h(o.ieee), "node_type": o.logical_type.name, "model": o.model,
        "manufacturer": o.manufacturer, "node_version": o.version,
    }  # fmt: skip


def typed(b):
    """The values have the types the radio libraries rely on."""
    n, o = b.network_info, b.node_info
    ok = [
        (n.extended_pan_id, t.EUI64), (n.pan_id, t.NWK), (n.nwk_manager_id, t.NWK), (n.channel_mask, t.Channels), (n.network_key, Key), (n.tc_link_key, Key),
        (n.network_key.key, t.KeyData), (n.tc_link_key.key, t.KeyData), (o.ieee, t.EUI64), (o.nwk, t.NWK), (o.logical_type, LogicalType),
        *((k, Key) for k in n.key_table), *((k.partner_ieee, t.EUI64) for k in n.key_table), *((k.key, t.KeyData) for k in n.key_table),
        *((c, t.EUI64) for c in n.children), *((e, t.EUI64) for e in n.nwk_addresses), *((a, t.NWK) for a in n.nwk_addresses.values()),
        (b.backup_time, datetime.datetime),
    ]  # fmt: skip
    for v, c in ok:
        if not isinstance(v, c):
            raise Violation("types", f"{v!r} is a {type(v).__name__}, not a {c.__name__}")


def differ(want, got, key, msg):
    if want == got:
        return
    f = [k for k in {**want, **got} if want.get(k, "absent") != got.get(k, "absent")]
    d = {k: (want.get(k, "absent"), got.get(k, "absent")) for k in f[:4]}
    raise Violation(f"{key}:{f[0]}", f"{msg}: {', '.join(f'{k}: {a!r} became {b!r}' for k, (a, b) in d.items())}")


def shape(b):
    n = b.network_info
    return (
        min(len(n.key_table), 3), min(len(n.children), 3), min(len(n.nwk_addresses), 3), bool(n.stack_specific), bool(n.metadata), n.source is None,
        b.node_info.logical_type.name, b.backup_time.utcoffset() == datetime.timedelta(0),
    )  # fmt: skip


def dictionary(ctx, i):
    rng = ctx.rng("dict", i)
    b = rand_backup(rng)
    want = plain(b)
    d = b.as_dict()
    if plain(b) != want:
        raise Violation("dict-modifies", "converting a backup into a dictionary modified it")
    for name, obj in (("dictionary", d), ("JSON", json.loads(json.dumps(d)))):
        before = json.dumps(obj, sort_keys=True)
        back = NetworkBackup.from_dict(obj)
        differ(want, plain(back), name, f"a backup converted to its {name} form and back")
        typed(back)
        if json.dumps(obj, sort_keys=True) != before:
            raise Violation("input-modified", f"reading the {name} form modified it")
        if back.backup_time != b.backup_time:
            raise Violation("time", f"backup time {b.backup_time} became {back.backup_time}")
        # canonical once converted: equal as objects and documents
        again = NetworkBackup.from_dict(back.as_dict())
        if again != back or again.as_dict() != back.as_dict():
            raise Violation("not-canonical", f"converting twice gives {again}, once {back}")
    if b.is_complete() != back.is_complete() or not back.is_compatible_with(b) or not b.is_compatible_with(back):
        raise Violation("no-longer-compatible", "a converted backup is not compatible with the original")
    # before the format had a version
    old = json.loads(json.dumps(d))
    del old["version"]
    for f in ("model", "manufacturer", "version"):
        del old["node_info"][f]
    before = json.dumps(old, sort_keys=True)
    back = NetworkBackup.from_dict(old)
    differ({**want, "version": 1, "model": None, "manufacturer": None, "node_version": None}, plain(back), "version-0", "a dictionary without version")
    if json.dumps(old, sort_keys=True) != before:
        raise Violation("input-modified", "reading a dictionary without version modified it")
    # the parts on their own
    n, o = zigpy.state.NetworkInfo.from_dict(d["network_info"]), zigpy.state.NodeInfo.from_dict(d["node_info"])
    differ(want, plain(NetworkBackup(backup_time=b.backup_time, network_info=n, node_info=o)), "parts", "network and node converted separately")
    ctx.count("dictionaries converted", 3)
    ctx.evaluated(("dict", shape(b)), True, 3)


def document(b):
    """An independent writer of the open coordinator format."""
    n, o = b.network_info, b.node_info
    table = {h(k.partner_ieee): k for k in n.key_table}
    devs = sorted({*table, *map(h, n.children), *map(h, n.nwk_addresses)})
    addr = {h(e): h(a) for e, a in n.nwk_addresses.items()}
    return {
        "metadata": {
            "version": 1, "format": "zigpy/open-coordinator-backup", "source": n.source,
            "internal": {
                **n.metadata,
                "creation_time": b.backup_time.isoformat(),
                "node": {
                    "ieee": h(o.ieee), "nwk": h(o.nwk), "model": o.model, "manufacturer": o.manufacturer, "version": o.version,
                    "type": {"Coordinator": "coordinator", "Router": "router", "EndDevice": "end_device"}[o.logical_type.name],
                },
                "network": {
                    "tc_link_key": {"key": bytes(n.tc_link_key.key).hex(), "frame_counter": n.tc_link_key.tx_counter},
                    "tc_address": h(n.tc_link_key.partner_ieee), "nwk_manager": h(n.nwk_manager_id),
                },
                "link_key_seqs": {p: k.seq for p, k in table.items()},
            },
        },
        "stack_specific": n.stack_specific, "coordinator_ieee": h(o.ieee), "pan_id": h(n.pan_id), "extended_pan_id": h(n.extended_pan_id),
        "nwk_update_id": n.nwk_update_id, "security_level": n.security_level, "channel": n.channel, "channel_mask": list(n.channel_mask),
        "network_key": {"key": bytes(n.network_key.key).hex(), "sequence_number": n.network_key.seq, "frame_counter": n.network_key.tx_counter},
        "devices": [
            {
                "ieee_address": e, "nwk_address": addr.get(e), "is_child": e in set(map(h, n.children)),
                **({"link_key": {"key": bytes(table[e].key).hex(), "tx_counter": table[e].tx_counter, "rx_counter": table[e].rx_counter}} if e in table else {}),
            }
            for e in devs
        ],
    }  # fmt: skip


def expressible(want):
    """What the open coordinator format cannot express is left at its default."""
    want = copy.deepcopy(want)
    want["net_key"]["rx"] = 0
    want["net_key"]["partner"] = "ff" * 8
    want["tc_key"]["rx"] = want["tc_key"]["seq"] = 0
    return want


def opencoord(ctx, i):
    rng = ctx.rng("open", i)
    b = rand_backup(rng)
    want = plain(b)
    doc = b.as_open_coordinator_json()
    if plain(b) != want:
        raise Violation("open-modifies", "converting a backup into an open coordinator document modified it")
    text = json.loads(json.dumps(doc))
    ref = json.loads(json.dumps(document(b)))
    differ(ref, text, "open-document", "the open coordinator document of a backup (expected, written)")
    before = json.dumps(text, sort_keys=True)
    for obj in (text, doc, ref):
        for read in (NetworkBackup.from_dict, NetworkBackup.from_open_coordinator_json):
            back = read(obj)
            differ(expressible(want), plain(back), "open", "a backup converted to the open coordinator format and back")
            typed(back)
            if back.backup_time != b.backup_time:
                raise Violation("time", f"backup time {b.backup_time} became {back.backup_time}")
    if json.dumps(text, sort_keys=True) != before:
        raise Violation("input-modified", "reading an open coordinator document modified it")
    if json.loads(json.dumps(back.as_open_coordinator_json())) != text:
        raise Violation("open-not-stable", "an open coordinator document changes when converted back and forth")
    if not back.is_compatible_with(b) or back.is_complete() != b.is_complete():
        raise Violation("no-longer-compatible", "a converted backup is not compatible with the original")
    ctx.count("open coordinator documents converted")
    ctx.evaluated(("open", shape(b)), True)


def external(ctx, i):
    """A document as another program writes it, with optional parts missing."""
    rng = ctx.rng("external", i)
    b = rand_backup(rng)
    b.network_info.source = b.network_info.source or "herdsman-converters"
    doc = json.loads(json.dumps(document(b)))
    want = expressible(plain(b))
    meta = doc["metadata"]
    internal = meta["internal"]
    gone = []

    def drop(p, *names):
        if rng.random() < p:
            gone.extend(names)
            return True
        return False

    if drop(0.4, "creation_time"):
        del internal["creation_time"]
        want["time"] = "1970-01-01T00:00:00+00:00"
        if drop(0.6, "date"):
            when = rand_time(rng).astimezone(UTC).replace(microsecond=rng.choice([0, 123000]))
            iso = when.replace(tzinfo=None).isoformat(timespec="milliseconds") + "Z"
            internal["date"] = iso
            internal["znpVersion"] = 1
            want["meta"] = {**want["meta"], "date": iso, "znpVersion": 1}
            want["time"] = when.isoformat()
    if drop(0.4, "node"):
        del internal["node"]
        want.update(node_nwk="0000", node_type="Coordinator", model=None, manufacturer=None, node_version=None)
    else:
        for f, k, dflt in (
            ("nwk", "node_nwk", "0000"), ("type", "node_type", "Coordinator"), ("model", "model", None), ("manufacturer", "manufacturer", None),
            ("version", "node_version", None),
        ):  # fmt: skip
            if drop(0.2, f):
                del internal["node"][f]
                want[k] = dflt
    default_tc = {"key": bytes(conf.CONF_NWK_TC_LINK_KEY_DEFAULT).hex(), "tx": 0, "rx": 0, "seq": 0, "partner": want["node_ieee"]}
    if drop(0.4, "network"):
        del internal["network"]
        want.update(manager="0000", tc_key=default_tc)
    else:
        if drop(0.2, "nwk_manager"):
            del internal["network"]["nwk_manager"]
            want["manager"] = "0000"
        if drop(0.2, "tc_link_key"):
            del internal["network"]["tc_link_key"]
            want["tc_key"] = default_tc
        elif drop(0.2, "tc counter"):
            del internal["network"]["tc_link_key"]["frame_counter"]
            want["tc_key"]["tx"] = 0
    if drop(0.4, "link_key_seqs"):
        del internal["link_key_seqs"]
        for k in want["table"]:
            k["seq"] = 0
    if drop(0.2, "internal"):
        meta["internal"] = {}
        if rng.random() < 0.5:
            del meta["internal"]
        want.update(
            time="1970-01-01T00:00:00+00:00", node_nwk="0000", node_type="Coordinator", model=None, manufacturer=None, node_version=None, manager="0000",
            tc_key=default_tc, meta={},
        )  # fmt: skip
        for k in want["table"]:
            k["seq"] = 0
    if drop(0.3, "stack_specific"):
        if rng.random() < 0.5:
            del doc["stack_specific"]
        else:
            doc["stack_specific"] = None
        want["stack"] = {}
    rng.shuffle(doc["devices"])
    for d in doc["devices"]:
        if d["is_child"] and rng.random() < 0.3:
            gone.append("is_child")
            del d["is_child"]  # a child unless said otherwise
    if rng.random() < 0.3:
        ignored = h(t.EUI64(rng.randbytes(8)))
        doc["devices"].append({"ieee_address": ignored, "nwk_address": None, "is_child": False})
    if rng.random() < 0.3:  # upper case digits
        for f in ("coordinator_ieee", "pan_id", "extended_pan_id"):
            doc[f] = doc[f].upper()
        doc["network_key"]["key"] = doc["network_key"]["key"].upper()
    rng.shuffle(doc["channel_mask"])
    before = json.dumps(doc, sort_keys=True)
    back = NetworkBackup.from_dict(doc)
    if json.dumps(doc, sort_keys=True) != before:
        raise Violation("input-modified", "reading an open coordinator document modified it")
    differ(want, plain(back), "external", f"a document without {sorted(set(gone))} (expected, read)")
    typed(back)
    # and back: the same document, what was missing filled with defaults
    out = json.loads(json.dumps(back.as_open_coordinator_json()))
    for f in ("coordinator_ieee", "pan_id", "extended_pan_id", "nwk_update_id", "security_level", "channel"):
        a, c = (x.lower() if isinstance(x, str) else x for x in (doc[f], out[f]))
        if a != c:
            raise Violation(f"external-back:{f}", f"{f} {doc[f]!r} written back as {out[f]!r}")
    if sorted(doc["channel_mask"]) != sorted(out["channel_mask"]) or (doc.get("stack_specific") or {}) != out["stack_specific"]:
        raise Violation("external-back", "channel mask or stack specific data changed")
    nk = {**doc["network_key"], "key": doc["network_key"]["key"].lower()}
    if nk != out["network_key"]:
        raise Violation("external-back:network_key", f"{doc['network_key']} written back as {out['network_key']}")
    devs = {d["ieee_address"]: {"is_child": True, **d} for d in doc["devices"]}
    devs = {e: d for e, d in devs.items() if d["is_child"] or d["nwk_address"] is not None or "link_key" in d}
    if devs != {d["ieee_address"]: d for d in out["devices"]}:
        raise Violation("external-back:devices", f"devices {devs} written back as {out['devices']}")
    if out["metadata"]["source"] != meta["source"] or out["metadata"]["format"] != meta["format"] or out["metadata"]["version"] != meta["version"]:
        raise Violation("external-back:metadata", "the metadata changed")
    differ(plain(back), plain(NetworkBackup.from_dict(out)), "external-twice", "reading the document written back")
    ctx.count("external documents converted")
    for g in gone:
        ctx.state("parts left out", g)
    ctx.evaluated(("external", frozenset(gone)), True)


def paths(obj, pre=()):
    if isinstance(obj, dict):
        for k, v in obj.items():
            yield (*pre, k)
            yield from paths(v, (*pre, k))
    elif isinstance(obj, list):
        for k, v in enumerate(obj):
            yield (*pre, k)
            yield from paths(v, (*pre, k))


def get(obj, p):
    for k in p:
        obj = obj[k]
    return obj


OPTIONAL_OPEN = {
    ("metadata", "version"), ("metadata", "format"), ("metadata", "internal"), ("stack_specific",),
}  # fmt: skip
FREE = [("stack_specific",), ("network_info", "stack_specific"), ("network_info", "metadata"), ("network_info", "source"), ("metadata", "source"),
        ("node_info", "model"), ("node_info", "manufacturer"), ("node_info", "version")]  # fmt: skip
NUMERIC = ("tx_counter", "rx_counter", "seq", "nwk_update_id", "security_level", "channel", "frame_counter", "sequence_number", "version")


def defect(rng, fmt, doc, p):
    """Yield (name, document) with one thing wrong at `p`."""
    name = p[-1]
    v = get(doc, p)
    parent = get(doc, p[:-1])

    def with_(value):
        d = copy.deepcopy(doc)
        get(d, p[:-1])[name] = value
        return d

    optional = fmt == "open" and (p in OPTIONAL_OPEN or name == "is_child" or name == "link_key" or p[:2] == ("metadata", "internal"))
    if p == ("version",):  # dictionaries without version are the old format
        yield "wrong version", with_(2)
        yield "wrong version", with_("1")
        return
    if fmt == "open" and p[0] == "metadata" and len(p) > 2 and p[2] in ("creation_time",):
        yield "bad time", with_("yesterday")
        return
    if isinstance(parent, dict) and not optional and not (len(p) == 3 and p[1] == "nwk_addresses") and p != ("metadata",):
        d = copy.deepcopy(doc)
        del get(d, p[:-1])[name]
        yield "missing", d
    if p == ("metadata",):
        return
    if isinstance(v, str) and not any(p[: len(f)] == f for f in FREE):
        if name in ("type", "logical_type"):
            yield "unknown", with_("toaster")
            yield "mistyped", with_(None)
        elif name == "backup_time":
            yield "bad time", with_("yesterday")
        elif name in ("format", "source", "model", "manufacturer", "version", "ieee") and fmt == "open":
            return
        else:
            yield "not hexadecimal", with_("zz" + v[2:])
            yield "mistyped", with_(12)
            yield "mistyped", with_([v])
            yield "too short", with_(v[:-2].rstrip(":"))
            yield "odd", with_(v[:-1])
            yield "too long", with_(v + (":" if ":" in v else "") + "ab")
            yield "empty", with_("")
            if not (fmt == "open" and name == "nwk_address"):
                yield "null", with_(None)
    elif isinstance(v, list) and name in ("channel_mask",):
        yield "impossible channel", with_([*v, rng.choice([0, 10, 27, -1])])
        yield "mistyped", with_(5)
        yield "mistyped", with_(["11"])
    elif isinstance(v, (list, dict)) and not any(p[: len(f)] == f for f in FREE) and not optional:
        yield "mistyped", with_(None)
        yield "mistyped", with_(7)


def malformed(ctx, i):
    rng = ctx.rng("malformed", i)
    b = rand_backup(rng)
    pool = [rand_eui(rng) for _ in range(2)]
    b.network_info.key_table = [rand_key(rng, p, link=True) for p in pool]
    b.network_info.children = list(pool)
    b.network_info.nwk_addresses = {p: t.NWK(0x1234) for p in pool}
    b.network_info.stack_specific = {}
    b.network_info.metadata = {}
    for fmt, doc in (("dict", b.as_dict()), ("open", b.as_open_coordinator_json())):
        doc = json.loads(json.dumps(doc))
        for p in list(paths(doc)):
            for what, bad in defect(rng, fmt, doc, p):
                shown = tuple(x if not isinstance(x, int) else "*" for x in p)
                try:
                    r = NetworkBackup.from_dict(bad)
                except Exception as e:  # noqa: BLE001
                    ctx.state("refusals", type(e).__name__)
                else:
                    value = None if what == "missing" else get(bad, p)
                    ctx.violation(f"accepted:{fmt}:{'/'.join(map(str, shown))[:60]}:{what}", f"{fmt} document with {'/'.join(map(str, p))} {what} ({value!r}) was accepted as {r}"[:500])
                ctx.count("malformed documents")
                ctx.evaluated((fmt, what, shown[:4] if "nwk_addresses" not in shown else "nwk_addresses"), True)
    for bad in ({}, [], None, "x", {"version": 1}, {"network_info": {}}, {"metadata": {}}, {"metadata": None}, {"node_info": b.node_info.as_dict()}):
        try:
            NetworkBackup.from_dict(bad)
        except Exception:  # noqa: BLE001
            ctx.count("malformed documents")
        else:
            raise Violation("accepted", f"{bad!r} was accepted")


def run(ctx):
    for i in range(ctx.n(1500, 8000)):
        ctx.case(f"dict:{i}", dictionary, ctx, i)
    for i in range(ctx.n(1500, 8000)):
        ctx.case(f"open:{i}", opencoord, ctx, i)
    for i in range(ctx.n(2000, 12000)):
        ctx.case(f"external:{i}", external, ctx, i)
    for i in range(ctx.n(8, 200)):
        ctx.case(f"malformed:{i}", malformed, ctx, i)
    for name, m in [
        ("dictionaries converted", 1000), ("open coordinator documents converted", 350), ("external documents converted", 500), ("malformed documents", 1500),
    ]:  # fmt: skip
        ctx.require(name, m)
    ctx.sample({"parts left out": sorted(ctx.states.get("parts left out", ()))[:20]})
