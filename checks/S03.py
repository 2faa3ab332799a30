"""S03: database upgrades keep all data and are all-or-nothing."""

from __future__ import annotations

import json
import os
import pathlib
import re
import shutil
import sqlite3
import tempfile

from harness import dbwork, sim, vloop
from harness.core import Violation

import zigpy.backups
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdo_t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: random databases of every older schema version are upgraded by the real code; the resulting rows and the loaded state "
    "are compared with an independent translation, and the file is compared before and after upgrades made to fail or copied at single statements"
)
NOTE = (
    "Databases of versions 0 to 12 written from the historical schemas kept in harness/schemas, with leftovers of the versions they were upgraded "
    "from, values of attributes of virtual clusters and endpoints, and orphaned records where the old schema allowed them. Failures at every "
    "statement position (sampled in the quick tier), once or until the end, and crash copies at random statements."
)
RULE = (
    "One evaluation is one upgrade judged; non-trivial: distinct (version, oldest leftover version, kind, statement failed or copied at, tables filled)."
)
ASSUMPTIONS = [
    "Records the old schema allowed but the current one cannot hold (of devices that do not exist, without profile or without value) may be dropped.",
]

HERE = pathlib.Path(__file__).resolve().parent.parent / "harness" / "schemas"
SCHEMAS = {int(p.stem[len("schema_v") :]): p.read_text() for p in HERE.glob("schema_v*.sql")}
CUR = 13

CIDS = [0, 1, 3, 4, 6, 8, 0x0B04, 0x0702, 0xFC77]


def suffix(v):
    return "" if v < 5 else f"_v{v}"


def ieee(k):
    return str(sim.eui(0x5300_0000 + k))


class Data:
    """What a database contains, independent of its version."""

    def __init__(self, rng, v, small=False, base=None):
        self.v = v
        self.virtual = v not in (2, 5) and not (base == 2 and v < 5)
        self.devices = {}
        self.groups = {}
        self.members = set()
        self.backups = []
        nd = rng.choice([0, 1, 2, 4]) if not small else rng.choice([1, 2])
        for k in range(nd):
            self.devices[ieee(k)] = self.device(rng, k)
        if v >= 1:
            for _ in range(rng.randrange(0, 4)):
                self.groups[rng.choice([1, 2, 3, 0xFFF7])] = rng.choice(["a", "Ünï", "", "it's; \"x\""])
            eps = [(i, e) for i, d in self.devices.items() for e in d["eps"]]
            for g in self.groups:
                for i, e in rng.sample(eps, rng.randrange(0, len(eps) + 1)) if eps else []:
                    self.members.add((g, i, e))
        if v >= 10:
            for n in range(rng.randrange(0, 3)):
                self.backups.append(self.backup(rng, n))

    def device(self, rng, k):
        v = self.v
        eps = {}
        for e in rng.sample([1, 2, 10, 242], rng.choice([0, 1, 2, 3])):
            eps[e] = {
                "profile": rng.choice([0x0104, 0xC05E, 0xA1E0]),
                "type": rng.choice([0x0100, 0, 0x0061]),
                "status": rng.choice([0, 1, 1, 1]),
                "in": set(rng.sample(CIDS, rng.randrange(0, 5))),
                "out": set(rng.sample(CIDS, rng.randrange(0, 4))),
            }
        attrs = {}
        for e in eps:
            for _ in range(rng.choice([0, 1, 3, 8])):
                c = rng.choice([*eps[e]["in"], 0xFC88])
                a = rng.choice([0, 1, 4, 5, 0x4000, 0xFFFD])
                val = rng.choice(["5", "text; x", "", 0, 7, -5, 2**62, 1.5, -0.25, b"\x00\xff", b"", "00:11:22:33:44:55:66:77"])
                if c == 0 and a in (4, 5):
                    val = rng.choice(["Model; 1", "Ünï", b"blob\x00\x00", "5"])
                attrs[e, c, a] = [val, rng.choice([0.0, 1700000000.25, 1.5]) if v >= 12 else 0.0]
        if self.virtual and rng.random() < 0.3:
            attrs[99, 0xFC88, 1] = ["virtual endpoint", 0.0]
        unsup = set()
        if v >= 7:
            for e in eps:
                for c in eps[e]["in"]:
                    if rng.random() < 0.3:
                        unsup.add((e, c, rng.choice([0, 7, 0x4001])))
        nd = None
        if v >= 1 and rng.random() < 0.8:
            nd = zdo_t.NodeDescriptor(
                logical_type=rng.choice([1, 2]), complex_descriptor_available=rng.randrange(2), user_descriptor_available=rng.randrange(2),
                reserved=rng.choice([0, 7]), aps_flags=rng.randrange(8), frequency_band=rng.choice([8, 1]),
                mac_capability_flags=rng.choice([0x8E, 0x80, 0xFF]), manufacturer_code=rng.choice([0, 0x1234, 0xFFFF]),
                maximum_buffer_size=rng.randrange(1, 128), maximum_incoming_transfer_size=rng.randrange(0x8000),
                server_mask=rng.randrange(0x10000), maximum_outgoing_transfer_size=rng.randrange(0x8000), descriptor_capability_field=rng.randrange(256),
            )  # fmt: skip
        nbs = []
        if v >= 3:
            for _ in range(rng.choice([0, 0, 1, 3])):
                # device type, rx on, relationship, reserved, permit, reserved, depth, lqi
                f = [rng.randrange(3), rng.randrange(3), rng.randrange(5), rng.randrange(2), rng.randrange(3), 0, rng.randrange(16), rng.randrange(256)]
                if v >= 4:
                    f[5] = rng.choice([0, 0, 5])
                nbs.append((str(sim.eui(0xEE)), ieee(rng.randrange(6)), rng.randrange(0x10000), *f))
        routes = []
        if v >= 11:
            for _ in range(rng.choice([0, 0, 1, 3])):
                routes.append((rng.randrange(0xFFF8), rng.randrange(4), rng.randrange(2), rng.randrange(2), rng.randrange(2), rng.choice([0, 1]), rng.randrange(0xFFF8)))
        relays = None
        if v >= 1 and rng.random() < 0.4:
            relays = [rng.randrange(1, 0xFFF0) for _ in range(rng.randrange(0, 4))]
        return {
            "nwk": 0x1000 + k * 3 + rng.randrange(3),
            "status": rng.choice([0, 1, 2, 2]),
            "last_seen": rng.choice([0, 1700000000123, 1650000000000, 1]) if v == 8 else (rng.choice([0.0, 1700000000.123, 5.5]) if v > 8 else 0.0),
            "nd": nd, "relays": relays, "neighbors": nbs, "routes": routes, "eps": eps, "attrs": attrs, "unsup": unsup,
        }  # fmt: skip

    def backup(self, rng, n):
        ni = zigpy.state.NetworkInfo(
            extended_pan_id=sim.eui(0x9900 + n), pan_id=t.PanId(0x1A00 + n), nwk_update_id=t.uint8_t(n), channel=t.uint8_t(15),
            channel_mask=t.Channels.ALL_CHANNELS, security_level=t.uint8_t(5), source="test; x",
            network_key=zigpy.state.Key(key=t.KeyData(bytes([n + 1]) * 16), tx_counter=100 * n, seq=0),
        )  # fmt: skip
        node = zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=sim.eui(0x77), logical_type=zdo_t.LogicalType.Coordinator)
        import datetime

        when = datetime.datetime(2023, 1, 1 + n, tzinfo=datetime.timezone.utc)
        return zigpy.backups.NetworkBackup(network_info=ni, node_info=node, backup_time=when).as_dict()

    # --- writing
    def rows(self, v=None):
        """(table, columns) for version `v` (this data's version by default)."""
        v = self.v if v is None else v
        s = suffix(v)
        new = v >= 5
        nodesc = "node_descriptors_v4" if v == 4 else "node_descriptors" + s
        neigh = "neighbors_v4" if v == 4 else "neighbors" + s
        for i, d in self.devices.items():
            if v == 8:
                yield "devices" + s, (i, d["nwk"], d["status"], int(d["last_seen"]))
            elif v >= 9:
                yield "devices" + s, (i, d["nwk"], d["status"], float(d["last_seen"]))
            else:
                yield "devices" + s, (i, d["nwk"], d["status"])
            for e, ep in d["eps"].items():
                yield "endpoints" + s, (i, e, ep["profile"], ep["type"], ep["status"])
                for typ, tbl in (("in", "in_clusters" if new else "clusters"), ("out", "out_clusters" if new else "output_clusters")):
                    for c in ep[typ]:
                        yield tbl + s, (i, e, c)
            for (e, c, a), (val, when) in d["attrs"].items():
                row = (i, e, c, a, val)
                yield ("attributes_cache" if new else "attributes") + s, row if v < 12 else (*row, when)
            for e, c, a in d["unsup"]:
                yield "unsupported_attributes" + s, (i, e, c, a)
            if d["nd"] is not None:
                if v < 4:
                    yield nodesc, (i, d["nd"].serialize())
                else:
                    yield nodesc, (i, *map(int, d["nd"].as_tuple()))
            for epid, n, nwk, *f in d["neighbors"]:
                if v < 4:
                    packed = f[0] | f[1] << 2 | f[2] << 4 | f[3] << 7
                    yield neigh, (i, epid, n, nwk, packed, f[4], f[6], f[7])
                else:
                    yield neigh, (i, epid, n, nwk, *f)
            for r in d["routes"]:
                yield "routes" + s, (i, *r)
            if d["relays"] is not None:
                yield "relays" + s, (i, t.Relays(map(t.NWK, d["relays"])).serialize())
        for g, name in self.groups.items():
            yield "groups" + s, (g, name)
        for m in sorted(self.members):
            yield "group_members" + s, m
        for b in self.backups:
            yield "network_backups" + s, (None, json.dumps(b))

    def expected(self):
        """The rows of the current version."""
        out = {x: [] for x in TABLES}
        for i, d in self.devices.items():
            seen = d["last_seen"] / 1000.0 if self.v == 8 else float(d["last_seen"])
            out["devices"].append((i, d["nwk"], d["status"], seen))
            for e, ep in d["eps"].items():
                out["endpoints"].append((i, e, ep["profile"], ep["type"], ep["status"]))
                for c in ep["in"]:
                    out["clusters"].append((i, e, 0, c))
                for c in ep["out"]:
                    out["clusters"].append((i, e, 1, c))
            for (e, c, a), (val, when) in d["attrs"].items():
                out["attributes_cache"].append((i, e, 0, c, a, val, when))
            for e, c, a in d["unsup"]:
                out["unsupported_attributes"].append((i, e, 0, c, a))
            if d["nd"] is not None:
                out["node_descriptors"].append((i, *map(int, d["nd"].as_tuple())))
            for epid, n, nwk, *f in d["neighbors"]:
                out["neighbors"].append((i, epid, n, nwk, *f))
            for r in d["routes"]:
                out["routes"].append((i, *r))
            if d["relays"] is not None:
                out["relays"].append((i, t.Relays(map(t.NWK, d["relays"])).serialize()))
        out["groups"] = [(g, n) for g, n in self.groups.items()]
        out["group_members"] = sorted(self.members)
        out["network_backups"] = [json.dumps(b) for b in self.backups]
        return out


TABLES = [
    "devices", "endpoints", "clusters", "attributes_cache", "unsupported_attributes", "node_descriptors", "neighbors", "routes", "relays", "groups",
    "group_members", "network_backups",
]  # fmt: skip


def typed(row):
    """Distinguish 5, 5.0, '5' and b'5'."""
    return tuple((type(x).__name__, x) for x in row)


def script(db, sql):
    for st in sql.split(";"):
        if st.strip():
            db.execute(st)


def write(path, rng, data, base):
    """Create a database of data.v that was first created at version `base`."""
    db = sqlite3.connect(path)
    db.execute("PRAGMA foreign_keys = ON")
    v = data.v
    filled = set()
    if v >= 6 and rng.random() < 0.5:
        db.execute("PRAGMA journal_mode = WAL")
    for b in range(base, v):
        if b == 2 and base != 2:
            continue
        script(db, SCHEMAS[b])
        db.commit()
    if v == 3 and rng.random() < 0.3:
        # the table was added without a new version number
        script(db, re.sub(r"CREATE (TABLE|INDEX) IF NOT EXISTS neighbors.*?;", "", SCHEMAS[3], flags=re.S))
        for d in data.devices.values():
            d["neighbors"] = []
    else:
        script(db, SCHEMAS[v])
    db.commit()
    for tbl, row in data.rows():
        db.execute(f"INSERT INTO {tbl} VALUES ({','.join('?' * len(row))})", row)
        filled.add(tbl)
    # leftovers of earlier versions
    names = {r[0] for r in db.execute("SELECT name FROM sqlite_master WHERE type='table'")}
    for b in range(base, v):
        if b < 4 and v <= 4:
            continue  # the same tables, apart from those replaced in v4
        stale = Data(rng, b)
        if b < 5 and v == 5:
            # what v5 could not take over is taken over later; what it has is newer
            stale.devices = {i: d for i, d in stale.devices.items() if i in data.devices}
            for i, d in stale.devices.items():
                have = data.devices[i]["attrs"]
                d["attrs"] = {k: ["stale", 0.0] for k in have}
                if rng.random() < 0.5:
                    d["attrs"][98, 0xFC88, 2] = ["of a virtual endpoint", 0.0]
        if b >= 5:
            for d in stale.devices.values():
                for a in d["attrs"].values():
                    a[0] = "stale"
        for tbl, row in stale.rows(b):
            if tbl in names:
                try:
                    db.execute(f"INSERT INTO {tbl} VALUES ({','.join('?' * len(row))})", row)
                except sqlite3.IntegrityError:
                    continue
                filled.add("stale " + tbl)
                if v == 5 and tbl == "attributes" and row[1] == 98:
                    data.devices[row[0]]["attrs"][98, 0xFC88, 2] = ["of a virtual endpoint", 0.0]
    if v == 4 and base < 4 and "node_descriptors" in names:
        # replaced by the tables of v4
        for i in data.devices:
            db.execute("INSERT OR IGNORE INTO node_descriptors VALUES (?, ?)", (i, bytes(13)))
    if v in (0, 1, 3) and base != 2 and rng.random() < 0.4:
        gone = ieee(77)
        db.execute("INSERT INTO endpoints VALUES (?, 1, 260, 256, 1)", (gone,))
        db.execute("INSERT INTO clusters VALUES (?, 1, 6)", (gone,))
        db.execute("INSERT INTO output_clusters VALUES (?, 1, 6)", (gone,))
        db.execute("INSERT INTO attributes VALUES (?, 1, 6, 0, 1)", (gone,))
        if data.devices:
            i = next(iter(data.devices))
            db.execute("INSERT OR IGNORE INTO clusters VALUES (?, 55, 6)", (i,))
            db.execute("INSERT OR IGNORE INTO attributes VALUES (?, 55, 6, 0, NULL)", (i,))
            if 54 not in data.devices[i]["eps"]:
                db.execute("INSERT INTO endpoints VALUES (?, 54, NULL, NULL, 3)", (i,))
        filled.add("orphans")
    db.execute(f"PRAGMA user_version = {v}")
    db.commit()
    db.close()
    return filled


def dump(path):
    """Everything in the file, byte for byte as far as SQL can tell."""
    db = sqlite3.connect(path)
    try:
        rows = db.execute("PRAGMA integrity_check").fetchall()
        if rows != [("ok",)]:
            raise Violation("integrity", f"the database is corrupt: {rows[:3]}")
        out = {"user_version": db.execute("PRAGMA user_version").fetchone()[0]}
        out["schema"] = sorted(map(repr, db.execute("SELECT type, name, tbl_name, sql FROM sqlite_master")))
        for (name,) in db.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").fetchall():
            out["rows of " + name] = [typed(r) for r in db.execute(f"SELECT * FROM {name} ORDER BY rowid")]
        return out
    finally:
        db.close()


def check_rows(data, path, where):
    db = sqlite3.connect(path)
    try:
        if (uv := db.execute("PRAGMA user_version").fetchone()[0]) != CUR:
            raise Violation("user-version", f"{where}: the version after the upgrade is {uv}")
        if rows := db.execute("PRAGMA foreign_key_check").fetchall():
            raise Violation("foreign-keys", f"{where}: records refer to entities that do not exist: {rows[:4]}")
        for tbl, want in data.expected().items():
            if tbl == "network_backups":
                got = [r[0] for r in db.execute(f"SELECT backup_json FROM {tbl}_v13 ORDER BY id")]
                if list(map(json.loads, got)) != list(map(json.loads, want)):
                    raise Violation("rows:network_backups", f"{where}: {len(want)} backups before, {len(got)} after or different")
                continue
            got = [typed(r) for r in db.execute(f"SELECT * FROM {tbl}_v13 ORDER BY rowid")]
            want = [typed(r) for r in want]
            if tbl in ("neighbors", "routes"):  # ordered within a device
                got, want = sorted(got, key=lambda r: r[0][1]), sorted(want, key=lambda r: r[0][1])
            else:
                got, want = sorted(got, key=repr), sorted(want, key=repr)
            if tbl == "endpoints":
                got = [r for r in got if r[1][1] != 54]
            if got != want:
                lost = [tuple(x for _, x in r) for r in want if r not in got]
                extra = [tuple(x for _, x in r) for r in got if r not in want]
                raise Violation(f"rows:{tbl}", f"{where}: {tbl}: lost {lost[:4]}, unexpected {extra[:4]} ({len(want)} wanted, {len(got)} there)")
    finally:
        db.close()


def write_current(path, data):
    db = sqlite3.connect(path)
    script(db, SCHEMAS[CUR])
    for tbl, rows in data.expected().items():
        for row in rows:
            row = (None, row) if tbl == "network_backups" else row
            db.execute(f"INSERT INTO {tbl}_v13 VALUES ({','.join('?' * len(row))})", row)
    db.commit()
    db.close()


async def start(path):
    """The real database start-up, without the radio's."""
    app = dbwork.DbApp(dbwork.config(path))
    await app._load_db()
    return app


async def stop(app):
    app._remove_db_listeners()
    await app._dblistener.shutdown()


async def load(path):
    app = await start(path)
    snap = dbwork.snapshot(app, list(app.devices.values()))
    for d in snap["devices"].values():
        d["endpoints"].pop(54, None)
    await stop(app)
    return snap


def check_loaded(data, snap, where):
    """Spot checks of the loaded state that do not depend on loading the reference."""
    if set(snap["devices"]) != set(data.devices):
        raise Violation("loaded:devices", f"{where}: loaded devices {sorted(snap['devices'])}, not {sorted(data.devices)}")
    for i, d in data.devices.items():
        s = snap["devices"][i]
        seen = d["last_seen"] / 1000.0 if data.v == 8 else d["last_seen"]
        if (s["last_seen"] or 0) != seen or s["nwk"] != d["nwk"]:
            raise Violation("loaded:device", f"{where}: {i} last seen {s['last_seen']} (not {seen}), address {s['nwk']:#06x} (not {d['nwk']:#06x})")
        for e, ep in d["eps"].items():
            x = s["endpoints"][e]
            if (x["profile"], x["type"]) != (ep["profile"], ep["type"]):
                raise Violation("loaded:endpoint", f"{where}: {i} endpoint {e} loaded as {x}")
            if {c for ty, c in x["clusters"] if ty == "in"} != ep["in"] or {c for ty, c in x["clusters"] if ty == "out"} != ep["out"]:
                raise Violation("loaded:clusters", f"{where}: {i} endpoint {e} loaded with clusters {sorted(x['clusters'])}, not {ep['in']} and {ep['out']}")
        for (e, c, a), (val, _) in d["attrs"].items():
            x = s["endpoints"].get(e, {"clusters": {}})["clusters"].get(("in", c))
            if x is not None and (a not in x["attrs"] or str(x["attrs"][a][0][1]) not in (str(dbwork.norm(val)[1]),)):
                raise Violation("loaded:attribute", f"{where}: {i} {(e, c, a)} is {x['attrs'].get(a)}, not {val!r}")


def copy_db(src, dst):
    for sfx in ("", "-wal", "-journal"):
        if os.path.exists(dst + sfx):
            os.unlink(dst + sfx)
        if os.path.exists(src + sfx):
            shutil.copyfile(src + sfx, dst + sfx)


def sql_of(fn):
    args = getattr(fn, "args", ())
    for x in args:
        if isinstance(x, str):
            return " ".join(x.split())
    return getattr(getattr(fn, "func", fn), "__name__", "?")


def is_write(sql):
    return re.match(r"(--.*)?\s*(INSERT|CREATE|DROP|UPDATE|DELETE|BEGIN|COMMIT|ALTER)", sql) or "user_version =" in sql or sql.startswith("--")


def equal_dump(a, b, where, key):
    if a == b:
        return
    diff = [k for k in {**a, **b} if a.get(k) != b.get(k)]
    detail = {k: (len(a.get(k) or []), len(b.get(k) or [])) if k != "user_version" else (a[k], b[k]) for k in diff[:4]}
    raise Violation(key, f"{where}: differences in {detail} (before, after)")


def case(ctx, v, n, thorough):
    rng = ctx.rng("upgrade", v, n)
    tmp = tempfile.mkdtemp(prefix="s03-")
    old = os.path.join(tmp, "old.db")
    cur = os.path.join(tmp, "cur.db")
    try:
        base = rng.randrange(0, v + 1) if rng.random() < 0.6 else v
        data = Data(rng, v, small=n % 3 != 0, base=base)
        filled = write(old, rng, data, base)
        before = dump(old)
        where = f"version {v} (created as {base})"
        kinds = frozenset(re.sub(r"_v\d+$", "", f) for f in filled)

        # 1. the upgrade itself, noting its statements
        sqls = []
        vloop.DbHooks.before = lambda fn: sqls.append(sql_of(fn))
        copy_db(old, cur)
        try:
            try:
                snap, _ = vloop.run(load(cur))
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                raise Violation("upgrade-fails", f"{where}: the database cannot be opened: {e!r}") from e
        finally:
            vloop.DbHooks.reset()
        check_rows(data, cur, where)
        ref = os.path.join(tmp, "ref.db")
        write_current(ref, data)
        want, _ = vloop.run(load(ref))
        for key, msg in dbwork.compare(want, snap, slack=0.0):
            raise Violation(f"state:{key}", f"{where}: upgraded ('after') and written directly ('in memory'): {msg}")
        check_loaded(data, snap, where)
        ctx.count("upgrades compared")
        ctx.count(f"upgrades from v{v}")
        ctx.evaluated((v, base, "upgrade", kinds), bool(data.devices))
        for f in filled:
            ctx.state("old tables filled", f)
        ctx.count("rows compared", sum(map(len, data.expected().values())))

        # 2. opening again changes nothing
        full = dump(cur)
        again, _ = vloop.run(load(cur))
        equal_dump(full, dump(cur), f"{where}: opening the upgraded database again", "reopen-changes")
        if again != snap:
            raise Violation("reopen-state", f"{where}: opening the upgraded database again loads a different state")
        # the whole application as well
        if n % 4 == 0:
            copy_db(old, cur)

            async def whole():
                app = await dbwork.DbApp.new(dbwork.config(cur), auto_form=False)
                s = dbwork.snapshot(app, [d for d in app.devices.values() if d.ieee != sim.NCP_IEEE])
                await app.shutdown()
                return s

            s, _ = vloop.run(whole())
            for d in s["devices"].values():
                d["endpoints"].pop(54, None)
            for key, msg in dbwork.compare(snap, s, slack=0.0):
                raise Violation(f"application:{key}", f"{where}: loading alone ('in memory') and starting the application ('after'): {msg}")
            ctx.count("applications started on old databases")

        # 3. failures
        writes = [k for k, s in enumerate(sqls) if is_write(s)]
        points = writes if thorough else rng.sample(writes, min(len(writes), 8))
        if not thorough:
            points.append(writes[-1])  # the final commit
        for p in points:
            mode = rng.choice(["once", "once", "rest", "cancel-later"]) if p != writes[-1] else "once"
            exc = rng.choice([sqlite3.OperationalError("database or disk is full"), sqlite3.DatabaseError("disk I/O error"), RuntimeError("injected")])
            seen = [0]
            hit = []

            def fail(fn):
                k = seen[0]
                seen[0] += 1
                s = sql_of(fn)
                if k == p or (mode == "rest" and k > p and is_write(s)):
                    hit.append(s)
                    raise exc

            copy_db(old, cur)
            vloop.DbHooks.before = fail
            failed = None
            try:
                vloop.run(load(cur))
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                failed = e
            finally:
                vloop.DbHooks.reset()
            if not hit:
                ctx.count("failures not reached")
                continue
            at = f"{where}, failing '{hit[0][:70]}' (statement {p} of {len(sqls)}, {mode}, {type(exc).__name__})"
            ctx.count("upgrades failed on purpose")
            ctx.state("statements failed", re.sub(r"\d+", "N", hit[0])[:60])
            if failed is None:
                check_rows(data, cur, at + ", reported as a success")
                ctx.count("failures survived")
            else:
                equal_dump(before, dump(cur), at + ": the failed upgrade changed the database", "failed-upgrade-changed")
            try:
                s, _ = vloop.run(load(cur))
            except Exception as e:  # noqa: BLE001
                raise Violation("no-second-attempt", f"{at}: the later attempt failed: {e!r}") from e
            check_rows(data, cur, at + ", later attempt")
            if s != snap:
                raise Violation("second-attempt-state", f"{at}: the later attempt loads a different state")
            ctx.evaluated((v, base, mode, re.sub(r"\d+", "N", hit[0])[:40]), True)

        # 4. crashes
        points = set(writes if thorough else rng.sample(range(len(sqls)), min(len(sqls), 6)))
        made = []
        seen = [0]

        def grab(fn):
            k = seen[0]
            seen[0] += 1
            if k in points:
                dst = os.path.join(tmp, f"crash{k}.db")
                copy_db(cur, dst)
                made.append((k, sql_of(fn), dst))

        copy_db(old, cur)
        vloop.DbHooks.after = grab
        try:
            vloop.run(load(cur))
        finally:
            vloop.DbHooks.reset()
        for k, s, dst in made:
            at = f"{where}, crash after '{s[:70]}' (statement {k})"
            d = dump(dst)
            if d["user_version"] == v:
                equal_dump(before, d, at + ": the interrupted upgrade changed the database", "crashed-upgrade-changed")
                ctx.count("crashes before the commit")
            else:
                check_rows(data, dst, at)
                ctx.count("crashes after the commit")
            try:
                s2, _ = vloop.run(load(dst))
            except Exception as e:  # noqa: BLE001
                raise Violation("no-second-attempt", f"{at}: the later attempt failed: {e!r}") from e
            check_rows(data, dst, at + ", later attempt")
            if s2 != snap:
                raise Violation("second-attempt-state", f"{at}: the later attempt loads a different state")
            ctx.evaluated((v, base, "crash", re.sub(r"\d+", "N", s)[:40]), True)
            for sfx in ("", "-wal", "-journal", "-shm"):
                if os.path.exists(dst + sfx):
                    os.unlink(dst + sfx)
    finally:
        vloop.DbHooks.reset()
        shutil.rmtree(tmp, ignore_errors=True)


def mismatch(ctx, n):
    """A database whose tables do not match its version is refused and left alone."""
    import zigpy.exceptions

    rng = ctx.rng("mismatch", n)
    tmp = tempfile.mkdtemp(prefix="s03-")
    path = os.path.join(tmp, "m.db")
    try:
        v = rng.randrange(5, 13)
        data = Data(rng, v)
        write(path, rng, data, v)
        db = sqlite3.connect(path)
        uv = rng.choice([x for x in range(0, 13) if x != v])
        db.execute(f"PRAGMA user_version = {uv}")
        db.commit()
        db.close()
        before = dump(path)
        try:
            vloop.run(load(path))
        except zigpy.exceptions.CorruptDatabase:
            pass
        else:
            raise Violation("mismatch-accepted", f"a database with tables of version {v} marked as version {uv} was opened")
        equal_dump(before, dump(path), f"refused database of version {v} marked {uv}", "refused-changed")
        ctx.count("inconsistent databases refused")
        ctx.evaluated(("mismatch", v, uv), True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(ctx):
    per = ctx.n(6, 60)
    for v in range(13):
        for n in range(per):
            ctx.case(f"v{v}:{n}", case, ctx, v, n, ctx.tier == "thorough" and n % 10 == 0)
    for n in range(ctx.n(10, 60)):
        ctx.case(f"mismatch:{n}", mismatch, ctx, n)
    for name, m in [
        ("upgrades compared", 70), ("rows compared", 1000), ("upgrades failed on purpose", 400), ("crashes before the commit", 200),
        ("applications started on old databases", 20), ("inconsistent databases refused", 8),
    ]:  # fmt: skip
        ctx.require(name, m)
    ctx.sample({"old tables filled": len(ctx.states.get("old tables filled", ()))})
