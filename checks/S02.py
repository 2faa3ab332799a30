"""S02: a crash at any moment loses at most the newest unsaved changes."""

from __future__ import annotations

import asyncio
import bisect
import os
import shutil
import sqlite3
import tempfile

from harness import dbwork, sim, vloop
from harness.core import Violation

import zigpy.types as t

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: the database, write-ahead log and journal files are copied between random statements of random histories, each copy is "
    "checked for integrity, loaded by a new application and judged against the recorded history of every entity; single statements are made to fail"
)
NOTE = (
    "Histories as in S01 with slow database operations, so that copies fall between the statements of an update and while updates queue up; "
    "failing statements and commits (disk full, locked) with the following updates observed. A crash is the end of the process: the copy holds "
    "what had been handed to the operating system."
)
RULE = "One evaluation is one crash copy judged; non-trivial: distinct (statement reached, pending changes, devices, entities behind memory)."
ASSUMPTIONS = ["Writes handed to the operating system survive the crash (power loss is left to SQLite's own guarantees)."]

MISSING = ("none",)


class Recorder:
    """The value of every entity over time, from the public events."""

    def __init__(self, w):
        self.w = w
        self.hist = {}  # key -> ([index], [value])
        self.n = 0
        self.floor = 0
        self.attached = {}
        self.absent = set()  # removed: further updates are not saved
        self.reannounced = set()

    def put(self, key, value):
        if key[2 if key[0] == "member" else 1] in self.absent:
            return
        self.n += 1
        idx, val = self.hist.setdefault(key, ([], []))
        idx.append(self.n)
        val.append(value)

    def bulk(self, items):
        """Several entities changed at one moment."""
        self.n += 1
        for key, value in items:
            idx, val = self.hist.setdefault(key, ([], []))
            if idx and idx[-1] == self.n:
                val[-1] = value
            else:
                idx.append(self.n)
                val.append(value)

    def attach(self, app):
        self.attached[0] = None
        app.add_listener(self)
        app.groups.add_listener(self)
        app.backups.add_listener(self)
        app.topology.add_listener(self)
        for d in app.devices.values():
            if d.ieee != sim.NCP_IEEE:
                self.device_initialized(d)

    # application
    def raw_device_initialized(self, d):
        i = str(d.ieee)
        s = dbwork.snap_device(d)
        items = [(("dev", i), (s["node_desc"], s["status"], self.shape(s))), (("nwk", i), s["nwk"])]
        if s["relays"] is not None:
            items.append((("relays", i), tuple(s["relays"])))
        for e, ep in s["endpoints"].items():
            for c, cl in ep["clusters"].items():
                for a, v in cl["attrs"].items():
                    items.append((("attr", i, e, c, a), v[0]))
                for a in cl["unsupported"]:
                    if a.isdigit():
                        items.append((("unsup", i, e, c, int(a)), True))
        if type(d).__name__ != "Device":  # an announcement of a device that is already quirked
            items = [x for x in items if x[0][0] in ("nwk", "relays")]
            self.reannounced.add(i)
        self.absent.discard(i)
        self.bulk(items)

    @staticmethod
    def shape(s):
        return tuple(
            sorted((e, ep["profile"], ep["type"], ep["status"], tuple(sorted(ep["clusters"]))) for e, ep in s["endpoints"].items())
        )

    def device_initialized(self, d):
        if id(d) in self.attached:
            return
        self.attached[id(d)] = d
        d.add_context_listener(self)
        for ep in d.non_zdo_endpoints:
            for c in [*ep.in_clusters.values(), *ep.out_clusters.values()]:
                c.add_context_listener(self)

    def device_joined(self, d):
        if ("dev", str(d.ieee)) in self.hist:
            self.put(("nwk", str(d.ieee)), int(d.nwk))

    def device_removed(self, d):
        i = str(d.ieee)
        self.bulk([(k, MISSING) for k in self.hist if i in k and k[0] != "backup"])
        self.absent.add(i)

    # clusters
    @staticmethod
    def cl(cluster):
        return str(cluster.endpoint.device.ieee), cluster.endpoint.endpoint_id, (
            "in" if int(cluster.cluster_type) == 0 else "out",
            int(cluster.cluster_id),
        )

    def attribute_updated(self, cluster, attrid, value, timestamp):
        self.put(("attr", *self.cl(cluster), int(attrid)), dbwork.norm(value))

    def attribute_cleared(self, cluster, attrid):
        self.put(("attr", *self.cl(cluster), int(attrid)), MISSING)

    def unsupported_attribute_added(self, cluster, attrid):
        if not isinstance(cluster, dbwork.Virtual):
            self.put(("unsup", *self.cl(cluster), int(attrid)), True)

    def unsupported_attribute_removed(self, cluster, attrid):
        self.put(("unsup", *self.cl(cluster), int(attrid)), MISSING)

    def device_relays_updated(self, d, relays):
        self.put(("relays", str(d.ieee)), MISSING if relays is None else tuple(map(int, relays)))

    # groups
    def group_added(self, g):
        self.put(("group", int(g.group_id)), g.name)

    def group_removed(self, g):
        gid = int(g.group_id)
        self.bulk([(("group", gid), MISSING)] + [(k, MISSING) for k in self.hist if k[0] == "member" and k[1] == gid])

    def group_member_added(self, g, ep):
        if ep.endpoint_id != 7:
            self.put(("member", int(g.group_id), str(ep.device.ieee), ep.endpoint_id), True)

    def group_member_removed(self, g, ep):
        self.put(("member", int(g.group_id), str(ep.device.ieee), ep.endpoint_id), MISSING)

    # tables, backups
    def neighbors_updated(self, ieee, ns):
        if ieee != sim.NCP_IEEE:
            self.put(("neighbors", str(ieee)), tuple(n.serialize().hex() for n in ns) or MISSING)

    def routes_updated(self, ieee, rs):
        if ieee != sim.NCP_IEEE:
            self.put(("routes", str(ieee)), tuple(r.serialize().hex() for r in rs) or MISSING)

    def network_backup_created(self, b):
        self.put(("backup", b.backup_time.isoformat()), repr(b.as_dict()))

    def network_backup_removed(self, b):
        self.put(("backup", b.backup_time.isoformat()), MISSING)


def entities(snap):
    out = {}
    for i, d in snap["devices"].items():
        out[("dev", i)] = (d["node_desc"], d["status"], Recorder.shape(d), d["class"])
        out[("nwk", i)] = d["nwk"]
        if d["relays"] is not None:
            out[("relays", i)] = tuple(d["relays"])
        for e, ep in d["endpoints"].items():
            for c, cl in ep["clusters"].items():
                for a, v in cl["attrs"].items():
                    out[("attr", i, e, c, a)] = v[0]
                for a in cl["unsupported"]:
                    if a.isdigit():
                        out[("unsup", i, e, c, int(a))] = True
    for g, (name, members) in snap["groups"].items():
        out[("group", g)] = name
        for m in members:
            i, e = m.split("/")
            out[("member", g, i, int(e))] = True
    for i, ns in snap["neighbors"].items():
        out[("neighbors", i)] = tuple(ns)
    for i, rs in snap["routes"].items():
        out[("routes", i)] = tuple(rs)
    for b in snap["backups"]:
        out[("backup", b["backup_time"])] = repr(b)
    return out


class Copies:
    def __init__(self, rng, rec, path, root, limit, prob):
        self.rng, self.rec, self.path, self.root = rng, rec, path, root
        self.limit, self.prob = limit, prob
        self.made = []
        self.fail = 0.0
        self.failures = 0
        self.last_sql = ""
        self.failed_sql = set()

    def sql(self, fn):
        args = getattr(fn, "args", ())
        f = getattr(fn, "func", fn)
        return str(args[0]).split() if args and isinstance(args[0], str) else [getattr(f, "__name__", "")]

    def before(self, fn):
        words = self.sql(fn)
        protected = self.last_sql.startswith(("DELETE FROM devices", "DELETE FROM routes")) or "rollback" in words[0] or words[0].upper() in ("PRAGMA", "SELECT", "<LAMBDA>")
        head = " ".join(words[:3])
        if self.fail and not protected and "DELETE FROM devices" not in head and words[0] in ("INSERT", "UPDATE", "DELETE", "commit"):
            if self.rng.random() < self.fail:
                self.failures += 1
                self.failed_sql.add(head)
                raise sqlite3.OperationalError(self.rng.choice(["database or disk is full", "database is locked"]))

    def after(self, fn):
        self.last_sql = " ".join(self.sql(fn)[:3])
        if len(self.made) < (self.limit if self.rec.attached else 5) and self.rng.random() < self.prob:
            self.copy()

    def copy(self):
        dst = os.path.join(self.root, f"c{len(self.made)}.db")
        for suffix in ("", "-wal", "-journal"):
            if os.path.exists(self.path + suffix):
                shutil.copyfile(self.path + suffix, dst + suffix)
        self.made.append((dst, self.rec.floor, self.rec.n, self.last_sql))


async def record(ctx, rng, w, rec, copies, inject):
    vloop.DbHooks.after = copies.after
    await w.open()
    for _ in range(len(copies.made)):
        ctx.count("copies during the very first start")
    rec.attach(w.app)
    quick = lambda: 0.0  # noqa: E731
    slow = lambda: rng.choice([0.0, 0.01, 0.3])  # noqa: E731
    vloop.DbHooks.before = copies.before
    for r in range(rng.randrange(1, 4)):
        vloop.DbHooks.delay = slow if rng.random() < 0.8 else quick
        copies.fail = 0.05 if inject else 0.0
        for _ in range(rng.randrange(3, 20)):
            await w.step()
        copies.fail = 0.0
        # stay quiet until nothing is left to be saved
        await asyncio.sleep(60)
        before = -1
        while before != vloop.DbHooks.ops:
            before = vloop.DbHooks.ops
            await asyncio.sleep(30)
        if not inject:
            rec.floor = rec.n
        copies.copy()
        ctx.count("quiet moments")
    if inject:
        # an update after the failures must still be saved
        stop = rec.n
        for d in list(w.registered()):
            w.app.handle_relays(d.nwk, [t.NWK(0x4242)])
        await asyncio.sleep(60)
        copies.copy()
        return stop
    return None


async def load(path):
    app = await dbwork.DbApp.new(dbwork.config(path), auto_form=False)
    snap = dbwork.snapshot(app, [d for d in app.devices.values() if d.ieee != sim.NCP_IEEE])
    await app.shutdown()
    return snap


ORPHANS = [
    ("endpoints", "ieee NOT IN (SELECT ieee FROM devices_v13)"),
    ("clusters", "NOT EXISTS (SELECT 1 FROM endpoints_v13 e WHERE e.ieee=x.ieee AND e.endpoint_id=x.endpoint_id)"),
    ("attributes_cache", "ieee NOT IN (SELECT ieee FROM devices_v13)"),
    ("unsupported_attributes", "ieee NOT IN (SELECT ieee FROM devices_v13)"),
    ("neighbors", "device_ieee NOT IN (SELECT ieee FROM devices_v13)"),
    ("routes", "device_ieee NOT IN (SELECT ieee FROM devices_v13)"),
    ("relays", "ieee NOT IN (SELECT ieee FROM devices_v13)"),
    ("group_members", "group_id NOT IN (SELECT group_id FROM groups_v13)"),
]


def check_file(path):
    """Independent of the application."""
    db = sqlite3.connect(path)
    try:
        rows = db.execute("PRAGMA integrity_check").fetchall()
        if rows != [("ok",)]:
            raise Violation("integrity", f"the database is corrupt after the crash: {rows[:3]}")
        rows = db.execute("PRAGMA foreign_key_check").fetchall()
        if rows:
            raise Violation("foreign-keys", f"records refer to entities that do not exist: {rows[:5]}")
        names = {r[0] for r in db.execute("SELECT name FROM sqlite_master WHERE type='table'")}
        for table, cond in ORPHANS:
            if f"{table}_v13" in names:
                rows = db.execute(f"SELECT * FROM {table}_v13 x WHERE {cond}").fetchall()
                if rows:
                    raise Violation("orphans", f"{table} refer to devices, endpoints or groups that do not exist: {rows[:3]}")
    finally:
        db.close()


def show(v):
    return "nothing" if v == MISSING else repr(v)[:300]


def judge(ctx, rec, copies, inject, stop):
    prev = {}  # key -> smallest possible history position so far
    for nth, (path, floor, upto, sql) in enumerate(copies.made):
        where = f"crash {nth} (after '{sql}', change {upto}, everything up to change {floor} saved)"
        tmp = path + ".check"
        for suffix in ("", "-wal", "-journal"):
            if os.path.exists(path + suffix):
                shutil.copyfile(path + suffix, tmp + suffix)
        check_file(tmp)
        try:
            snap, loop = vloop.run(load(path))
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation("load-fails", f"{where}: the database cannot be loaded: {e!r}") from e
        got = entities(snap)
        behind = 0
        born = {}  # ieee -> index of the save the device comes from
        for key in sorted(set(rec.hist) | set(got), key=lambda k: (k[0] != "dev", repr(k))):
            idx, val = rec.hist.get(key, ([], []))
            hi = bisect.bisect_right(idx, upto)
            lo = max(bisect.bisect_right(idx, floor) - 1, prev.get(key, -1))
            v = got.get(key, MISSING)
            ieee = key[2] if key[0] == "member" else key[1]
            if inject and ieee in rec.reannounced:
                continue  # only the device row is saved again when its first save failed
            if key[0] == "dev":
                if v is not MISSING and v[3] != "Device":
                    # shaped by its quirk: only its existence is judged
                    same = lambda x: x is not MISSING  # noqa: E731
                else:
                    same = lambda x: x == (v if v is MISSING else v[:3])  # noqa: E731
            else:
                same = lambda x: x == v  # noqa: E731
                if key[0] not in ("group", "backup"):
                    if ieee not in born:
                        if v is not MISSING:
                            raise Violation("orphan-record", f"{where}: {key} = {show(v)} exists without its device")
                        continue  # nothing of a device that is not there
                    if key[0] not in ("neighbors", "routes", "relays", "member"):
                        # saved together with the device
                        lo = max(lo, bisect.bisect_right(idx, born[ieee]) - 1)
                    if key[0] in ("attr", "unsup") and snap["devices"][ieee]["class"] != "Device":
                        eps = snap["devices"][ieee]["endpoints"]
                        if key[2] not in eps or key[3] not in eps[key[2]]["clusters"]:
                            continue  # hidden by the quirk
                if key[0] == "member" and snap["devices"][ieee]["class"] != "Device" and key[3] not in snap["devices"][ieee]["endpoints"]:
                    continue
            pos = None
            for p in range(max(lo, -1), hi):
                if same(MISSING if p < 0 else val[p]):
                    pos = p
                    break
            if pos is None:
                hist = [show(x) for x in val[max(lo, 0) : hi]]
                if key[0] == "dev" and not inject and v is MISSING:
                    k = "saved-change-lost"
                else:
                    k = "half-written" if key[0] in ("dev", "attr", "unsup", "nwk") and ieee in born and lo >= 0 else "wrong-value"
                raise Violation(k, f"{where}: {key} is {show(v)}, its possible values are {hist}")
            prev[key] = pos
            if key[0] == "dev" and v is not MISSING:
                # the newest save it can be from is unknown: the oldest possible one
                born[key[1]] = idx[pos]
            if pos < hi - 1:
                behind += 1
        if inject and nth == len(copies.made) - 1:
            for i in born:
                key = ("relays", i)
                idx, val = rec.hist[key]
                if idx[-1] > stop and snap["devices"][i]["relays"] != list(val[-1]):
                    raise Violation("stuck", f"{where}: {key} changed after the failures is {snap['devices'][i]['relays']}, not {val[-1]}")
                ctx.count("updates saved after failures")
        ctx.count("crash copies judged")
        ctx.count("entities judged", len(got))
        if behind:
            ctx.count("copies behind memory")
        if upto > floor:
            ctx.count("copies with pending changes")
        ctx.evaluated((sql, min(upto - floor, 12), len(snap["devices"]), min(behind, 8), inject), len(got) > 0)
        ctx.state("statements reached", sql)


def case(ctx, i, inject):
    rng = ctx.rng("inject" if inject else "history", i)
    d = tempfile.mkdtemp(prefix="s02-")
    try:
        with dbwork.use_quirks(("v1", "v2")):
            path = os.path.join(d, "z.db")
            w = dbwork.World(rng, path, n=4)
            w.ANALOG_VALUES = [v for v in w.ANALOG_VALUES if dbwork.storable(v[1]) and not isinstance(v[1], t.EUI64)]
            rec = Recorder(w)
            copies = Copies(rng, rec, path, d, 30, rng.choice([0.02, 0.1, 0.3]))
            try:
                stop, _ = vloop.run(record(ctx, rng, w, rec, copies, inject), max_steps=3_000_000)
            finally:
                vloop.DbHooks.reset()
            ctx.count("statements failed on purpose", copies.failures)
            for s in copies.failed_sql:
                ctx.state("kinds of failed statements", s)
            judge(ctx, rec, copies, inject, stop)
    finally:
        vloop.DbHooks.reset()
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    for i in range(ctx.n(60, 1500)):
        ctx.case(f"history:{i}", case, ctx, i, False)
    for i in range(ctx.n(40, 1000)):
        ctx.case(f"inject:{i}", case, ctx, i, True)
    for name, m in [
        ("crash copies judged", 700), ("copies with pending changes", 500), ("copies behind memory", 400), ("entities judged", 6000), ("quiet moments", 100),
        ("statements failed on purpose", 60), ("updates saved after failures", 20), ("copies during the very first start", 60),
    ]:  # fmt: skip
        ctx.require(name, m)
    ctx.sample({"statements copied after": sorted({str(s) for s in ctx.states.get("statements reached", ())})[:3]})
