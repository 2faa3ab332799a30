"""T05: cluster definitions."""

from __future__ import annotations

import asyncio
import enum
import keyword

from harness import gen, sim, vloop
from harness.core import Violation

import zigpy.quirks
import zigpy.types as t
import zigpy.zcl
import zigpy.zcl.clusters  # noqa: F401
from zigpy.zcl import foundation as f

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: monitor over histories of cluster class definitions; after each "
    "one the tables of every class defined so far are compared with a model, and frames are "
    "decoded and sent by them"
)
NOTE = (
    "Random histories of cluster definitions (standard clusters, quirks and quirks of quirks), "
    "each giving its attributes and commands in the old style, the new style or not at all; "
    "after each one all classes of the history and a sample of the standard clusters are "
    "inspected. Definitions that must be refused are mixed in."
)
RULE = (
    "One evaluation: a history of definitions with its inspections, and the frames exchanged "
    "by instances of the classes. Non-trivial: it contains an old style and a new style class "
    "and a class with a parent that has definitions."
)


class Mode(t.enum8):
    A = 0
    B = 1


class Flags(t.bitmap16):
    X = 1
    Y = 2


# python type -> ZCL type, from the ZCL specification
TYPES = {
    t.uint8_t: 0x20, t.uint16_t: 0x21, t.uint32_t: 0x23, t.Bool: 0x10, t.int16s: 0x29, t.CharacterString: 0x42,
    t.EUI64: 0xF0, t.LVBytes: 0x41, Mode: 0x30, Flags: 0x19, t.bitmap8: 0x18, t.uint24_t: 0x22, t.UTCTime: 0xE2,
}  # fmt: skip
# the deprecated way to mark an argument of a tuple schema as optional cannot extend enumerations
OPT = [c for c in TYPES if not issubclass(c, enum.Enum)]
NAMES = [f"attr_{c}" for c in "abcdefghij"]
CMDS = [f"cmd_{c}" for c in "abcdefgh"]
RSPS = [f"rsp_{c}" for c in "abcdefgh"]


class Attr:
    def __init__(self, rng, aid, name, plain=False):
        self.id, self.name, self.type = aid, name, rng.choice(list(TYPES))
        self.manuf = rng.random() < 0.3
        self.zcl, self.access, self.mandatory = TYPES[self.type], 1 | 2 | 8, False
        self.extra = {}
        if not plain:
            if rng.random() < 0.2:
                self.zcl = self.extra["zcl_type"] = rng.choice([0x20, 0x30, 0x41])
            if rng.random() < 0.4:
                s, self.access = rng.choice([("r", 1), ("rw", 3), ("rp", 9), ("r*w", 5), ("rwps", 27)])
                self.extra["access"] = s
            if rng.random() < 0.3:
                self.mandatory = self.extra["mandatory"] = True

    def definition(self, **kw):
        if self.manuf:
            kw["is_manufacturer_specific"] = True
        ex = dict(self.extra)
        if "zcl_type" in ex:
            ex["zcl_type"] = f.DataTypeId(ex["zcl_type"])
        return f.ZCLAttributeDef(type=self.type, **ex, **kw)

    def spec(self):
        return (self.id, self.name, self.type.__name__, int(self.zcl), self.access, self.mandatory, self.manuf)


class Cmd:
    """to: 's2c' or 'c2s'"""

    def __init__(self, rng, cid, name, to, tup=False):
        self.id, self.name, self.to = cid, name, to
        self.manuf = False if tup else rng.random() < 0.3
        n = rng.choice([0, 1, 1, 2, 3])
        self.args = []
        opt = False
        for i in range(n):
            opt = opt or (rng.random() < 0.25 and i > 0)
            self.args.append((f"param{i + 1}" if tup else f"{rng.choice(['level', 'time', 'mode'])}_{i}", rng.choice(OPT if tup and opt else list(TYPES)), opt))

    @property
    def direction(self):
        return f.Direction.Server_to_Client if self.to == "s2c" else f.Direction.Client_to_Server

    def definition(self, rng, **kw):
        if self.manuf:
            kw["is_manufacturer_specific"] = True
        d = self.direction if rng.random() < 0.7 else (self.to == "s2c")
        return f.ZCLCommandDef(schema={n + ("?" if o else ""): ty for n, ty, o in self.args}, direction=d, **kw)

    def as_tuple(self):
        return (self.name, tuple(t.Optional(ty) if o else ty for _, ty, o in self.args), self.to == "s2c")

    def spec(self):
        return (self.id, self.name, tuple((n, ty.__name__, o) for n, ty, o in self.args), int(self.direction), bool(self.manuf))


class Model:
    def __init__(self, cls, attrs, srv, cli):
        self.cls, self.attrs, self.srv, self.cli = cls, attrs, srv, cli


def attr_spec(a):
    return (int(a.id), a.name, a.type.__name__, int(a.zcl_type), a.access.value, bool(a.mandatory), bool(a.is_manufacturer_specific))


def cmd_spec(c):
    fields = tuple((fl.name, fl.type.__name__, bool(fl.optional)) for fl in c.schema.fields)
    return (int(c.id), c.name, fields, int(c.direction), bool(c.is_manufacturer_specific))


def tables(cls):
    return {
        "attributes": {int(k): attr_spec(v) for k, v in cls.attributes.items()},
        "attributes_by_name": {k: attr_spec(v) for k, v in cls.attributes_by_name.items()},
        "AttributeDefs": {a.name: attr_spec(a) for a in cls.AttributeDefs},
        "server_commands": {int(k): cmd_spec(v) for k, v in cls.server_commands.items()},
        "client_commands": {int(k): cmd_spec(v) for k, v in cls.client_commands.items()},
        "ServerCommandDefs": {c.name: cmd_spec(c) for c in cls.ServerCommandDefs},
        "ClientCommandDefs": {c.name: cmd_spec(c) for c in cls.ClientCommandDefs},
        "commands_by_name": {k: cmd_spec(v) for k, v in cls.commands_by_name.items()},
    }


def expected(m):
    return {
        "attributes": {a.id: a.spec() for a in m.attrs.values()},
        "attributes_by_name": {n: a.spec() for n, a in m.attrs.items()},
        "AttributeDefs": {n: a.spec() for n, a in m.attrs.items()},
        "server_commands": {c.id: c.spec() for c in m.srv.values()},
        "client_commands": {c.id: c.spec() for c in m.cli.values()},
        "ServerCommandDefs": {n: c.spec() for n, c in m.srv.items()},
        "ClientCommandDefs": {n: c.spec() for n, c in m.cli.items()},
        "commands_by_name": {n: c.spec() for n, c in [*m.cli.items(), *m.srv.items()]},
    }


def fresh_ids(rng, taken, n, top):
    out = []
    while len(out) < n:
        i = rng.randrange(top)
        if i not in taken and i not in out:
            out.append(i)
    return out


def new_items(rng, inherited, names, top, make):
    """Adds new and overrides inherited entries (same name) of a table."""
    out = {}
    taken = {x.id for x in inherited.values()}
    for name in rng.sample(names, rng.randint(1, 4)):
        if name in inherited and rng.random() < 0.5:
            aid = inherited[name].id  # same name, same id, other definition
        else:
            (aid,) = fresh_ids(rng, taken, 1, top)
        taken.add(aid)
        out[name] = make(aid, name)
    return out


def define(ctx, rng, idx, parent, quirk, mixin, models, log):
    """Define a class, return its model."""
    ns = {}
    inh = (dict(parent.attrs), dict(parent.srv), dict(parent.cli)) if parent else ({}, {}, {})
    res = []
    for which, kind, table, style_names, top in (
        (0, "attributes", "AttributeDefs", NAMES, 65536),
        (1, "server_commands", "ServerCommandDefs", CMDS, 256),
        (2, "client_commands", "ClientCommandDefs", RSPS, 256),
    ):
        cur = inh[which]
        to = "c2s" if which == 1 else "s2c"
        style = rng.choice(["none", "old", "old-copy", "new", "new-derived"])
        if style in ("old-copy", "new-derived") and not parent:
            style = "old" if style == "old-copy" else "new"
        log.append(f"class {idx} {kind}: {style}")
        ctx.count(f"style_{style}")
        if style == "none":
            res.append(cur)
            continue
        base = cur if style in ("old-copy", "new-derived") else {}
        old = style.startswith("old")
        forms = {}

        def make(aid, name, which=which, old=old, forms=forms, to=to):
            form = rng.choice(["tuple", "def"]) if old else "def"
            forms[name] = form
            if which == 0:
                return Attr(rng, aid, name, plain=form == "tuple")
            return Cmd(rng, aid, name, to, tup=form == "tuple")

        adds = new_items(rng, base, style_names, top, make)
        final = dict(base)
        final.update(adds)
        if old:
            d = {}
            if style == "old-copy":
                d.update(getattr(parent.cls, kind))
                for n, x in adds.items():
                    if n in base:
                        del d[base[n].id]
            for n, x in adds.items():
                if which == 0:
                    if forms[n] == "tuple":
                        d[x.id] = (n, x.type, True) if x.manuf else rng.choice([(n, x.type), (n, x.type, False)])
                    else:
                        d[x.id] = x.definition(name=n, id=rng.choice([None, x.id]))
                elif forms[n] == "tuple":
                    d[x.id] = x.as_tuple()
                elif rng.random() < 0.5:
                    kw = {"is_manufacturer_specific": True} if x.manuf else {}
                    d[x.id] = f.ZCLCommandDef(n, {k + ("?" if o else ""): ty for k, ty, o in x.args}, x.direction, **kw)
                else:
                    d[x.id] = x.definition(rng, name=n)
            ns[kind] = d
            ctx.count("old_style")
        else:
            bases = (getattr(parent.cls, table),) if style == "new-derived" else (f.BaseAttributeDefs if which == 0 else f.BaseCommandDefs,)
            body = {}
            for n, x in adds.items():
                kw = {"name": n} if rng.random() < 0.2 else {}
                body[n] = x.definition(id=x.id, **kw) if which == 0 else x.definition(rng, id=x.id, **kw)
            ns[table] = type(bases[0])(table, bases, body)
            ctx.count("new_style")
        res.append(final)
    if parent:
        bases = (zigpy.quirks.CustomCluster, parent.cls) if mixin else (parent.cls,)
        if rng.random() < 0.3 and quirk:
            ns["cluster_id"] = rng.randrange(0xFC00, 0xFFFF)
    else:
        bases = (zigpy.quirks.CustomCluster if quirk else zigpy.zcl.Cluster,)
        ns["cluster_id"] = 0xFD00 + idx
    ns["ep_attribute"] = f"made_{idx}"
    cls = type(f"Made{idx}", bases, ns)
    return Model(cls, *res)


def standard(rng):
    reg = zigpy.zcl.Cluster._registry
    return [reg[k] for k in rng.sample(sorted(reg), min(12, len(reg)))]


def bad(rng, idx, parent):
    """(why, exceptions, thunk) of a definition that has to be refused."""
    base = parent.cls if parent else zigpy.zcl.Cluster
    i, j = rng.sample(range(0x40, 0xF0), 2)
    s2c = f.Direction.Server_to_Client
    two = lambda: f.ZCLCommandDef("same_name", {}, s2c)  # noqa: E731
    kind = rng.choice(["dup-attr", "dup-cmd", "dup-cmd-tuple", "name", "param", "keyword", "tuple-schema"])
    ty = t.uint8_t
    spec = {
        "dup-attr": lambda: {"attributes": {i: ("twice", ty), j: rng.choice([("twice", t.uint16_t, True), f.ZCLAttributeDef(name="twice", type=ty)])}},
        "dup-cmd": lambda: {rng.choice(["server_commands", "client_commands"]): {i: two(), j: two()}},
        "dup-cmd-tuple": lambda: {"server_commands": {i: ("same_name", (), False), j: ("same_name", (ty,), False)}},
        "name": lambda: {"attributes": {i: (rng.choice(["a b", "1st", "", "x-y"]), ty)}},
        "param": lambda: {"server_commands": {i: f.ZCLCommandDef("ok", {rng.choice(["foo bar", "1st", "a-b?"]): ty}, False)}},
        "keyword": lambda: {"client_commands": {i: f.ZCLCommandDef("ok", {rng.choice(keyword.kwlist): ty}, True)}},
        "tuple-schema": lambda: {"server_commands": {i: f.ZCLCommandDef("ok", (ty, ty), False)}},
    }[kind]
    return kind, (TypeError if kind.startswith("dup") else ValueError), lambda: type(f"Bad{idx}", (base,), {"cluster_id": 0xFD80 + idx, **spec()})


def diff(got, want):
    for k in want:
        if got[k] != want[k]:
            ks = {**got[k], **want[k]}
            bad = {x: (got[k].get(x), want[k].get(x)) for x in ks if got[k].get(x) != want[k].get(x)}
            return k, f"{k}: {bad} (found, expected)"
    return None


def history(ctx, idx):
    rng = ctx.rng("h", idx)
    reg, ranges = zigpy.zcl.Cluster._registry, zigpy.zcl.Cluster._registry_range
    saved, saved_r = dict(reg), dict(ranges)
    log, models = [], []
    std = {c: tables(c) for c in standard(rng)}
    try:
        for k in range(rng.randint(2, 7)):
            if rng.random() < 0.2:
                parent = rng.choice(models) if models else None
                kind, exc, mk = bad(rng, k, parent)
                log.append(f"refused definition {kind}")
                reg0 = dict(reg)
                try:
                    mk()
                except exc:
                    pass
                except Exception as e:
                    raise Violation(f"refusal:{kind}", f"{kind}: {e!r}", log) from e
                else:
                    raise Violation(f"refusal:{kind}", f"a definition with {kind} was accepted", log)
                if dict(reg) != reg0:
                    raise Violation("refused-registered", "a refused definition is registered", log)
                ctx.count("refused")
            else:
                parent = rng.choice(models) if models and rng.random() < 0.75 else None
                quirk = rng.random() < 0.7
                is_quirk_parent = parent is not None and issubclass(parent.cls, zigpy.quirks.CustomCluster)
                mixin = parent is not None and quirk and not is_quirk_parent
                quirk = quirk or is_quirk_parent
                reg0 = dict(reg)
                try:
                    m = define(ctx, rng, k, parent, quirk, mixin, models, log)
                except Exception as e:
                    raise Violation("definition", f"valid definition refused: {e!r}", log) from e
                log.append(f"-> {m.cls.__name__}({', '.join(b.__name__ for b in m.cls.__bases__)})")
                models.append(m)
                want = dict(reg0)
                if not quirk:
                    want[int(m.cls.cluster_id)] = m.cls
                if {int(a): b for a, b in reg.items()} != {int(a): b for a, b in want.items()}:
                    raise Violation("registry", f"registry changed: {set(reg.items()) ^ set(want.items())}", log)
                ctx.count("classes")
                if parent is not None and (parent.attrs or parent.srv or parent.cli):
                    ctx.count("derived")
            for m in models:
                d = diff(tables(m.cls), expected(m))
                if d:
                    raise Violation(f"tables:{d[0]}", f"{m.cls.__name__}: {d[1]}", log)
                ctx.count("inspections")
            for c, snap in std.items():
                d = diff(tables(c), snap)
                if d:
                    raise Violation(f"standard:{d[0]}", f"{c.__name__}: {d[1]}", log)
            if dict(ranges) != saved_r:
                raise Violation("registry", "range registry changed", log)
        vloop.run(frames(ctx, rng, models, log))
    finally:
        for table, old in ((reg, saved), (ranges, saved_r)):
            table.clear()
            table.update(old)
    ctx.evaluated(tuple(log), len(models) > 1)
    ctx.state("history", tuple(sorted(x.split(": ")[-1] for x in log if ": " in x)))


def enc_args(rng, cmd):
    args, raw = {}, b""
    for n, ty, o in cmd.args:
        if o and rng.random() < 0.5:
            break
        v, e = gen.build(ty, rng)
        args[n], raw = v, raw + e
    return args, raw


async def frames(ctx, rng, models, log):
    """Instances encode and decode by their own definitions."""
    app = sim.make_app()
    dev = sim.add_ready_device(app, sim.eui(0x5), 0x5555)
    ep = dev.endpoints[1]
    order = [m for m in models for _ in range(2)]
    rng.shuffle(order)
    for m in order:
        cl = m.cls(ep, is_server=True)
        for a in m.attrs.values():
            d = cl.find_attribute(rng.choice([a.id, a.name]))
            if attr_spec(d) != a.spec():
                raise Violation("find", f"{m.cls.__name__}.find_attribute gave {d}", [*log, a.spec()])
        for kind, cmds in (("server", m.srv), ("client", m.cli)):
            for c in cmds.values():
                args, raw = enc_args(rng, c)
                wit = [*log, m.cls.__name__, c.spec(), repr(args)]
                # received from the device
                hdr = sim.zcl_hdr(7, c.id, cluster=True, s2c=c.to == "s2c")
                h, res = cl.deserialize(hdr + raw)
                got = {n: getattr(res, n) for n, _, _ in c.args} if hasattr(res, "fields") else None
                if got is None or any(got[n] != args.get(n) for n, _, _ in c.args) or any(type(got[n]) is not type(args[n]) for n in args):
                    raise Violation("decode", f"{m.cls.__name__}.{c.name}: {raw.hex()} decoded as {res!r}, expected {args}", wit)
                ctx.count("decoded")
                # sent to the device
                if kind == "server":
                    app.sent.clear()
                    fn = getattr(cl, c.name)
                    await fn(*args.values(), expect_reply=False)
                    h = sim.parse_zcl(app.sent[0][1].data.serialize())
                    if (h["cmd"], h["payload"], h["s2c"]) != (c.id, raw, False):
                        raise Violation("encode", f"{m.cls.__name__}.{c.name}({args}) sent as {h}", wit)
                    ctx.count("sent")
        # a command that belongs to another class only is unknown
        known = {c.id for c in m.srv.values()}
        (cid,) = fresh_ids(rng, known, 1, 256)
        h, res = cl.deserialize(sim.zcl_hdr(9, cid, cluster=True) + b"\x01\x02")
        if res != b"\x01\x02":
            raise Violation("unknown-command", f"{m.cls.__name__}: undefined command {cid:#x} decoded as {res!r}", log)
        for name in rng.sample(CMDS + RSPS, 4):
            if name not in m.srv and name not in m.cli and hasattr(cl, name):
                raise Violation("command-name", f"{m.cls.__name__} has no command {name} but offers one", log)
        if m.attrs:
            a = rng.choice(list(m.attrs.values()))
            v, e = gen.build(a.type, rng)
            app.sent.clear()
            task = asyncio.get_running_loop().create_task(cl.write_attributes({rng.choice([a.name, a.id]): v}))
            for _ in range(10):
                await asyncio.sleep(0)
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)
            if a.extra.get("zcl_type") is None:
                h = sim.parse_zcl(app.sent[0][1].data.serialize()) if app.sent else None
                want = a.id.to_bytes(2, "little") + bytes([a.zcl]) + e
                if h is None or h["payload"] != want:
                    raise Violation("write", f"{m.cls.__name__}.{a.name} = {v!r} sent as {h}, expected {want.hex()}", [*log, a.spec()])
                ctx.count("written")
        own = zigpy.zcl.Cluster._registry.get(m.cls.cluster_id)
        made = zigpy.zcl.Cluster.from_id(ep, int(m.cls.cluster_id))
        if own is not None and type(made) is not own or made.cluster_id != m.cls.cluster_id:
            raise Violation("from-id", f"cluster {int(m.cls.cluster_id):#x} is {type(made)}", log)


def ranges(ctx):
    """Every cluster number without a cluster of its own gets the cluster of its range, or a plain one."""
    reg, rr = zigpy.zcl.Cluster._registry, zigpy.zcl.Cluster._registry_range

    async def main():
        app = sim.make_app()
        ep = sim.add_ready_device(app, sim.eui(0x5), 0x5555).endpoints[1]
        for cid in range(65536):
            if ctx.tier == "quick" and cid not in reg and cid % 251 and cid not in (0xFBFF, 0xFC00, 0xFFFE, 0xFFFF):
                continue
            for srv in (True, False):
                c = zigpy.zcl.Cluster.from_id(ep, cid, srv)
                if c.cluster_id != cid or c.is_server is not srv or c.is_client is srv:
                    raise Violation("from-id", f"cluster {cid:#x} became {c.cluster_id} {c.is_server}")
                own = [k for (a, b), k in rr.items() if a <= cid <= b]
                want = reg.get(cid) or (own[0] if own else zigpy.zcl.Cluster)
                if type(c) is not want:
                    raise Violation("from-id", f"cluster {cid:#x} is a {type(c).__name__}, expected {want.__name__}")
                if cid >= 0xFC00 and cid not in reg and type(c).ep_attribute is None:
                    raise Violation("from-id", f"manufacturer specific cluster {cid:#x} has no name")
            ctx.count("numbers")
        for cid, k in reg.items():
            if k.cluster_id != cid:
                raise Violation("registry", f"{k} is registered as {cid:#x}")
        for (a, b), k in rr.items():
            if k.cluster_id is not None:
                raise Violation("registry", f"creating clusters changed {k}")
        ctx.evaluated("ranges")

    vloop.run(main())


def run(ctx):
    ctx.case("ranges", ranges, ctx)
    for i in range(ctx.n(250, 6000)):
        ctx.case(f"history-{i}", history, ctx, i)
    ctx.require("classes", 400)
    ctx.require("derived", 150)
    ctx.require("inspections", 1000)
    ctx.require("decoded", 1000)
    ctx.require("sent", 300)
    ctx.require("written", 100)
    ctx.require("refused", 50)
    ctx.require("numbers", 300)
    for s in ("none", "old", "old-copy", "new", "new-derived"):
        ctx.require(f"style_{s}", 100)
