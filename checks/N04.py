"""N04: configuration is validated, defaulted and never silently altered."""

from __future__ import annotations

import copy
import logging
import os
import pathlib
import shutil
import tempfile
import warnings

from harness import sim
from harness.core import Violation
import voluptuous as vol

import zigpy.config as conf
import zigpy.ota
import zigpy.ota.providers as prov
import zigpy.types as t
from zigpy.zdo.types import SimpleDescriptor

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: random configurations, built option by option together with what each option means, are validated by the schema, by an "
    "application and a second time; results, errors, the unchanged input and the firmware providers registered are compared with the expectation"
)
NOTE = "Every option with values in each accepted notation, every option corrupted singly inside an otherwise valid configuration, every provider type, all deprecated options."
RULE = "One evaluation is one configuration validated or refused; non-trivial: distinct (option, kind of value) and distinct sets of options."
ASSUMPTIONS = [
    "Booleans are accepted where integers are and the other way around; identifiers that are well-formed but reserved are accepted.",
    "A provider is not configured both by a deprecated and a current option.",
]

REJECT = object()
NUMBERS = ["x", "0xzz", 1.5, [], {}, b"1"]
BAD_BOOL = ["maybe", "2", "", 1.0, [], {}, None]
BAD_KEY = ["00" * 16, [1] * 15, [1] * 17, [256] + [0] * 15, [-1] + [0] * 15, ["1"] * 16, tuple(range(16)), 5, {}, b"1" * 16]
BAD_EUI = [5, "", "zz:zz:zz:zz:zz:zz:zz:zz", "11:22", "11:22:33:44:55:66:77", "11:22:33:44:55:66:77:88:99", [1, 2], {}, 1.5, b"12345678"]


class Gen:
    def __init__(self, rng, tmp):
        self.rng, self.tmp = rng, tmp

    def number(self, lo, hi, cls=int):
        v = self.rng.choice([lo, hi, self.rng.randint(lo, hi)])
        return self.rng.choice([v, str(v), hex(v), f"{v:05d}", f"0x{v:06X}"]), v

    def integer(self, lo, hi):
        v = self.rng.choice([lo, hi, self.rng.randint(lo, hi)])
        return v, v

    def boolean(self):
        v = self.rng.random() < 0.5
        texts = ["1", "true", "yes", "on", "enable"] if v else ["0", "false", "no", "off", "disable"]
        x = self.rng.choice(texts)
        return self.rng.choice([v, self.rng.choice([1, 1, 2, 255, -1]) if v else 0, x, x.upper(), f" {x.title()} "]), v

    def key(self):
        b = self.rng.choice([self.rng.randbytes(16), bytes(16), b"\xff" * 16])
        return self.rng.choice([list(b), t.KeyData(b)]), b

    def eui(self, cls):
        b = self.rng.randbytes(8)
        text = ":".join(f"{x:02x}" for x in b)
        return self.rng.choice([text, text.upper(), cls(b[::-1])]), b[::-1]

    def pan(self):
        v = self.rng.choice([1, 0xFFFE, 0xFFF0, 0x0A00, self.rng.randint(1, 0xFFFE)])
        return self.rng.choice([v, str(v), hex(v), t.PanId(v)]), v

    def channels(self):
        c = self.rng.sample(range(11, 27), self.rng.randint(1, 16))
        return self.rng.choice([c, sorted(c), t.Channels.from_channel_list(c)]), sum(1 << x for x in c)

    def seconds(self):
        v = self.rng.choice([0, 1, 3600, 0.5])
        return self.rng.choice([v, str(v)]), float(v)

    def descriptor(self):
        r = self.rng
        d = {
            "endpoint": r.randint(1, 240), "profile": r.choice([0x0104, 0xC05E]), "device_type": r.randint(0, 0xFFFF), "device_version": r.randint(0, 15),
            "input_clusters": [r.randint(0, 0xFFFF) for _ in range(r.randint(0, 3))], "output_clusters": [r.randint(0, 0xFFFF) for _ in range(r.randint(0, 3))],
        }  # fmt: skip
        return d, d

    def file(self, name="index.json"):
        p = os.path.join(self.tmp, name)
        with open(p, "w") as f:
            f.write("[]")
        return self.rng.choice([p, pathlib.Path(p)]), p

    def url(self):
        u = f"https://example.org/{self.rng.randrange(999)}.json"
        return u, u


def is_key(x, b):
    return isinstance(x, t.KeyData) and x.serialize() == b


def is_eui(cls):
    return lambda x, b: isinstance(x, cls) and x.serialize() == b


def is_num(x, v):
    return isinstance(x, int) and x == v


def is_exact(x, v):
    return x == v and type(x) is type(v)


def is_desc(xs, ds):
    return len(xs) == len(ds) and all(isinstance(x, SimpleDescriptor) and {k: list(getattr(x, k)) if isinstance(d[k], list) else int(getattr(x, k)) for k in d} == d for x, d in zip(xs, ds))


# option path -> (default, generator(g) -> (given, meaning), judge(value, meaning), refused values)
OPTIONS = {
    ("database_path",): (None, lambda g: g.rng.choice([("/x/y.db", "/x/y.db"), (None, None)]), is_exact, [5, [], {}, True]),
    ("topology_scan_period",): (240, lambda g: g.integer(20, 10000), is_num, [19, 0, -5, "60", 20.5, None]),
    ("topology_scan_enabled",): (True, Gen.boolean, is_exact, BAD_BOOL),
    ("topology_scan_skip_coordinator",): (False, Gen.boolean, is_exact, BAD_BOOL),
    ("backup_enabled",): (True, Gen.boolean, is_exact, BAD_BOOL),
    ("backup_period",): (1440, lambda g: g.number(1, 100000), is_num, [0, -1, *NUMBERS, None]),
    ("validate_network_settings",): (False, Gen.boolean, is_exact, BAD_BOOL),
    ("max_concurrent_requests",): (8, lambda g: g.integer(0, 100), is_num, [-1, "8", 1.5, None]),
    ("source_routing",): (False, Gen.boolean, is_exact, BAD_BOOL),
    ("startup_energy_scan",): (True, Gen.boolean, is_exact, BAD_BOOL),
    ("watchdog_enabled",): (True, Gen.boolean, is_exact, BAD_BOOL),
    ("additional_endpoints",): (
        [], lambda g: tuple(map(list, zip(*[g.descriptor() for _ in range(g.rng.randint(1, 3))]))), is_desc,
        [5, [5], [{}], [{"endpoint": 1}], [{"endpoint": 300, "profile": 1, "device_type": 1, "device_version": 1, "input_clusters": [], "output_clusters": []}],
         [{"foo": 1}], [{"endpoint": 1, "profile": 1, "device_type": 1, "device_version": 1, "input_clusters": [70000], "output_clusters": []}], None],
    ),
    ("network", "channel"): (None, lambda g: g.rng.choice([g.number(11, 26), (None, None)]), lambda x, v: x is None if v is None else is_num(x, v), [10, 27, 0, -1, "10", "0x1b", *NUMBERS]),
    ("network", "channels"): (sum(1 << c for c in (11, 15, 20, 25)), Gen.channels, lambda x, v: isinstance(x, t.Channels) and int(x) == v, [[10], [27], [11, 28], ["a"], [11.5], 11, "11", {}, [None], [[11]], [0], [-1], None]),
    ("network", "extended_pan_id"): (None, lambda g: g.eui(t.ExtendedPanId), lambda x, b: x is None if b is None else is_eui(t.ExtendedPanId)(x, b), BAD_EUI),
    ("network", "key"): (None, Gen.key, lambda x, b: x is None if b is None else is_key(x, b), BAD_KEY),
    ("network", "key_sequence_number"): (0, lambda g: g.integer(0, 255), is_num, [-1, 256, "x", 1.5, None, []]),
    ("network", "pan_id"): (None, Gen.pan, lambda x, v: x is None if v is None else isinstance(x, t.PanId) and x == v, [-1, 0x10000, "0x10000", *NUMBERS]),
    ("network", "tc_address"): (None, lambda g: g.eui(t.EUI64), lambda x, b: x is None if b is None else is_eui(t.EUI64)(x, b), BAD_EUI),
    ("network", "tc_link_key"): (b"ZigBeeAlliance09", Gen.key, is_key, [*BAD_KEY, None]),
    ("network", "update_id"): (0, lambda g: g.number(0, 255), is_num, [-1, 256, "256", *NUMBERS, None]),
    ("ota", "enabled"): (True, Gen.boolean, is_exact, BAD_BOOL),
    ("ota", "broadcast_enabled"): (True, Gen.boolean, is_exact, BAD_BOOL),
    ("ota", "broadcast_initial_delay"): (3.9 * 3600, Gen.seconds, is_exact, [-1, "x", [], None, "-0.5"]),
    ("ota", "broadcast_interval"): (3.9 * 3600, Gen.seconds, is_exact, [-1, "x", [], None]),
    ("device", "baudrate"): (115200, lambda g: g.integer(1, 10**6), is_num, ["115200", 1.5, None, []]),
    ("device", "flow_control"): (None, lambda g: g.rng.choice([("hardware", "hardware"), ("software", "software"), (None, None)]), is_exact, ["xonxoff", "", 5, [], False, "Hardware"]),
}  # fmt: skip

TYPES = {
    "ikea": "Tradfri", "ledvance": "Ledvance", "salus": "Salus", "sonoff": "Sonoff", "inovelli": "Inovelli", "thirdreality": "ThirdReality",
    "zigpy_local": "LocalZigpyProvider", "zigpy_remote": "RemoteZigpyProvider", "z2m_local": "LocalZ2MProvider", "z2m": "RemoteZ2MProvider", "advanced": "AdvancedFileProvider",
}  # fmt: skip
DEFAULT_PROVIDERS = ["ledvance", "sonoff", "inovelli", "thirdreality"]
WARNING = (
    "I understand I can *destroy* my devices by enabling OTA updates from files. Some OTA updates can be mistakenly applied to the wrong device, breaking it."
    " I am consciously using this at my own risk."
)


def provider(g, name=None):
    """(configuration, meaning)"""
    r = g.rng
    name = name or r.choice(list(TYPES))
    cfg, want = {"type": name}, {"type": TYPES[name]}
    if name in ("zigpy_local", "z2m_local"):
        cfg["index_file"], want["index_file"] = g.file(f"i{r.randrange(3)}.json")
    elif name == "advanced":
        cfg["path"], want["path"] = r.choice([g.tmp, pathlib.Path(g.tmp)]), g.tmp
        cfg["warning"] = WARNING
    elif name == "zigpy_remote" or r.random() < 0.4:
        cfg["url"], want["url"] = g.url()
    if r.random() < 0.3:
        ids = [r.randrange(0x10000) for _ in range(r.randint(0, 3))]
        cfg["manufacturer_ids"] = [r.choice([x, hex(x), str(x)]) for x in ids]
        want["manufacturer_ids"] = tuple(ids)
    want["override"] = False
    if r.random() < 0.25:
        cfg["override_previous"] = want["override"] = r.random() < 0.7
    return cfg, want


def check_provider(p, want, where):
    if type(p).__name__ != want["type"]:
        raise Violation("provider", f"{where}: provider {p} instead of {want}")
    for k, v in want.items():
        got = {"type": want["type"], "override": p.override_previous, "path": str(getattr(p, "path", "")), "index_file": str(getattr(p, "index_file", ""))}.get(k) if k in ("type", "override", "path", "index_file") else getattr(p, k)
        if got != v:
            raise Violation("provider", f"{where}: {k} of {p} is {got!r} instead of {v!r}")
    if "manufacturer_ids" not in want and tuple(p.manufacturer_ids) != tuple(type(p).MANUFACTURER_IDS):
        raise Violation("provider", f"{where}: manufacturers of {p} are not the default ones")
    if "url" not in want and p.url != type(p).DEFAULT_URL:
        raise Violation("provider", f"{where}: address of {p} is not the default one")


def judge_providers(got, want, where):
    if [type(p).__name__ for p in got] != [w["type"] for w in want]:
        raise Violation("provider", f"{where}: {got} instead of {want}")
    for p, w in zip(got, want):
        check_provider(p, w, where)


def build(g, share):
    cfg, want = {"device": {"path": "/dev/null"}}, {}
    for path, (_, gen, _, _) in OPTIONS.items():
        if g.rng.random() < share:
            given, meaning = gen(g)
            d = cfg
            for k in path[:-1]:
                d = d.setdefault(k, {})
            d[path[-1]] = given
            want[path] = meaning
    return cfg, want


def get(d, path):
    for k in path:
        d = d[k]
    return d


def quiet(fn, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a)


def judge(result, cfg, want, where):
    for path, (default, _, ok, _) in OPTIONS.items():
        meaning = want.get(path, default)
        value = get(result, path)
        if not ok(value, meaning):
            raise Violation("value:" + ".".join(path), f"{where}: {'.'.join(path)} is {value!r} ({type(value).__name__}), expected {meaning!r}, given {get(cfg, path) if path in want else 'nothing'!r}")


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, list) and type(x) is list:
        return [snapshot(v) for v in x]
    return (type(x), repr(x))


def spoil(x):
    """Change every container of a validated configuration."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k != "radio_specific":  # the caller's own object
                spoil(v)
        x["spoiled"] = 1
    elif type(x) is list:
        for v in x:
            spoil(v)
        x.append("spoiled")


def valid(ctx, i, tmp):
    rng = ctx.rng("valid", i)
    g = Gen(rng, tmp)
    cfg, want = build(g, rng.choice([0, 0.2, 0.6, 1]))
    extra = rng.random() < 0.3
    if extra:
        cfg["radio_specific"] = {"a": [1, 2]}
    lists = {}
    for name in ("providers", "extra_providers"):
        if rng.random() < 0.4:
            lists[name] = [provider(g) for _ in range(rng.randint(0, 3))]
            cfg.setdefault("ota", {})[name] = [c for c, _ in lists[name]]
    if rng.random() < 0.3:
        cfg.setdefault("ota", {})["disable_default_providers"] = lists["off"] = rng.sample(list(TYPES), rng.randint(0, 4))
    before = snapshot(cfg)

    def check(result, where):
        judge(result, cfg, want, where)
        if extra and result.get("radio_specific") != {"a": [1, 2]}:
            raise Violation("extra", f"{where}: an option of a radio library was changed to {result.get('radio_specific')}")
        if result["device"]["path"] != "/dev/null":
            raise Violation("value:device.path", f"{where}: device path {result['device']['path']}")
        judge_providers(result["ota"]["providers"], [w for _, w in lists["providers"]] if "providers" in lists else [{"type": TYPES[n]} for n in DEFAULT_PROVIDERS], where)
        judge_providers(result["ota"]["extra_providers"], [w for _, w in lists.get("extra_providers", [])], where)
        if [p.__name__ for p in result["ota"]["disable_default_providers"]] != [TYPES[n] for n in lists.get("off", [])]:
            raise Violation("provider", f"{where}: disabled {result['ota']['disable_default_providers']} instead of {lists.get('off')}")
        if snapshot(cfg) != before:
            raise Violation("input-modified", f"{where}: the configuration passed in was modified")

    def accept(fn, arg, where):
        try:
            return quiet(fn, arg)
        except Exception as e:
            raise Violation("refused", f"{where}: a valid configuration ({sorted('.'.join(p) for p in want)}, {lists}) was refused: {e!r}") from e

    schema = rng.choice([conf.CONFIG_SCHEMA, conf.ZIGPY_SCHEMA])
    if schema is conf.ZIGPY_SCHEMA:
        # without the device part, radio libraries extend it with their own
        device = cfg.pop("device")
        first = accept(schema, cfg, "schema")
        cfg["device"] = device
        first = accept(conf.CONFIG_SCHEMA, {**first, "device": device}, "second validation")
    else:
        first = accept(schema, cfg, "schema")
    check(first, "schema")
    again = accept(conf.CONFIG_SCHEMA, first, "second validation")
    check(again, "second validation")
    for name in ("providers", "extra_providers", "disable_default_providers"):
        if again["ota"][name] != first["ota"][name]:
            raise Violation("second-validation", f"validating twice changed {name} from {first['ota'][name]} to {again['ota'][name]}")
    app = accept(sim.SimApp, cfg, "application")
    check(app.config, "application")
    spoil(first)
    spoil(again)
    check(accept(conf.CONFIG_SCHEMA, cfg, "schema after changing an earlier result"), "schema after changing an earlier result")
    ctx.count("valid configurations")
    ctx.count("values judged", 3 * len(OPTIONS))
    ctx.evaluated(("valid", tuple(sorted(want))), True)
    for path in want:
        ctx.state("option given: " + ".".join(path), type(get(cfg, path)).__name__)


def refuse(ctx, cfg, what):
    try:
        r = quiet(conf.CONFIG_SCHEMA, cfg)
    except vol.Invalid:
        pass
    except Exception as e:
        raise Violation("not-a-validation-error", f"{what} raised {e!r} instead of a validation error") from e
    else:
        raise Violation("accepted", f"{what} was accepted: {r}")
    ctx.count("invalid configurations")
    ctx.evaluated(("invalid", what), True)


def invalid(ctx, path, tmp):
    rng = ctx.rng("invalid", path)
    g = Gen(rng, tmp)
    for n, bad in enumerate(OPTIONS[path][3]):
        for share in (0, 0.5):
            cfg, _ = build(g, share)
            d = cfg
            for k in path[:-1]:
                d = d.setdefault(k, {})
            d[path[-1]] = copy.deepcopy(bad)
            refuse(ctx, cfg, f"{'.'.join(path)} = {bad!r}")


def structures(ctx, tmp):
    dev = {"device": {"path": "/dev/null"}}
    for bad, what in [
        ({}, "no device"), ({"device": {}}, "no device path"), ({"device": None}, "device None"), ({"device": {"path": 5}}, "numeric path"), ({"device": {"path": "x", "foo": 1}}, "unknown device option"),
        ({**dev, "network": {"foo": 1}}, "unknown network option"), ({**dev, "network": 5}, "numeric network"), ({**dev, "network": None}, "network None"), ({**dev, "ota": 5}, "numeric ota"), ({**dev, "ota": None}, "ota None"),
        (5, "a number"), (None, "None"), ([], "a list"),
    ]:  # fmt: skip
        refuse(ctx, bad, what)
    ok = {
        "url": "https://example.org", "index_file": os.path.join(tmp, "ok.json"), "path": tmp, "warning": WARNING
    }  # fmt: skip
    with open(ok["index_file"], "w") as f:
        f.write("[]")
    needs = {"zigpy_local": ["index_file"], "z2m_local": ["index_file"], "advanced": ["path", "warning"], "zigpy_remote": ["url"]}
    for where in ("providers", "extra_providers"):
        for bad in (None, 5, "ikea", {}, [5], ["ikea"], [None], [{}], [{"type": None}], [{"type": []}], [{"type": {}}], [{"type": "nobody"}], [{"type": "Ikea"}], [{"url": "https://example.org"}], [[]]):
            refuse(ctx, {**dev, "ota": {where: bad}}, f"{where} = {bad!r}")
        for name in TYPES:
            good = {"type": name, **{k: ok[k] for k in needs.get(name, [])}}
            quiet(conf.CONFIG_SCHEMA, {**dev, "ota": {where: [good]}})
            for k, vs in {
                "foo": [1], "override_previous": ["yes", 1.0, None, []], "manufacturer_ids": [5, ["x"], [1.5], "5", [None], {}],
                **{k: [None, 5, os.path.join(tmp, "missing"), [], {}] for k in needs.get(name, []) if k in ("path", "index_file")},
                **({"warning": ["oops", None, True, WARNING[:-1]]} if name == "advanced" else {}),
                **({"url": ["not a url", None, 5, [], ""]} if name not in needs or name == "zigpy_remote" else {}),
            }.items():  # fmt: skip
                for v in vs:
                    refuse(ctx, {**dev, "ota": {where: [{**good, k: v}]}}, f"{where} {name}: {k} = {v!r}".replace(tmp, "TMP"))
            for k in needs.get(name, []):
                refuse(ctx, {**dev, "ota": {where: [{x: y for x, y in good.items() if x != k}]}}, f"{where} {name} without {k}")
    for bad in (5, None, ["nobody"], [5], [None], [[]], [{}], "ikea"):
        refuse(ctx, {**dev, "ota": {"disable_default_providers": bad}}, f"disable_default_providers = {bad!r}")
    for name in ("ikea", "inovelli", "ledvance", "salus", "sonoff", "thirdreality"):
        for bad in (5.5, "not a url", [], {}):
            refuse(ctx, {**dev, "ota": {f"{name}_provider": bad}}, f"{name}_provider = {bad!r}")
    for opt, bads in {
        "z2m_local_index": [5, os.path.join(tmp, "missing"), tmp, None, []], "z2m_remote_index": [5.5, "not a url", []], "advanced_ota_dir": [5, os.path.join(tmp, "missing"), ok["index_file"], None],
        "allow_advanced_ota_dir": ["oops", True, None], "remote_providers": [5, [5], [{}], [{"url": 5}], [{"url": "https://x.org", "manufacturer_ids": ["x"]}], [{"url": "x", "foo": 1}]],
    }.items():  # fmt: skip
        for bad in bads:
            refuse(ctx, {**dev, "ota": {opt: bad}}, f"{opt} = {bad!r}".replace(tmp, "TMP"))


class Recorder(zigpy.ota.OTA):
    def __init__(self, *a):
        self.registered = []
        super().__init__(*a)

    def register_provider(self, provider):
        self.registered.append(provider)
        super().register_provider(provider)


DEPRECATED = {"ikea_provider": "ikea", "inovelli_provider": "inovelli", "ledvance_provider": "ledvance", "salus_provider": "salus", "sonoff_provider": "sonoff", "thirdreality_provider": "thirdreality", "z2m_remote_index": "z2m"}


def intents(ctx, i, tmp):
    """Which providers are used, from current and deprecated options."""
    rng = ctx.rng("intents", i)
    g = Gen(rng, tmp)
    ota, given, off = {}, [], set()
    current = set(DEFAULT_PROVIDERS)
    if rng.random() < 0.5:
        pairs = [provider(g) for _ in range(rng.randint(0, 4))]
        ota["providers"] = [c for c, _ in pairs]
        given += [w for _, w in pairs]
        current = {c["type"] for c, _ in pairs}
    else:
        given += [{"type": TYPES[n], "override": False} for n in DEFAULT_PROVIDERS]
    extra_types = set()
    if rng.random() < 0.5:
        pairs = [provider(g) for _ in range(rng.randint(0, 4))]
        ota["extra_providers"] = [c for c, _ in pairs]
        given += [w for _, w in pairs]
        extra_types = {c["type"] for c, _ in pairs}
    disabled = set()
    if rng.random() < 0.5:
        disabled = set(rng.sample(list(TYPES), rng.randint(0, 5)))
        ota["disable_default_providers"] = sorted(disabled)
        off |= disabled - extra_types
    used = []
    for opt, name in DEPRECATED.items():
        if rng.random() < 0.3 and name not in extra_types | disabled and (name in DEFAULT_PROVIDERS or name not in current):
            v = rng.choice([True, False, "url", "yes"])
            used.append(opt)
            if v == "url":
                ota[opt], u = g.url()
                given.append({"type": TYPES[name], "override": False, "url": u})
            elif v == "yes":
                ota[opt] = "yes"
                given.append({"type": TYPES[name], "override": False})
            else:
                ota[opt] = v
                if v:
                    given.append({"type": TYPES[name], "override": False})
                else:
                    off.add(name)
    advanced = None
    if rng.random() < 0.2 and "advanced" not in extra_types | disabled | current:
        ota["advanced_ota_dir"], ota["allow_advanced_ota_dir"] = tmp, WARNING
        advanced = {"type": "AdvancedFileProvider", "override": False, "path": tmp}
        used.append("advanced")
    if rng.random() < 0.3 and "z2m_local" not in extra_types | disabled | current:
        ota["z2m_local_index"], f = g.file("dep.json")
        given.append({"type": "LocalZ2MProvider", "override": False, "index_file": f})
        used.append("z2m_local_index")
    if rng.random() < 0.3 and "zigpy_remote" not in extra_types | disabled | current:
        u = g.url()[1]
        ids = [rng.randrange(0x10000) for _ in range(rng.randint(0, 2))]
        ota["remote_providers"] = [{"url": u, "manufacturer_ids": list(ids)}]
        given.append({"type": "RemoteZigpyProvider", "override": False, "url": u, "manufacturer_ids": tuple(ids)})
        used.append("remote_providers")
    for junk in ("sonoff_update_url", "otau_dir", "ikea_update_url"):
        if rng.random() < 0.1:
            ota[junk] = "x"
    enabled = rng.random() < 0.9
    ota["enabled"] = enabled
    want = []
    for w in given if enabled else []:
        if w["type"] in {TYPES[n] for n in off}:
            continue
        if w["override"]:
            want = [x for x in want if x["type"] != w["type"]]
        want.append(w)
    got = quiet(lambda: Recorder(conf.SCHEMA_OTA(ota), None)).registered

    def norm(ws):
        return sorted(ws, key=lambda w: w["type"])

    if advanced is not None and enabled and not any(isinstance(p, prov.AdvancedFileProvider) for p in got):
        key = "deprecated-advanced-dir-ignored"
        if key not in ctx.known:
            raise Violation(key, "`advanced_ota_dir` with `allow_advanced_ota_dir` registers no provider")
        ctx.violation(key, "")
    else:
        got = [p for p in got if not (advanced is not None and isinstance(p, prov.AdvancedFileProvider))]
    try:
        judge_providers(sorted(got, key=lambda p: type(p).__name__), norm(want), f"registered for {ota}")
    except Violation as v:
        raise Violation("registered-providers", v.args[1] if len(v.args) > 1 else str(v)) from v
    ctx.count("provider lists judged")
    if used:
        ctx.count("provider lists with deprecated options")
    ctx.evaluated(("providers", tuple(sorted(used)), len(want)), True)


def run(ctx):
    logging.getLogger("zigpy").setLevel(logging.CRITICAL)
    tmp = tempfile.mkdtemp(prefix="n04-")
    try:
        for i in range(ctx.n(2000, 40000)):
            ctx.case(f"valid:{i}", valid, ctx, i, tmp)
        for path in OPTIONS:
            ctx.case(f"invalid:{'.'.join(path)}", invalid, ctx, path, tmp)
        ctx.case("structures", structures, ctx, tmp)
        for i in range(ctx.n(2000, 40000)):
            ctx.case(f"intents:{i}", intents, ctx, i, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.sample({"option": "network.pan_id", "accepted": ["4660", "0x1234", 4660], "refused": [repr(x) for x in OPTIONS[("network", "pan_id")][3]]})
    for name, m in [("valid configurations", 300), ("values judged", 20000), ("invalid configurations", 600), ("provider lists judged", 300), ("provider lists with deprecated options", 100)]:
        ctx.require(name, m)
