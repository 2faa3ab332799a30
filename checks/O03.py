"""O03: only verified, admissible firmware is offered, the newest first."""

from __future__ import annotations

import asyncio
import contextlib
import hashlib
import io
import json
import logging
import pathlib
import shutil
import tarfile
import tempfile
import urllib.parse

import aiohttp
import yarl

from harness import otaref, sim, vloop
from harness.core import Violation

import zigpy.config as conf
import zigpy.types as t
from zigpy.zcl.clusters.general import Ota

from checks.O02 import contain, plain, ref_parse

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: every answer to a firmware query is compared with a reference selector that is fed with the log of what the simulated servers and folders "
    "delivered; each delivered file is verified independently (size, checksum, signed container, archive, firmware format)"
)
NOTE = (
    "All eleven kinds of sources, growing indices over several days, unreachable, hanging, slow, malformed and corrupting servers, wrong checksums and sizes, "
    "colliding images, concurrent queries, queries by call and over the air."
)
RULE = "One evaluation is one query whose answer is judged; non-trivial: distinct (upgrades, downgrades, kinds of sources offered, dropped for each reason, exact)."
ASSUMPTIONS = [
    "Images that vanish from the index of a source are not judged, indices only grow.",
    "A failed index may be left alone for 24 hours; when several downloads of one image within one burst of queries end differently, either answer is accepted.",
]
DAY = 24 * 3600
DEVICES = [(4476, "TRADFRI-1", "IKEA"), (4489, "LED", "LEDVANCE"), (4216, "SP600", "SALUS"), (4742, "SNZB", "SONOFF"), (4655, "VZM31-SN", "Inovelli"), (4659, "3RSS", "TR"), (4107, "LCA001", "Philips"), (0x1234, "M-1", "SimCo")]


# --- a stand-in for the internet ---------------------------------------------------------
class Server:
    current = None

    def __init__(self, rng):
        self.rng = rng
        self.pages = {}  # url -> callable() -> (behaviour, body)
        self.log = []

    def lookup(self, url):
        return self.pages.get(str(url))


class Response:
    def __init__(self, url, status, body, mime):
        self.url, self.status, self.body, self.content_type = url, status, body, mime
        self.ok = status < 400
        self.headers = {"Content-Type": mime}

    def raise_for_status(self):
        if not self.ok:
            info = aiohttp.RequestInfo(yarl.URL(self.url), "GET", {}, yarl.URL(self.url))
            raise aiohttp.ClientResponseError(info, (), status=self.status, message="simulated")

    async def read(self):
        return self.body

    async def text(self, *a, **k):
        return self.body.decode("utf-8")

    async def json(self, *, content_type="application/json", **k):
        if content_type is not None and self.content_type != content_type:
            info = aiohttp.RequestInfo(yarl.URL(self.url), "GET", {}, yarl.URL(self.url))
            raise aiohttp.ContentTypeError(info, (), message="unexpected mimetype")
        return json.loads(self.body)


class FakeSession:
    def __init__(self, *a, raise_for_status=False, **k):
        self.strict = raise_for_status
        self.closed = False

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.closed = True

    async def close(self):
        self.closed = True

    @contextlib.asynccontextmanager
    async def get(self, url, **kw):
        server, loop = Server.current, asyncio.get_running_loop()
        rec = {"url": str(url), "start": loop.time(), "end": None, "body": None, "how": None}
        server.log.append(rec)
        try:
            page = server.lookup(url)
            if page is None:
                raise aiohttp.ClientConnectionError(f"no such host: {url}")
            how, body, mime = page()
            rec["how"] = how
            if how == "hang":
                await asyncio.sleep(1e6)
            elif how == "slow":
                await asyncio.sleep(server.rng.uniform(1, 15))
            else:
                await asyncio.sleep(server.rng.choice([0, 0.01, 0.3]))
            if how == "error":
                raise server.rng.choice([aiohttp.ClientConnectionError("refused"), OSError("unreachable"), TimeoutError()])
            rsp = Response(str(url), 404 if how == "status" else 200, body, mime)
            if self.strict:
                rsp.raise_for_status()
            rec["body"] = body if rsp.ok else None
        finally:
            rec["end"] = loop.time()
        yield rsp


# --- sources -----------------------------------------------------------------------------
class Header(dict):
    def __hash__(self):
        return hash(tuple(sorted(self.items(), key=str)))


class Entry:
    """An image as a source describes it, and what its verification has to find."""

    def __init__(self, kind, loc, meta, checksum=None, size=None, data=b"", local=False):
        self.kind, self.loc, self.meta, self.checksum, self.size, self.data, self.local = kind, loc, meta, checksum, size, data, local

    def verify(self, raw):
        """(firmware, what its header demands) or None"""
        if raw is None:
            return None
        if self.kind == "salus":
            raw = unpack_salus(raw)
        elif self.kind == "ikea-signed":
            raw = raw if signed_ok(raw, self.size) else None
        else:
            if self.size is not None and len(raw) != self.size:
                return None
            if self.checksum is not None and hashlib.new(self.checksum[0], raw).hexdigest() != self.checksum[1]:
                return None
        parsed = ref_parse(raw) if raw is not None else None
        if parsed is None:
            return None
        h = parsed[1]
        return parsed[3], Header(manufacturer=h["manufacturer_id"], image_type=h["image_type"], hw_min=h["minimum_hardware_version"], hw_max=h["maximum_hardware_version"])

    def specificity(self, header):
        m = otaref.effective(self.meta, header)
        has = lambda k: m[k] is not None  # noqa: E731
        return (
            1000 * bool(m["manufacturers"]) + 1000 * bool(m["models"]) + 100 * has("image_type") + 100 * has("manufacturer")
            + 10 * has("cur_min") + 10 * has("cur_max") + has("hw_min") + has("hw_max") + (m["specificity"] or 0)
        )  # fmt: skip


def meta(version, manufacturer=None, image_type=None, models=(), manufacturers=(), hw_min=None, hw_max=None, cur_min=None, cur_max=None, specificity=None):
    return {"version": version, "manufacturer": manufacturer, "image_type": image_type, "models": tuple(models), "manufacturers": tuple(manufacturers), "hw_min": hw_min, "hw_max": hw_max, "cur_min": cur_min, "cur_max": cur_max, "specificity": specificity}


def pack_salus(rng, img, wrong):
    info = {"upgrade": [{"filename": "fw.ota", "checksum": hashlib.md5(b"?" + img if wrong == "md5" else img).hexdigest().upper()}]}
    files = {"networkinfo.json": json.dumps(info).encode(), "fw.ota": img, "readme.txt": b"hello"}
    if wrong == "missing":
        del files[rng.choice(["networkinfo.json", "fw.ota"])]
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode=rng.choice(["w:gz", "w"])) as tar:
        for name, data in files.items():
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            tar.addfile(ti, io.BytesIO(data))
    return out.getvalue()


def unpack_salus(raw):
    try:
        with tarfile.open(fileobj=io.BytesIO(raw)) as tar:
            files = {m.name: tar.extractfile(m).read() for m in tar if m.isfile()}
        up = json.loads(files["networkinfo.json"])["upgrade"][0]
        img = files[up["filename"]]
        return img if hashlib.md5(img).hexdigest().upper() == up["checksum"] else None
    except Exception:
        return None


def pack_signed(rng, img, wrong):
    bs = rng.choice([16, 64, len(img), len(img) + 5, rng.randint(8, 200)])
    n = -(-len(img) // bs)
    hashes = [hashlib.sha256(img[k * bs : (k + 1) * bs]).digest() for k in range(n)]
    if wrong == "hash":
        hashes[rng.randrange(n)] = rng.randbytes(32)
    at, count = 40 + 32 * n, n
    if wrong == "count":
        count = n + rng.choice([1, -1])
    return b"NGIS" + rng.randbytes(12) + otaref.u(4, at) + otaref.u(4, len(img)) + rng.randbytes(8) + otaref.u(4, bs) + otaref.u(4, count) + b"".join(hashes) + img + rng.randbytes(rng.randint(1, 80))


def signed_ok(raw, size):
    g = lambda at: int.from_bytes(raw[at : at + 4], "little")  # noqa: E731
    at, n, bs, count = g(16), g(20), g(32), g(36)
    if raw[:4] != b"NGIS" or n != size or at != 40 + 32 * count or bs * count < n or len(raw) < at:
        return False
    img = raw[at : at + n]
    for k in range(count):
        block = img[k * bs : (k + 1) * bs] if k * bs + bs <= n else img[k * bs : n]
        if hashlib.sha256(block).digest() != raw[40 + 32 * k : 72 + 32 * k]:
            return False
    return True


class Source:
    def __init__(self, world, num, kind):
        self.w, self.num, self.kind, self.rng = world, num, kind, world.rng
        self.entries, self.items = [], []  # what the index of today lists
        self.host = f"https://s{num}.sim"
        self.url = f"{self.host}/index.json"
        self.dir = world.dir / f"s{num}"
        self.fault = None
        self.last = None
        self.manufs = None
        self.count = 0
        default = {"ikea": (4476,), "ledvance": (4489, 4364), "salus": (4216, 43981), "sonoff": (4742,), "inovelli": (4655,), "thirdreality": (4659, 4877, 5127)}
        self.accepts = default.get(kind, ())
        if self.rng.random() < (0.3 if self.accepts else 0.15):
            self.manufs = self.rng.choice([[], [d[0] for d in self.rng.sample(DEVICES, 2)]])
            self.accepts = tuple(self.manufs)
        self.local = kind in ("zigpy_local", "z2m_local", "advanced")
        if self.local:
            self.dir.mkdir()

    def config(self):
        c = {"type": self.kind}
        if self.manufs is not None:
            c["manufacturer_ids"] = self.manufs
        if self.kind == "advanced":
            c |= {"path": str(self.dir), "warning": conf.CONF_OTA_ALLOW_ADVANCED_DIR_STRING}
        elif self.local:
            (self.dir / "index.json").write_text("[]")
            c["index_file"] = str(self.dir / "index.json")
        elif self.kind in self.w.plain_url and self.rng.random() < 0.5:
            self.url = self.w.plain_url.pop(self.kind)
        else:
            c["url"] = self.url
        return c

    # -- content
    def firmware(self, manuf, itype, version):
        rng = self.rng
        key = (manuf, itype, version)
        if key in self.w.files and rng.random() < 0.5:
            img = self.w.files[key]
        else:
            hw = (rng.choice([0, rng.randint(0, 6)]), rng.randint(3, 10)) if rng.random() < 0.4 else None
            if rng.random() < 0.1:
                manuf, itype, version = rng.choice([(manuf ^ 1, itype, version), (manuf, itype ^ 1, version), (manuf, itype, version + 1)])
            img = otaref.image(manuf & 0xFFFF, itype & 0xFFFF, version & 0xFFFFFFFF, [(0, rng.randbytes(rng.randint(1, 60)))], hw=hw)
            self.w.files[key] = img
        return img

    def add(self):
        rng, kind = self.rng, self.kind
        self.count += 1
        name = f"{self.num}-{self.count}"
        dev = rng.choice(self.w.devices)
        manuf = dev.manuf if rng.random() < 0.85 else rng.choice([0, rng.choice(DEVICES)[0]])
        itype = dev.itype if rng.random() < 0.85 else rng.choice([8704, 8710, 1, 2, dev.itype + 1])
        version = rng.choice([rng.randint(1, 12), dev.version + 2, rng.randint(1, 30), dev.version + 1, dev.version, rng.randrange(1 << 31)])
        model = dev.model if rng.random() < 0.85 else rng.choice(DEVICES)[1]
        if kind == "ikea":
            manuf = 4476 if rng.random() < 0.9 else manuf
        corrupt = rng.random() < 0.08
        img = self.firmware(manuf, itype, version)
        if corrupt:
            cut = rng.randrange(len(img))
            img = rng.choice([img[:cut], img[:cut] + bytes([img[cut] ^ 0x55]) + img[cut + 1 :], rng.randbytes(100), b""])
        served = img
        if not corrupt and kind not in ("ikea", "salus") and rng.random() < 0.15:
            served = contain(rng, rng.choice(["plain", "thirdreality", "legrand"]), img, rng.choice([b"", b"trailing"]))
        wrong = rng.choice(["checksum", "size"]) if rng.random() < 0.1 else None
        size = len(served) + (rng.choice([1, -1, 100]) if wrong == "size" else 0)

        def digest(alg, data=None):
            data = served if data is None else data
            return hashlib.new(alg, data + b"!" if wrong == "checksum" else data).hexdigest()

        url = f"{self.host}/{name}.ota"
        e = None
        if kind == "ikea":
            style = rng.choice(["new", "new", "old", "old", "gateway", "unparsable"])
            if style in ("new", "unparsable"):
                url = f"{self.host}/{name}_v{version}_x.ota" if style == "new" else f"{self.host}/{name}_w_x.ota"
                item = {"fw_image_type": itype, "fw_type": 2, "fw_sha3_256": digest("sha3_256"), "fw_binary_url": url}
                if style == "new":
                    e = Entry("ikea", url, meta(version, 4476, itype), ("sha3_256", item["fw_sha3_256"]), None, served)
            elif style == "old":
                version &= 0xFFFFFFFF
                bad = rng.choice(["hash", "hash", "count"]) if rng.random() < 0.35 else None
                served = pack_signed(rng, img or b"x", bad)
                n = len(img or b"x") + (1 if wrong == "size" else 0)
                item = {"fw_binary_url": "http" + url[5:], "fw_file_version_LSB": version & 0xFFFF, "fw_file_version_MSB": version >> 16, "fw_filesize": n, "fw_image_type": itype, "fw_manufacturer_id": manuf, "fw_type": 2}
                e = Entry("ikea-signed", url, meta(version, manuf, itype), None, n, served)
            else:
                item = {"fw_binary_url": url, "fw_filesize": 5, "fw_hotfix_version": 1, "fw_major_version": 2, "fw_minor_version": 3, "fw_req_hotfix_version": 0, "fw_req_major_version": 0, "fw_req_minor_version": 0, "fw_type": 0, "fw_update_prio": 5, "fw_weblink_relnote": url}
            if e is not None and itype in (8704, 8710):
                e = None
                self.w.ctx.count("bricking images listed")
        elif kind == "ledvance":
            ver = {"major": self.num, "minor": self.count, "build": rng.randrange(9), "revision": 0}
            item = {
                "blob": None, "identity": {"company": manuf, "product": itype, "version": ver}, "releaseNotes": "x", "shA256": digest("sha256"), "name": "n", "productName": model,
                "fullName": f"{model}/{version:08X}/x.ota", "extension": ".ota", "released": "2020-01-01T00:00:00", "salesRegion": None, "length": size,
            }  # fmt: skip
            url = "https://api.update.ledvance.com/v1/zigbee/firmwares/download?" + urllib.parse.urlencode({"Company": manuf, "Product": itype, "Version": ".".join(str(ver[k]) for k in ("major", "minor", "build", "revision"))})
            e = Entry(kind, url, meta(version, manuf, itype, [model]), ("sha256", item["shA256"]), size, served)
        elif kind == "salus":
            bad = rng.choice(["md5", "missing"]) if rng.random() < 0.2 else None
            served = pack_salus(rng, img, bad)
            if rng.random() < 0.1:
                item = {"model": model, "version": "", "url": url}
            else:
                if rng.random() < 0.1:
                    version |= 0x123 << 32
                item = {"model": model, "version": f"{version:08X}" if version < 1 << 32 else f"{version:012X}", "url": rng.choice([url, "http" + url[5:]])}
                e = Entry("salus", url, meta(version, models=[model]), None, None, served)
        elif kind == "sonoff":
            item = {"fw_binary_url": url, "fw_file_version": version, "fw_filesize": size, "fw_image_type": itype, "fw_manufacturer_id": manuf, "model_id": model}
            e = Entry(kind, url, meta(version, manuf, itype, [model]), None, size, served)
        elif kind == "inovelli":
            if version <= 0xB and rng.random() < 0.5:
                text = f"{version:08X}"
            else:
                text = str(version)
                version = int(text, 16) if int(text, 16) <= 0xB else version
            item = (model, {"version": text, "channel": "beta", "firmware": url, "manufacturer_id": manuf, "image_type": itype})
            e = Entry(kind, url, meta(version, manuf, itype, [model]), None, None, served)
        elif kind == "thirdreality":
            item = {"modelId": model, "url": url, "version": "1.0.1", "imageType": itype, "manufacturerId": manuf, "fileVersion": version}
            e = Entry(kind, url, meta(version, manuf, itype, [model]), None, None, served)
        else:
            maybe = lambda p, v: v if rng.random() < p else None  # noqa: E731
            m = meta(
                version, manuf, itype, [model] if rng.random() < 0.3 else [], [dev.maker if rng.random() < 0.8 else "Other"] if rng.random() < 0.2 else [],
                cur_min=maybe(0.15, rng.randint(0, 15)), cur_max=maybe(0.2, rng.choice([0, rng.randint(3, 30)])),
            )  # fmt: skip
            path = None
            if kind == "advanced":
                path = self.dir / rng.choice(["", "sub", "sub/deep"]) / f"{name}.ota"
                path.parent.mkdir(parents=True, exist_ok=True)
                path.write_bytes(served)
                got = ref_parse(served)
                item = None
                if got is not None:
                    h = got[1]
                    m = meta(h["file_version"], h["manufacturer_id"], h["image_type"], hw_min=h["minimum_hardware_version"], hw_max=h["maximum_hardware_version"])
                    e = Entry(kind, str(path), m, ("sha1", hashlib.sha1(served).hexdigest()), len(served), served, local=True)
            elif kind in ("zigpy_remote", "zigpy_local"):
                m |= {"hw_min": maybe(0.3, rng.choice([0, rng.randint(0, 6)])), "hw_max": maybe(0.15, rng.choice([0, rng.randint(3, 9), rng.randint(3, 9)])), "specificity": maybe(0.15, rng.choice([-500, 1, 50, 5000, 0]))}
                item = {"file_version": version, "file_size": size, "image_type": itype, "manufacturer_id": manuf, "checksum": "sha3-256:" + digest("sha3_256")}
                extra = {"model_names": m["models"], "manufacturer_names": m["manufacturers"], "min_hardware_version": m["hw_min"], "max_hardware_version": m["hw_max"], "min_current_file_version": m["cur_min"], "max_current_file_version": m["cur_max"], "specificity": m["specificity"]}
                item |= {k: list(v) if isinstance(v, tuple) else v for k, v in extra.items() if v not in (None, ())}
                here = kind == "zigpy_local" and rng.random() < 0.7
                if here or rng.random() < 0.2:
                    item["path"] = f"{name}.ota"
                if not here or rng.random() < 0.5:
                    item["binary_url"] = url
                if kind == "zigpy_local" and "path" in item:
                    here = True
                path = self.dir / f"{name}.ota" if here else None
                e = Entry(kind, str(path) if here else url, m, ("sha3_256", digest("sha3_256")), size, served, local=here)
            else:
                item = {"fileVersion": version, "fileSize": size, "manufacturerCode": manuf, "imageType": itype, "sha512": digest("sha512"), "url": url}
                item |= {"modelId": m["models"][0]} if m["models"] else {}
                item |= {"manufacturerName": list(m["manufacturers"])} if m["manufacturers"] else {}
                item |= {k: v for k, v in (("minFileVersion", m["cur_min"]), ("maxFileVersion", m["cur_max"])) if v is not None}
                here = kind == "z2m_local" and rng.random() < 0.7
                if here or (kind == "z2m" and rng.random() < 0.1):
                    item["path"] = f"{name}.ota"
                path = self.dir / f"{name}.ota" if here else None
                e = Entry(kind, str(path) if here else url, m, ("sha512", item["sha512"]), size, served, local=here)
            if path is not None and kind != "advanced":
                path.write_bytes(served)
        if item is not None:
            self.items.append(item)
        if e is not None:
            e.source = self
            self.entries.append(e)
            self.w.by_loc[e.loc] = e
            if not e.local:
                self.w.server.pages[e.loc] = lambda: self.w.download(e)

    def index(self):
        k, items = self.kind, list(self.items)
        if k in ("ledvance", "zigpy_remote", "zigpy_local"):
            return {"firmwares": items}
        if k in ("salus", "thirdreality"):
            return {"versions": items}
        if k == "inovelli":
            out = {}
            for model, item in items:
                out.setdefault(model, []).append(item)
            return out
        return items

    def publish(self):
        """The content of a new day."""
        rng = self.rng
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if self.count else rng.randint(1, 5)):
            self.add()
        self.fault = rng.choice(["error", "status", "hang", "not json", "schema", "shape", "missing"]) if rng.random() < self.w.trouble else None
        self.last = None
        body = json.dumps(self.index())
        if self.fault == "not json":
            body = rng.choice(["", "<html>", body[:-1]])
        elif self.fault == "shape":
            body = rng.choice(['{"x": 1}', "[1]", "[{}]", "null", '"x"', '{"firmwares": [{}]}', '{"versions": [{}]}'])
        elif self.fault == "schema":
            idx = self.index()
            rows = idx if isinstance(idx, list) else next(iter(idx.values()), [])
            if rows and isinstance(rows[-1], dict):
                key = rng.choice(sorted(rows[-1]))
                rows[-1] = {**rows[-1], key: {"not": "valid"}}
                body = json.dumps(idx)
            else:
                self.fault, body = "not json", "{"
        self.ok = self.fault is None
        if self.kind == "inovelli" and self.fault == "shape":
            body = '{"VZM": [1]}'
        if self.kind == "advanced":
            self.fault, self.ok = None, True
            (self.dir / f"garbage{rng.randrange(99)}.bin").write_bytes(rng.randbytes(rng.randint(0, 80)))
            with contextlib.suppress(FileExistsError):
                (self.dir / f"dangling{rng.randrange(9)}").symlink_to(self.dir / "nowhere")
            self.count += 1
            bad = self.dir / f"bad{self.count}.ota"
            bad.write_bytes(b"unreadable")
            if rng.random() < 0.4:
                self.w.unreadable.add(str(bad))
        elif self.local:
            f = self.dir / "index.json"
            if self.fault in ("missing", "error", "status", "hang"):
                f.unlink(missing_ok=True)
            else:
                f.write_text(body)
        else:
            how = {"error": "error", "status": "status", "hang": "hang", "missing": "status"}.get(self.fault) or ("slow" if rng.random() < 0.2 else "ok")
            strict = self.kind in ("ledvance", "salus", "sonoff", "inovelli", "thirdreality")
            mime = "application/json" if strict or rng.random() < 0.5 else "text/plain"
            self.w.server.pages[self.url] = lambda: (how, body.encode(), mime)


class Dev:
    pass


class World:
    def __init__(self, ctx, rng, tmp):
        self.ctx, self.rng, self.dir = ctx, rng, pathlib.Path(tmp)
        self.server = Server.current = Server(rng)
        self.files, self.by_loc, self.unreadable = {}, {}, set()
        self.trouble = rng.choice([0, 0.1, 0.3])
        self.flaky = rng.choice([0, 0.05, 0.3])
        self.cached = {}  # loc -> (firmware, header) certainly known to zigpy
        self.unsure = set()
        self.read, self.maybe_read = set(), set()  # local images that were (or may have been) read
        self.plain_url = {
            "ikea": "https://fw.ota.homesmart.ikea.com/DIRIGERA/version_info.json", "ledvance": "https://api.update.ledvance.com/v1/zigbee/firmwares",
            "salus": "https://eu.salusconnect.io/demo/default/status/firmware", "sonoff": "https://zigbee-ota.sonoff.tech/releases/upgrade.json",
            "inovelli": "https://files.inovelli.com/firmware/firmware-zha-v2.json", "thirdreality": "https://tr-zha.s3.amazonaws.com/firmware.json",
            "z2m": "https://raw.githubusercontent.com/Koenkk/zigbee-OTA/master/index.json",
        }  # fmt: skip
        self.devices, self.sources = [], []
        self.known = set()  # locs

    def download(self, e):
        rng = self.rng
        if rng.random() >= self.flaky:
            return ("slow" if rng.random() < 0.1 else "ok"), e.data, "application/octet-stream"
        how = rng.choice(["error", "status", "hang", "truncated", "flipped", "extended", "other"])
        body = e.data
        if how == "truncated":
            body = body[: rng.randrange(len(body) or 1)]
        elif how == "flipped" and body:
            at = rng.randrange(len(body))
            body = body[:at] + bytes([body[at] ^ (1 << rng.randrange(8))]) + body[at + 1 :]
        elif how == "extended":
            body += rng.randbytes(rng.randint(1, 9))
        elif how == "other":
            body = plain(rng, small=True)
        return how, body, "application/octet-stream"

    def start(self):
        rng = self.rng
        kinds = ["ikea", "ledvance", "salus", "sonoff", "inovelli", "thirdreality", "zigpy_remote", "zigpy_local", "z2m", "z2m_local", "advanced"]
        for manuf, model, maker in rng.sample(DEVICES, rng.randint(2, 4)):
            d = Dev()
            d.manuf, d.model, d.maker, d.itype, d.version, d.hw = manuf, model, maker, rng.choice([1, 2, 8706, 0] if manuf != 4476 else [1, 8706, 8704, 8710]), rng.choice([0, 1, 5, 10, 20, 0xFFFFFFFE]), rng.choice([None, 0, 3, 5, 9])
            self.devices.append(d)
        makers = {"ikea": 4476, "ledvance": 4489, "salus": 4216, "sonoff": 4742, "inovelli": 4655, "thirdreality": 4659}
        mine = [k for k, v in makers.items() if v in [d.manuf for d in self.devices]]
        chosen = mine + rng.choices(kinds, k=rng.randint(2, 5))
        rng.shuffle(chosen)
        self.sources = [Source(self, n, k) for n, k in enumerate(chosen)]
        cfg = {conf.CONF_OTA_ENABLED: True, conf.CONF_OTA_PROVIDERS: [s.config() for s in self.sources]}
        self.app = sim.make_app(**{conf.CONF_OTA: cfg})
        for n, d in enumerate(self.devices):
            d.dev = sim.add_ready_device(self.app, sim.eui(0x1000 + n), 0x100 + n)
            d.dev.node_desc = sim.node_desc(1, manuf=d.manuf)
            d.dev.manufacturer, d.dev.model = d.maker, d.model
            d.results = []
            d.dev.add_listener(d)
            d.device_ota_image_query_result = lambda res, cmd, d=d: d.results.append((res, cmd))

    # -- queries
    async def query(self, d):
        rng = self.rng
        q = {"manufacturer": d.manuf, "image_type": d.itype, "hardware": d.hw, "current": d.version}
        if rng.random() < 0.3:
            q["current"] = rng.choice([0, rng.randint(0, 25), 0xFFFFFFFF])
        if rng.random() < 0.1:
            q["manufacturer"] = rng.choice([0, rng.choice(DEVICES)[0]])
        if rng.random() < 0.1:
            q["image_type"] = rng.choice([1, 2, 8704, 8706, 8710])
        if rng.random() < 0.15:
            q["hardware"] = rng.choice([None, 0, 4, 7, 0xFFFF])
        has_hw = q["hardware"] is not None
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        if not getattr(d, "busy", False) and rng.random() < 0.35:
            d.busy = True
            d.tsn = tsn = (getattr(d, "tsn", 0) + 1) % 256
            before, sent = len(d.results), len(self.app.sent)
            payload = otaref.u(1, has_hw) + otaref.u(2, q["manufacturer"]) + otaref.u(2, q["image_type"]) + otaref.u(4, q["current"]) + (otaref.u(2, q["hardware"]) if has_hw else b"")
            self.app.packet_received(sim.rx(d.dev, 0x0019, sim.zcl_hdr(tsn, 0x01, cluster=True) + payload))
            while len(d.results) == before and loop.time() < t0 + 60 * (len(self.sources) + 2):
                await asyncio.sleep(0.25)
            replies = [h for _, p in self.app.sent[sent:] if p.dst.address == d.dev.nwk for h in [sim.parse_zcl(p.data.serialize())] if p.cluster_id == 0x19 and h["cluster"]]
            if [(h["cmd"], h["tsn"], h["payload"]) for h in replies] != [(2, tsn, b"\x98")]:
                raise Violation("reply", f"a query with sequence number {tsn} was answered with {replies}")
            if len(d.results) == before:
                raise Violation("stuck", f"a query was not decided within {loop.time() - t0:.0f} s, with {len(self.sources)} sources", witness=self.story())
            res, cmd = d.results[-1]
            seen = (int(cmd.manufacturer_code), int(cmd.image_type), int(cmd.current_file_version), None if cmd.hardware_version is None else int(cmd.hardware_version))
            if len(d.results) != before + 1 or seen != (q["manufacturer"], q["image_type"], q["current"], q["hardware"]):
                raise Violation("event", f"the query {q} was announced {len(d.results) - before} times, as {cmd}")
            d.busy = False
            self.ctx.count("queries over the air")
        else:
            schema = Ota.ServerCommandDefs.query_next_image.schema
            kw = {"hardware_version": t.uint16_t(q["hardware"])} if has_hw else {}
            cmd = schema(field_control=int(has_hw), manufacturer_code=q["manufacturer"], image_type=q["image_type"], current_file_version=q["current"], **kw)
            try:
                async with asyncio.timeout(60 * (len(self.sources) + 2)):
                    res = await self.app.ota.get_ota_images(d.dev, cmd)
            except TimeoutError:
                raise Violation("stuck", f"a query was not decided within {loop.time() - t0:.0f} s, with {len(self.sources)} sources", witness=self.story()) from None
            except Exception as e:
                raise Violation("failed", f"a query failed: {e!r}", witness=self.story()) from e
        self.ctx.count("queries")
        return d, q, res

    def story(self):
        return {
            "sources": [{"kind": s.kind, "num": s.num, "for": s.accepts, "fault": s.fault, "entries": [{**e.meta, "loc": e.loc.rsplit("/", 1)[-1]} for e in s.entries]} for s in self.sources],
            "transfers": [{**r, "body": None if r["body"] is None else len(r["body"])} for r in self.server.log[-40:]],
        }

    async def burst(self, today):
        """One or several queries at once, judged together."""
        rng, ctx = self.rng, self.ctx
        mark = len(self.server.log)
        who = [rng.choice(self.devices) for _ in range(1 if rng.random() < 0.7 else rng.randint(2, 4))]

        async def later(d):
            await asyncio.sleep(rng.choice([0, 0, 0, 0.1, 2, 10]) if len(who) > 1 else 0)
            return await self.query(d)

        results = await asyncio.gather(*(later(d) for d in who))
        log = self.server.log[mark:]
        # what is known about the indices
        before = set(self.known)
        fetched = {r["url"]: r for r in log if r["body"] is not None}
        for s in self.sources:
            asked = any(not s.accepts or d.manuf in s.accepts for d in who)
            if asked:
                tried = any(r["url"] == s.url for r in log)
                if not s.local and not tried and s not in today:
                    raise Violation("stale", f"source {s.num} ({s.kind}) was not asked for its index although the last time was over a day ago", witness=self.story())
                today.add(s)
            if s.ok and ((s.local and s in today) or (not s.local and s.url in fetched)):
                self.known |= {e.loc for e in s.entries}
        for d, q, res in results:
            surely = before | {e.loc for s in self.sources for e in s.entries if e.loc in self.known and (not s.accepts or d.manuf in s.accepts)}
            self.judge(d, q, res, surely, log, len(who) > 1)
        for loc in list(self.known):
            good, bad = self.attempts(loc, log)
            if loc not in self.cached and good and (not self.by_loc[loc].local or loc in self.read):
                if len(set(good)) > 1:
                    self.unsure.add(loc)
                self.cached[loc] = good[0]

    def attempts(self, loc, log):
        e = self.by_loc[loc]
        if e.local:
            p = pathlib.Path(loc)
            v = e.verify(p.read_bytes() if p.is_file() else None)
            return ([v], []) if v else ([], [None])
        got = [e.verify(r["body"]) for r in log if r["url"] == loc]
        return [g for g in got if g], [g for g in got if not g]

    def headers(self, loc, many, fw):
        """What zigpy may know of the header of a file before it downloads it."""
        e = self.by_loc[loc]
        every = [None] + [v[1] for v in fw[loc] if v]
        if e.local:
            return every if loc in self.maybe_read or many else every[1:] if loc in self.read and every[1:] else [None]
        if many or loc in self.unsure:
            return every
        return [self.cached[loc][1]] if loc in self.cached else [None]

    def judge(self, d, q, res, surely, log, many):
        ctx = self.ctx
        who = (d.maker, d.model)

        def bad(key, msg):
            raise Violation(key, f"query {q} of {who}: {msg}", witness={"burst": many, **self.story(), "upgrades": [str(i.metadata) for i in res.upgrades], "downgrades": [str(i.metadata) for i in res.downgrades]})

        def entry(img):
            m = img.metadata
            loc = str(getattr(m, "url", None) or getattr(m, "path", None))
            e = self.by_loc.get(loc)
            if e is None or loc not in self.known:
                bad("unlisted", f"offers an image that no source lists: {m}")
            got = meta(m.file_version, m.manufacturer_id, m.image_type, m.model_names, m.manufacturer_names, m.min_hardware_version, m.max_hardware_version, m.min_current_file_version, m.max_current_file_version, m.specificity)
            if got != e.meta:
                bad("metadata", f"the source lists {e.meta}, the image carries {got}")
            return e

        # everything offered is admissible and verified
        fw = {}
        exact = True
        for loc in self.known:
            e = self.by_loc[loc]
            if loc in self.cached and loc not in self.unsure:
                fw[loc] = {self.cached[loc]}
            else:
                good, failed = self.attempts(loc, log)
                fw[loc] = set(good) | ({None} if failed else set()) | ({self.cached[loc]} if loc in self.unsure else set())
        offered = {}
        for img in res.upgrades:
            e = entry(img)
            if e.loc in offered:
                bad("twice", f"offers {e.loc} twice")
            if img.firmware is None:
                bad("no firmware", f"offers {e.loc} without its firmware")
            data = bytes(img.firmware.serialize())
            match = [v for v in fw[e.loc] if v is not None and v[0] == data]
            if not match:
                bad("unverified", f"offers {e.loc} ({e.kind}) with firmware that no verified file contains (verified: {len(fw[e.loc] - {None})}, entry {e.meta}, size {e.size})")
            if not otaref.newer(e.meta, q["current"]):
                bad("not newer", f"offers {e.loc} of version {e.meta} as an upgrade")
            if not otaref.admits(e.meta, match[0][1], who, q):
                bad("inadmissible", f"offers {e.loc} as an upgrade, entry {e.meta}, header of the firmware {match[0][1]}")
            offered[e.loc] = (e.meta["version"], e.specificity(match[0][1]))
        order = list(offered.values())
        if order != sorted(order, reverse=True):
            bad("order", f"upgrades are not offered by version and specificity: {order}")
        downs = []
        for img in res.downgrades:
            e = entry(img)
            if not any(otaref.admits(e.meta, h, who, q) for h in self.headers(e.loc, many, fw)):
                bad("inadmissible", f"lists {e.loc} as a downgrade, entry {e.meta}")
            if otaref.newer(e.meta, q["current"]):
                bad("newer", f"lists {e.loc} of version {e.meta} as a downgrade")
            downs.append(e.loc)
        # everything admissible is offered
        unsure = False
        want, groups = {}, {}
        reasons = set()
        for loc in sorted(self.known):
            e = self.by_loc[loc]
            ok = [otaref.admits(e.meta, h, who, q) for h in self.headers(loc, many, fw)]
            if not any(ok):
                reasons.add("constraints")
                continue
            if not otaref.newer(e.meta, q["current"]):
                if loc in surely and all(ok) and loc not in downs:
                    bad("missing downgrade", f"does not list {loc}, entry {e.meta}")
                continue
            if loc not in surely or len(fw[loc]) > 1:
                unsure = True
                continue
            if e.local and not many:
                self.read.add(loc)
            elif e.local:
                self.maybe_read.add(loc)
            if not fw[loc]:
                bad("not fetched", f"did not download {loc}, entry {e.meta}")
            (v,) = fw[loc]
            if v is None:
                reasons.add("download")
                ctx.count("images refused after a bad download")
                continue
            if not otaref.admits(e.meta, v[1], who, q):
                reasons.add("firmware header")
                ctx.count("images refused for their header")
                continue
            key = (e.meta["version"], e.specificity(v[1]))
            want[loc] = key
            groups.setdefault(key, {}).setdefault(v[0], []).append(loc)
        if not unsure:
            for key, contents in groups.items():
                if len(contents) > 1:
                    reasons.add("collision")
                    for locs in contents.values():
                        for loc in locs:
                            del want[loc]
                            ctx.count("images refused for a collision")
            if want != offered:
                bad("selection", f"offers {offered} instead of {want}")
            ctx.count("exact answers")
        else:
            exact = False
            ctx.count("answers with uncertain downloads")
        ctx.count("images offered", len(offered))
        ctx.count("downgrades listed", len(downs))
        for loc in offered:
            ctx.count(f"offered from {self.by_loc[loc].kind}" + (" (file)" if self.by_loc[loc].local else ""))
        if len(offered) > 1:
            ctx.count("answers with several upgrades")
        kinds = tuple(sorted({self.by_loc[x].kind for x in offered}))
        ctx.evaluated((min(len(offered), 4), min(len(downs), 4), kinds, tuple(sorted(reasons)), exact), bool(offered or reasons))


def scenario(ctx, n):
    rng = ctx.rng("world", n)
    tmp = tempfile.mkdtemp(prefix="o03-")
    real_open = pathlib.Path.open

    async def main():
        w = World(ctx, rng, tmp)

        def opener(self, *a, **k):
            if str(self) in w.unreadable:
                ctx.count("unreadable files")
                raise OSError(5, "Input/output error", str(self))
            return real_open(self, *a, **k)

        pathlib.Path.open = opener
        w.start()
        for _ in range(rng.randint(1, 4)):
            for s in w.sources:
                s.publish()
                ctx.count("index faults", s.fault is not None)
            today = set()
            for _ in range(rng.randint(1, 6)):
                await w.burst(today)
                await asyncio.sleep(rng.choice([0, 0, 1, 600]))
                if rng.random() < 0.1:  # a file is swapped behind the back of the index
                    files = [e for s in w.sources if s in today for e in s.entries if e.local and e.loc not in w.read | w.maybe_read and s.kind == "advanced"]
                    if files:
                        e = rng.choice(files)
                        data = bytearray(e.data)
                        data[-1] ^= 1
                        pathlib.Path(e.loc).write_bytes(data)
                        ctx.count("files swapped")
            # the swapped files become new ones only with the next index, keep the old ones out of it
            for s in w.sources:
                for e in s.entries:
                    if e.local:
                        pathlib.Path(e.loc).write_bytes(e.data)
            await asyncio.sleep(DAY + rng.choice([0.5, 3600]))
        ctx.count("downloads and indices", len(w.server.log))
        for r in w.server.log:
            if r["how"] not in ("ok", None):
                ctx.count(f"transfer: {r['how']}")
        return w

    try:
        w, _ = vloop.run(main(), max_steps=3_000_000)
        ctx.sample({"sources": [s.kind for s in w.sources], "devices": [(d.manuf, d.model, d.itype, d.version, d.hw) for d in w.devices], "images": len(w.by_loc), "cached": len(w.cached)})
    finally:
        pathlib.Path.open = real_open
        shutil.rmtree(tmp)


def run(ctx):
    aiohttp.ClientSession = FakeSession
    logging.getLogger("zigpy").setLevel(logging.CRITICAL)
    for n in range(ctx.n(400, 12000)):
        ctx.case(f"world:{n}", scenario, ctx, n)
    for name, m in [
        ("exact answers", 1500), ("images offered", 1800), ("downgrades listed", 2000), ("queries over the air", 500), ("answers with several upgrades", 400), ("images refused after a bad download", 400),
        ("images refused for a collision", 80), ("images refused for their header", 300), ("index faults", 150), ("unreadable files", 60),
        *((f"offered from {k}", 25) for k in ("ikea", "ikea-signed", "inovelli", "ledvance", "salus", "sonoff", "thirdreality", "z2m", "zigpy_remote", "advanced (file)", "z2m_local (file)", "zigpy_local (file)")),
    ]:  # fmt: skip
        ctx.require(name, m)
