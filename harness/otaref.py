"""Firmware images and their admission, written down independently of zigpy."""

from __future__ import annotations

MAGIC = 0x0BEEF11E


def u(n, v):
    return int(v).to_bytes(n, "little")


def header(manuf, image_type, version, size, *, hv=0x0100, stack=2, text=b"sim", sec=None, dest=None, hw=None, hlen=None, magic=MAGIC, fc_extra=0):
    """sec: security credential version, dest: 8 bytes, hw: (min, max)"""
    fc = (1 if sec is not None else 0) | (2 if dest is not None else 0) | (4 if hw is not None else 0) | fc_extra
    tail = (u(1, sec) if sec is not None else b"") + (dest or b"") + (u(2, hw[0]) + u(2, hw[1]) if hw is not None else b"")
    length = 56 + len(tail)
    return (
        u(4, magic) + u(2, hv) + u(2, length if hlen is None else hlen) + u(2, fc) + u(2, manuf) + u(2, image_type) + u(4, version) + u(2, stack) + text.ljust(32, b"\0")[:32] + u(4, size) + tail
    )  # fmt: skip


def image(manuf, image_type, version, elements, **kw):
    """elements: [(tag, bytes)]"""
    body = b"".join(u(2, tag) + u(4, len(d)) + d for tag, d in elements)
    n = len(header(manuf, image_type, version, 0, **kw))
    return header(manuf, image_type, version, n + len(body), **kw) + body


KEYS = ("manufacturer", "image_type", "hw_min", "hw_max")


def effective(meta, file):
    """Constraints an index entry leaves open are those of the file, once it is known (a dict of KEYS)."""
    return meta if file is None else {**meta, **{k: file[k] for k in KEYS if meta.get(k) is None}}


def admits(meta, file, device, query):
    """device: (manufacturer, model); query: dict manufacturer, image_type, hardware (or None)"""
    meta = effective(meta, file)
    for k in ("manufacturer", "image_type"):
        if meta.get(k) is not None and meta[k] != query[k]:
            return False
    if meta.get("models") and device[1] not in meta["models"]:
        return False
    if meta.get("manufacturers") and device[0] not in meta["manufacturers"]:
        return False
    for bound, bad in ((meta.get("hw_min"), lambda h: h < bound), (meta.get("hw_max"), lambda h: h > bound)):
        if bound is not None and (query["hardware"] is None or bad(query["hardware"])):
            return False
    return True


def newer(meta, current):
    if meta["version"] <= current:
        return False
    if meta.get("cur_min") is not None and current < meta["cur_min"]:
        return False
    return not (meta.get("cur_max") is not None and current > meta["cur_max"])
