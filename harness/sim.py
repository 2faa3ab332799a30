"""A recording radio stand-in and simulated Zigbee nodes."""

from __future__ import annotations

import asyncio
import random

import zigpy.application
import zigpy.config as conf
import zigpy.exceptions
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdo_t
from zigpy.zcl import foundation

NCP_IEEE = t.EUI64.convert("00:12:4b:00:aa:bb:cc:dd")


def eui(n: int) -> t.EUI64:
    return t.EUI64([t.uint8_t(b) for b in n.to_bytes(8, "little")])


class Fault(Exception):
    pass


class SimApp(zigpy.application.ControllerApplication):
    """Records every radio call; answers through `self.net` when present."""

    def __init__(self, config):
        super().__init__(config)
        self.calls: list[tuple] = []
        self.sent: list[tuple[float, t.ZigbeePacket]] = []
        self.on_send = None  # async (packet) -> None
        self.faults: dict[str, list] = {}  # method name -> list of exceptions/None
        self.fault_hook = None
        self.radio_network = None  # what the radio has stored
        self.radio_node = None
        self.formed = True
        self.add_coordinator = True

    async def _radio(self, name, *args, **kw):
        self.calls.append((asyncio.get_running_loop().time(), name, args, kw))
        q = self.faults.get(name)
        if q:
            exc = q.pop(0)
            if exc is not None:
                raise exc
        if self.fault_hook is not None:
            await self.fault_hook(name)

    async def connect(self):
        await self._radio("connect")

    async def disconnect(self):
        await self._radio("disconnect")

    async def start_network(self):
        await self._radio("start_network")
        if not self.formed:
            raise zigpy.exceptions.NetworkNotFormed()
        if self.add_coordinator:
            add_coordinator(self)

    async def force_remove(self, dev):
        await self._radio("force_remove", dev.ieee)

    async def add_endpoint(self, descriptor):
        await self._radio("add_endpoint", descriptor)

    async def permit_ncp(self, time_s=60):
        await self._radio("permit_ncp", time_s)

    async def permit_with_link_key(self, node, link_key, time_s=60):
        await self._radio("permit_with_link_key", node, link_key, time_s)

    async def reset_network_info(self):
        await self._radio("reset_network_info")
        self.formed = False

    async def write_network_info(self, *, network_info, node_info):
        await self._radio(
            "write_network_info", network_info=network_info, node_info=node_info
        )
        self.radio_network = network_info
        if node_info.ieee == t.EUI64.UNKNOWN:
            node_info = node_info.replace(ieee=NCP_IEEE)
        self.radio_node = node_info
        self.formed = True

    async def load_network_info(self, *, load_devices=False):
        await self._radio("load_network_info", load_devices)
        if not self.formed:
            raise zigpy.exceptions.NetworkNotFormed()
        if self.radio_network is not None:
            self.state.network_info = self.radio_network
            self.state.node_info = self.radio_node

    async def _watchdog_feed(self):
        await self._radio("watchdog_feed")

    async def send_packet(self, packet):
        self.sent.append((asyncio.get_running_loop().time(), packet))
        if self.on_send is not None:
            await self.on_send(packet)


def add_coordinator(app):
    dev = app.add_device(
        nwk=app.state.node_info.nwk, ieee=app.state.node_info.ieee
    )
    dev.node_desc = coordinator_desc()
    ep = dev.add_endpoint(1)
    ep.profile_id = 0x0104
    ep.device_type = 0x0005
    ep.status = 1
    dev.model = "Sim Coordinator"
    dev.manufacturer = "Sim"
    dev.status = 2
    return dev


def coordinator_desc():
    return node_desc(zdo_t.LogicalType.Coordinator, 0x8E, 0x1234)


def node_desc(logical, caps=0x8E, manuf=0x1234):
    return zdo_t.NodeDescriptor(
        logical_type=logical,
        complex_descriptor_available=0,
        user_descriptor_available=0,
        reserved=0,
        aps_flags=0,
        frequency_band=zdo_t.NodeDescriptor.FrequencyBand.Freq2400MHz,
        mac_capability_flags=caps,
        manufacturer_code=manuf,
        maximum_buffer_size=82,
        maximum_incoming_transfer_size=82,
        server_mask=0,
        maximum_outgoing_transfer_size=82,
        descriptor_capability_field=0,
    )


def make_config(**over):
    cfg = {
        conf.CONF_DATABASE: None,
        conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"},
        conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False},
        conf.CONF_STARTUP_ENERGY_SCAN: False,
        conf.CONF_WATCHDOG_ENABLED: False,
        conf.CONF_NWK_BACKUP_ENABLED: False,
        conf.CONF_TOPO_SCAN_ENABLED: False,
    }
    cfg.update(over)
    return cfg


def make_app(cls=SimApp, coordinator=True, **over):
    app = cls(make_config(**over))
    setup_state(app)
    if coordinator:
        add_coordinator(app)
    return app


def setup_state(app):
    app.state.node_info = zigpy.state.NodeInfo(
        nwk=t.NWK(0x0000), ieee=NCP_IEEE, logical_type=zdo_t.LogicalType.Coordinator
    )
    app.state.network_info = zigpy.state.NetworkInfo(
        extended_pan_id=t.ExtendedPanId(NCP_IEEE),
        pan_id=t.PanId(0x1A2B),
        nwk_update_id=0,
        nwk_manager_id=t.NWK(0),
        channel=15,
        channel_mask=t.Channels.from_channel_list([15]),
        security_level=5,
        network_key=zigpy.state.Key(
            key=t.KeyData(bytes(range(16))), tx_counter=100, rx_counter=0, seq=0
        ),
        tc_link_key=zigpy.state.Key(
            key=t.KeyData(b"ZigBeeAlliance09"), partner_ieee=NCP_IEEE
        ),
    )
    app.radio_network = app.state.network_info
    app.radio_node = app.state.node_info


def add_ready_device(app, ieee, nwk, endpoints=None, logical=None, caps=0x8E):
    """A fully interviewed device added directly to the table.

    endpoints: {ep_id: (profile, device_type, [in], [out])}
    """
    dev = app.add_device(ieee, t.NWK(nwk))
    dev.node_desc = node_desc(
        zdo_t.LogicalType.Router if logical is None else logical, caps
    )
    for epid, (prof, dt, ins, outs) in (
        endpoints or {1: (0x0104, 0x0100, [0, 3, 4, 6, 8], [0x19, 0x0A])}
    ).items():
        ep = dev.add_endpoint(epid)
        ep.profile_id = prof
        ep.device_type = dt
        ep.status = 1
        for c in ins:
            ep.add_input_cluster(c)
        for c in outs:
            ep.add_output_cluster(c)
    dev.status = 2
    dev.manufacturer = "SimCo"
    dev.model = "Sim-1"
    return dev


def rx(
    dev_or_nwk,
    cluster,
    data,
    *,
    profile=0x0104,
    src_ep=1,
    dst_ep=1,
    tsn=None,
    lqi=200,
    rssi=-50,
    dst=None,
    src_mode=None,
    **kw,
):
    """Build a received packet."""
    nwk = dev_or_nwk if isinstance(dev_or_nwk, int) else dev_or_nwk.nwk
    if src_mode == "ieee":
        src = t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=dev_or_nwk.ieee)
    else:
        src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(nwk))
    return t.ZigbeePacket(
        src=src,
        src_ep=src_ep,
        dst=dst
        or t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0x0000)),
        dst_ep=dst_ep,
        tsn=tsn,
        profile_id=profile,
        cluster_id=cluster,
        data=t.SerializableBytes(data),
        lqi=lqi,
        rssi=rssi,
        **kw,
    )


# --- independent minimal ZCL/ZDO codec (no zigpy code) ----------------------------
def zcl_hdr(
    tsn, cmd, *, cluster=False, manuf=None, s2c=False, disable_default=True
) -> bytes:
    fc = (1 if cluster else 0) | (4 if manuf is not None else 0)
    fc |= (8 if s2c else 0) | (0x10 if disable_default else 0)
    out = bytes([fc])
    if manuf is not None:
        out += manuf.to_bytes(2, "little")
    return out + bytes([tsn & 0xFF, cmd & 0xFF])


def parse_zcl(data: bytes) -> dict:
    fc = data[0]
    d = {
        "type": fc & 3,
        "cluster": (fc & 3) == 1,
        "manuf_specific": bool(fc & 4),
        "s2c": bool(fc & 8),
        "disable_default": bool(fc & 0x10),
        "reserved": fc >> 5,
    }
    pos = 1
    if d["manuf_specific"]:
        d["manuf"] = int.from_bytes(data[1:3], "little")
        pos = 3
    else:
        d["manuf"] = None
    d["tsn"] = data[pos]
    d["cmd"] = data[pos + 1]
    d["payload"] = bytes(data[pos + 2 :])
    return d


def u16(x):
    return int(x).to_bytes(2, "little")


def u32(x):
    return int(x).to_bytes(4, "little")


class SimNode:
    """A simulated device answering ZDO and ZCL requests on its own wire codec."""

    def __init__(
        self,
        ieee,
        nwk,
        *,
        logical=1,
        caps=0x8E,
        manuf_code=0x1234,
        endpoints=None,
        model="Sim-1",
        manufacturer="SimCo",
    ):
        self.ieee = ieee
        self.nwk = nwk
        self.logical = logical
        self.caps = caps
        self.manuf_code = manuf_code
        # {ep: (profile, devtype, [in], [out])}
        self.endpoints = endpoints or {
            1: (0x0104, 0x0100, [0, 3, 4, 6, 8], [0x19, 0x0A])
        }
        self.inactive_eps: set[int] = set()
        # {(ep, cluster): {attrid: (type_id, raw_value_bytes)}}
        self.attrs: dict = {}
        if model is not None:
            for ep, (_, _, ins, _) in self.endpoints.items():
                if 0 in ins:
                    self.attrs[(ep, 0)] = {
                        4: (0x42, lvstr(manufacturer)),
                        5: (0x42, lvstr(model)),
                    }
        self.model, self.manufacturer = model, manufacturer
        self.neighbors: list[bytes] = []
        self.routes: list[bytes] = []
        self.groups: dict[int, set] = {}
        self.page = 3
        self.log: list = []
        self.zdo_override: dict = {}  # cluster -> callable(payload)->bytes|None|...

    # returns list of (cluster, profile, src_ep, dst_ep, data)
    def handle(self, pkt):
        data = pkt.data.serialize()
        if pkt.dst_ep == 0:
            r = self.handle_zdo(pkt.cluster_id, data)
            return [] if r is None else [(r[0], 0, 0, 0, r[1])]
        return self.handle_zcl(pkt, data)

    def node_desc_bytes(self):
        b = bytearray(13)
        b[0] = self.logical & 7
        b[1] = (8 << 3) & 0xFF  # 2.4 GHz
        b[2] = self.caps
        b[3:5] = u16(self.manuf_code)
        b[5] = 82
        b[6:8] = u16(82)
        b[8:10] = u16(0)
        b[10:12] = u16(82)
        b[12] = 0
        return bytes(b)

    def handle_zdo(self, cluster, data):
        tsn, p = data[0], data[1:]
        self.log.append(("zdo", int(cluster), p))
        if cluster in self.zdo_override:
            r = self.zdo_override[cluster](p)
            if r is None or isinstance(r, bytes):
                return None if r is None else (cluster | 0x8000, bytes([tsn]) + r)
        me = u16(self.nwk)
        if cluster == 0x0002:
            out = b"\x00" + me + self.node_desc_bytes()
        elif cluster == 0x0005:
            eps = list(self.endpoints) + sorted(self.inactive_eps)
            out = b"\x00" + me + bytes([len(eps)]) + bytes(eps)
        elif cluster == 0x0004:
            ep = p[2]
            if ep in self.inactive_eps:
                out = b"\x83" + me + b"\x00"
            elif ep not in self.endpoints:
                out = b"\x82" + me + b"\x00"
            else:
                prof, dt, ins, outs = self.endpoints[ep]
                sd = (
                    bytes([ep])
                    + u16(prof)
                    + u16(dt)
                    + b"\x01"
                    + bytes([len(ins)])
                    + b"".join(map(u16, ins))
                    + bytes([len(outs)])
                    + b"".join(map(u16, outs))
                )
                out = b"\x00" + me + bytes([len(sd)]) + sd
        elif cluster in (0x0000, 0x0001):
            out = b"\x00" + self.ieee.serialize() + me
        elif cluster in (0x0021, 0x0022, 0x0034, 0x0036):
            out = b"\x00"
        elif cluster == 0x0031:
            out = self.table(p[0], self.neighbors)
        elif cluster == 0x0032:
            out = self.table(p[0], self.routes)
        else:
            out = b"\x84"
        return (cluster | 0x8000, bytes([tsn]) + out)

    def table(self, start, entries):
        chunk = entries[start : start + self.page]
        return (
            b"\x00"
            + bytes([len(entries), start, len(chunk)])
            + b"".join(chunk)
        )

    def handle_zcl(self, pkt, data):
        h = parse_zcl(data)
        self.log.append(("zcl", pkt.dst_ep, int(pkt.cluster_id), h))
        key = (pkt.dst_ep, int(pkt.cluster_id))
        out = None
        if h["cluster"]:
            out = self.cluster_command(key, h)
        elif h["cmd"] == 0x00:  # read attributes
            ids = [
                int.from_bytes(h["payload"][i : i + 2], "little")
                for i in range(0, len(h["payload"]) - 1, 2)
            ]
            body = b""
            for a in ids:
                rec = self.attrs.get(key, {}).get(a)
                if rec is None:
                    body += u16(a) + b"\x86"
                else:
                    body += u16(a) + b"\x00" + bytes([rec[0]]) + rec[1]
            out = self.reply(h, 0x01, body, cluster=False)
        elif h["cmd"] in (0x02, 0x03):
            out = self.reply(h, 0x04, b"\x00", cluster=False)
        elif h["cmd"] == 0x06:
            out = self.reply(h, 0x07, b"\x00", cluster=False)
        if out is None:
            return []
        return [(pkt.cluster_id, pkt.profile_id, pkt.dst_ep, pkt.src_ep, out)]

    def reply(self, h, cmd, body, *, cluster):
        return (
            zcl_hdr(h["tsn"], cmd, cluster=cluster, manuf=h["manuf"], s2c=not h["s2c"])
            + body
        )

    def default_rsp(self, h, status):
        return self.reply(h, 0x0B, bytes([h["cmd"], status]), cluster=False)

    def cluster_command(self, key, h):
        if key[1] == 4:  # Groups
            g = self.groups.setdefault(key[0], set())
            p = h["payload"]
            if h["cmd"] == 0x00:
                gid = int.from_bytes(p[:2], "little")
                st = 0x8A if gid in g else 0
                g.add(gid)
                return self.reply(h, 0x00, bytes([st]) + p[:2], cluster=True)
            if h["cmd"] == 0x03:
                gid = int.from_bytes(p[:2], "little")
                st = 0 if gid in g else 0x8B
                g.discard(gid)
                return self.reply(h, 0x03, bytes([st]) + p[:2], cluster=True)
            if h["cmd"] == 0x02:
                gs = sorted(g)
                return self.reply(
                    h,
                    0x02,
                    bytes([16 - min(16, len(gs)), len(gs)]) + b"".join(map(u16, gs)),
                    cluster=True,
                )
        return self.default_rsp(h, 0)


def lvstr(s: str) -> bytes:
    b = s.encode()
    return bytes([len(b)]) + b


class SimNet:
    """Connects SimNodes to a SimApp with latency, loss and duplication."""

    def __init__(self, app: SimApp, rng: random.Random):
        self.app = app
        self.rng = rng
        self.nodes: dict[int, SimNode] = {}
        self.latency = lambda: 0.01
        self.tx_latency = lambda: 0.0
        self.loss = 0.0  # replies
        self.tx_fail = 0.0
        self.dup = 0.0
        self.fate = None  # optional callable(pkt, node) -> "ok"|"lost"|"fail"|"noreply"|...
        self.tasks = set()
        self.delivered = 0
        app.on_send = self.on_send

    def add(self, node):
        self.nodes[int(node.nwk)] = node
        return node

    def node_for(self, pkt):
        if pkt.dst.addr_mode == t.AddrMode.NWK:
            return self.nodes.get(int(pkt.dst.address))
        if pkt.dst.addr_mode == t.AddrMode.IEEE:
            for n in self.nodes.values():
                if n.ieee == pkt.dst.address:
                    return n
        return None

    async def on_send(self, pkt):
        d = self.tx_latency()
        if d:
            await asyncio.sleep(d)
        node = self.node_for(pkt)
        fate = self.fate(pkt, node) if self.fate else None
        if fate is None:
            if self.rng.random() < self.tx_fail:
                fate = "fail"
            elif self.rng.random() < self.loss:
                fate = "lost"
            else:
                fate = "ok"
        if fate == "fail":
            raise zigpy.exceptions.DeliveryError("simulated delivery failure")
        if fate == "lost" or node is None:
            return
        replies = node.handle(pkt)
        if fate == "noreply":
            return
        for cluster, profile, src_ep, dst_ep, data in replies:
            n = 2 if self.rng.random() < self.dup else 1
            for _ in range(n):
                asyncio.get_running_loop().call_later(
                    self.latency(),
                    self.deliver,
                    node,
                    cluster,
                    profile,
                    src_ep,
                    dst_ep,
                    data,
                )

    def deliver(self, node, cluster, profile, src_ep, dst_ep, data):
        self.delivered += 1
        self.app.packet_received(
            rx(
                node.nwk,
                cluster,
                data,
                profile=profile,
                src_ep=src_ep,
                dst_ep=dst_ep,
                tsn=data[0] if dst_ep == 0 else parse_zcl(data)["tsn"],
            )
        )
