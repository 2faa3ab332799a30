"""N05: connections to the radio are opened as configured."""

from __future__ import annotations

import asyncio
import contextlib
import errno
import os
import pathlib
import shutil
import socket
import tempfile
import termios

from harness import vloop
from harness.core import Violation

import zigpy.serial as zserial

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: real pseudo terminals and loopback TCP servers at the other end of "
    "the connection record its settings and bytes; a recording event loop and virtual time "
    "for addresses and time limits"
)
NOTE = (
    "Random serial settings on pseudo terminals, whose line settings are read back from the "
    "other end; loopback TCP servers; failures of every stage; recorded connection attempts "
    "for default ports and the time limit. Open file descriptors are compared before and after."
)
RULE = (
    "One evaluation: a connection opened (or refused) with random settings, data exchanged, "
    "and closed. Non-trivial: it was opened, or its failure was judged."
)

BAUD = {
    9600: termios.B9600,
    19200: termios.B19200,
    38400: termios.B38400,
    57600: termios.B57600,
    115200: termios.B115200,
    230400: termios.B230400,
    460800: termios.B460800,
    921600: termios.B921600,
}


def fds():
    return sorted(os.listdir("/proc/self/fd"))


class Proto(asyncio.Protocol):
    made: list

    def __init__(self):
        type(self).made.append(self)
        self.buf = b""
        self.transport = None
        self.lost = asyncio.get_running_loop().create_future()

    def connection_made(self, transport):
        self.transport = transport

    def data_received(self, data):
        self.buf += data

    def connection_lost(self, exc):
        if not self.lost.done():
            self.lost.set_result(exc)


def factory():
    cls = type("P", (Proto,), {"made": []})
    return cls


async def until(cond, what, timeout=5):
    loop = asyncio.get_running_loop()
    end = loop.time() + timeout
    while not cond():
        if loop.time() > end:
            raise Violation("data", f"no {what} within {timeout} s")
        await asyncio.sleep(0.001)


def expect(cond, key, msg):
    if not cond:
        raise Violation(key, msg)


def read_all(fd, n):
    out = b""
    with contextlib.suppress(BlockingIOError):
        while len(out) < n:
            chunk = os.read(fd, n - len(out))
            if not chunk:
                break
            out += chunk
    return out


def payload(rng, software):
    data = rng.randbytes(rng.randint(1, 60))
    if software:  # those two control the flow
        data = data.replace(b"\x11", b"a").replace(b"\x13", b"b")
    return data


def settings(rng):
    """Arguments and what they mean: (kwargs, xonxoff, rtscts)."""
    kw = {}
    if rng.random() < 0.6:
        kw["flow_control"] = rng.choice(("hardware", "software", None))
    if rng.random() < 0.5:
        kw["xonxoff"] = rng.choice((True, True, False, zserial.UNDEFINED))
    if rng.random() < 0.5:
        kw["rtscts"] = rng.choice((True, True, False, zserial.UNDEFINED))
    if kw.get("flow_control") is None and "flow_control" not in kw and rng.random() < 0.2:
        kw["flow_control"] = zserial.UNDEFINED
    if kw.get("flow_control", zserial.UNDEFINED) is zserial.UNDEFINED:
        x, r = kw.get("xonxoff") is True, kw.get("rtscts") is True
    else:
        x, r = kw["flow_control"] == "software", kw["flow_control"] == "hardware"
    return kw, x, r


def serial_case(ctx, idx):
    rng = ctx.rng("serial", idx)
    before = fds()
    tmp = tempfile.mkdtemp(prefix="n05-")
    master, slave = os.openpty()
    os.set_blocking(master, False)

    async def main():
        loop = asyncio.get_running_loop()
        kw, xonxoff, rtscts = settings(rng)
        rate = 115200
        if rng.random() < 0.6:
            rate = kw["baudrate"] = rng.choice(list(BAUD))
        if rng.random() < 0.4:
            kw["exclusive"] = rng.choice((True, False, None))
        stop = 1
        if rng.random() < 0.3:
            stop = kw["stopbits"] = rng.choice((1, 2))
        name = os.ttyname(slave)
        kind = rng.randrange(4)
        if kind == 1:
            name = pathlib.Path(name)
        elif kind >= 2:
            # the stable names of adapters are links with unusual characters
            link = pathlib.Path(tmp, "usb-ITead_Sonoff:1.0-if00 port0")
            link.symlink_to(name)
            name = link if kind == 2 else str(link)
        P = factory()
        transport, proto = await asyncio.wait_for(
            zserial.create_serial_connection(loop, P, name, **kw), 10
        )
        what = f"{name!r} {kw}"
        expect(P.made == [proto], "protocol", f"{what}: {P.made} protocols made, {proto} returned")
        await until(lambda: proto.transport is not None, "connection_made")
        expect(proto.transport is transport, "protocol", f"{what}: another transport")
        iflag, _oflag, cflag, lflag, ispeed, ospeed, _cc = termios.tcgetattr(master)
        got = (bool(iflag & termios.IXON), bool(iflag & termios.IXOFF), bool(cflag & termios.CRTSCTS))
        expect(got == (xonxoff, xonxoff, rtscts), "flow", f"{what}: line has {got}")
        expect(ispeed == ospeed == BAUD[rate], "baudrate", f"{what}: {ispeed}/{ospeed}")
        expect(cflag & termios.CSIZE == termios.CS8, "line", f"{what}: not 8 bits")
        expect(not cflag & termios.PARENB, "line", f"{what}: parity")
        expect(bool(cflag & termios.CSTOPB) == (stop == 2), "line", f"{what}: stop bits")
        expect(not lflag & (termios.ICANON | termios.ECHO), "line", f"{what}: not raw")
        ctx.count("serial_opened")
        ctx.state("settings", (got, rate))
        for _ in range(rng.randint(1, 3)):
            data = payload(rng, xonxoff)
            start = len(proto.buf)
            os.write(master, data)
            await until(lambda: len(proto.buf) - start >= len(data), "received data")
            expect(proto.buf[start:] == data, "data", f"{what}: {data!r} arrived as {proto.buf[start:]!r}")
            data = payload(rng, xonxoff)
            transport.write(data)
            out = []

            def arrived():
                out.append(read_all(master, 1000))
                return len(b"".join(out)) >= len(data)

            await until(arrived, "sent data")
            expect(b"".join(out) == data, "data", f"{what}: {data!r} sent as {out!r}")
            ctx.count("serial_bytes", 2)
        if kw.get("exclusive") is True:
            try:
                await zserial.create_serial_connection(loop, P, name, exclusive=True)
            except OSError as e:
                expect(type(e) is not OSError and e.errno == errno.EAGAIN, "error", f"{what}: busy port gives {e!r}")
                ctx.count("busy")
            else:
                raise Violation("exclusive", f"{what}: opened twice")
        transport.close()
        lost = await asyncio.wait_for(proto.lost, 5)
        expect(lost is None, "close", f"{what}: closed with {lost!r}")
        return what

    try:
        what = asyncio.run(main())
    finally:
        os.close(master)
        os.close(slave)
        shutil.rmtree(tmp)
    after = fds()
    expect(after == before, "leak", f"{what}: descriptors {before} -> {after}")
    ctx.evaluated(("serial", idx))


def tcp_case(ctx, idx):
    rng = ctx.rng("tcp", idx)
    before = fds()

    async def main():
        loop = asyncio.get_running_loop()
        peers = []

        class Server(asyncio.Protocol):
            def connection_made(self, tr):
                self.tr, self.buf, self.gone = tr, b"", False
                peers.append(self)

            def data_received(self, data):
                self.buf += data

            def connection_lost(self, exc):
                self.gone = True

        server = await loop.create_server(Server, "127.0.0.1", 0)
        port = server.sockets[0].getsockname()[1]
        scheme = rng.choice(("socket", "tcp", "SOCKET", "Tcp"))
        tail = rng.choice(("", "/"))
        hosts = ["127.0.0.1"]
        with contextlib.suppress(OSError):
            if socket.gethostbyname("localhost") == "127.0.0.1":
                hosts.append("localhost")
        url = f"{scheme}://{rng.choice(hosts)}:{port}{tail}"
        kw, *_ = settings(rng)
        if rng.random() < 0.3:
            kw["baudrate"] = rng.choice(list(BAUD))
        P = factory()
        transport, proto = await asyncio.wait_for(
            zserial.create_serial_connection(loop, P, url, **kw), 10
        )
        what = f"{url} {kw}"
        await until(lambda: peers, "connection")
        expect(len(peers) == 1 and P.made == [proto], "protocol", f"{what}: {len(peers)} connections")
        expect(proto.transport is transport, "protocol", f"{what}: another transport")
        for _ in range(rng.randint(1, 3)):
            data = rng.randbytes(rng.randint(1, 200))
            start = len(proto.buf)
            peers[0].tr.write(data)
            await until(lambda: len(proto.buf) - start >= len(data), "received data")
            expect(proto.buf[start:] == data, "data", f"{what}: {data!r} arrived as {proto.buf[start:]!r}")
            data = rng.randbytes(rng.randint(1, 200))
            start = len(peers[0].buf)
            transport.write(data)
            await until(lambda: len(peers[0].buf) - start >= len(data), "sent data")
            expect(peers[0].buf[start:] == data, "data", f"{what}: {data!r} sent")
        ctx.count("tcp_opened")
        if rng.random() < 0.5:
            transport.close()
        else:
            peers[0].tr.close()
        lost = await asyncio.wait_for(proto.lost, 5)
        expect(lost is None, "close", f"{what}: closed with {lost!r}")
        await until(lambda: peers[0].gone, "end of the connection")
        transport.close()
        server.close()
        await server.wait_closed()
        # nobody listens any more
        try:
            await zserial.create_serial_connection(loop, P, url, **kw)
        except ConnectionRefusedError:
            ctx.count("refused")
        except OSError as e:
            # several addresses of one name are reported together
            expect("refused" in str(e).lower() or "111" in str(e), "error", f"{what}: {e!r}")
            ctx.count("refused")
        else:
            raise Violation("error", f"{what}: opened without a server")
        return what

    what = asyncio.run(main())
    after = fds()
    expect(after == before, "leak", f"{what}: descriptors {before} -> {after}")
    ctx.evaluated(("tcp", idx))


def failures(ctx, idx):
    """Devices that cannot be opened: the cause is raised, nothing stays open."""
    rng = ctx.rng("failures", idx)
    before = fds()
    tmp = tempfile.mkdtemp(prefix="n05-")
    plain = os.path.join(tmp, "file")
    with open(plain, "w") as fh:
        fh.write("not a terminal")
    loopy = os.path.join(tmp, "loop")
    os.symlink(loopy, loopy)
    cases = [
        (os.path.join(tmp, "missing"), FileNotFoundError, errno.ENOENT),
        (os.path.join(tmp, "missing dir", "tty"), FileNotFoundError, errno.ENOENT),
        (os.path.join(plain, "tty"), NotADirectoryError, errno.ENOTDIR),
        (tmp, IsADirectoryError, errno.EISDIR),
        (loopy, OSError, errno.ELOOP),
        (plain, termios.error, errno.ENOTTY),
        ("/dev/null", termios.error, errno.ENOTTY),
    ]

    async def main():
        loop = asyncio.get_running_loop()
        rng.shuffle(cases)
        for path, exc, number in cases:
            P = factory()
            kw, *_ = settings(rng)
            url = rng.choice((str, pathlib.Path))(path)
            try:
                await asyncio.wait_for(zserial.create_serial_connection(loop, P, url, **kw), 10)
            except Exception as e:  # noqa: BLE001
                got = e.args[0] if e.args else None
                expect(
                    isinstance(e, exc) and got == number and not isinstance(e, zserial.pyserial.SerialException),
                    "error",
                    f"{os.path.basename(path)}: {e!r}, expected {exc.__name__} {number}",
                )
                shown = e if not e.__suppress_context__ else None
                chain = shown.__context__ if shown is not None else None
                expect(
                    not isinstance(chain, zserial.pyserial.SerialException),
                    "error",
                    f"{os.path.basename(path)}: reported on top of {chain!r}",
                )
            else:
                raise Violation("error", f"{path} was opened")
            expect(not P.made or all(p.transport is None for p in P.made), "protocol", f"{path}: {P.made}")
            ctx.count("failures")

    try:
        asyncio.run(main())
    finally:
        shutil.rmtree(tmp)
    after = fds()
    expect(after == before, "leak", f"descriptors {before} -> {after}")
    ctx.evaluated(("failures", idx))


class Recorder:
    """An event loop that records and scripts connection attempts."""

    def __init__(self, loop, delay, outcome):
        self.loop, self.delay, self.outcome = loop, delay, outcome
        self.calls = []
        self.cancelled = 0

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        self.calls.append((host, port, kw))
        try:
            if self.delay is None:
                await asyncio.get_running_loop().create_future()
            await asyncio.sleep(self.delay)
        except asyncio.CancelledError:
            self.cancelled += 1
            raise
        if isinstance(self.outcome, BaseException):
            raise self.outcome
        return self.outcome, protocol_factory()

    def __getattr__(self, name):
        return getattr(self.loop, name)


def scripted(ctx, idx):
    rng = ctx.rng("scripted", idx)

    async def main():
        loop = asyncio.get_running_loop()
        delay = rng.choice((0, 0, 0.5, 3, 4.9, 5.1, 20, None))
        outcome = rng.choice(("transport", "transport", OSError(errno.EHOSTUNREACH, "unreachable"), socket.gaierror(-2, "unknown")))
        rec = Recorder(loop, delay, outcome)
        name = rng.choice(("192.168.1.5", "gateway.local", "[::1]", "[fe80::1]", "zb-gw"))
        host = name.strip("[]")
        scheme = rng.choice(("socket", "tcp"))
        port = rng.choice((None, None, 6638, 1234, 65535, 80))
        url = f"{scheme}://{name}" + (f":{port}" if port else "") + rng.choice(("", "/"))
        kw, *_ = settings(rng)
        proto = object()
        t0 = loop.time()
        task = asyncio.ensure_future(
            zserial.create_serial_connection(rec, lambda: proto, url, **kw)
        )
        cancel = rng.random() < 0.2
        what = f"{url} answered after {delay} s by {outcome!r}"
        if cancel:
            at = rng.choice((0, 0.2, 2))
            await asyncio.sleep(at)
            early = task.done()
            task.cancel()
        res = (await asyncio.gather(task, return_exceptions=True))[0]
        spent = loop.time() - t0
        expect(
            rec.calls == [] and cancel or rec.calls == [(host, port or 6638, {})],
            "address",
            f"{what}: connected to {rec.calls}",
        )
        if cancel and not early:
            expect(isinstance(res, asyncio.CancelledError), "cancel", f"{what}: {res!r}")
            expect(rec.cancelled == len(rec.calls), "cancel", f"{what}: attempt goes on")
            ctx.count("cancelled")
        elif delay is None or delay > 5:
            expect(isinstance(res, asyncio.TimeoutError) and abs(spent - 5) < 0.01, "timeout", f"{what}: {res!r} after {spent} s")
            expect(rec.cancelled == 1, "timeout", f"{what}: attempt goes on")
            ctx.count("timeouts")
        else:
            expect(abs(spent - delay) < 0.01 or cancel, "timeout", f"{what}: took {spent} s")
            if isinstance(outcome, Exception):
                expect(res is outcome, "error", f"{what}: {res!r}")
                ctx.count("scripted_failures")
            else:
                expect(res == ("transport", proto), "protocol", f"{what}: {res!r}")
                ctx.count("scripted_connections")
        if port is None:
            ctx.count("default_port")
        ctx.evaluated(("scripted", url, delay, str(outcome), cancel))

    vloop.run(main())


def run(ctx):
    # imports and caches of the first use
    with contextlib.suppress(Exception):
        asyncio.run(asyncio.sleep(0))
    for i in range(ctx.n(500, 12000)):
        ctx.case(f"serial-{i}", serial_case, ctx, i)
        if i % 2 == 0:
            ctx.case(f"tcp-{i}", tcp_case, ctx, i)
        if i % 4 == 0:
            ctx.case(f"failures-{i}", failures, ctx, i)
        for k in range(4):
            ctx.case(f"scripted-{i}-{k}", scripted, ctx, 4 * i + k)
    ctx.require("serial_opened", 80)
    ctx.require("tcp_opened", 30)
    ctx.require("refused", 30)
    ctx.require("failures", 100)
    ctx.require("busy", 5)
    ctx.require("timeouts", 50)
    ctx.require("cancelled", 20)
    ctx.require("default_port", 50)
    ctx.require("scripted_failures", 30)
    ctx.require("scripted_connections", 50)
