"""Virtual time for asyncio programs.

* `VLoop`: an event loop whose clock jumps to the next timer when nothing is ready.
* wall clock (`datetime.now`, `time.time`) follows the virtual clock.
* aiosqlite and executors run inline (no threads), with an optional virtual latency and
  an optional hook around each database operation.

Must be imported before zigpy.
"""

from __future__ import annotations

import asyncio
import datetime as _dtmod
import heapq
import selectors
import time as _time

EPOCH = 1_700_000_000.0
_current: "VLoop | None" = None
_base = EPOCH


def now() -> float:
    return _base + (_current._vtime if _current is not None else 0.0)


# --- wall clock ------------------------------------------------------------------
_real_datetime = _dtmod.datetime
real_time = _time.time
real_monotonic = _time.monotonic


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class VDateTime(_real_datetime, metaclass=_Meta):
    def __new__(cls, *a, **k):
        return _real_datetime(*a, **k)

    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(now(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(now(), _dtmod.timezone.utc).replace(
            tzinfo=None
        )

    @classmethod
    def today(cls):
        return cls.now()


def install_clock():
    _dtmod.datetime = VDateTime
    _time.time = now


class Deadlock(Exception):
    """Nothing is ready, no timer is armed: the awaited result can never arrive."""


class StepLimit(Exception):
    """The program did not quiesce within the permitted number of loop iterations."""


class _VSelector(selectors.BaseSelector):
    """No real file descriptors are ever used; only time."""

    def __init__(self):
        self._map = {}
        self.loop = None

    def register(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self._map[fd] = key
        return key

    def unregister(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self._map.pop(fd)

    def get_map(self):
        return self._map

    def get_key(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self._map[fd]

    def close(self):
        self._map.clear()

    def select(self, timeout=None):
        loop = self.loop
        loop.steps += 1
        if loop.steps > loop.max_steps:
            loop.max_steps += 100_000  # let cleanup run
            raise StepLimit(f"more than {loop.steps - 1} loop iterations")
        if timeout is not None and timeout <= 0:
            return []
        if timeout is None:
            if loop.deadlock_ok:
                loop.stop()
                return []
            raise Deadlock("no ready callbacks and no timers")
        when = loop._scheduled[0]._when
        if when > loop._vtime:
            if loop.on_advance is not None:
                # nothing is ready: a quiescent point of the program
                loop.on_advance()
            loop._vtime = when
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_steps: int = 400_000):
        sel = _VSelector()
        self._vtime = 1000.0
        self.steps = 0
        self.max_steps = max_steps
        self.deadlock_ok = False
        self.on_advance = None
        self.unhandled: list[dict] = []
        super().__init__(sel)
        sel.loop = self
        self._clock_resolution = 1e-7  # stays above the float spacing of late times
        self.set_exception_handler(lambda _l, ctx: self.unhandled.append(ctx))

    def time(self):
        return self._vtime

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def work():
            if fut.cancelled():
                return
            try:
                r = func(*args)
            except BaseException as e:  # noqa: BLE001
                fut.set_exception(e)
            else:
                fut.set_result(r)

        self.call_soon(work)
        return fut


def run(coro, *, max_steps: int = 400_000, base: float | None = None, keep=False):
    """Run a coroutine on a fresh virtual loop; returns (result, loop)."""
    global _current, _base
    loop = VLoop(max_steps=max_steps)
    prev = _current
    _current = loop
    if base is not None:
        _base = base
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro), loop
    finally:
        try:
            cancel_all(loop)
        finally:
            asyncio.set_event_loop(None)
            if _current is loop:
                _base = _base + loop._vtime  # wall clock never goes backwards
                _current = prev
            loop.close()


def cancel_all(loop, rounds: int = 20):
    loop.max_steps = loop.steps + 50_000
    for _ in range(rounds):
        tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if not tasks:
            break
        for t in tasks:
            t.cancel()
        try:
            loop.run_until_complete(_settle(loop))
        except (Deadlock, StepLimit):
            break


async def _settle(loop, n: int = 30):
    for _ in range(n):
        await asyncio.sleep(0)


async def settle(n: int = 30):
    """Let everything that is ready run (no virtual time passes)."""
    for _ in range(n):
        await asyncio.sleep(0)


# --- aiosqlite inline ------------------------------------------------------------
class DbHooks:
    """Global knobs for inline database execution."""

    delay = None  # callable() -> float virtual latency per operation
    before = None  # callable(fn) -> None ; may raise
    after = None  # callable(fn) -> None
    ops = 0

    @classmethod
    def reset(cls):
        cls.delay = cls.before = cls.after = None


def install_aiosqlite():
    import aiosqlite.core as core

    class InlineQueue:
        def __init__(self):
            self._busy_until = 0.0

        def put_nowait(self, item):
            if item is core._STOP_RUNNING_SENTINEL:
                return
            future, function = item
            loop = future.get_loop()

            def work():
                DbHooks.ops += 1
                try:
                    if DbHooks.before is not None:
                        DbHooks.before(function)
                    result = function()
                    if DbHooks.after is not None:
                        DbHooks.after(function)
                except BaseException as e:  # noqa: BLE001
                    core.set_exception(future, e)
                else:
                    core.set_result(future, result)

            # operations are serialised and in order, as with the real worker thread
            d = DbHooks.delay() if DbHooks.delay is not None else 0.0
            t = max(loop.time(), self._busy_until) + d
            self._busy_until = t
            if t <= loop.time():
                loop.call_soon(work)
            else:
                loop.call_at(t, work)

    orig_init = core.Connection.__init__

    def __init__(self, *a, **k):
        orig_init(self, *a, **k)
        self._tx = InlineQueue()

    core.Connection.__init__ = __init__
    core.Connection.start = lambda self: None
    core.Connection.join = lambda self, timeout=None: None
