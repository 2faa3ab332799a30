"""N06: diagnostic counters never lose or invent counts."""

from __future__ import annotations

from harness.core import Violation

import zigpy.state as st

LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitoring: sequence monitor over histories of readings, increments and resets; "
    "after every step all counters and groups are compared with a model"
)
NOTE = (
    "Random histories on several groups of counters of several states: readings of counters "
    "of the radio (growing, rolling over, restarting), increments, nested groups and resets."
)
RULE = "One evaluation: one history with its inspections. Non-trivial: it contains a rollover or reset."


def expect(cond, key, msg):
    if not cond:
        raise Violation(key, msg)


class Model:
    """Total ever counted, last reading, number of restarts."""

    def __init__(self, n=0):
        self.total, self.last, self.resets = n, n, 0

    def read(self, n):
        if n < self.last:
            self.restart(n)
        else:
            self.total += n - self.last
            self.last = n

    def add(self, n):
        self.total += n
        self.last += n

    def restart(self, n=0):
        self.total += n
        self.last = n
        self.resets += 1


class Group:
    def __init__(self, name):
        self.name, self.counters, self.groups, self.order = name, {}, {}, []

    def counter(self, name):
        if name not in self.counters:
            self.counters[name] = Model()
            self.order.append(name)
        return self.counters[name]

    def group(self, tag):
        if tag not in self.groups:
            self.groups[tag] = Group(tag)
        return self.groups[tag]

    def increment(self, name, *tags):
        g = self
        for tag in tags:
            g = g.group(tag)
            g.counter(name).add(1)

    def reset(self):
        for c in self.counters.values():
            c.restart()
        for g in self.groups.values():
            g.reset()


def inspect(ctx, real, model, path):
    where = "/".join(map(str, path))
    expect(real.name == (model.name if model.name is not None else "No Name"), "group", f"{where} is called {real.name}")
    got = list(real.counters())
    expect(
        [c.name for c in got] == model.order, "group", f"{where} has {[c.name for c in got]}, expected {model.order}"
    )
    for name in model.order:
        c, m = real[name], model.counters[name]
        expect(
            c.value == int(c) == m.total and c == m.total and not c == m.total + 1,
            "value",
            f"{where}/{name} is {c.value}, counted {m.total}",
        )
        expect(c.reset_count == m.resets, "resets", f"{where}/{name}: {c.reset_count} restarts, expected {m.resets}")
        expect(str(c) == f"{name} = {m.total}", "text", f"{c}")
        expect(name in real, "group", f"{name} not in {where}")
        ctx.count("inspected")
    text = f"{real.name}: [{', '.join(f'{n} = {model.counters[n].total}' for n in model.order)}]"
    expect(str(real) == text, "text", f"{real}")
    expect(list(real.tags()) == list(model.groups), "group", f"tags of {where}: {list(real.tags())}")
    expect([g.name for g in real.groups()] == list(model.groups), "group", f"groups of {where}")
    for tag, g in model.groups.items():
        inspect(ctx, real[tag], g, path + (tag,))


def history(ctx, idx):
    rng = ctx.rng("history", idx)
    states = [st.State() for _ in range(2)]
    kinds = ("counters", "broadcast_counters", "device_counters", "group_counters")
    models = [{k: {} for k in kinds} for _ in states]
    names = ["MAC_RX", "MAC_TX", 3, 0x0006, "total"]
    tags = ["rx", "tx", "zdo", 0x8031, 1]
    resets = 0
    for _ in range(rng.randint(5, 40)):
        i = rng.randrange(len(states))
        kind = rng.choice(kinds)
        gname = rng.choice(("ezsp", "znp", 5))
        real = getattr(states[i], kind)[gname]
        model = models[i][kind].setdefault(gname, Group(gname))
        name = rng.choice(names)
        op = rng.randrange(7)
        if op == 0:
            m = model.counter(name)
            n = m.last + rng.choice((0, 1, 5, 1000, rng.randrange(1 << 16)))
            real[name].update(n)
            m.read(n)
            ctx.count("readings")
        elif op == 1:  # rolled over or restarted
            m = model.counter(name)
            n = rng.randrange(m.last + 1)
            if n < m.last:
                resets += 1
            real[name].update(n)
            m.read(n)
            ctx.count("rollovers")
        elif op == 2:
            n = rng.choice((1, 0, 7))
            if n == 1:
                real[name].increment()
            else:
                real[name].increment(n)
            model.counter(name).add(n)
            ctx.count("increments")
        elif op == 3:
            path = [rng.choice(tags) for _ in range(rng.randint(1, 4))]
            real.increment(name, *path)
            model.increment(name, *path)
            ctx.count("nested")
        elif op == 4 and rng.random() < 0.5:
            real.reset()
            model.reset()
            resets += 1
            ctx.count("group_resets")
        elif op == 5:
            n = rng.choice((None, 0, 3, 500))
            m = model.counter(name)
            if n is None:
                real[name].reset()
            else:
                real[name].reset_and_update(n)
            m.restart(n or 0)
            resets += 1
            ctx.count("resets")
        elif op == 6:
            before = model.counter(name).total
            expect(real[name] == before, "value", f"{name} looked up as {real[name]}")
            try:
                real[name].increment(-rng.randint(1, 5))
            except (AssertionError, ValueError):
                ctx.count("refused")
            else:
                raise Violation("negative", "a counter was decremented")
        for s, ms in zip(states, models):
            for k in kinds:
                groups = getattr(s, k)
                expect(
                    [g.name for g in groups] == list(ms[k]) and len(groups) == len(ms[k]),
                    "groups",
                    f"{k} has {[g.name for g in groups]}, expected {list(ms[k])}",
                )
                for n, m in ms[k].items():
                    expect(groups[n].name == n, "groups", f"{n}")
                    inspect(ctx, groups[n], m, (k, n))
    first = st.Counter("x", rng.randrange(100))
    m = Model(first.value)
    for n in [rng.randrange(200) for _ in range(6)]:
        first.update(n)
        m.read(n)
        expect(first.value == m.total and first.reset_count == m.resets, "value", f"{first}, counted {m.total}")
        other = st.Counter("y", m.total)
        expect(first == other and not first == st.Counter("x", m.total + 1), "equal", f"{first} and {other}")
    ctx.evaluated(("history", idx), nontrivial=resets > 0)


def run(ctx):
    for i in range(ctx.n(400, 20000)):
        ctx.case(f"history-{i}", history, ctx, i)
    ctx.require("inspected", 20000)
    ctx.require("readings", 300)
    ctx.require("rollovers", 300)
    ctx.require("nested", 300)
    ctx.require("resets", 300)
    ctx.require("group_resets", 100)
    ctx.require("refused", 300)
