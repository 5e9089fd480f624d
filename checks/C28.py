# -*- coding: utf-8 -*-
"""C28: events of networks"""
from itertools import product

import numpy as np

from py_eddy_tracker.observations.network import get_percentile_around_event
from mc.core import Scenario
from mc.netfix import family, network
from checks.C27 import BEFORE, surround

ASSUMPTIONS = [
    "networks are sorted by network, segment and time",
    "trash is the first network: its observations have no link, and its number is zero or it has several observations",
    "a triplet needs its three observations: it is not listed when the main segment has lost the one next to the event",
    "statistics around an event: at most one value by observation and target, times are whole days",
]


class Net:
    def __init__(self, obs):
        self.n = len(obs)
        self.track, self.segment, self.next, self.previous = (obs.obs[f].tolist() for f in ("track", "segment", "next_obs", "previous_obs"))
        self.time = obs.obs["time"].tolist()
        self.name = [int(v) for v in obs.obs["amplitude"].tolist()]
        self.key = list(zip(self.track, self.segment))
        self.parts = dict()
        for i, k in enumerate(self.key):
            self.parts.setdefault(k, list()).append(i)

    @property
    def trash(self):
        """Part which is not tracked, None if we could not know"""
        if not self.n:
            return set()
        first = self.parts[self.key[0]]
        if any(self.next[i] != -1 or self.previous[i] != -1 for i in first):
            return set()
        if self.track[0] == 0:
            return set(first)
        return set() if len(first) == 1 else None

    def birth(self):
        return [p[0] for p in self.parts.values() if self.previous[p[0]] == -1 and p[0] not in self.trash]

    def death(self):
        return [p[-1] for p in self.parts.values() if self.next[p[-1]] == -1 and p[-1] not in self.trash]

    def merging(self):
        """target, main one before, stopped one"""
        ends = [(self.next[p[-1]], p[-1]) for p in self.parts.values() if self.next[p[-1]] != -1]
        return [(t, self.previous[t], e) for t, e in ends]

    def splitting(self):
        """origin, main one after, starting one"""
        starts = [(self.previous[p[0]], p[0]) for p in self.parts.values() if self.previous[p[0]] != -1]
        return [(o, self.next[o], s) for o, s in starts]

    def close(self, merging, splitting, dt):
        out = set()

        def follow(i, links):
            t0 = self.time[i]
            out.add(i)
            i = links[i]
            while i != -1 and abs(self.time[i] - t0) < dt:
                out.add(i)
                i = links[i]

        for flag, events, main, around in ((merging, self.merging(), self.next, self.previous), (splitting, self.splitting(), self.previous, self.next)):
            if flag:
                for center, a, b in events:
                    if a != -1:
                        follow(center, main), follow(a, around), follow(b, around)
        return out


def names(obs):
    return [int(v) for v in obs["amplitude"].tolist()]


def compare_events(ctx, obs, what):
    net = Net(obs)
    name = net.name
    if net.trash is not None:
        for method, alias, exp in (("birth_event", "generation_event", net.birth()), ("death_event", "dissipation_event", net.death())):
            for m in (method, alias):
                got = names(getattr(obs, m)())
                ctx.check(got == sorted(name[i] for i in exp), m, lambda: f"{what}: {got} instead of {[name[i] for i in exp]}")
            ctx.step()
            ctx.cover(method, bool(exp))
    for method, exp, label in ((obs.merging_event, net.merging(), "merging"), (obs.splitting_event, net.splitting(), "splitting")):
        single = sorted({e[0] for e in exp})
        got = method(only_index=True)
        ctx.check([int(i) for i in got] == single, label, lambda: f"{what}: {got} instead of {single}")
        got = names(method())
        ctx.check(got == [name[i] for i in single], label + " observations", lambda: f"{what}: {got} instead of {single}")
        exp = sorted(e for e in exp if e[1] != -1)
        got = list(zip(*(v.tolist() for v in method(triplet=True, only_index=True))))
        ctx.check(sorted(got) == exp, label + " triplet", lambda: f"{what}: {got} instead of {exp}")
        times = [net.time[e[0]] for e in got]
        ctx.check(times == sorted(times), label + " not in order of time", lambda: f"{what}: {got}")
        full = list(zip(*(names(v) for v in method(triplet=True))))
        ctx.check(full == [tuple(name[i] for i in e) for e in got], label + " triplet of observations", lambda: f"{what}: {full} instead of {got}")
        for center, a, b in exp:
            s = 1 if label == "merging" else -1
            ctx.check(s * (net.time[center] - net.time[a]) > 0 and s * (net.time[center] - net.time[b]) > 0, label + " time", what)
        ctx.step()
        ctx.cover(label, bool(exp))
        ctx.cover("shared " + label, len({e[0] for e in exp}) < len(exp))
    for merging, splitting in ((True, True), (True, False), (False, True)):
        for dt in (0, 1, 2, 3):
            got = obs.mask_obs_close_event(merging, splitting, dt)
            exp = net.close(merging, splitting, dt)
            ctx.check(set(np.where(got)[0].tolist()) == exp and got.size == net.n, "close of event", lambda: f"{what} {merging} {splitting} {dt}: {np.where(got)[0]} instead of {exp}")
            ctx.step()
    ctx.outcome(str((net.birth() if net.trash is not None else None, net.merging(), net.splitting())))


def space(tier):
    sizes = [(2, 4, 4), (3, 4, 3)] if tier == "quick" else [(2, 6, 5), (3, 5, 3), (3, 4, 4)]
    for nb_segment, nb_date, length in sizes:
        for net in family(nb_segment, nb_date, length):
            yield (net, False)
    for net in family(2, 5 if tier == "quick" else 6, 3, gap=2):
        yield (net, True)
    for net in family(3, 3 if tier == "quick" else 4, 3):
        yield (net, True)


def run(ctx, payload):
    net, around = payload
    net = [(t, s, tuple(d), p, n) for t, s, d, p, n in net]
    obs, _ = network(surround(net) if around else net)
    compare_events(ctx, obs, f"{net} {around}")
    ctx.state(str(net), around)
    # what remains when observations are lost
    first = sum(len(b[2]) for b in BEFORE) if around else 0
    n = sum(len(s[2]) for s in net)
    for i in range(first, first + n):
        m = np.ones(len(obs), dtype=bool)
        m[i] = False
        compare_events(ctx, obs.extract_with_mask(m), f"{net} {around} without {i}")
        ctx.state(str(net), around, i)
    for sl in (slice(0, 0), slice(0, 1), slice(first, first + 1), slice(1, len(obs)), slice(len(obs) - 2, len(obs))):
        compare_events(ctx, obs.extract_with_mask(sl), f"{net} {around} {sl}")


# --------------------------------------------------- statistics around events
def stat_space(tier):
    nets = [n for n in family(2, 4, 4) if any(p or f for *_, p, f in n)]
    if tier != "quick":
        nets += [n for n in family(3, 4, 3) if any(p or f for *_, p, f in n)]
    for net in nets:
        yield (net,)


def expected(net, group, i, target, ind, pct, follow, window, q, nb_min):
    values, t0, seg = list(), net.time[i], group[i]
    while i != -1 and group[i] == seg and abs(net.time[i] - t0) < window:
        values.extend(p for j, p in zip(ind[i], pct[i]) if j != -1 and group[j] == group[target])
        i = follow[i]
    if len(values) < nb_min:
        return np.nan
    values.sort()
    x = (len(values) - 1) * q / 100
    k = min(int(x), len(values) - 1)
    return values[k] + (values[min(k + 1, len(values) - 1)] - values[k]) * (x - k)


def stat_run(ctx, payload):
    (net,) = payload
    net = [(t, s, tuple(d), p, n) for t, s, d, p, n in net]
    obs, _ = network(net)
    N = Net(obs)
    group = obs.segment_track_array
    t, nx, pr = obs.time.copy(), obs.next_obs.copy(), obs.previous_obs.copy()
    for label, events, links_child, links_parent in (("merging", obs.merging_event(triplet=True, only_index=True), pr, nx), ("splitting", obs.splitting_event(triplet=True, only_index=True), nx, pr)):
        if not len(events[0]):
            continue
        for parent in (False, True):
            follow = links_parent if parent else links_child
            # Coherence of observations which could be followed
            used = list()
            for c, a, b in zip(*(e.tolist() for e in events)):
                for i in (c,) if parent else (a, b):
                    k = i
                    while k != -1 and group[k] == group[i]:
                        if k not in used:
                            used.append(k)
                        k = follow[k]
            used = used[:4]
            for choice in product(range(4), repeat=len(used)):
                ind, pct = -np.ones((N.n, 2), dtype="i4"), np.zeros((N.n, 2), dtype="f4")
                for k, c in zip(used, choice):
                    # target in one of both columns, nothing, or an other eddy
                    target = [j for j in range(N.n) if group[j] != group[k]][k % 2 - 1 :][:1]
                    if c == 1:
                        ind[k, 0], pct[k, 0] = target[0], 8 * (k + 1)
                    elif c == 2:
                        ind[k], pct[k] = (k, target[0]), (60 + k, 16 + k)
                    elif c == 3:
                        ind[k], pct[k] = (k, -1), (70, 50)
                for window, q, nb_min in ((10, 50, 1), (2, 25, 1), (3, 100, 2)):
                    s1, s2 = get_percentile_around_event(*events, ind, pct, follow, t, group, window, parent, q, nb_min)
                    ctx.step()
                    for j, (c, a, b) in enumerate(zip(*(e.tolist() for e in events))):
                        for got, other in ((s1[j], a), (s2[j], b)):
                            i, target = (c, other) if parent else (other, c)
                            exp = expected(N, group.tolist(), i, target, ind.tolist(), pct.tolist(), follow.tolist(), window, q, nb_min)
                            ctx.check((np.isnan(got) and np.isnan(exp)) or abs(got - exp) < 1e-4, "statistics", lambda: f"{net} {label} {parent} {choice} {window} {q} {nb_min}: {got} instead of {exp}")
                            ctx.cover("no statistics", np.isnan(exp))
                            ctx.cover("statistics", not np.isnan(exp))
                            ctx.outcome(None if np.isnan(exp) else round(float(exp), 3))
    ctx.state(str(net))


SCENARIOS = [
    Scenario("events", space, run, shards=32, bound="every network of 2-3 segments over 4 (5-6) dates, alone or among others, entire or without one observation", need=["birth_event", "death_event", "merging", "splitting", "shared merging", "shared splitting"]),
    Scenario("around", stat_space, stat_run, shards=16, bound="every linked network of 2 (3) segments over 4 dates, 4^4 tables of coherence, 3 windows", need=["no statistics", "statistics"]),
]
