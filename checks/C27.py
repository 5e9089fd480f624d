# -*- coding: utf-8 -*-
"""C27: relatives of observations of networks"""
from itertools import combinations

import numpy as np

from mc.core import Scenario
from mc.netfix import family, network

ASSUMPTIONS = [
    "networks are sorted by network, segment and time",
    "an observation is followed by the next one of its segment; links matter at both ends of segments",
    "trash (untracked observations) has no relative",
]
BEFORE = [(0, 0, (0, 1, 1, 3), None, None), (1, 1, (0, 1, 2), None, None), (1, 2, (2, 3), (1, 1), None)]
AFTER = [(9, 1, (0, 1, 2, 3), None, None), (9, 4, (1,), (4, 0), (4, 2))]


def surround(net):
    """Same network between others, identifiers are not successive"""
    n = len(BEFORE)
    shift = lambda link: None if link is None else (link[0] + n, link[1])
    middle = [(4, 2 * s + 3, d, shift(p), shift(f)) for _, s, d, p, f in net]
    end = [(t, s, d, p and (p[0] - 4 + n + len(net), p[1]), f and (f[0] - 4 + n + len(net), f[1])) for t, s, d, p, f in AFTER]
    return BEFORE + middle + end


class Graph:
    def __init__(self, obs):
        self.n = len(obs)
        col = {f: obs.obs[f].tolist() for f in ("track", "segment", "next_obs", "previous_obs")}
        self.key = list(zip(col["track"], col["segment"]))
        self.members = dict()
        for i, k in enumerate(self.key):
            self.members.setdefault(k, list()).append(i)
        self.after, self.before = [set() for _ in range(self.n)], [set() for _ in range(self.n)]
        self.near = {k: set() for k in self.members}

        def edge(a, b):
            self.after[a].add(b), self.before[b].add(a)

        for k, m in self.members.items():
            for a, b in zip(m[:-1], m[1:]):
                edge(a, b)
            p, f = col["previous_obs"][m[0]], col["next_obs"][m[-1]]
            if p != -1:
                edge(p, m[0])
                self.near[k].add(self.key[p]), self.near[self.key[p]].add(k)
            if f != -1:
                edge(m[-1], f)
                self.near[k].add(self.key[f]), self.near[self.key[f]].add(k)

    @staticmethod
    def reach(start, edges):
        seen, todo = set(start), list(start)
        while todo:
            for j in edges[todo.pop()]:
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen

    def distance(self, segments):
        """Number of events between segments"""
        dist = {k: 0 for k in segments}
        border, d = list(segments), 0
        while border:
            d += 1
            border = {j for k in border for j in self.near[k] if j not in dist}
            dist.update({k: d for k in border})
        return dist


def names(obs):
    return [int(v) - 1 for v in obs.obs["amplitude"].tolist()]


def links(obs):
    ids = names(obs) + [None]
    return [(ids[i], None if p == -1 else ids[p], None if n == -1 else ids[n]) for i, (p, n) in enumerate(zip(obs.obs["previous_obs"].tolist(), obs.obs["next_obs"].tolist()))]


def compare(ctx, got, obs, exp, what):
    ctx.step()
    ids = names(got)
    ctx.check(ids == sorted(exp), "observations", lambda: f"{what}: {ids} instead of {sorted(exp)}")
    p, n = obs.obs["previous_obs"].tolist(), obs.obs["next_obs"].tolist()
    keep = lambda j: j if j in exp else None
    ctx.check(links(got) == [(i, keep(p[i]), keep(n[i])) for i in ids], "links", lambda: f"{what}: {links(got)}")


def space(tier):
    sizes = [(2, 4, 4), (3, 4, 3)] if tier == "quick" else [(2, 6, 5), (3, 5, 3), (3, 4, 4)]
    for nb_segment, nb_date, length in sizes:
        for net in family(nb_segment, nb_date, length):
            yield (net, False)
    for net in family(2, 5 if tier == "quick" else 6, 3, gap=2):
        yield (net, True)
    for net in family(3, 3 if tier == "quick" else 4, 3):
        yield (net, True)


def run(ctx, payload):
    net, around = payload
    net = [(t, s, tuple(d), p, n) for t, s, d, p, n in net]
    first = 0
    if around:
        first = sum(len(b[2]) for b in BEFORE)
        obs, _ = network(surround(net))
    else:
        obs, _ = network(net)
    g = Graph(obs)
    mine = [i for i in range(g.n) if first <= i < first + sum(len(s[2]) for s in net)]
    queries = [(i,) for i in mine] + list(combinations(mine, 2))
    if around:
        queries += [(mine[0], g.n - 1), (4, mine[-1], g.n - 2)]
    for q in queries:
        ask = q[0] if len(q) == 1 else list(q)
        ahead, back = g.reach(q, g.after), g.reach(q, g.before)
        compare(ctx, obs.find_link(ask, forward=True, backward=True), obs, ahead | back, f"{net} link {q}")
        if len(q) == 1 or around:
            compare(ctx, obs.find_link(ask), obs, ahead, f"{net} forward {q}")
            compare(ctx, obs.find_link(ask, forward=False, backward=True), obs, back, f"{net} backward {q}")
        if len(q) == 1:
            compare(ctx, obs.find_link(np.array(q), forward=True), obs, ahead, f"{net} forward {q}")
        ctx.cover("both ways", len(q) > 1 and not ahead.isdisjoint(back - set(q)))
        dist = g.distance({g.key[i] for i in q})
        far = max(dist.values())
        for order in range(far + 2):
            exp = {i for i in range(g.n) if dist.get(g.key[i], 99) <= order}
            if len(q) == 1 or order:
                compare(ctx, obs.relatives(ask, order=order), obs, exp, f"{net} relatives {q} {order}")
            if len(q) == 1:
                compare(ctx, obs.find_segments_relative(q[0], order=order), obs, exp, f"{net} segments {q} {order}")
            elif g.key[q[0]][0] == g.key[q[1]][0] and len(q) == 2 and order < 2:
                compare(ctx, obs.find_segments_relative(q[0], q[1], order=order), obs, exp, f"{net} segments {q} {order}")
        ctx.cover("several orders", far > 1)
        ctx.cover("not connected", len(dist) < len({k for k in g.members if k[0] == g.key[mine[0]][0]}))
    keys = list(g.members)
    got = {(int(k)): {int(v) for v in s} for k, s in obs.connexions(multi_network=True).items()}
    exp = {keys.index(k): {keys.index(j) for j in s} for k, s in g.near.items() if s}
    ctx.check(got == exp, "connexions", lambda: f"{net}: {got} instead of {exp}")
    ctx.step()
    one = obs.network(g.key[mine[0]][0])
    got = {int(k): {int(v) for v in s} for k, s in one.connexions().items()}
    track = g.key[mine[0]][0]
    exp = {k[1]: {j[1] for j in s} for k, s in g.near.items() if s and k[0] == track}
    ctx.check(got == exp, "connexions of one network", lambda: f"{net}: {got} instead of {exp}")
    for s in [k for k in keys if k[0] == track]:
        dist = g.distance({s})
        exp = [dist.get(g.key[i], -1) for i in mine]
        got = one.segment_relative_order(s[1])
        ctx.check(list(got) == exp, "order of segments", lambda: f"{net} {s}: {got} instead of {exp}")
        ctx.check(list(one.obs_relative_order(g.members[s][0] - first)) == exp, "order of observation", lambda: f"{net} {s}")
        ctx.step()
    ctx.state(str(net))
    ctx.outcome(str(sorted(exp)), len(mine))


# ----------------------------------------------------------- long networks
def long_space(tier):
    for shape in ("chain", "ladder"):
        for n in (3, 40, 1500) if tier == "quick" else (3, 40, 300, 900, 1000, 1100, 1500, 5000):
            yield (shape, n)


def long_run(ctx, payload):
    shape, n = payload
    if shape == "chain":
        net = [(1, k + 1, (k, k + 1), None if k == 0 else (k - 1, 0), None) for k in range(n)]
    else:
        net = [(1, k + 1, (2 * k, 2 * k + 1, 2 * k + 2), None, None if k == n - 1 else (k + 1, 1)) for k in range(n)]
    obs, _ = network(net)
    g = Graph(obs)
    for i in (0, g.n // 2, g.n - 1):
        try:
            compare(ctx, obs.find_link(i), obs, g.reach([i], g.after), f"{payload} forward {i}")
            compare(ctx, obs.find_link(i, forward=False, backward=True), obs, g.reach([i], g.before), f"{payload} backward {i}")
            for order in (1, n // 2, n):
                dist = g.distance({g.key[i]})
                compare(ctx, obs.relatives(i, order=order), obs, {j for j in range(g.n) if dist.get(g.key[j], n + 1) <= order}, f"{payload} relatives {i} {order}")
            got = obs.obs_relative_order(i).tolist()
        except RecursionError:
            ctx.fail("too many segments", f"{payload} {i}")
        ctx.check(got == [dist.get(k, -1) for k in g.key], "order of segments", lambda: f"{payload} {i}")
        ctx.outcome(shape, i)
    ctx.state(shape, n)


SCENARIOS = [
    Scenario("walk", space, run, shards=32, bound="every network of 2-3 segments over 4 (5-6) dates, alone or among others, every observation and pair of observations, every direction and order", need=["both ways", "several orders", "not connected"]),
    Scenario("long", long_space, long_run, shards=6, bound="up to 1500 (5000) segments which follow each other"),
]
