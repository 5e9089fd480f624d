# -*- coding: utf-8 -*-
"""C29: networks and segments of a dataset found in another one"""
from collections import Counter
from itertools import combinations, product

import numpy as np

from mc.core import Scenario
from mc.netfix import CONT, NET_FIELDS, network, square
from mc.obsfix import make

ASSUMPTIONS = [
    "networks are sorted by network, segment and time",
    "observations are the same when date and position are the same",
    "eddies of close networks are disjoint or at the same place, except for one half shifted",
]

# Each content is a list of segments, each segment a list of (date, position)
CONTENTS = dict(
    a=[[(0, 0), (1, 1)]],
    a_lon=[[(0, 0), (1, 2)]],
    a_lat=[[(0, 0), (1, 1.5)]],
    a_date=[[(0, 0), (2, 1)]],
    a_two=[[(0, 0)], [(1, 1)]],
    a_reverse=[[(1, 1)], [(0, 0)]],
    one=[[(0, 0)]],
    other=[[(1, 1)]],
    long=[[(0, 0), (1, 1), (2, 2)]],
    long_two=[[(0, 0), (2, 2)], [(1, 1)]],
    long_lon=[[(0, 0), (2, 3)], [(1, 1)]],
    same_date=[[(0, 0)], [(0, 1)]],
    same_date_reverse=[[(0, 1)], [(0, 0)]],
)


def dataset(names, ids, cont=False):
    """Networks with these contents and these identifiers"""
    segments, place = list(), list()
    for name, track in zip(names, ids):
        for k, seg in enumerate(CONTENTS[name]):
            segments.append((track, 1 + 2 * k, tuple(t for t, _ in seg), None, None))
            place.extend(p for _, p in seg)
    obs, _ = network(segments)
    # lattice in longitude, half values are lattice in latitude
    obs.obs["lon"] = [10 + int(p) for p in place]
    obs.obs["lat"] = [20 + 3 * (p % 1) for p in place]
    return obs


def keys(obs, segment):
    """Content of each network or segment"""
    out = dict()
    s = obs.segment_track_array.tolist()
    for i, (tr, t, x, y) in enumerate(zip(*(obs.obs[k].tolist() for k in ("track", "time", "lon", "lat")))):
        out.setdefault(s[i] if segment else tr, list()).append((t, x, y))
    return {k: tuple(sorted(v)) for k, v in out.items()}


def compare(ctx, A, B, segment, size_min, what):
    a, b = keys(A, segment), keys(B, segment)
    before = A.obs.copy(), B.obs.copy()
    got_a, got_b = A.identify_in(B, size_min=size_min, segment=segment)
    ctx.step()
    what = f"{what} segment={segment} size_min={size_min}"
    got_a, got_b = [int(i) for i in got_a], [int(i) for i in got_b]
    ctx.check(sorted(got_a) == sorted(k for k, v in a.items() if len(v) >= size_min), "all items", lambda: f"{what}: {got_a} in {a}")
    ctx.check(len(got_a) == len(got_b), "size", lambda: f"{what}: {got_a} {got_b}")
    used = [j for j in got_b if j != -1]
    ctx.check(len(used) == len(set(used)), "used twice", lambda: f"{what}: {got_a} {got_b}")
    for i, j in zip(got_a, got_b):
        if j != -1:
            ctx.check(j in b and a[i] == b[j], "not the same", lambda: f"{what}: {i} {j} in {got_a} {got_b}, {a} {b}")
    na, nb = Counter(v for v in a.values() if len(v) >= size_min), Counter(b.values())
    found = Counter(a[i] for i, j in zip(got_a, got_b) if j != -1)
    exp = Counter({k: min(n, nb[k]) for k, n in na.items() if nb[k]})
    ctx.check(found == exp, "not found", lambda: f"{what}: {got_a} {got_b}, {a} {b}")
    ctx.check((A.obs == before[0]).all() and (B.obs == before[1]).all(), "datasets changed", what)
    ctx.cover("nothing", not used)
    ctx.cover("found", len(used) > 0)
    ctx.cover("all found", len(used) == len(got_a) > 0)
    ctx.outcome(str(sorted(exp.items())))


def space(tier):
    names = list(CONTENTS)
    short = [c for n in range(3) for c in product(names, repeat=n)]
    for c in short:
        yield ("pair", c)
    if tier != "quick":
        for c in product(["a", "a_two", "a_reverse", "one", "long", "same_date"], repeat=3):
            yield ("triple", c)
    else:
        for c in product(["a", "a_two", "one"], repeat=3):
            yield ("triple", c)


IDS = (1, 2, 3), (0, 4, 5)


def run(ctx, payload):
    kind, ca = payload
    ca = tuple(ca)
    names = list(CONTENTS)
    if kind == "pair":
        others = [c for n in range(3) for c in product(names, repeat=n)]
    else:
        pool = sorted(set(ca)) + ["a_two", "same_date"]
        others = list(product(pool, repeat=3))
    A = dataset(ca, IDS[0])
    A1 = dataset(ca, IDS[1])
    for k, cb in enumerate(others):
        B = dataset(cb, IDS[k % 2])
        for segment in (False, True):
            what = f"{ca} in {cb}"
            compare(ctx, (A, A1)[(k + segment) % 2], B, segment, 1 + (k + segment) % 3 // 2, what)
        ctx.state(ca, cb)


# ------------------------------------------------------------- close networks
def close_set(positions, ids):
    """positions: for each network list of (date, x, half of size)"""
    rows = [(tr, s) for tr, p in zip(ids, positions) for s in p]
    segments = [(tr, 1, tuple(t for t, _, _ in p), None, None) for tr, p in zip(ids, positions)]
    n = len(rows)
    src, _ = network(segments)
    obs = make("network", n, extra=["virtual"], arrays=CONT, nb_sample=5, only=NET_FIELDS + ["virtual"] + CONT)
    for k in src.fields:
        obs.obs[k] = src.obs[k]
    for i, (_, (t, x, h)) in enumerate(rows):
        obs.obs["lon"][i], obs.obs["lat"][i] = 20 + x, 30
        for c in ("e", "s"):
            lon, lat = square(20 + x, 30, h)
            obs.obs[f"contour_lon_{c}"][i], obs.obs[f"contour_lat_{c}"][i] = lon, lat
    return obs


def close_space(tier):
    # networks of other: presence at each date at place of self (P), shifted by half of size (H), far (F), absent (-)
    shapes = ["".join(c) for n in (1, 2, 3) for c in product("PHF-", repeat=n) if set(c) != {"-"} and c[-1] != "-" and c[0] != "-"]
    for c in product(shapes, repeat=1 if tier == "quick" else 2):
        for start in (0, 1, 5):
            yield (c, start)
    if tier == "quick":
        for c in combinations([s for s in shapes if len(s) > 1 and "-" not in s], 2):
            yield (c, 0)


def close_run(ctx, payload):
    shapes, start = payload
    self_net = [[(t, 0, 1) for t in range(3)], [(t, 10, 1) for t in range(1, 4)]]
    A = close_set(self_net, (1, 2))
    place = dict(P=0, H=1, F=40)
    nets = list()
    for k, shape in enumerate(shapes):
        nets.append([(start + t, place[c] + 10 * k, 1) for t, c in enumerate(shape) if c != "-"])
    # network always far
    nets.append([(t, 80, 1) for t in range(2)])
    ids = (1, 3, 4, 7)[: len(nets)]
    B = close_set(nets, ids)
    name = [int(v) for v in B.obs["amplitude"].tolist()]
    track = B.obs["track"].tolist()
    for overlap in (0.2, 0.9):
        count = Counter()
        for tr, net in zip(ids, nets):
            for t, x, _ in net:
                for k in self_net:
                    for t_, x_, _ in k:
                        # squares of 2 x 2 : shift of one gives 2 / 6
                        if t_ == t and abs(x - x_) <= 1 and (x == x_ or overlap < 1 / 3):
                            count[tr] += 1
        for nb in (1, 2, 3):
            got = [int(v) for v in A.close_network(B, nb_obs_min=nb, cmin=overlap).obs["amplitude"].tolist()]
            ctx.step()
            exp = [n for n, tr in zip(name, track) if count[tr] >= nb]
            ctx.check(got == exp, "close networks", lambda: f"{payload} {nb} {overlap}: {got} instead of {exp}")
            ctx.outcome(len(got), len(name))
            ctx.cover("no close network", not got)
            ctx.cover("close network", len(got) > 0)
            ctx.cover("part of networks", 0 < len(set(track[name.index(g)] for g in got)) < len(ids))
    ctx.cover("no common date", all(t > 3 for n in nets[:-1] for t, _, _ in n))
    ctx.state(payload)


SCENARIOS = [
    Scenario("identify", space, run, shards=32, bound="every pair of datasets of up to 2 networks among 13 contents, datasets of 3 networks among 3 (6) contents, networks and segments, two numberings", need=["nothing", "found", "all found"]),
    Scenario("close", close_space, close_run, shards=16, bound="other dataset: 1 (2) networks, each at the same place, shifted, far or absent at each of 3 dates, 3 starts, 3 minimal counts, 2 overlaps", need=["no close network", "close network", "part of networks", "no common date"]),
]
