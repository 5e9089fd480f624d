# -*- coding: utf-8 -*-
"""C25: splitting a network gives disjoint segments in time order and mutual links"""
import os
import shutil
import sys
from fractions import Fraction
from itertools import combinations, product

import numpy as np

from py_eddy_tracker.observations.network import NetworkObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
from mc.core import Scenario, scratch
from mc.netfix import components, eddies, similarity
from mc.obsfix import same, table

ASSUMPTIONS = [
    "observations are sorted by group then by time, dates are multiple of time step of dataset (median of gaps between its dates), shifted by less than a step",
    "square contours whose overlap ratio is never within rounding of the threshold",
    "among observations with the same similarity any one could be chosen",
]
# (x, y, half size of effective contour, of speed contour)
CELL = [(0, 0, 2, 1), (1, 0, 2, 1), (3, 0, 2, 1.5), (5, 0, 2, 1), (1, 1, 1, 0.5)]
OPTIONS = [
    (dict(min_overlap=0.2), False),
    (dict(min_overlap=0.2), True),
    (dict(min_overlap=0.5, minimal_area=True), False),
    (dict(min_overlap=0.3, hybrid_area=True), False),
    (dict(), False),
]


def layouts(nb, low=0):
    return [list(c) for k in range(low, nb + 1) for c in combinations(range(len(CELL)), k)]


def dataset(rows, dates, groups, trash=True):
    """All observations sorted by group and time, group 0 has one observation by date"""
    items = list()
    for k, r in enumerate(rows):
        if trash:
            items.append((0, k, (60, 10 * k, 1, 0.5)))
        for i, c in enumerate(r):
            items.append((groups(k, i), k, CELL[c]))
    items = sorted(items, key=lambda v: v[:2])
    obs = eddies(0, [v[2] for v in items], kind="track")
    obs.obs["time"] = [dates[v[1]] for v in items]
    obs.obs["track"] = [v[0] for v in items]
    obs.obs["n"] = 0
    obs.obs["virtual"] = 0
    return obs, items


SIM = dict()


def sim(a, b, options, intern):
    key = a, b, str(options), intern
    if key not in SIM:
        opt = dict(options)
        opt["min_overlap"] = Fraction(opt.get("min_overlap", 0.2)).limit_denominator(100)
        SIM[key] = similarity(a, b, intern, **opt)
    return SIM[key]


def near(stored, ratio):
    return abs(float(stored) - float(ratio)) < 1e-5


def check_split(ctx, group, rank, cells, links, window, options, intern, what):
    """
    :param group,rank,cells: group, date (in steps) and shape of each observation
    :param links: segment, next, previous, next_cost, previous_cost
    """
    seg, nxt, prv, cn, cp = ([v.item() for v in np.asarray(a)] for a in links)
    n = len(group)
    members = dict()
    for i in range(n):
        if group[i] == 0:
            ctx.check(seg[i] == 0 and nxt[i] == -1 and prv[i] == -1, "observation without network", lambda: f"{what} {links}")
            continue
        ctx.check(seg[i] >= 1, "segment", lambda: f"{what}: {seg}")
        members.setdefault((group[i], seg[i]), list()).append(i)

    def best(i, forward):
        """best similarity at first date with an overlap : cost, observations with this cost"""
        for step in range(1, window + 1):
            t = rank[i] + (step if forward else -step)
            c = {j: sim(cells[i], cells[j], options, intern) for j in range(n) if group[j] == group[i] and rank[j] == t}
            top = max(c.values(), default=0)
            if top:
                return top, [j for j in c if c[j] == top]
        return 0, []

    for i in range(n):
        if group[i] == 0:
            continue
        for target, cost, sign, name in ((nxt[i], cn[i], 1, "next"), (prv[i], cp[i], -1, "previous")):
            if target == -1:
                continue
            ctx.check(0 <= target < n and group[target] == group[i], "link out of network", lambda: f"{what} {name} of {i}: {target}")
            d = (rank[target] - rank[i]) * sign
            ctx.check(1 <= d <= window, "link out of window", lambda: f"{what} {name} of {i}: {target} at {d}")
            s = sim(cells[i], cells[target], options, intern)
            ctx.check(s > 0, "link without overlap", lambda: f"{what} {name} of {i}: {target}")
            ctx.check(near(cost, s), "cost", lambda: f"{what} {name} of {i}: {target} {cost} instead of {float(s)}")
        # forward link is the best one
        top, candidates = best(i, True)
        if top == 0:
            ctx.check(nxt[i] == -1 and cn[i] == 0, "no continuation", lambda: f"{what} next of {i}: {nxt[i]}")
        else:
            ctx.check(nxt[i] in candidates, "best continuation", lambda: f"{what} next of {i}: {nxt[i]} not in {candidates}")
        back = [j for j in range(n) if nxt[j] == i]
        if back:
            c = {j: sim(cells[i], cells[j], options, intern) for j in back}
            ctx.check(prv[i] in back and near(c[prv[i]], max(c.values())), "best origin", lambda: f"{what} previous of {i}: {prv[i]} among {c}")
            ctx.check(seg[prv[i]] == seg[i], "segment goes on with best origin", lambda: f"{what} {i}: {seg}")
            ctx.cover("merging", len(back) > 1)
        else:
            top, candidates = best(i, False)
            if top == 0:
                ctx.check(prv[i] == -1 and cp[i] == 0, "no origin", lambda: f"{what} previous of {i}: {prv[i]}")
            else:
                ctx.check(prv[i] in candidates, "origin", lambda: f"{what} previous of {i}: {prv[i]} not in {candidates}")
                ctx.cover("splitting")
    for rows in members.values():
        rows.sort(key=lambda i: rank[i])
        for a, b in zip(rows[:-1], rows[1:]):
            ctx.check(rank[a] < rank[b], "two observations of segment at same date", lambda: f"{what}: {seg}")
            ctx.check(nxt[a] == b and prv[b] == a, "segment is not a chain", lambda: f"{what}: {seg} {nxt} {prv}")
            ctx.cover("gap", rank[b] - rank[a] > 1)
        first, last = rows[0], rows[-1]
        ctx.check(prv[first] == -1 or seg[prv[first]] != seg[first], "start", lambda: f"{what}: {seg} {prv}")
        ctx.check(nxt[last] == -1 or seg[nxt[last]] != seg[last], "end", lambda: f"{what}: {seg} {nxt}")
    ctx.cover("segments", len(members) > 2)
    return members


def build_space(tier):
    if tier == "quick":
        for s in product(layouts(2, 1), repeat=2):
            for third in layouts(2, 1)[::1]:
                yield (list(s) + [third], (1, 2))
        for s in product([[], [0], [2], [0, 3], [1, 4]], repeat=4):
            yield (list(s), (2, 3))
    else:
        for s in product(layouts(2), repeat=3):
            yield (list(s), (1, 2))
        for s in product([[], [0], [2], [3], [0, 3], [1, 4], [0, 2, 3]], repeat=4):
            yield (list(s), (1, 2, 3))
        for s in product(layouts(3, 3), repeat=3):
            yield (list(s), (1, 2))


DATES = [[100, 101, 102, 103], [10.5, 11.5, 12.5, 13.5], [0, 5, 10, 15], [20000.25, 20000.5, 20000.75, 20001.0]]


def build_run(ctx, payload):
    rows, windows = payload
    if not any(rows):
        return
    h = sum(len(r) * (i + 1) + sum(r) for i, r in enumerate(rows))
    for window in windows:
        for k, (options, intern) in enumerate(OPTIONS):
            dates = DATES[(h + k) % len(DATES)]
            trash = (h + k + window) % 3 != 0 or len(rows) < 3 or any(not r for r in rows)
            # all in one group, or in their components
            flat = [(t, i) for t, r in enumerate(rows) for i in range(len(r))]
            if (h + window) % 2:
                groups = lambda t, i: 3
            else:
                pairs = [
                    (a, b)
                    for a, (t0, i) in enumerate(flat)
                    for b, (t1, j) in enumerate(flat)
                    if t0 < t1 <= t0 + window and sim(CELL[rows[t0][i]], CELL[rows[t1][j]], options, intern)
                ]
                comp = components(len(flat), pairs)
                alone = {i for i in range(len(flat))} - {i for p in pairs for i in p}
                label = {p: 0 if a in alone else 1 + 2 * comp[a] for a, p in enumerate(flat)}
                groups = lambda t, i: label[(t, i)]
            obs, items = dataset(rows, dates, groups, trash)
            ref = table(obs)
            got = obs.split_network(intern=intern, window=window, **options)
            ctx.step()
            what = f"{rows} window={window} {options} intern={intern} dates={dates}"
            group, rank, cells = [v[0] for v in items], [v[1] for v in items], [v[2] for v in items]
            ctx.check([int(g) for g in got["group"]] == group, "group", lambda: f"{what} {got['group']}")
            ctx.check(all(same(obs.obs[f], ref[f]) for f in ref), "source", what)
            members = check_split(ctx, group, rank, cells, (got["track"], got["next_obs"], got["previous_obs"], got["next_cost"], got["previous_cost"]), window, options, intern, what)
            # dataset of network
            net = NetworkObservations.from_split_network(obs, got)
            ctx.step()
            n = len(items)
            ctx.check(type(net) is NetworkObservations and len(net) == n and net.sign_type == obs.sign_type, "network", what)
            key = list(zip(net.track.tolist(), net.segment.tolist(), net.time.tolist()))
            ctx.check(key == sorted(key), "order of network", lambda: f"{what} {key}")
            # each observation is once, recognised by its amplitude
            amp = ref["amplitude"].tolist()
            new = [amp.index(v) for v in net.amplitude.tolist()]
            ctx.check(sorted(new) == list(range(n)), "observations of network", lambda: f"{what} {new}")
            for f in ref:
                if f in net.fields:
                    ctx.check(same(net.obs[f], ref[f][new]), "values of network", lambda: f"{what} {f}")
            check_split(
                ctx, [group[i] for i in new], [rank[i] for i in new], [cells[i] for i in new],
                (net.segment, net.next_obs, net.previous_obs, net.next_cost, net.previous_cost), window, options, intern, "network " + what,
            )
            ctx.check([int(s) for s in net.segment] == [int(got["track"][i]) for i in new], "segments of network", what)
            ctx.cover("groups", len(set(group) - {0}) > 1)
            ctx.state(str(rows), window, k)
            ctx.outcome(str(got["track"]), str(got["next_obs"]))


# --------------------------------------------------------- command line tools
def tool_space(tier):
    for rows in ([[0, 3], [1], [0, 3], [2]], [[0], [2], [0, 3], [1, 4]], [[2], [], [2, 4], [0, 3], [1]]):
        for window in (1, 2):
            for option in range(4 if tier == "thorough" else 3):
                for ext in ("nc", "zarr") if tier == "thorough" else ("nc",):
                    yield (rows, window, option, ext)


def tool_run(ctx, payload):
    """Identification files -> groups -> segments with command line tools"""
    from py_eddy_tracker.appli.network import build_network, divide_network

    rows, window, option, ext = payload
    options, intern = OPTIONS[option]
    args = ["--window", str(window), "--min-overlap", str(options["min_overlap"])]
    args += ["--minimal-area"] if options.get("minimal_area") else []
    args += ["--hybrid-area"] if options.get("hybrid_area") else []
    args += ["--intern"] if intern else []
    folder = scratch()
    argv = sys.argv
    try:
        for k, r in enumerate(rows):
            eddies(100 + k, [CELL[c] for c in r], salt=10 * k).write_file(filename=os.path.join(folder, f"day_{k}.{ext}"))
        groups, out = os.path.join(folder, f"groups.{ext}"), os.path.join(folder, f"network.{ext}")
        sys.argv = ["EddyNetworkGroup", os.path.join(folder, f"day_*.{ext}"), groups] + args
        build_network()
        ctx.step()
        sys.argv = ["EddyNetworkBuildPath", groups, out] + args
        divide_network()
        ctx.step()
        net = NetworkObservations.load_file(out)
    finally:
        sys.argv = argv
        shutil.rmtree(folder)
    flat = [(t, c) for t, r in enumerate(rows) for c in r]
    ctx.check(len(net) == len(flat), "size", f"{payload} {len(net)}")
    rank = [int(t - 100) for t in net.time]
    cells = list()
    for i in range(len(net)):
        x, y, half = net.lon[i], net.lat[i], net.contour_lon_e[i].max() - net.lon[i]
        match = [c for c in CELL if abs(c[0] - x) < 0.01 and abs(c[1] - y) < 0.01 and abs(c[2] - half) < 0.02]
        ctx.check(len(match) == 1, "eddy", f"{payload} {x} {y} {half}")
        cells.append(match[0])
    ctx.check(sorted((t, CELL.index(c)) for t, c in zip(rank, cells)) == sorted(flat), "eddies", f"{payload}")
    pairs = [(a, b) for a in range(len(net)) for b in range(len(net)) if rank[a] < rank[b] <= rank[a] + window and sim(cells[a], cells[b], options, intern)]
    comp = components(len(net), pairs)
    linked = {i for p in pairs for i in p}
    group = net.track.tolist()
    for i in range(len(net)):
        ctx.check((group[i] != 0) == (i in linked), "alone", lambda: f"{payload} {group}")
        for j in linked & set(range(i)):
            ctx.check(i not in linked or (comp[i] == comp[j]) == (group[i] == group[j]), "groups", lambda: f"{payload} {group}")
    # links must be recomputed from stored files
    stored = (net.segment, net.next_obs, net.previous_obs, net.next_cost, net.previous_cost)
    check_split(ctx, group, rank, cells, stored, window, options, intern, f"{payload}")
    ctx.state(*map(str, payload))
    ctx.outcome(str(group), str(net.segment))


SCENARIOS = [
    Scenario("split", build_space, build_run, shards=32, bound="every placement of 1-2 (0-3) eddies by date for 3 dates, 0-2 (0-3) for 4 dates on a lattice, windows 1-3, 5 ways to compute similarity, 4 samplings of time, one or several networks",
             need=["merging", "splitting", "gap", "segments", "groups"]),
    Scenario("tools", tool_space, tool_run, shards=8, bound="3 histories from identification files to network with command line tools, 2 windows, 3 (4) ways to compute similarity"),
]
