# -*- coding: utf-8 -*-
"""C24: network groups are the connected components of the similarity graph"""
import os
import shutil
import warnings
from fractions import Fraction
from itertools import combinations, product

import numpy as np

from py_eddy_tracker.observations.network import Network
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations
from mc.core import Scenario, scratch
from mc.netfix import check_groups, components, eddies, similarity
from mc.obsfix import same, stored_error

ASSUMPTIONS = [
    "window is a number of files, files are in chronological order of their names",
    "identification files of one network have the same fields and same storage",
    "square contours (edges on a lattice) whose overlap ratio is never within rounding of the threshold",
]


def warm():
    run_place_one(None, [[(0, 0, 1, 0.5)], [(1, 0, 1, 0.5)]], 1, dict(min_overlap=0.2), False, 0.0)


# ------------------------------------------------------- every graph of pairs
def graph_space(tier):
    sizes = [((1, 1, 1, 1), 3), ((2, 1, 2), 2), ((1, 3, 1), 2), ((2, 2, 1), 1), ((3, 2), 1), ((2, 2, 2), 1), ((1, 0, 2, 1), 2), ((1, 1, 1, 1), 2), ((2, 2, 2), 2), ((1, 2, 2, 1), 2), ((3, 3), 1)]
    if tier == "thorough":
        sizes += [((1,) * 5, 4), ((2, 3, 2), 1), ((1, 2, 2, 1), 3)]
    for s, window in sizes:
        edges = possible(s, window)
        block = max(len(edges) - 8, 0)
        for head in product((0, 1), repeat=block):
            yield (s, window, head)


def possible(sizes, window):
    out = list()
    for i in range(len(sizes)):
        for j in range(i + 1, min(i + window + 1, len(sizes))):
            out += [(i, j, a, b) for a in range(sizes[i]) for b in range(sizes[j])]
    return out


def graph_run(ctx, payload):
    sizes, window, head = payload
    edges = possible(sizes, window)
    start = np.cumsum([0] + list(sizes))
    n = int(start[-1])
    net = Network.from_eddiesobservations([None] * len(sizes), window=window)
    for tail in product((0, 1), repeat=len(edges) - len(head)):
        kept = [e for e, k in zip(edges, list(head) + list(tail)) if k]
        results = list()
        for i in range(len(sizes)):
            for j in range(i + 1, min(i + window + 1, len(sizes))):
                pair = [(a, b) for i_, j_, a, b in kept if (i_, j_) == (i, j)]
                results.append((i, j, np.array([a for a, _ in pair], dtype="i4"), np.array([b for _, b in pair], dtype="i4")))
        pairs = [(int(start[i]) + a, int(start[j]) + b) for i, j, a, b in kept]
        for order in (1, -1):
            # names of groups are free, not the groups
            got = net.get_group_array([(i, j, a[::order], b[::order]) for i, j, a, b in results], list(sizes))
            ctx.step()
            check_groups(ctx, got, n, pairs, f"{payload}")
        ctx.outcome(str(got))
        ctx.cover("all linked", len(set(map(int, got))) == 1 and n > 2 and len(pairs) > 0)
        ctx.cover("cycle", len(pairs) > n)
        ctx.state(str(sizes), window, str(kept))


# ---------------------------------------------------- translation of identifiers
def duo_space(tier):
    n = 5 if tier == "quick" else 6
    pairs = list(combinations(range(n), 2))
    for k in range(len(pairs) + 1 if tier == "thorough" else 6):
        for c in combinations(pairs, k):
            yield (n, c)


def duo_run(ctx, payload):
    n, duos = payload
    for values in (list(map(tuple, duos)), [(b, a) for a, b in duos], list(map(tuple, duos))[::-1]):
        got = Network.group_translator(n, set(values))
        ctx.step()
        comp = components(n, duos)
        ctx.check(len(got) == n, "translator size", f"{payload} {got}")
        for i in range(n):
            for j in range(i):
                ctx.check((got[i] == got[j]) == (comp[i] == comp[j]), "translator", lambda: f"{values}: {got}")
            ctx.check(comp.count(comp[i]) > 1 or got[i] == i, "translator alone", lambda: f"{values}: {got}")
    ctx.cover("joined", len(duos) > 1)
    ctx.state(str(duos))
    ctx.outcome(str(got))


# ---------------------------------------------------------------- placements
# (x, y, half size of effective contour, of speed contour)
CELL = [(0, 0, 2, 0.5), (1, 0, 2, 0.5), (3, 0, 2, 1.5), (5, 0, 2, 0.5), (1, 0, 1, 0.5)]
OPTIONS = [dict(min_overlap=0.2), dict(min_overlap=0.5), dict(min_overlap=0.5, minimal_area=True), dict(min_overlap=0.7, hybrid_area=True), dict()]


def layouts(nb):
    return [list(c) for k in range(nb + 1) for c in combinations(range(len(CELL)), k)]


def place_space(tier):
    few = [l for l in layouts(1)] + [[0, 3], [0, 4], [1, 3]]
    for s in product(few, repeat=3):
        yield (s, (1, 2), 0.0)
    for s in product([[], [0], [2], [3], [0, 3]], repeat=4):
        yield (s, (1, 2, 3) if tier == "thorough" else (2,), 0.0)
    # on both sides of origin of longitude
    for s in product([[0], [1], [2], [0, 3]], repeat=3):
        for lon0 in (358.0, -181.0):
            yield (s, (2,), lon0)
    if tier == "thorough":
        for s in product(layouts(2), repeat=3):
            yield (s, (1, 2), 0.0)


CACHE = dict()


def dataset(date, items, lon0=0.0):
    key = date, tuple(items), lon0
    if key not in CACHE:
        obs = eddies(date, items, lon0=lon0)
        if lon0:
            # each eddy has its longitude in [0, 360[ or [-180, 180[
            ref = 0 if lon0 > 0 else -180
            turn = np.floor((obs.obs["lon"] - ref) / 360) * 360
            obs.obs["lon"] -= turn
            for f in ("contour_lon_e", "contour_lon_s"):
                obs.obs[f] = (obs.obs[f].T - turn).T
        CACHE[key] = obs
    return CACHE[key]


def run_place_one(ctx, rows, window, options, intern, lon0):
    files = [dataset(100 + k, r, lon0) for k, r in enumerate(rows)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = Network.from_eddiesobservations(files, window=window, intern=intern).group_observations(**options)
    flat = [(k, item) for k, r in enumerate(rows) for item in r]
    pairs = list()
    opt = dict(options)
    opt["min_overlap"] = Fraction(opt.get("min_overlap", 0.2)).limit_denominator(100)
    for i, (k0, a) in enumerate(flat):
        for j, (k1, b) in enumerate(flat):
            if k0 < k1 <= k0 + window and similarity(a, b, intern, **opt):
                pairs.append((i, j))
    if ctx is not None:
        ctx.step()
        check_groups(ctx, got, len(flat), pairs, f"{rows} window={window} {options} intern={intern} lon0={lon0}")
    return got, pairs


def place_run(ctx, payload):
    s, windows, lon0 = payload
    rows = [[CELL[i] for i in r] for r in s]
    for window in windows:
        for options in OPTIONS:
            for intern in (False, True):
                got, pairs = run_place_one(ctx, rows, window, options, intern, lon0)
                ctx.cover("groups", len(set(map(int, got)) - {0}) > 1)
                ctx.cover("across origin", lon0 != 0 and len(pairs) > 0)
                ctx.cover("speed contour", intern and len(pairs) > 0)
                if rows[1] == [] and window > 1:
                    ctx.cover("over an empty file", len(pairs) > 0)
        ctx.state(str(s), window, lon0)
        ctx.outcome(str(got))


# -------------------------------------------------------- files and histories
SETS = dict(
    a=[[0, 3], [1], [0, 3]],
    b=[[2], [0, 3, 4], [2]],
    c=[[0], [], [1, 3], [0]],
    d=[[], [], []],
)


def file_space(tier):
    sets = "abcd"
    # two networks successively built in the same folder
    for first, second in product(sets, sets):
        for i0, i1 in product((0, 1), (0, 1)):
            for fmt in ("nc", "zarr", "memory"):
                for raw in (True, False):
                    if tier == "quick" and fmt == "zarr" and not (raw and first + second in ("ab", "ca") and i0 != i1):
                        continue
                    if tier == "quick" and fmt == "memory" and not (raw and i0 != i1):
                        continue
                    yield (first, second, i0, i1, fmt, raw)


def file_run(ctx, payload):
    first, second, i0, i1, fmt, raw = payload
    zarr, memory = fmt == "zarr", fmt == "memory"
    ext = "zarr" if zarr else "nc"
    folder = scratch()
    for rank, (name, intern) in enumerate(((first, i0), (second, i1))):
        for old in os.listdir(folder):
            path = os.path.join(folder, old)
            if os.path.isdir(path):
                shutil.rmtree(path)
            else:
                os.remove(path)
        rows = [[CELL[i] for i in r] for r in SETS[name]]
        sources = list()
        # files are not created in their order
        for k in sorted(range(len(rows)), key=lambda k: (k * 2 + 1) % len(rows)):
            obs = eddies(100 + k, rows[k], salt=10 * k + 3 * rank)
            sources.append((k, obs))
            obs.write_file(filename=os.path.join(folder, f"day_{k}.{ext}"))
        sources = [o for _, o in sorted(sources, key=lambda v: v[0])]
        window = 2
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            net = Network(os.path.join(folder, f"day_*.{ext}"), window=window, intern=bool(intern), memory=memory)
            group = net.group_observations(min_overlap=0.2)
            ctx.step()
        flat = [(k, i) for k, r in enumerate(rows) for i in range(len(r))]
        pairs = [
            (a, b)
            for a, (k0, i) in enumerate(flat)
            for b, (k1, j) in enumerate(flat)
            if k0 < k1 <= k0 + window and similarity(rows[k0][i], rows[k1][j], bool(intern), min_overlap=Fraction(1, 5))
        ]
        check_groups(ctx, group, len(flat), pairs, f"{payload} {name} intern={intern}")
        ctx.cover("not the first build", rank)
        built = net.build_dataset(group, raw_data=raw)
        ctx.step()
        ctx.check(type(built) is TrackEddiesObservations and len(built) == len(flat), "built size", f"{payload} {len(built)}")
        if not flat:
            continue
        # through a file, as command line tool does
        if raw:
            out = os.path.join(folder, f"network.{ext}")
            built.write_file(filename=out)
            built = TrackEddiesObservations.load_file(out)
        g = [int(v) for v in built.track]
        ctx.check(g == sorted(g), "groups order", lambda: f"{payload}: {g}")
        t = built.time
        ctx.check(all(g[i] != g[i + 1] or t[i] <= t[i + 1] for i in range(len(g) - 1)), "dates order", lambda: f"{payload}: {g} {t}")
        ctx.check(built.sign_type == sources[-1].sign_type, "sign type", f"{payload}")
        # each eddy is present once
        exp = sorted(range(len(flat)), key=lambda i: (int(group[i]), flat[i][0], flat[i][1]))
        ctx.check(g == [int(group[i]) for i in exp], "group of eddy", lambda: f"{payload}: {g} {group}")
        for f in sources[0].fields:
            ref = np.array([sources[flat[i][0]].obs[f][flat[i][1]] for i in exp])
            err = stored_error(f, ref, built.obs[f])
            ctx.check(err is None, "values", lambda: f"{payload} {f} {err}: {built.obs[f]} {ref}")
        ctx.state(*map(str, payload), rank)
        ctx.outcome(str(g))
    shutil.rmtree(folder)


SCENARIOS = [
    Scenario("graph", graph_space, graph_run, shards=16, bound="every graph of pairs for 11 (14) partitions of up to 6 (7) eddies in files, windows 1 to 3 (4), two orders", need=["all linked", "cycle"]),
    Scenario("names", duo_space, duo_run, shards=4, bound="every set of up to 5 (every) pairs of 5 (6) names", need=["joined"]),
    Scenario("placement", place_space, place_run, shards=16, bound="every placement over a lattice for 3-4 dates, 5 options of similarity, both contours, windows 1-2 (3)", need=["groups", "across origin", "speed contour", "over an empty file"]),
    Scenario("files", file_space, file_run, shards=8, bound="every history of two networks built from files in a folder, both contours, 3 ways to read files", need=["not the first build"]),
]
