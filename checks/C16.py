# -*- coding: utf-8 -*-
"""C16: selections keep exactly the requested observations, in order and complete"""
from itertools import combinations, permutations, product

import numpy as np

from mc.core import Fail, Scenario
from mc.obsfix import CONTOURS, make, same, table

ASSUMPTIONS = [
    "index arrays given to filters hold valid indexs, without repetition",
    "positions exactly on the side of an area could be in or out, but in the same way at k*360",
]

KINDS = ("eddies", "track", "network")
CACHE = dict()


def source(kind, size):
    key = kind, size
    if key not in CACHE:
        obs = make(kind, size, extra=["eke"], arrays=CONTOURS, nb_sample=2, sign=-1)
        if kind != "eddies":
            # a track by observation: identifiers of class are valid ones
            obs.obs["track"] = np.arange(size) + 1
        if kind == "network":
            # without link between observations (C26 is about them)
            obs.obs["next_obs"], obs.obs["previous_obs"] = -1, -1
        if kind != "eddies":
            if "n" in obs.fields:
                obs.obs["n"] = 0
        CACHE[key] = obs, table(obs)
    return CACHE[key]


def agree(got, obs, ref, index, kind):
    """got must be the rows listed in index"""
    if type(got) is not type(obs):
        raise Fail("class", f"{type(got)}")
    if got.sign_type != obs.sign_type:
        raise Fail("sign", f"{obs.sign_type} -> {got.sign_type}")
    if sorted(got.fields) != sorted(ref):
        raise Fail("fields", f"{sorted(got.fields)}")
    if len(got) != len(index):
        raise Fail("size", f"{len(got)} observations instead of {len(index)}")
    index = np.array(index, dtype=int)
    for n in ref:
        if not same(got.obs[n], ref[n][index]):
            raise Fail("value", f"{n}: {got.obs[n].ravel()[:6]} instead of {ref[n][index].ravel()[:6]}")
        if got.obs[n].dtype != obs.obs[n].dtype:
            raise Fail("type", f"{n}")
        if not same(obs.obs[n], ref[n]):
            raise Fail("source", f"{n} of source has changed")
    if len(index) and np.shares_memory(got.obs, obs.obs):
        raise Fail("shared", "selection and source share memory")


# ---------------------------------------------------------------- index
def space_index(tier):
    top = 4 if tier == "quick" else 5
    for kind in KINDS:
        for size in range(1, top + 1):
            ends = [None] + list(range(-size - 1, size + 2))
            for start, stop, step in product(ends, ends, (None, 1, 2, 3) if tier == "quick" else (None, 1, 2, 3, -1, -2)):
                yield [kind, size, "slice", [start, stop, step]]
            for i in range(-size, size):
                yield [kind, size, "int", i]
                yield [kind, size, "npint", i]
            for code in range(2 ** size):
                mask = [bool((code >> i) & 1) for i in range(size)]
                yield [kind, size, "mask", mask]
                yield [kind, size, "with_mask", mask]
            for nb in range(0, size + 1):
                for sub in permutations(range(size), nb):
                    yield [kind, size, "array", list(sub)]
                    yield [kind, size, "list", list(sub)]
                for sub in combinations(range(size), nb):
                    yield [kind, size, "reverse", list(sub)]
            yield [kind, size, "array", [0, 0, size - 1]]
            yield [kind, size, "array", [-1, 0]]


def run_index(ctx, p):
    kind, size, mode, value = p
    obs, ref = source(kind, size)
    rows = list(range(size))
    if mode == "slice":
        sl = slice(*value)
        got, expected = obs.index(sl), rows[sl]
    elif mode in ("int", "npint"):
        got, expected = obs.index(value if mode == "int" else np.int64(value)), [rows[value]]
    elif mode == "mask":
        got, expected = obs.index(np.array(value, dtype=bool)), [i for i in rows if value[i]]
    elif mode == "with_mask":
        got, expected = obs.extract_with_mask(np.array(value, dtype=bool)), [i for i in rows if value[i]]
    elif mode == "array":
        got, expected = obs.index(np.array(value, dtype=int)), [rows[i] for i in value]
    elif mode == "list":
        if not value:
            return
        got, expected = obs.index(value), value
    else:
        got, expected = obs.index(np.array(value, dtype=int), reverse=True), [i for i in rows if i not in value]
    ctx.step()
    agree(got, obs, ref, expected, kind)
    ctx.cover(mode)
    ctx.state(*map(str, p))
    ctx.outcome(kind, size, tuple(expected))


# ---------------------------------------------------------------- combination of filters
def pool(size, tier):
    out = [["none"]]
    for code in range(2 ** size):
        out.append(["mask", [(code >> i) & 1 for i in range(size)]])
        out.append(["index", [i for i in range(size) if (code >> i) & 1]])
    out.append(["index", list(range(size))[::-1]])
    for sl in ([None, None], [0, None], [1, None], [None, -1], [1, size - 1], [0, 0], [None, 2], [size - 1, None], [2, 9]):
        out.append(["slice", sl])
    out.append(["slice", [None, None, 2]])
    out += [["call-mask", [1, 0] * size], ["call-slice", [1, None]], ["call-index", [0, size - 1]], ["call-none"]]
    return out


def build(f, size):
    name = f[0].replace("call-", "")
    if name == "none":
        v, keep = None, list(range(size))
    elif name == "mask":
        v = np.array(f[1][:size], dtype=bool)
        keep = [i for i in range(size) if f[1][i]]
    elif name == "index":
        v, keep = np.array(f[1], dtype=int), list(f[1])
    else:
        v = slice(*f[1])
        keep = list(range(size))[v]
    if f[0].startswith("call-"):
        value = v
        v = lambda obs: value  # noqa
    return v, keep


def space_filter(tier):
    size = 3
    p = pool(size, tier)
    for a in p:
        yield [size, [a], "args"]
        yield [size, [a], "list"]
    for a, b in product(p, p):
        yield [size, [a, b], "args"]
        if tier == "thorough":
            yield [size, [a, b], "list"]
    # three and four: one of each family
    small = [f for i, f in enumerate(p) if f[0] in ("none", "slice") or i % (3 if tier == "thorough" else 5) == 0]
    for f in product(small, small, small):
        yield [size, list(f), "list"]
    tiny = [["mask", [1, 1, 0]], ["index", [0, 2]], ["slice", [1, None]], ["none"], ["slice", [None, 2]], ["mask", [0, 1, 1]]]
    for f in product(tiny, repeat=4):
        yield [size, list(f), "args"]
    if tier == "thorough":
        p = pool(4, tier)
        for a, b in product(p, p):
            yield [4, [a, b], "args"]


def run_filter(ctx, p):
    size, filters, mode = p
    obs, ref = source("eddies", size)
    built = [build(f, size) for f in filters]
    args = [b[0] for b in built]
    copies = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
    got = obs.merge_filters(*args) if mode == "args" else obs.merge_filters(list(args))
    ctx.step()
    for a, b in zip(args, copies):
        if isinstance(a, np.ndarray) and not same(a, b):
            raise Fail("argument", "a filter has been modified")
    keep = set(range(size))
    for b in built:
        keep &= set(b[1])
    rows = np.arange(size)[got]
    if len(set(rows.tolist())) != rows.size or set(rows.tolist()) != keep:
        raise Fail("filter", f"{rows.tolist()} selected instead of {sorted(keep)}")
    # order is the one of storage, except when the user gives another one
    if all(list(b[1]) == sorted(b[1]) for b in built) and rows.tolist() != sorted(keep):
        raise Fail("filter-order", f"{rows.tolist()}")
    ctx.step()
    agree(obs.index(got), obs, ref, rows.tolist(), "eddies")
    ctx.cover("+".join(sorted({f[0] for f in filters})) if len(filters) < 3 else "three or more")
    ctx.state(str(p))
    ctx.outcome(tuple(sorted(keep)), type(got).__name__)


# ---------------------------------------------------------------- area
LON = [-10.0, -1.0, 0.0, 3.0, 10.0, 179.0, 181.0, 357.0]
LAT = [-20.0, -5.0, 0.0, 5.0, 20.0]


def space_area(tier):
    lons = [-15.0, -9.0, -0.5, 2.0, 4.0, 9.0, 11.0, 178.0, 180.0, 182.0, 356.0]
    if tier == "thorough":
        lons += [-170.0, 100.0, 345.0]
    for lon0 in lons:
        for width in (1.5, 5.0, 12.0, 25.0, 180.0, 359.5, 360.0):
            for lat0, lat1 in ((-90, 90), (-6, 6), (1, 21), (None, None), (-4, None), (None, 4)):
                for k in (-360, 0, 360):
                    yield [lon0 + k, width, lat0, lat1]


def run_area(ctx, p):
    lon0, width, lat0, lat1 = p
    area = dict(llcrnrlon=lon0, urcrnrlon=lon0 + width)
    if lat0 is not None:
        area["llcrnrlat"] = lat0
    if lat1 is not None:
        area["urcrnrlat"] = lat1
    results = list()
    nb = len(LON) * len(LAT)
    for kind in ("eddies", "track"):
        for k in (-360, 0, 360, "mix"):
            obs, _ = source(kind, nb)
            obs = obs.copy()
            x, y = np.meshgrid(LON, LAT)
            x, y = x.ravel(), y.ravel()
            x = x + (360 * (np.arange(nb) % 3 - 1) if k == "mix" else k)
            obs.obs["lon"], obs.obs["lat"] = x, y
            ref = table(obs)
            given = area.copy()
            got = obs.extract_with_area(given)
            ctx.step()
            if given != area:
                raise Fail("argument", "area has been modified")
            keep, border = list(), set()
            for i in range(nb):
                d = (x[i] - lon0) % 360
                ilat = (lat0 is None or y[i] > lat0) and (lat1 is None or y[i] < lat1)
                if (d in (0.0, width) or (360.0 - d) < 1e-6) and ilat:
                    border.add(i)
                elif d < width and ilat:
                    keep.append(i)
            if border:
                # bounds: only the consistency is checked
                rows = [int(np.flatnonzero(ref["time"] == t)[0]) for t in got.obs["time"]]
                if set(rows) - border != set(keep) or rows != sorted(rows):
                    raise Fail("area", f"{rows} instead of {keep} (or {border}), shift {k}")
                keep = rows
                ctx.cover("on a side")
            agree(got, obs, ref, keep, kind)
            results.append(tuple(keep))
    if len(set(results)) != 1:
        raise Fail("area-convention", f"{results}")
    ctx.cover("all" if len(keep) == nb else "empty" if not keep else "some")
    ctx.state(*map(str, p))
    ctx.outcome(results[0])


# ---------------------------------------------------------------- time
def space_time(tier):
    times = [100, 101, 103, 103, 106] if tier == "quick" else [100, 101, 103, 103, 106, 110]
    for order in sorted(set(permutations(times))) if tier == "thorough" else [times, times[::-1], times[2:] + times[:2]]:
        for p0 in [0, 1, 100, 101, 102, 103, 107, -1, -2, -6]:
            for p1 in [0, 100, 102, 103, 106, 200, -1, -3, -6]:
                yield ["period", list(order), p0, p1]
        for t0, step in product((100, 101, 90, 103.5), (1, 2, 3, 5)):
            yield ["sample", list(order), t0, step]


def run_time(ctx, p):
    mode, times, a, b = p
    nb = len(times)
    for kind in ("eddies", "track") if mode == "sample" else ("track",):
        obs, _ = source(kind, nb)
        obs = obs.copy()
        obs.obs["time"] = times
        ref = table(obs)
        if mode == "sample":
            got = obs.time_sub_sample(a, b)
            keep = [i for i, t in enumerate(times) if (t - a) % b == 0]
        else:
            got = obs.extract_with_period((a, b))
            # negative bounds are relative to dates of dataset, 0 isn't used
            low = a if a > 0 else min(times) - a if a < 0 else -1e9
            high = b if b > 0 else max(times) + b if b < 0 else 1e9
            keep = [i for i, t in enumerate(times) if low <= t <= high]
        ctx.step()
        agree(got, obs, ref, keep, kind)
    ctx.cover(mode)
    ctx.state(*map(str, p))
    ctx.outcome(tuple(keep))


# ---------------------------------------------------------------- fields
def space_fields(tier):
    names = ["lon", "amplitude", "time", "eke", "contour_lon_s", "contour_lat_e"]
    for kind in KINDS:
        for size in (0, 3):
            for nb in range(0, len(names) + 1):
                for sub in combinations(names, nb):
                    yield [kind, size, list(sub)]


def run_fields(ctx, p):
    kind, size, sub = p
    obs, ref = source(kind, size)
    got = obs.remove_fields(*sub)
    ctx.step()
    if set(got.fields) != set(ref) - set(sub):
        raise Fail("remove", f"{sorted(set(ref) - set(got.fields))} removed instead of {sub}")
    if len(got) != size or got.sign_type != obs.sign_type or type(got) is not type(obs):
        raise Fail("remove-shape", f"{len(got)} {got.sign_type}")
    for n in got.fields:
        if not same(got.obs[n], ref[n]):
            raise Fail("remove-value", n)
        if size and np.shares_memory(got.obs[n], obs.obs[n]):
            raise Fail("shared", n)
    for n in ref:
        if not same(obs.obs[n], ref[n]):
            raise Fail("source", n)
    ctx.state(*map(str, p))
    ctx.outcome(kind, tuple(sub))
    # then a selection on the result
    if size:
        r = got.index(np.array([2, 0]))
        ctx.step()
        for n in got.fields:
            if not same(r.obs[n], ref[n][[2, 0]]):
                raise Fail("remove-index", n)


SCENARIOS = [
    Scenario("index", space_index, run_index, shards=8,
             need=("slice", "int", "npint", "mask", "with_mask", "array", "list", "reverse"),
             bound="up to 4 (5) observations: every slice, mask, ordered index list, complementary list; 3 classes"),
    Scenario("filter", space_filter, run_filter, shards=8, need=("three or more", "slice", "index+mask", "mask+slice"),
             bound="3 (4) observations: every pair of filters (masks, index, slices, callables, None), families of three and four"),
    Scenario("area", space_area, run_area, shards=8, need=("all", "empty", "some", "on a side"),
             bound="40 positions x 11 west sides x 7 widths x 6 latitude ranges, area and positions shifted by k*360"),
    Scenario("time", space_time, run_time, shards=4, need=("period", "sample"),
             bound="5 (6) dates, every pair of bounds of an alphabet (absolute, relative, unused); sampling"),
    Scenario("fields", space_fields, run_fields, shards=4, bound="every subset of 6 fields removed, 3 classes"),
]
