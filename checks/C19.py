# -*- coding: utf-8 -*-
"""C19: gridded and binned statistics count each observation where it is"""
from itertools import combinations_with_replacement, permutations, product

import numpy as np

from py_eddy_tracker.dataset.grid import RegularGridDataset
from mc.core import Scenario
from mc.obsfix import make

ASSUMPTIONS = [
    "steps and positions are dyadic: a position on the side of two boxes belongs to the eastern/northern one, last bound could be included",
    "an observation out of a grid could be refused by grid_box_stat",
    "contours are narrower than half a turn and than the grid, no pixel center is on a contour",
    "values are finite",
]
CONT = dict(e=("contour_lon_e", "contour_lat_e"), s=("contour_lon_s", "contour_lat_s"))

# name: (lon bins, lat bins)
GRIDS = dict(
    regional=((-10, 30.5, 4), (30, 46.5, 4)),
    world=((0, 360.5, 20), (-80, 80.5, 20)),
    world180=((-180, 180.5, 20), (-80, 80.5, 20)),
    fine=((2, 8.25, 0.5), (-2, 2.25, 0.5)),
    coast=((345, 375.5, 2.5), (0, 20.5, 2.5)),
)


def edges(spec):
    start, stop, step = spec
    out = [start]
    while out[-1] + step < stop:
        out.append(out[-1] + step)
    return out


def box_of(value, bounds):
    """:return: indice of box or None, "last" when value is the last bound"""
    if value == bounds[-1]:
        return "last"
    for i, (a, b) in enumerate(zip(bounds[:-1], bounds[1:])):
        if a <= value < b:
            return i
    return None


def lon_box(lon, bounds):
    """Box whatever the convention of longitude"""
    for k in (-2, -1, 0, 1, 2):
        b = box_of(lon + 360 * k, bounds)
        if b is not None and b != "last":
            return b
    for k in (-2, -1, 0, 1, 2):
        if box_of(lon + 360 * k, bounds) == "last":
            return "last"
    return None


def places(grid):
    """Centers: inside boxes, on sides, out of grid, written in several conventions"""
    bx, by = edges(GRIDS[grid][0]), edges(GRIDS[grid][1])
    sx, sy = bx[1] - bx[0], by[1] - by[0]
    return [
        (bx[0] + sx / 4, by[0] + sy / 4),
        (bx[0] + 360, by[1] + sy / 2),
        (bx[1] - 360, by[0] + sy / 2),
        (bx[-1] - sx / 4, by[-1] - sy / 4),
        (bx[-2] + 360 + sx / 8, by[-2]),
        (bx[0] + sx / 2 - 360, by[1] + sy / 8),
        (bx[-1] - 360 - sx / 2, by[-1] - sy / 2),
    ], [
        (bx[0] - sx / 2, by[0] + sy / 2),
        (bx[-1] + sx / 2, by[1]),
        (bx[0] + sx, by[0] - sy / 4),
        (bx[1], by[-1] + sy / 4),
        (bx[1], by[-1]),
    ]


def centers(obs, spots, values=None):
    """Fill a set"""
    for i, (x, y) in enumerate(spots):
        obs.obs["lon"][i], obs.obs["lat"][i] = x, y
    if values is not None:
        obs.obs["amplitude"] = values
    return obs


def center_space(tier):
    n = 3 if tier == "quick" else 4
    for grid in GRIDS:
        inside, outside = places(grid)
        pool = list(range(len(inside) + len(outside)))
        for k in range(n + 1):
            for sel in combinations_with_replacement(pool, k):
                if k == n and tier == "quick" and sum(sel) % 9:
                    # only a part of largest sets in quick
                    continue
                yield [grid, list(sel)]


PCT = (0, 50, 90)
VALUE = [1.0, 4.0, 2.0, 2.0]
INTS = [1, 4, 2, 7]


def table_boxes(grid, spots):
    bx, by = edges(GRIDS[grid][0]), edges(GRIDS[grid][1])
    out = list()
    for x, y in spots:
        out.append((lon_box(x, bx), box_of(y, by)))
    return out, (len(bx) - 1, len(by) - 1)


def stat_ok(got, mask, boxes, shape, values, f, out_ok, tol=1e-5):
    """Compare a grid with statistic f of values of each box"""
    if got.shape != shape:
        return f"shape {got.shape} {shape}"
    # boxes which could (not) take an observation on last bound
    content = dict()
    loose = set()
    for b, v in zip(boxes, values):
        if None in b:
            continue
        if "last" in b:
            loose.add(tuple(s - 1 if i == "last" else i for i, s in zip(b, shape)))
            continue
        content.setdefault(b, list()).append(v)
    for i in range(shape[0]):
        for j in range(shape[1]):
            if (i, j) in loose:
                continue
            vals = content.get((i, j))
            if vals is None:
                if not mask[i, j]:
                    return f"box {i},{j} without observation has a value {got[i, j]}"
            elif mask[i, j]:
                return f"box {i},{j} with {len(vals)} observations is masked"
            elif abs(float(got[i, j]) - f(vals)) > tol:
                return f"box {i},{j}: {got[i, j]} instead of {f(vals)}"
    return None


def arr(g, name):
    """Array of a variable with dimensions (x, y)"""
    a = g.grid(name)
    return np.ma.getdata(a), np.ma.getmaskarray(a)


def center_run(ctx, payload):
    grid, sel = payload
    inside, outside = places(grid)
    pool = inside + outside
    bins = GRIDS[grid]
    n = len(sel)
    orders = list(permutations(range(n))) if n <= 3 else [tuple(range(n)), tuple(range(n))[::-1], (1, 3, 0, 2)]
    for order in orders:
        spots = [pool[sel[i]] for i in order]
        values = [VALUE[i] for i in order]
        ints = [INTS[i] for i in order]
        obs = make("track", n, only=["lon", "lat", "time", "amplitude"])
        centers(obs, spots, values if n else None)
        if n:
            obs.obs["n"] = ints
        boxes, shape = table_boxes(grid, spots)
        what = f"{grid} {spots}"
        # count
        g = obs.grid_count(bins, center=True)
        data, mask = arr(g, "count")
        ctx.step()
        err = stat_ok(data, mask, boxes, shape, values, len, True)
        ctx.check(err is None, "count", lambda: f"{what}: {err}")
        # mean, with field, with other array, with masked array
        for name, vals in (("amplitude", values), ("n", ints)):
            data, mask = arr(obs.grid_stat(bins, name), name)
            ctx.step()
            err = stat_ok(data, mask, boxes, shape, vals, np.mean, True)
            ctx.check(err is None, "mean", lambda: f"{what} {name} {vals}: {err}")
        out = any(None in b or "last" in b for b in boxes)
        for hidden in [None] + ([-1] + list(range(n)) if n else []):
            if hidden is None:
                kw = dict()
                boxes_, vals_ = boxes, values
            else:
                kw = dict(data=np.ma.array(np.array(values) + 1, mask=False if hidden == -1 else [i == hidden for i in range(n)]))
                keep = [i for i in range(n) if i != hidden]
                boxes_, vals_ = [boxes[i] for i in keep], [values[i] + 1 for i in keep]
            if hidden is not None:
                data, mask = arr(obs.grid_stat(bins, "new", **kw), "new")
                ctx.step()
                err = stat_ok(data, mask, boxes_, shape, vals_, np.mean, True)
                ctx.check(err is None, "mean masked", lambda: f"{what} {kw}: {err}")
            for method in PCT:
                ctx.step()
                try:
                    g = obs.grid_box_stat(bins, "amplitude", method=method, **kw)
                except Exception:
                    if not out:
                        raise
                    ctx.cover("refused")
                    continue
                data, mask = arr(g, "amplitude")
                err = stat_ok(data, mask, boxes_, shape, vals_, lambda v: np.percentile(v, method), True)
                ctx.check(err is None, "percentile", lambda: f"{what} method {method} {kw} {values}: {err}")
        if not out and n:
            ctx.step()
            data, mask = arr(obs.grid_box_stat(bins, "n", method=50), "n")
            err = stat_ok(data, mask, boxes, shape, ints, np.median, True)
            ctx.check(err is None, "percentile", lambda: f"{what} n {ints}: {err}")
            # by a filter, with and without the last
            for f in (np.arange(n)[:-1], np.arange(n) > 0, slice(0, n, 2)):
                keep = np.arange(n)[f].tolist()
                args = [boxes[i] for i in keep], shape, [values[i] for i in keep]
                data, mask = arr(obs.grid_count(bins, center=True, filter=f), "count")
                err = stat_ok(data, mask, *args, len, True)
                ctx.check(err is None, "count filter", lambda: f"{what} {f}: {err}")
                data, mask = arr(obs.grid_box_stat(bins, "amplitude", filter=f), "amplitude")
                err = stat_ok(data, mask, *args, np.median, True)
                ctx.check(err is None, "percentile filter", lambda: f"{what} {f}: {err}")
                ctx.step(2)
        if len(set(boxes)) < n:
            ctx.cover("same box")
        if out:
            ctx.cover("out")
        if n == 0:
            ctx.cover("empty")
    ctx.state(grid, tuple(sel))
    ctx.outcome(tuple(map(str, boxes)))


# ------------------------------------------------------------------ contours
SHAPES = dict(
    square=[(-1, -1), (1, -1), (1, 1), (-1, 1)],
    diamond=[(-1.5, 0.1), (0.1, -1.4), (1.6, 0.2), (-0.2, 1.5)],
    flag=[(-2.2, -1.2), (2.1, -0.9), (0.3, 0.2), (1.9, 1.3), (-2.1, 1.1)],
    large=[(-3.3, -2.3), (3.4, -2.1), (3.1, 2.4), (-3.2, 2.2)],
    tiny=[(-0.1, -0.1), (0.1, -0.1), (0, 0.1)],
)


def contour(shape, x, y, scale, nb=8):
    pts = [(x + u * scale, y + v * scale) for u, v in SHAPES[shape]]
    pts = pts + [pts[0]] * (nb - len(pts))
    return np.array(pts)


def crossing(px, py, poly):
    """Even-odd rule"""
    inside = False
    for (x0, y0), (x1, y1) in zip(poly, np.roll(poly, -1, axis=0)):
        if (y0 > py) != (y1 > py):
            if px < x0 + (py - y0) * (x1 - x0) / (y1 - y0):
                inside = not inside
    return inside


def pixels(poly, xc, yc):
    """Pixels of a grid inside a contour, whatever the convention"""
    out = set()
    for i, x in enumerate(xc):
        for k in (-2, -1, 0, 1, 2):
            x_ = x + 360 * k
            if not poly[:, 0].min() < x_ < poly[:, 0].max():
                continue
            for j, y in enumerate(yc):
                if crossing(x_, y, poly):
                    out.add((i, j))
    return out


def contour_grid(grid):
    bx, by = edges(GRIDS[grid][0]), edges(GRIDS[grid][1])
    xc = [(a + b) / 2 for a, b in zip(bx[:-1], bx[1:])]
    yc = [(a + b) / 2 for a, b in zip(by[:-1], by[1:])]
    return bx, by, xc, yc


def contour_places(grid):
    """Around each side of grid"""
    bx, by, xc, yc = contour_grid(grid)
    sx, sy = bx[1] - bx[0], by[1] - by[0]
    xs = [bx[0] - 2.3 * sx, bx[0] - 0.7 * sx, bx[0] + 0.04 * sx, bx[2] + 0.3 * sx, bx[-1] - 0.2 * sx, bx[-1] + 0.6 * sx]
    ys = [by[0] - 0.3 * sy, by[1] + 0.15 * sy, by[-1] - 0.22 * sy]
    if not grid.startswith("world"):
        ys += [by[0] - 20 * sy, by[-1] + 1.2 * sy]
    return [(x, y) for x in xs for y in ys]


def contour_space(tier):
    for grid in GRIDS:
        nb = len(contour_places(grid))
        for i in range(nb):
            for shape in SHAPES:
                for shift in (-360, 0, 360):
                    yield [grid, i, shape, shift]


def fill(grid, items, shift):
    """Set with contours; intern contours are smaller"""
    bx, by, xc, yc = contour_grid(grid)
    step = min(bx[1] - bx[0], by[1] - by[0])
    obs = make("eddies", len(items), arrays=list(CONT["e"] + CONT["s"]), nb_sample=8,
               only=["lon", "lat", "time", "amplitude"] + list(CONT["e"] + CONT["s"]))
    polys = dict(e=list(), s=list())
    for k, (i, shape) in enumerate(items):
        x, y = contour_places(grid)[i]
        x += shift
        obs.obs["lon"][k], obs.obs["lat"][k] = x, y
        for c, scale in (("e", 1.0), ("s", 0.6)):
            poly = contour(shape, x, y, step * scale)
            obs.obs[CONT[c][0]][k] = poly[:, 0]
            obs.obs[CONT[c][1]][k] = poly[:, 1]
            polys[c].append(np.array([obs.obs[CONT[c][0]][k], obs.obs[CONT[c][1]][k]]).T.astype("f8"))
    return obs, polys


def field(grid, kind):
    """A field to interpolate, with some values masked"""
    bx, by, xc, yc = contour_grid(grid)
    nx, ny = len(xc), len(yc)
    v = ((np.arange(nx * ny) * 7) % 31).reshape(nx, ny) - 11.0
    m = np.zeros((nx, ny), dtype=bool)
    if kind == "masked":
        m[::2, 1::2] = True
        v[m] = 1e6
    if kind == "masked low":
        m[::2, :] = True
        m[1, :] = True
        v[m] = -1e6
    return v, m


def handler(grid, kind):
    bx, by, xc, yc = contour_grid(grid)
    v, m = field(grid, kind)
    g = RegularGridDataset.with_array(
        coordinates=("lon", "lat"), datas=dict(z=np.ma.array(v, mask=m), lon=np.array(xc), lat=np.array(yc)), centered=True)
    return g, v, m


METHODS = dict(mean=np.mean, max=np.max, min=np.min, count=len)


def check_interp(ctx, obs, polys, grid, what, subset=None):
    bx, by, xc, yc = contour_grid(grid)
    for kind in ("full", "masked", "masked low"):
        g, v, m = handler(grid, kind)
        for method, f in METHODS.items():
            for c in "es":
                got = obs.interp_grid(g, "z", method=method, intern=c == "s", i=subset)
                ctx.step()
                ps = polys[c] if subset is None else [polys[c][i] for i in subset]
                ctx.check(len(got) == len(ps), "interp size", lambda: f"{what} {len(got)}")
                for k, p in enumerate(ps):
                    pix = pixels(p, xc, yc)
                    vals = [v[q] for q in pix if method == "count" or not m[q]]
                    if len(pix) and len(vals) < len(pix):
                        ctx.cover("masked pixels")
                    if not vals and method != "count":
                        ctx.check(np.isnan(got[k]), "interp empty", lambda: f"{what} {kind} {method} {c}: {got[k]} without pixel")
                        ctx.cover("no pixel")
                        continue
                    ctx.check(abs(got[k] - f(vals)) < 1e-6, "interp", lambda: f"{what} {kind} {method} {c}: {got[k]} instead of {f(vals)}")


def check_count(ctx, obs, polys, grid, what, subset=None):
    bx, by, xc, yc = contour_grid(grid)
    for c in "es":
        kw = dict() if subset is None else dict(filter=np.array(subset))
        g = obs.grid_count(GRIDS[grid], intern=c == "s", **kw)
        ctx.step()
        data, mask = arr(g, "count")
        ref = np.zeros((len(xc), len(yc)), dtype=int)
        for k, p in enumerate(polys[c]):
            if subset is not None and k not in subset:
                continue
            for q in pixels(p, xc, yc):
                ref[q] += 1
        ctx.check(data.shape == ref.shape and (data == ref).all(), "pixels",
                  lambda: f"{what} {c}: {data.sum()} pixels instead of {ref.sum()}, differences {np.argwhere(data != ref).tolist()[:5]}")
        ctx.check((mask == (ref == 0)).all(), "pixels mask", what)
        if (ref > 1).any():
            ctx.cover("overlap")
        if ref.any():
            ctx.cover("pixels")
        ctx.outcome(ref.tobytes())


def contour_run(ctx, payload):
    grid, i, shape, shift = payload
    obs, polys = fill(grid, [(i, shape)], shift)
    what = f"{payload}"
    check_count(ctx, obs, polys, grid, what)
    check_interp(ctx, obs, polys, grid, what)
    if grid.startswith("world"):
        ctx.cover("world")
    ctx.state(*payload)


def several_space(tier):
    step = 1 if tier == "thorough" else 5
    for grid in GRIDS:
        nb = len(contour_places(grid))
        for i in range(0, nb):
            for j in range(i % step, nb, step):
                yield [grid, [i, j], ["large", "flag"]]
        for i in range(0, nb):
            yield [grid, [i, (i + 1) % nb, i], ["diamond", "large", "square"]]
        yield [grid, [], []]


def several_run(ctx, payload):
    grid, index, shapes = payload
    obs, polys = fill(grid, list(zip(index, shapes)), 0)
    check_count(ctx, obs, polys, grid, f"{payload}")
    n = len(index)
    if n:
        check_interp(ctx, obs, polys, grid, f"{payload}")
        check_count(ctx, obs, polys, grid, f"{payload} first", [0])
        check_interp(ctx, obs, polys, grid, f"{payload} reversed", list(range(n))[::-1])
    ctx.state(str(payload))


# ------------------------------------------------------------------ bins
XS = [0.0, 0.5, 1.0, 2.0, 3.0, 4.0]
BINS = dict(
    regular=np.arange(0, 4.0), irregular=np.array([0, 0.5, 1.0, 2.5]), ints=np.arange(4), part=np.array([1.0, 2.0]),
)


def bins_space(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for sel in product(range(len(XS)), repeat=k):
            yield list(sel)


def in_bins(xs, bins):
    """last bound is in last bin"""
    out = list()
    for k in range(len(bins) - 1):
        last = k == len(bins) - 2
        out.append([i for i, x in enumerate(xs) if bins[k] <= x < bins[k + 1] or (last and x == bins[-1])])
    return out


def close(a, b):
    a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True)


def bins_run(ctx, payload):
    xs = [XS[i] for i in payload]
    n = len(xs)
    obs = make("track", n, only=["lon", "lat", "time", "amplitude", "radius_e"])
    if n:
        obs.obs["amplitude"] = xs
        obs.obs["radius_e"] = [1.5, 4, 2, 7][:n]
        obs.obs["virtual"] = [200, 100, 201, 150][:n]
        obs.obs["n"] = [65000, 3, 65001, 4][:n]
    for name, bins in BINS.items():
        groups = in_bins(xs, bins)
        nb = [len(g) for g in groups]
        mid = [(a + b) / 2 for a, b in zip(bins[:-1], bins[1:])]
        what = f"{xs} bins {name}"
        for mask in (None, np.arange(n) != 1, slice(1, None)):
            if mask is None:
                keep = list(range(n))
            else:
                keep = np.arange(n)[mask].tolist()
            gs = [[i for i in g if i in keep] for g in groups]
            x, y = obs.bins_stat("amplitude", bins=bins, mask=mask)
            ctx.step()
            ctx.check(close(x, mid), "bins center", what)
            ctx.check(close(y, [len(g) for g in gs]), "bins count", lambda: f"{what} {mask}: {y}")
            for field_ in ("radius_e", "virtual", "n"):
                v = obs.obs[field_].astype("f8")
                for method, f in (("mean", np.mean), ("std", np.std)):
                    x, y = obs.bins_stat("amplitude", bins=bins, yname=field_, method=method, mask=mask)
                    ctx.step()
                    ref = [f(v[g]) if g else np.nan for g in gs]
                    ctx.check(close(x, mid), "bins center", what)
                    ctx.check(close(y, ref), f"bins {method}", lambda: f"{what} {field_} {mask} : {y} instead of {ref}")
        for field_ in ("radius_e", "virtual", "n"):
            v = obs.obs[field_].astype("f8")
            ctx.step(4)
            ctx.check(close(obs.hist(field_, "amplitude", bins), [v[g].sum() for g in groups]), "hist sum", what)
            ctx.check(close(obs.hist(field_, "amplitude", bins, nb=True), nb), "hist nb", what)
            with np.errstate(all="ignore"):
                mean = obs.hist(field_, "amplitude", bins, mean=True)
                ctx.check(close(mean, [v[g].mean() if g else np.nan for g in groups]), "hist mean", lambda: f"{what} {field_} {mean}")
                if sum(nb):
                    percent = obs.hist(field_, "amplitude", bins, percent=True)
                    tot = sum(v[g].sum() for g in groups)
                    ctx.check(close(percent, [v[g].sum() / tot * 100 for g in groups]), "hist percent", what)
                    percent = obs.hist(field_, "amplitude", bins, percent=True, nb=True)
                    ctx.check(close(percent, [k / sum(nb) * 100 for k in nb]), "hist percent nb", what)
        if any(k > 1 for k in nb):
            ctx.cover("several")
    if n:
        # default bins
        x, y = obs.bins_stat("amplitude")
        low = min(xs)
        ref = in_bins(xs, [low + k for k in range(len(x) + 1)])
        ctx.check(close(y, [len(g) for g in ref]) and sum(y) == n, "bins default", lambda: f"{xs}: {x} {y}")
    ctx.state(tuple(payload))


SCENARIOS = [
    Scenario("center", center_space, center_run, shards=8, need=("same box", "out", "empty", "refused"),
             bound="5 grids, multisets of up to 3 (4) centers among 12 places (boxes, sides, conventions, outside), every order, each value masked"),
    Scenario("contour", contour_space, contour_run, shards=8, need=("pixels", "no pixel", "masked pixels", "world"),
             bound="5 grids x 18 to 30 places x 5 shapes x 3 conventions of longitude, 3 fields, 4 methods"),
    Scenario("several", several_space, several_run, shards=8, need=("overlap",), bound="pairs and triples of contours, subsets"),
    Scenario("bins", bins_space, bins_run, shards=4, need=("several",), bound="sequences of up to 3 (4) values, 4 sets of bins, fields of each type"),
]
