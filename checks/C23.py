# -*- coding: utf-8 -*-
"""C23: longitude handling never tears a trajectory, a contour or a line"""
from itertools import product

import numpy as np

from py_eddy_tracker.generic import flatten_line_matrix, split_line, wrap_longitude
from mc.core import Scenario
from mc.obsfix import make, same, table

ASSUMPTIONS = [
    "longitudes of a lattice which are exact in simple precision",
    "lines given to wrap_longitude are continuous (successive points differ of less than half a turn)",
    "networks: observations are sorted by network then by segment then by time",
]
LON = (-360.0, -181.0, -180.0, -179.5, -0.5, 0.0, 0.5, 179.5, 180.0, 181.0, 359.5, 360.0, 539.5, 719.5)
SMALL = (-359.5, -179.5, -0.5, 0.0, 180.5, 359.5, 720.0)
OFFSET = (-170.0, -1.0, 0.0, 1.0, 170.0)
nan = np.nan


def ways(f):
    """Compiled function, and its source which checks bounds of arrays"""
    yield "compiled", f
    g = getattr(f, "py_func", None)
    if g is not None:
        yield "source", g


def near(a, b):
    """Value congruent with a which is the nearest of b : in [b - 180, b + 180["""
    return (a - b + 180) % 360 + b - 180


# ------------------------------------------------------------- normalisation
def norm_space(tier):
    values = SMALL if tier == "quick" else LON
    for kind in ("track", "network"):
        for ids in ((1, 2), (0, 3), (2, 7)):
            for a in product(values, repeat=3):
                yield (kind, ids, (3,), a)
            for a in product(SMALL if tier == "thorough" else SMALL[1:6], repeat=4):
                yield (kind, ids, (2, 2), a)
        yield (kind, (1, 2), (), ())


def norm_run(ctx, payload):
    kind, ids, lengths, lon = payload
    n = len(lon)
    arrays = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
    for has_max, with_contour in ((True, True), (False, True), (True, False), (False, False)):
        only = ["lon", "lat", "time"] + (["lon_max"] if has_max else []) + (arrays if with_contour else [])
        if kind == "network":
            only += ["track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost"]
        obs = make(kind, n, extra=["lon_max"] if has_max else [], arrays=arrays if with_contour else [], nb_sample=5, only=only)
        obs.obs["lon"] = lon
        if n:
            obs.obs["track"] = [i for i, k in zip(ids, lengths) for _ in range(k)]
            obs.obs["time"] = [k for nb in lengths for k in range(nb)]
            if kind == "network":
                obs.obs["segment"] = [1 + (k > 1) for nb in lengths for k in range(nb)]
            else:
                obs.obs["n"] = obs.obs["time"]
        for i in range(n):
            turn = 360.0 * ((i % 3) - 1)
            if has_max:
                obs.obs["lon_max"][i] = lon[i] + OFFSET[(i * 2 + int(lon[0])) % 5] + turn
            if with_contour:
                obs.obs["contour_lon_e"][i] = [lon[i] + d + turn for d in OFFSET]
                obs.obs["contour_lon_s"][i] = [lon[i] - d / 2 - turn for d in OFFSET]
        ref = table(obs)
        obs.normalize_longitude()
        ctx.step()
        for f in ref:
            if f not in ("lon", "lon_max", "contour_lon_e", "contour_lon_s"):
                ctx.check(same(obs.obs[f], ref[f]), "other field", f)
        i = 0
        new = obs.obs["lon"].astype("f8")
        for nb in lengths:
            first = None
            for k in range(i, i + nb):
                if first is None:
                    first = new[k]
                    ctx.check(first == ref["lon"][k], "first position", lambda: f"{payload} {new}")
                ctx.check((new[k] - ref["lon"][k]) % 360 == 0, "congruence", lambda: f"{payload}: {new}")
                ctx.check(-180 <= new[k] - first < 180, "far from first", lambda: f"{payload}: {new}")
                if k > i:
                    before, d = ref["lon"][k] - ref["lon"][k - 1], new[k] - new[k - 1]
                    ctx.cover("jump removed", abs(before) > 180 and abs(d) < 180)
            i += nb
        for f in ("lon_max", "contour_lon_e", "contour_lon_s"):
            if f not in ref:
                continue
            v, v0 = obs.obs[f].astype("f8"), ref[f].astype("f8")
            ctx.check((((v - v0) % 360) == 0).all(), "congruence", lambda: f"{payload} {f}: {v0} -> {v}")
            d = (v.T - new).T
            ctx.check((-180 <= d).all() and (d < 180).all(), "far from centre", lambda: f"{payload} {f}: {v} {new}")
            ctx.cover("turned " + f, (v != v0).any())
        # nothing to do twice
        again = table(obs)
        obs.normalize_longitude()
        for f in again:
            ctx.check(same(obs.obs[f], again[f]), "idempotence", lambda: f"{payload} {f}")
    ctx.state(kind, str(lon))
    ctx.outcome(str(new))


# --------------------------------------------------------------------- wrap
STEPS = (-170.0, -10.5, 0.0, 20.0, 175.0)


def sequences(tier, depth=None):
    """continuous lines with separators, as steps (None for a separator)"""
    depth = depth or (4 if tier == "quick" else 5)
    for n in range(1, depth + 1):
        for s in product((None,) + STEPS, repeat=n - 1):
            yield s


def wrap_space(tier):
    for s in sequences(tier):
        yield (s,)


def line(x0, steps):
    """A separator is followed by the step of its rank"""
    x, out = x0, [x0]
    for k, s in enumerate(steps):
        if s is None:
            out.append(nan)
            x += 90.0 * (k + 1)
        else:
            x += s
            out.append(x)
    return out


def expected_cut(x, y, ref):
    """Line must be cut only where it changes of turn, both parts reach the other point"""
    out_x, out_y = list(), list()
    turn = [np.floor((v - ref) / 360) for v in x]
    for i in range(len(x)):
        if i and not np.isnan(x[i]) and not np.isnan(x[i - 1]) and turn[i] != turn[i - 1]:
            out_x += [x[i] - 360 * turn[i - 1], nan, x[i - 1] - 360 * turn[i]]
            out_y += [y[i], nan, y[i - 1]]
        out_x.append(x[i] - 360 * turn[i])
        out_y.append(y[i])
    return out_x, out_y


def equal(a, b):
    a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def wrap_run(ctx, payload):
    (steps,) = payload
    for x0, ref, dtype in product((-360.0, -190.0, -0.5, 0.0, 350.0, 540.0), (-360.0, -180.0, 0.0, 20.0, 180.0), ("f4", "f8")):
        x = line(x0, steps)
        y = [nan if np.isnan(v) else 3.0 + i for i, v in enumerate(x)]
        xx, yy = np.array(x, dtype=dtype), np.array(y, dtype=dtype)
        for name, f in ways(wrap_longitude):
            if name == "source" and (x0, dtype) not in ((350.0, "f4"), (-0.5, "f8")):
                continue
            got_x, got_y = f(xx, yy, ref)
            ctx.step()
            exp = [v - 360 * np.floor((v - ref) / 360) for v in x]
            ctx.check(equal(got_x, exp) and equal(got_y, y), "wrap", lambda: f"{name} {x} {ref}: {got_x} {got_y}")
            ctx.check(np.nansum((got_x < ref) + (got_x >= ref + 360)) == 0, "range", lambda: f"{x} {ref}: {got_x}")
            got_x, got_y = f(xx, yy, ref, cut=True)
            ctx.step()
            exp_x, exp_y = expected_cut(x, y, ref)
            ctx.check(equal(got_x, exp_x) and equal(got_y, exp_y), "cut", lambda: f"{name} {x} {ref}: {got_x} {got_y} instead of {exp_x} {exp_y}")
            with np.errstate(invalid="ignore"):
                ctx.check(np.nansum(np.abs(np.diff(got_x.astype("f8"))) > 180) == 0, "torn", lambda: f"{x} {ref}: {got_x}")
            ctx.cover("cut", len(exp_x) > len(x))
            ctx.cover("several cuts", len(exp_x) > len(x) + 3)
            ctx.check(equal(xx, x) and equal(yy, y), "source", f"{x} {ref}")
        if ref == int(ref):
            # reference could be an integer
            got_x, got_y = wrap_longitude(xx, yy, int(ref), cut=True)
            ctx.check(equal(got_x, exp_x) and equal(got_y, exp_y), "cut", lambda: f"integer {x} {ref}: {got_x} {got_y}")
    ctx.state(str(steps))
    ctx.outcome(len(exp_x))


# -------------------------------------------------------------------- split
def split_space(tier):
    depth = 6 if tier == "quick" else 8
    for n in range(0, depth + 1):
        for ids in product((0, 1, 2), repeat=n):
            yield (ids,)


def split_run(ctx, payload):
    (ids,) = payload
    n = len(ids)
    x, y = np.arange(n) * 1.5, np.arange(n) * -2.0
    exp_x, exp_y = list(), list()
    for i in range(n):
        if i and ids[i] != ids[i - 1]:
            exp_x.append(nan), exp_y.append(nan)
        exp_x.append(x[i]), exp_y.append(y[i])
    for name, f in ways(split_line):
        for dtype in ("f4", "f8"):
            for idtype in ("i4", "u4"):
                got_x, got_y = f(x.astype(dtype), y.astype(dtype), np.array(ids, dtype=idtype))
                ctx.step()
                ctx.check(equal(got_x, exp_x) and equal(got_y, exp_y), "split", lambda: f"{name} {ids}: {got_x} {got_y}")
    ctx.cover("split", len(exp_x) > n)
    ctx.state(str(ids))
    ctx.outcome(len(exp_x) - n)


def flat_space(tier):
    depth = 5 if tier == "quick" else 9
    for n, m in product(range(depth), range(depth)):
        yield (n, m)


def flat_run(ctx, payload):
    n, m = payload
    v = np.arange(n * m).reshape(n, m) * 0.5
    exp = list()
    for i, row in enumerate(v):
        exp += ([nan] if i else []) + list(row)
    if not exp:
        exp = [nan]
    for name, f in ways(flatten_line_matrix):
        for dtype in ("f4", "f8"):
            for order in "CF":
                src = np.array(v, dtype=dtype, order=order)
                try:
                    got = f(src)
                except IndexError as e:
                    ctx.fail("out of array", f"{payload} {e}")
                ctx.step()
                ctx.check(equal(got, exp), "flatten", lambda: f"{name} {payload}: {got} instead of {exp}")
                ctx.check(equal(src, v), "source", f"{payload}")
    ctx.cover("several", n > 1)
    ctx.state(n, m)
    ctx.outcome(n)


# --------------------------------------------------------------------- plots
class Axes:
    """Stand-in of matplotlib axes: keep what is drawn"""

    def __init__(self):
        self.lines = list()
        self.points = list()

    def plot(self, x, y, *args, **kwargs):
        self.lines.append((np.asarray(x, dtype="f8"), np.asarray(y, dtype="f8"), kwargs))
        return [len(self.lines)]

    def scatter(self, x, y, *args, **kwargs):
        self.points.append((np.asarray(x, dtype="f8"), np.asarray(y, dtype="f8"), kwargs))
        return len(self.points)


def plot_space(tier):
    for s in product(STEPS, repeat=2):
        for x0 in (-170.0, 0.0, 350.0) if tier == "quick" else (-360.0, -170.0, -0.5, 0.0, 350.0, 540.0):
            for ref in (None, -180.0, 0.0, 20.0):
                for lengths in ((3,), (1, 3), (2, 2), (1,), ()):
                    yield (s, x0, ref, lengths)


def pieces(x, y):
    """Lines between separators"""
    out, current = list(), list()
    for a, b in zip(x, y):
        if np.isnan(a) or np.isnan(b):
            if current:
                out.append(current)
            current = list()
        else:
            current.append((float(a), float(b)))
    if current:
        out.append(current)
    return out


def expected_pieces(line_x, line_y, ref):
    if ref is None:
        return [[(float(a), float(b)) for a, b in zip(line_x, line_y)]]
    return pieces(*expected_cut(line_x, line_y, ref))


def plot_run(ctx, payload):
    steps, x0, ref, lengths = payload
    lengths = tuple(lengths)
    lons = [line(x0 + 100 * k, steps)[:nb] for k, nb in enumerate(lengths)]
    n = sum(lengths)
    flat = [v for l in lons for v in l]
    arrays = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]

    def fill(kind):
        only = ["lon", "lat", "time"] + arrays + ["segment", "next_obs", "previous_obs", "next_cost", "previous_cost"]
        obs = make(kind, n, arrays=arrays, nb_sample=4, only=only)
        obs.obs["lon"] = flat
        obs.obs["lat"] = np.arange(n) * 2
        obs.obs["time"] = [k for nb in lengths for k in range(nb)]
        for i, v in enumerate(flat):
            obs.obs["contour_lon_e"][i] = [v + d for d in (-20.0, 0.0, 20.0, -20.0)]
            obs.obs["contour_lon_s"][i] = [v + d for d in (-5.0, 0.0, 5.0, -5.0)]
            obs.obs["contour_lat_e"][i] = [2 * i + d for d in (0, 3, 0, 0)]
            obs.obs["contour_lat_s"][i] = [2 * i + d for d in (0, 2, 0, 0)]
        return obs

    def drawn(lines):
        return [p for x, y, _ in lines for p in pieces(x, y)]

    start = np.cumsum((0,) + lengths)
    exp = [p for k, nb in enumerate(lengths) if nb for p in expected_pieces(lons[k], [2.0 * i for i in range(start[k], start[k + 1])], ref)]
    # trajectories
    obs = fill("track")
    if n:
        obs.obs["track"] = [3 + 2 * k for k, nb in enumerate(lengths) for _ in range(nb)]
        obs.obs["n"] = obs.obs["time"]
    ax = Axes()
    obs.plot(ax, ref=ref, label="{nb_tracks} {nb_obs}" if n else "x")
    ctx.step()
    ctx.check(drawn(ax.lines) == exp, "tracks", lambda: f"{payload}: {drawn(ax.lines)} instead of {exp}")
    if n:
        ctx.check(ax.lines[0][2]["label"] == f"{sum(nb > 0 for nb in lengths)} {n}", "label", lambda: f"{payload} {ax.lines[0][2]}")
    # segments
    if n:
        net = fill("network")
        net.obs["track"] = 1
        net.obs["segment"] = [k + 1 for k, nb in enumerate(lengths) for _ in range(nb)]
        ax = Axes()
        net.plot(ax, ref=ref)
        ctx.step()
        ctx.check(drawn(ax.lines) == exp, "segments", lambda: f"{payload}: {drawn(ax.lines)} instead of {exp}")
        ctx.check(len(ax.lines) == len([nb for nb in lengths if nb]), "segments", f"{payload}: {len(ax.lines)}")
        colors = [k["color"] for _, _, k in ax.lines]
        ctx.check(len(set(colors)) == len(colors), "colors", f"{colors}")
    # points
    for o in (obs,) + ((net,) if n else ()):
        ax = Axes()
        o.scatter(ax, ref=ref)
        x, y, _ = ax.points[-1]
        exp_x = flat if ref is None else [v - 360 * np.floor((v - ref) / 360) for v in flat]
        ctx.check(equal(x, exp_x) and equal(y, np.arange(n) * 2), "points", lambda: f"{payload}: {x} {y}")
        # contours
        for only, fields in ((dict(), "se"), (dict(extern_only=True), "e"), (dict(intern_only=True), "s")):
            ax = Axes()
            o.display(ax, ref=ref, **only)
            ctx.step()
            exp_c = [p for f in fields for i in range(n) for p in expected_pieces(o.obs[f"contour_lon_{f}"][i].tolist(), o.obs[f"contour_lat_{f}"][i].tolist(), ref)]
            ctx.check(drawn(ax.lines) == exp_c, "contours", lambda: f"{payload}: {drawn(ax.lines)} instead of {exp_c}")
            ctx.check(len(ax.lines) == len(fields), "contours", f"{payload}")
            ctx.cover("contour cut", len(exp_c) > n * len(fields))
    ctx.cover("line cut", len(exp) > len(lengths))
    ctx.state(*map(str, payload))
    ctx.outcome(len(exp))


SCENARIOS = [
    Scenario("normalize", norm_space, norm_run, shards=16, bound="every triple (pairs of pairs) of positions of a lattice of longitudes over 3 turns, 3 families of identifiers, tracks and networks, with and without contours", need=["jump removed", "turned contour_lon_e", "turned contour_lon_s", "turned lon_max"]),
    Scenario("wrap", wrap_space, wrap_run, shards=8, bound="continuous lines up to 4 (5) points among 5 steps and separators, 6 origins, 5 references", need=["cut", "several cuts"]),
    Scenario("split", split_space, split_run, shards=8, bound="lines up to 6 (8) points, every sequence of 3 identifiers", need=["split"]),
    Scenario("flatten", flat_space, flat_run, shards=2, bound="matrix up to 4x4 (8x8), bounds of arrays verified", need=["several"]),
    Scenario("plot", plot_space, plot_run, shards=8, bound="lines, points and contours drawn for up to 2 trajectories, 25 pairs of steps, 4 references", need=["line cut", "contour cut"]),
]
