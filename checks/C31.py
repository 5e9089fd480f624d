# -*- coding: utf-8 -*-
"""C31: resampling and simplification of contours"""
from fractions import Fraction
from itertools import product
from math import asin, cos, radians, sin, sqrt

import numpy as np

from py_eddy_tracker.dataset.grid import raw_resample, uniform_resample_stack, value_on_regular_contour
from py_eddy_tracker.generic import simplify, uniform_resample
from py_eddy_tracker.poly import visvalingam
from mc.core import Scenario

ASSUMPTIONS = [
    "when several vertices have the same least effective area any of them could be removed",
    "simplified contours have at least three different vertices (fixed_size >= 4)",
    "undefined values of simplify are undefined in longitude and/or latitude; a run of undefined values is one separator",
]


# ------------------------------------------------------------- visvalingam
def tri2(a, b, c):
    return abs((b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]))


def survivors(points, size):
    """Every set of vertices which could remain"""
    level = {tuple(range(len(points)))}
    while len(next(iter(level))) > size:
        new = set()
        for keep in level:
            n = len(keep)
            areas = [tri2(points[keep[i - 1]], points[keep[i]], points[keep[(i + 1) % n]]) for i in range(n)]
            low = min(areas)
            new.update(keep[:i] + keep[i + 1 :] for i, a in enumerate(areas) if a == low)
        level = new
    return level


def vis_space(tier):
    pts = sorted(product(range(3), range(3)))
    n = 5 if tier == "quick" else 6
    # first vertex and second one fix place, closed or not
    for k in range(4, n + 1):
        for a, b in product(pts, pts):
            if k < n or a <= b:
                yield (k, a, b)
    # weights make all areas different
    for perm in range(120 if tier == "quick" else 720):
        yield (7, perm, None)


RADII = (1, 3, 4, 6, 8, 5, 7)
ANGLES = ((5, 0), (3, 4), (-1, 5), (-4, 3), (-5, -1), (-2, -5), (4, -4))


def vis_check(ctx, points, what):
    n = len(points)
    for close in (0, 1):
        p = list(points) + list(points[:close])
        x, y = np.array([v[0] for v in p], dtype="f8"), np.array([v[1] for v in p], dtype="f8")
        for size in range(4, len(p) + 3):
            gx, gy = visvalingam(x * 0.5 + 10, y * 0.5 - 3, size)
            ctx.step()
            got = list(zip(((gx - 10) * 2).tolist(), ((gy + 3) * 2).tolist()))
            ctx.check(len(got) == size, "size", lambda: f"{what} {size}: {got}")
            ctx.check(got[0] == got[-1], "closed", lambda: f"{what} {size}: {got}")
            nb = min(size - 1, len(p))
            possible = {tuple(p[i] for i in keep) for keep in survivors(p, nb)}
            ctx.check(tuple((int(a), int(b)) for a, b in got[:nb]) in possible, "vertices", lambda: f"{what} {close} {size}: {got[:nb]} not in {possible}")
            ctx.check(all(g == got[0] for g in got[nb:]), "filled with the first one", lambda: f"{what} {size}: {got}")
            ctx.outcome(size, len(possible))
            ctx.cover("several possibilities", len(possible) > 1)
            ctx.cover("only one possibility", len(possible) == 1 and nb < len(p))
            ctx.cover("nothing to remove", nb == len(p))


def vis_run(ctx, payload):
    n, a, b = payload
    if n == 7:
        # star with every order of radius
        order, left, k = list(), list(RADII), a
        for f in (720, 120, 24, 6, 2, 1, 1):
            order.append(left.pop((k // f) % len(left)))
        points = tuple((r * ax, r * ay) for r, (ax, ay) in zip(order, ANGLES))
        vis_check(ctx, points, f"{points}")
        ctx.state(points)
        return
    a, b = tuple(a), tuple(b)
    pts = sorted(product(range(3), range(3)))
    for others in product(pts, repeat=n - 2):
        points = (a, b) + others
        if any(points[i] == points[i - 1] for i in range(n)) and n > 4:
            continue
        vis_check(ctx, points, f"{points}")
        ctx.state(points)


# ----------------------------------------------------------------- uniform
def haversine(a, b):
    dlon, dlat = radians(b[0] - a[0]), radians(b[1] - a[1])
    h = sin(dlat / 2) ** 2 + cos(radians(a[1])) * cos(radians(b[1])) * sin(dlon / 2) ** 2
    return 6370.997e3 * 2 * asin(min(1, sqrt(h)))


def uni_space(tier):
    pts = sorted(product(range(3), range(3)))
    for lat0 in (0, 60, -85) if tier == "quick" else (0, 30, 60, -85, 87):
        for a, b in product(pts, pts):
            yield (lat0, a, b)


def uni_run(ctx, payload):
    lat0, a, b = payload
    pts = sorted(product(range(3), range(3)))
    tails = [()] + [(p,) for p in pts] + [p for p in product(pts, pts) if (p[0][0] + 2 * p[0][1] + p[1][0] + p[1][1]) % 3 == 0]
    for tail in tails:
        line = [(v[0] * 0.5 + 178.5, v[1] * 0.5 + lat0) for v in (tuple(a), tuple(b)) + tail]
        x, y = np.array([v[0] for v in line]), np.array([v[1] for v in line])
        # successive vertices at the same place are separated by 1 mm
        seg = [max(haversine(p, q), 1e-3) for p, q in zip(line[:-1], line[1:])]
        length = np.concatenate(([0], np.cumsum(seg)))
        for fac, size in ((2, -1), (1, -1), (3, -1), (2, 2), (2, 3), (1, 7), (2, 20)):
            gx, gy = uniform_resample(x, y, fac, size)
            n = size if size != -1 else fac * len(line)
            ctx.step()
            what = lambda: f"{line} {fac} {size}: {gx} {gy}"
            ctx.check(gx.size == gy.size == n, "size", what)
            ctx.check(gx[0] == x[0] and gy[0] == y[0] and gx[-1] == x[-1] and gy[-1] == y[-1], "ends", what)
            for k in range(n):
                d = length[-1] * k / (n - 1)
                i = min(max(int(np.searchsorted(length, d, side="right")) - 1, 0), len(line) - 2)
                w = min((d - length[i]) / seg[i], 1)
                ex, ey = line[i][0] + w * (line[i + 1][0] - line[i][0]), line[i][1] + w * (line[i + 1][1] - line[i][1])
                # vertices at the same place are very close along the line
                ctx.check(abs(gx[k] - ex) < 1e-6 and abs(gy[k] - ey) < 1e-6, "position", lambda: f"{line} {fac} {size} {k}: {gx[k]}, {gy[k]} instead of {ex}, {ey}")
            v = uniform_resample_stack(np.array([x, y]).T, fac, size)
            ctx.check(np.array_equal(v[:, 0], gx) and np.array_equal(v[:, 1], gy), "stack", what)
        v = uniform_resample_stack(np.array([x, y]).T)
        gx, gy = uniform_resample(x, y)
        ctx.check(np.array_equal(v[:, 0], gx) and np.array_equal(v[:, 1], gy), "stack", f"{line}")
        xg, yg = np.arange(176.0, 184), np.arange(lat0 - 2.0, lat0 + 5)
        z = xg[:, None] + 3 * yg[None]
        value = value_on_regular_contour(xg, yg, z, np.zeros(z.shape, dtype=bool), np.array([x, y]).T)
        ctx.check(np.allclose(value, gx[1:] + 3 * gy[1:], rtol=0, atol=1e-6), "values on contour", lambda: f"{line} {value}")
        ctx.cover("repeated", any(p == q for p, q in zip(line[:-1], line[1:])))
        ctx.outcome(round(length[-1]))
        ctx.state(lat0, str(line))


# ---------------------------------------------------------------- simplify
ALPHABET = [(0, 0), (0.5, 0), (1, 0), (0.75, 0.75), (-1, -1), None, "x", "y"]


def simple_space(tier):
    n = 6 if tier == "quick" else 7
    yield ((),)
    for i in range(len(ALPHABET)):
        yield ((i,),)
        for j in range(len(ALPHABET)):
            yield ((i, j),)
            for k in range(len(ALPHABET)):
                yield ((i, j, k, n),)


def simple_expected(seq, precision):
    out, last = list(), None
    for v in seq:
        if v is None:
            if out and out[-1] is not None and separator:
                out.append(None)
                separator = False
            continue
        if last is None or (v[0] - last[0]) ** 2 + (v[1] - last[1]) ** 2 > precision**2:
            out.append(v)
            last = v
        separator = True
    return out


def canonical(seq):
    """A run of undefined values is one separator, nothing to separate at both ends"""
    out = list()
    for v in seq:
        if v is None and (not out or out[-1] is None):
            continue
        out.append(v)
    if out and out[-1] is None:
        out.pop()
    return out


def simple_run(ctx, payload):
    start = tuple(payload[0])
    rest = [()]
    if len(start) == 4:
        n = start[-1]
        start = start[:3]
        rest = [c for k in range(n - 2) for c in product(range(5) if k > 1 else range(len(ALPHABET)), repeat=k)]
    for tail in rest:
        seq = [ALPHABET[i] for i in start + tail]
        x = np.array([np.nan if v in (None, "x") else 2.0 if v == "y" else v[0] for v in seq], dtype="f8")
        y = np.array([np.nan if v in (None, "y") else 3.0 if v == "x" else v[1] for v in seq], dtype="f8")
        plain = [None if isinstance(v, str) else v for v in seq]
        for precision in (0.25, 0.5, 1):
            gx, gy = simplify(x, y, precision)
            ctx.step()
            got = [None if np.isnan(a) or np.isnan(b) else (a, b) for a, b in zip(gx.tolist(), gy.tolist())]
            exp = canonical(simple_expected(plain, precision))
            ctx.check(canonical(got) == exp, "simplified", lambda: f"{seq} {precision}: {got} instead of {exp}")
            ctx.check(not got or got[0] is not None, "starts with nothing", lambda: f"{seq} {precision}: {got}")
            ctx.outcome(str(exp))
            ctx.cover("emptied", not got and len(seq) > 0)
            ctx.cover("separator", None in exp)
            ctx.cover("removed", sum(v is not None for v in plain) > sum(v is not None for v in exp))
        ctx.state(str(seq))


# ------------------------------------------------------------------ profiles
def raw_space(tier):
    for n in range(2, 6 if tier == "quick" else 8):
        for size in range(2, 12 if tier == "quick" else 30):
            yield (n, size)


def raw_run(ctx, payload):
    n, size = payload
    for values in product((0, 1, 4), repeat=n):
        got = raw_resample(np.array(values, dtype="f8"), size)
        ctx.step()
        exp = list()
        for k in range(size):
            p = Fraction(k * (n - 1), size - 1)
            i = min(int(p), n - 2)
            exp.append(values[i] + (p - i) * (values[i + 1] - values[i]))
        ctx.check(len(got) == size and all(abs(g - float(e)) < 1e-9 for g, e in zip(got, exp)), "profile", lambda: f"{values} {size}: {got}")
        ctx.outcome(str(exp))
    ctx.state(payload)


SCENARIOS = [
    Scenario("visvalingam", vis_space, vis_run, shards=32, bound="every polygon of 4-5 (4-6) vertices of a 3x3 lattice, 120 (720) polygons of 7 vertices, closed or not, every size", need=["several possibilities", "only one possibility", "nothing to remove"]),
    Scenario("uniform", uni_space, uni_run, shards=32, bound="every line of 2-3 vertices (a third of these with 4) of a 3x3 lattice, 3 (5) latitudes, 7 sizes", need=["repeated"]),
    Scenario("simplify", simple_space, simple_run, shards=32, bound="every sequence of up to 5 values (6 with lattice end) among 5 positions and 3 ways to be undefined, 3 precisions", need=["emptied", "separator", "removed"]),
    Scenario("profile", raw_space, raw_run, shards=8, bound="every profile of 2-5 (2-7) values in 3, 10 (28) sizes"),
]
