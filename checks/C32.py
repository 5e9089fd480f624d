# -*- coding: utf-8 -*-
"""C32: circles and ellipses fitted on contours"""
from fractions import Fraction
from math import asin, atan2, cos, degrees, hypot, pi, radians, sin, sqrt

import numpy as np
from matplotlib.path import Path

from py_eddy_tracker.generic import build_circle, coordinates_to_local, local_to_coordinates
from py_eddy_tracker.poly import fit_circle, fit_circle_, fit_ellipse, shape_error
import py_eddy_tracker.dataset.grid  # noqa: F401 (methods of Path)
from mc.core import Scenario
from mc.geom import area2, lattice_polygons

ASSUMPTIONS = [
    "contours are closed, without another repeated vertex than the first one",
    "intersection of contour and circle is the one of the documented method: vertices out of the circle are brought back on it",
    "geographic contours are some degrees wide",
]
EARTH = 6370997.0


def solve3(m, v):
    """Exact solution of a linear system"""
    m = [list(map(Fraction, r)) + [Fraction(b)] for r, b in zip(m, v)]
    for i in range(3):
        p = next(k for k in range(i, 3) if m[k][i] != 0)
        m[i], m[p] = m[p], m[i]
        m[i] = [c / m[i][i] for c in m[i]]
        for k in range(3):
            if k != i:
                m[k] = [a - m[k][i] * b for a, b in zip(m[k], m[i])]
    return [m[i][3] for i in range(3)]


def exact_fit(p):
    """Least squares of a x + b y + c = x2 + y2"""
    rows = [(Fraction(x), Fraction(y), Fraction(1), Fraction(x) ** 2 + Fraction(y) ** 2) for x, y in p]
    m = [[sum(r[i] * r[j] for r in rows) for j in range(3)] for i in range(3)]
    v = [sum(r[i] * r[3] for r in rows) for i in range(3)]
    a, b, c = solve3(m, v)
    x0, y0 = a / 2, b / 2
    return x0, y0, c + x0**2 + y0**2


def error(p, x0, y0, r):
    area = lambda q: abs(sum(q[i][0] * q[(i + 1) % len(q)][1] - q[(i + 1) % len(q)][0] * q[i][1] for i in range(len(q)))) / 2
    q = list()
    for x, y in p:
        d = hypot(x - x0, y - y0)
        k = min(1.0, r / d) if d > 0 else 1.0
        q.append((k * (x - x0), k * (y - y0)))
    circle = pi * r**2
    shifted = [(x - x0, y - y0) for x, y in p]
    return 100 * (area(shifted) + circle - 2 * area(q)) / circle


def closed(p):
    p = list(p) + [p[0]]
    return np.array([float(v[0]) for v in p]), np.array([float(v[1]) for v in p])


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1, abs(b))


def space(tier):
    for p in lattice_polygons(3, 3, 3, 8):
        yield (p,)
    for p in lattice_polygons(4, 3, 3, 5 if tier == "quick" else 6):
        yield (p,)


def run(ctx, payload):
    p = tuple(tuple(v) for v in payload[0])
    x0, y0, r2 = exact_fit(p)
    r = sqrt(r2)
    err = error(p, float(x0), float(y0), r)
    on_circle = all((x - x0) ** 2 + (y - y0) ** 2 == r2 for x, y in p)
    inside = all((x - x0) ** 2 + (y - y0) ** 2 <= r2 for x, y in p)
    if inside:
        ctx.check(abs(err - 100 * (1 - abs(area2(p)) / 2 / (pi * r * r))) < 1e-6, "harness")
    ctx.cover("on a circle", on_circle)
    ctx.cover("not on a circle", not on_circle)
    for k in range(len(p)):
        for q in (p[k:] + p[:k], (p[k:] + p[:k])[::-1]):
            for dx, dy, scale in ((0, 0, 1), (1000, -300, 0.25), (0, 0, 1e5)):
                x, y = closed(q)
                x, y = x * scale + dx, y * scale + dy
                for fit in (fit_circle, fit_circle_) if (dx, scale) == (0, 1) else (fit_circle,):
                    gx, gy, gr, ge = fit(x, y)
                    ok = close(gx, float(x0) * scale + dx) and close(gy, float(y0) * scale + dy) and close(gr, r * scale)
                    ctx.check(ok, "circle", lambda: f"{q} {dx} {dy} {scale}: {gx} {gy} {gr} instead of {float(x0)} {float(y0)} {r}")
                    ctx.check(close(ge, err, 1e-5), "shape error", lambda: f"{q} {dx} {dy} {scale}: {ge} instead of {err}")
                    ctx.step()
                # every circle
                for cx, cy, cr in ((1, 1, 1), (1, 0.5, 0.25), (0.5, 1, 3)):
                    ge = shape_error(x, y, cx * scale + dx, cy * scale + dy, cr * scale)
                    exp = error(p, cx, cy, cr)
                    ctx.check(close(ge, exp, 1e-5), "shape error of a circle", lambda: f"{q} {dx} {scale} {cx} {cy} {cr}: {ge} instead of {exp}")
                    ctx.step()
    ctx.state(p)
    ctx.outcome(str((x0, y0, r2)), round(err, 6))


# ------------------------------------------------------------- regular shapes
def regular_space(tier):
    for n in range(3, 13 if tier == "quick" else 60):
        for phase in (0, 1 / 3, 0.5):
            yield ("circle", n, phase)
    for a in (1, 2, 5):
        for b in (1, 3):
            for angle in range(0, 180, 30 if tier == "quick" else 5):
                yield ("ellipse", a, b, angle)


def regular_run(ctx, payload):
    if payload[0] == "circle":
        _, n, phase = payload
        for r, cx, cy in ((1, 0, 0), (5e4, 2e4, -1e4), (0.5, -7, 3)):
            p = [(cx + r * cos(2 * pi * (k + phase) / n), cy + r * sin(2 * pi * (k + phase) / n)) for k in range(n)]
            exp = 100 * (1 - n * sin(2 * pi / n) / 2 / pi)
            for fit in (fit_circle,) if r > 10 else (fit_circle, fit_circle_):
                gx, gy, gr, ge = fit(*closed(p))
                ctx.check(close(gx, cx) and close(gy, cy) and close(gr, r) and close(ge, exp, 1e-5), "regular polygon", lambda: f"{payload} {r}: {gx} {gy} {gr} {ge} instead of {cx} {cy} {r} {exp}")
                ctx.step()
            ctx.outcome(n, round(exp, 6))
            x, y = build_circle(cx, cy, r)
            ctx.check(x.size == y.size and np.allclose(np.hypot(x - cx, y - cy), r) and close(x[0], x[-1]) and close(y[0], y[-1]), "build circle", lambda: f"{r} {cx} {cy}")
    else:
        _, a, b, angle = payload
        c, s = cos(radians(angle)), sin(radians(angle))
        for cx, cy in ((0, 0), (20, 3), (-8, 9)):
            for n in (8, 13):
                t = [2 * pi * k / n for k in range(n)]
                x = np.array([cx + a * cos(v) * c - b * sin(v) * s for v in t])
                y = np.array([cy + a * cos(v) * s + b * sin(v) * c for v in t])
                gx, gy, ga, gb, gt = fit_ellipse(x, y)
                ctx.step()
                what = lambda: f"{payload} {cx} {cy} {n}: {gx} {gy} {ga} {gb} {gt}"
                ctx.check(abs(gx - cx) < 1e-6 and abs(gy - cy) < 1e-6, "centre of ellipse", what)
                # points of ellipse described by result are on the true one
                for v in (0, 0.25 * pi, 0.5 * pi, 2):
                    u, w = ga * cos(v), gb * sin(v)
                    px, py = u * cos(gt) - w * sin(gt), u * sin(gt) + w * cos(gt)
                    e = ((px * c + py * s) / a) ** 2 + ((-px * s + py * c) / b) ** 2
                    ctx.check(abs(e - 1) < 1e-5, "ellipse", what)
        # exactly symmetric : no crossed term
        if angle == 0:
            k = sqrt(0.75)
            x = np.array([a, 0, -a, 0, a / 2, -a / 2, a / 2, -a / 2])
            y = np.array([0, b, 0, -b, k * b, k * b, -k * b, -k * b])
            gx, gy, ga, gb, gt = fit_ellipse(x, y)
            along = ga if abs(sin(gt)) < 0.5 else gb
            ctx.check(abs(gx) < 1e-6 and abs(gy) < 1e-6 and close(sorted((ga, gb))[0], min(a, b), 1e-5) and close(sorted((ga, gb))[1], max(a, b), 1e-5) and close(along, a, 1e-5), "ellipse along axis", lambda: f"{payload}: {gx} {gy} {ga} {gb} {gt}")
        ctx.outcome(a, b, angle)
    ctx.state(payload)


# ---------------------------------------------------------------- geography
def great_circle(lon0, lat0, lon1, lat1):
    dlon, dlat = radians(lon1 - lon0), radians(lat1 - lat0)
    h = sin(dlat / 2) ** 2 + cos(radians(lat0)) * cos(radians(lat1)) * sin(dlon / 2) ** 2
    return EARTH * 2 * asin(min(1, sqrt(h)))


def bearing(lon0, lat0, lon1, lat1):
    """Angle from east, direct sense"""
    l0, l1, d = radians(lat0), radians(lat1), radians(lon1 - lon0)
    return pi / 2 - atan2(cos(l1) * sin(d), cos(l0) * sin(l1) - sin(l0) * cos(l1) * cos(d))


def to_local(p, lon0, lat0):
    out = list()
    for lon, lat in p:
        d, b = great_circle(lon0, lat0, lon, lat), bearing(lon0, lat0, lon, lat)
        out.append((d * cos(b), d * sin(b)))
    return out


def from_local(x, y, lon0, lat0):
    d, b = hypot(x, y) / EARTH, pi / 2 - atan2(y, x)
    l0 = radians(lat0)
    lat = asin(sin(l0) * cos(d) + cos(l0) * sin(d) * cos(b))
    lon = lon0 + degrees(atan2(sin(b) * sin(d) * cos(l0), cos(d) - sin(l0) * sin(lat)))
    return lon, degrees(lat)


def float_fit(p):
    mx, my = sum(v[0] for v in p) / len(p), sum(v[1] for v in p) / len(p)
    s = max(hypot(x - mx, y - my) for x, y in p)
    x0, y0, r2 = exact_fit([((x - mx) / s, (y - my) / s) for x, y in p])
    return float(x0) * s + mx, float(y0) * s + my, sqrt(r2) * s


def geo_space(tier):
    for p in lattice_polygons(3, 3, 3, 5 if tier == "quick" else 8):
        yield (p,)


GEO = [(0, 0, 1), (-0.5, 45, 0.5), (359.5, -60, 1), (179, 10, 0.25), (540, 80, 1), (-180.25, -20, 1.5)]


def geo_run(ctx, payload):
    p = tuple(tuple(v) for v in payload[0])
    for k, (lon, lat, step) in enumerate(GEO):
        q = p[k % len(p) :] + p[: k % len(p)]
        q = [(lon + x * step, lat + y * step) for x, y in (q if k % 2 else q[::-1])]
        lon0, lat0 = sum(v[0] for v in q) / len(q), sum(v[1] for v in q) / len(q)
        loc = to_local(q, lon0, lat0)
        cx, cy, r = float_fit(loc)
        clon, clat = from_local(cx, cy, lon0, lat0)
        err = error(loc, cx, cy, r)
        surface = abs(sum(loc[i][0] * loc[(i + 1) % len(loc)][1] - loc[(i + 1) % len(loc)][0] * loc[i][1] for i in range(len(loc)))) / 2
        x, y = closed(q)
        for shift in (0, 360, -360):
            path = Path(np.array([x + shift, y]).T)
            for again in range(2):
                glon, glat, gr, ge = path.fit_circle()
                ctx.check(abs(glon - clon - shift) < 1e-6 and abs(glat - clat) < 1e-6 and close(gr, r, 1e-6) and close(ge, err, 1e-4), "geographic circle", lambda: f"{q} {shift}: {glon} {glat} {gr} {ge} instead of {clon} {clat} {r} {err}")
                glon, glat, gr, ge = path.fit_circle(method="equal_area")
                ctx.check(abs(glon - lon0 - shift) < 1e-9 and abs(glat - lat0) < 1e-9 and close(gr, sqrt(surface / pi), 1e-6) and np.isnan(ge), "equal area circle", lambda: f"{q} {shift}: {glon} {glat} {gr} {ge}")
                ctx.step()
            mean = path.mean_coordinates
            ctx.check(abs(mean[0] - lon0 - shift) < 1e-9 and abs(mean[1] - lat0) < 1e-9 and np.array_equal(path.lon, x + shift) and np.array_equal(path.lat, y), "coordinates", lambda: f"{q} {mean}")
        gx, gy = coordinates_to_local(x, y, lon0, lat0)
        ctx.check(all(abs(a - u) < 1e-2 and abs(b - v) < 1e-2 for a, b, (u, v) in zip(gx, gy, loc)), "local coordinates", lambda: f"{q}: {gx} {gy} instead of {loc}")
        bx, by = local_to_coordinates(gx, gy, lon0, lat0)
        ctx.check(np.allclose(bx, x, rtol=0, atol=1e-6) and np.allclose(by, y, rtol=0, atol=1e-6), "back to coordinates", lambda: f"{q}: {bx} {by}")
        # contour of only one position
        one = Path(np.array([x[:1].repeat(5), y[:1].repeat(5)]).T)
        for method in ("fit", "equal_area"):
            res = one.fit_circle(method=method)
            ctx.check(np.isnan(res[2]) and np.isnan(res[3]), "circle of a position", lambda: f"{res}")
        ctx.outcome(round(r, 2), round(err, 4))
        ctx.state(p, k)


SCENARIOS = [
    Scenario("lattice", space, run, shards=32, bound="every simple polygon of a 3x3 lattice, of 3-5 (3-6) vertices on a 4x3 one, every start and direction, 3 scales", need=["on a circle", "not on a circle"]),
    Scenario("regular", regular_space, regular_run, shards=16, bound="regular polygons of 3-12 (3-59) vertices, ellipses every 30 (5) degrees"),
    Scenario("geography", geo_space, geo_run, shards=32, bound="every simple polygon of 3-5 (3-8) vertices of a 3x3 lattice at 6 places, shifts of 360 degrees"),
]
