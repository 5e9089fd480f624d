# -*- coding: utf-8 -*-
"""C30: predicates and measures of polygons"""
from fractions import Fraction
from itertools import combinations, product

import numpy as np
from Polygon import Polygon

from py_eddy_tracker import poly
from mc.core import Scenario
from mc.geom import area2, cross, inter_area, lattice_polygons, locate, on_segment
from mc.obsfix import make

ASSUMPTIONS = [
    "polygons are simple; nothing is claimed for a point exactly on the border",
    "a polygon contains another one when it contains all its vertices (contours do not cross each other)",
    "polygons compared are less than 180 degrees wide",
]


def convex_hull(points):
    pts = sorted(set(points))

    def half(pts):
        out = list()
        for p in pts:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out

    return half(pts)[:-1] + half(pts[::-1])[:-1]


def variants(p):
    """Every start and direction"""
    for k in range(len(p)):
        q = p[k:] + p[:k]
        yield q
        yield q[::-1]


def closed(p, dx=0.0, dy=0.0, scale=1.0, dtype="f8", closing=1):
    p = list(p) + [p[0]] * closing
    return np.array([float(x) * scale + dx for x, _ in p], dtype=dtype), np.array([float(y) * scale + dy for _, y in p], dtype=dtype)


def flat(p, edges):
    """Same polygon, twice bigger, with a vertex in the middle of edges"""
    out = list()
    for i, a in enumerate(p):
        b = p[(i + 1) % len(p)]
        out.append((2 * a[0], 2 * a[1]))
        if i in edges:
            out.append((a[0] + b[0], a[1] + b[1]))
    return tuple(out)


def is_convex(p):
    n = len(p)
    s = {(c > 0) - (c < 0) for c in (cross(p[i - 1], p[i], p[(i + 1) % n]) for i in range(n))} - {0}
    return len(s) == 1


def shapes(tier):
    for p in lattice_polygons(3, 3, 3, 8):
        yield p
    for p in lattice_polygons(4, 3, 3, 5 if tier == "quick" else 7):
        yield p
    if tier != "quick":
        for p in lattice_polygons(4, 4, 3, 5):
            yield p


def flats(tier):
    for p in lattice_polygons(3, 3, 3, 4 if tier == "quick" else 5):
        n = len(p)
        subsets = [(i,) for i in range(n)] + [tuple(range(n))] if tier == "quick" else [c for k in range(1, n + 1) for c in combinations(range(n), k)]
        for edges in subsets:
            yield flat(p, edges)


def space(tier):
    for p in shapes(tier):
        yield (p,)
    for p in flats(tier):
        yield (p,)


PLACES = [(0.0, 0.0, 1.0), (-360.0, 10.0, 0.5), (359.0, -50.0, 0.25)]


def run(ctx, payload):
    p = tuple(tuple(v) for v in payload[0])
    exact = Fraction(abs(area2(p)), 2)
    hull = convex_hull(p)
    cvx = is_convex(p)
    ctx.cover("convex", cvx)
    ctx.cover("concave", not cvx)
    ctx.cover("flat", len(p) != len(convex_hull(p)) and cvx)
    nx, ny = max(x for x, _ in p), max(y for _, y in p)
    points = [(x / 2, y / 2) for x, y in product(range(-1, 2 * nx + 2), range(-1, 2 * ny + 2))]
    where = {v: locate(p, v) for v in points}
    points = [v for v in points if where[v] != 0]
    batch = list()
    for k, q in enumerate(variants(p)):
        dx, dy, scale = PLACES[k % 3]
        for dtype in ("f8", "f4"):
            x, y = closed(q, dx, dy, scale, dtype)
            a = poly.poly_area(x, y)
            ctx.check(a == exact * Fraction(scale) ** 2, "area", lambda: f"{q} {dtype}: {a} instead of {exact}")
            v = poly.create_vertice(x, y)
            ctx.check(np.array_equal(v, np.array([x, y]).T) and v.dtype == x.dtype, "vertices", lambda: f"{q}: {v}")
            ctx.check(poly.poly_area_vertice(v) == a, "area of vertices", lambda: f"{q}")
            ctx.check(bool(poly.convex(x, y)) == cvx, "convex", lambda: f"{q} {dtype}: {not cvx}")
            if k % 2 == 0:
                # opened or closed polygon, also with repeated values in the end
                for closing in (0, 1, 3):
                    xc, yc = poly.reduce_size(*closed(q, dx, dy, scale, dtype, closing))
                    ctx.check(xc.size == max(3, len(q)) and np.array_equal(xc, x[: len(q)]) and np.array_equal(yc, y[: len(q)]), "reduced size", lambda: f"{q} {closing}: {xc}")
                    w = poly.create_vertice(*closed(q, dx, dy, scale, dtype, closing))
                    for t in points:
                        inside = poly.winding_number_poly(t[0] * scale + dx, t[1] * scale + dy, w) != 0
                        ctx.check(inside == (where[t] == 1), "inside", lambda: f"{q} {closing} {t}: {inside}")
            if area2(q) > 0:
                hx, hy = poly.get_convex_hull(x, y)
                got = [(int(i), int(j)) for i, j in zip((hx - dx) / scale, (hy - dy) / scale)]
                ok = got[0] == got[-1] and got[0] in hull
                if ok:
                    i = hull.index(got[0])
                    ok = got[:-1] == hull[i:] + hull[:i]
                ctx.check(ok, "convex hull", lambda: f"{q}: {got} instead of {hull}")
                ctx.check(bool(poly.convex(hx, hy)), "convex hull is not convex", lambda: f"{q}: {got}")
            ctx.step()
        if len(q) == len(p):
            batch.append(closed(q))
    xs, ys = np.array([b[0] for b in batch]), np.array([b[1] for b in batch])
    ctx.check(poly.convexs(xs, ys).tolist() == [cvx] * len(batch), "convexs", lambda: f"{p}")
    v = poly.create_vertice_from_2darray(xs, ys, 2)
    ctx.check(np.array_equal(v, np.array(batch[2]).T), "vertices of one polygon", lambda: f"{p}: {v}")
    obs = make("eddies", len(batch), arrays=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], nb_sample=xs.shape[1])
    obs.obs["contour_lon_s"], obs.obs["contour_lat_s"] = xs, ys
    for i, h in enumerate((0, 2, 2, 0)[: xs.shape[1]]):
        obs.obs["contour_lon_e"][:, i] = h
    tri = [(0, 0), (2, 0), (1, 1)] if len(p) == 3 else [(0, 0), (2, 0), (1, 0.5), (0, 2)]
    tri = tri + [tri[0]] * (xs.shape[1] - len(tri))
    obs.obs["contour_lon_e"], obs.obs["contour_lat_e"] = [t[0] for t in tri], [t[1] for t in tri]
    ctx.check(obs.is_convex(intern=True).tolist() == [cvx] * len(batch), "is_convex", lambda: f"{p}")
    if len(tri) == 4 or len(p) == 4:
        ctx.check(obs.is_convex().tolist() == [len(p) == 3] * len(batch), "is_convex of the other contour", lambda: f"{p}")
    ctx.state(p)
    ctx.outcome(str(exact), cvx, len(hull), sum(w == 1 for w in where.values()))


# ----------------------------------------------------------- pair of polygons
def translated(tier):
    """one by shape"""
    seen = set()
    for p in lattice_polygons(3, 3, 3, 4 if tier == "quick" else 5):
        x0, y0 = min(x for x, _ in p), min(y for _, y in p)
        q = tuple(sorted((x - x0, y - y0) for x, y in p))
        key = (q, str(sorted(tuple(sorted(((p[i][0] - x0, p[i][1] - y0), (p[i - 1][0] - x0, p[i - 1][1] - y0)))) for i in range(len(p)))))
        if key not in seen:
            seen.add(key)
            yield tuple((x - x0, y - y0) for x, y in p)


def pair_space(tier):
    for p in translated(tier):
        yield (p,)


OFFSETS = [tuple(Fraction(v) for v in o) for o in ((0, 0), (0.5, 0.25), (-0.5, 0.25), (1.5, 1), (2, 0), (-1, -1), (4, 0))]


def pair_run(ctx, payload):
    p = tuple(tuple(v) for v in payload[0])
    # outer polygons are bigger
    out = tuple((3 * x - 1, 3 * y - 1) for x, y in p)
    others = list(translated("quick"))
    ap = Fraction(abs(area2(p)), 2)
    polygon = Polygon(np.array(closed(p)).T)
    for k, q in enumerate(others):
        for m, (dx, dy) in enumerate(OFFSETS):
            r = tuple((x + dx, y + dy) for x, y in q)
            place = [locate(out, v) for v in r]
            if 0 not in place:
                exp = all(w == 1 for w in place)
                for shift in (0, 360, -360):
                    for base in (0, 179, 358.5):
                        v_out = poly.create_vertice(*closed(out, base, 0))
                        got = bool(poly.poly_contain_poly(v_out, poly.create_vertice(*closed(r, base + shift, 0))))
                        ctx.check(got == exp, "polygon in polygon", lambda: f"{r} in {out} {base} {shift}: {got}")
                        ctx.step()
                ctx.cover("contained", exp)
                ctx.cover("partly contained", not exp and 1 in place)
            if (k + m) % 3 == 0:
                inter, aq = inter_area(p, r), Fraction(abs(area2(r))) / 2
                shape = Polygon(np.array(closed(r)).T)
                for minimal, exp in ((False, inter / (ap + aq - inter)), (True, inter / min(ap, aq))):
                    got = poly.polygon_overlap(polygon, [shape, polygon], minimal_area=minimal)
                    ctx.check(abs(got[0] - float(exp)) < 1e-6 and abs(got[1] - 1) < 1e-6, "overlap", lambda: f"{p} {r} {minimal}: {got} instead of {exp}")
                    ctx.step()
                n = max(len(p), len(r)) + 1
                pad = lambda s: list(s) + [s[0]] * (n - len(s))
                xs, ys = np.array([[v[0] for v in pad(s)] for s in (p, r)], dtype="f8"), np.array([[v[1] for v in pad(s)] for s in (p, r)], dtype="f8")
                mx, my = poly.merge(xs, ys)
                ctx.step()
                # contours are separated by undefined values; holes are described like contours
                area = 0
                parts = np.split(np.array([mx, my]).T, np.where(np.isnan(mx))[0])
                parts = [s[~np.isnan(s[:, 0])] for s in parts]
                got = sum(abs(area2([tuple(Fraction(float(c)).limit_denominator(5040) for c in v) for v in s.tolist()])) / Fraction(2) for s in parts if len(s) > 2)
                total = ap + aq - inter
                ctx.check(got >= total - Fraction(1, 10**5), "merged", lambda: f"{p} {r}: {got} instead of {total}")
                if len([s for s in parts if len(s) > 2]) == 1:
                    ctx.check(abs(got - total) < Fraction(1, 10**5), "merged", lambda: f"{p} {r}: {got} instead of {total}")
                    ctx.cover("merged")
                ctx.outcome(str(inter))
    ctx.state(p)


SCENARIOS = [
    Scenario("shapes", space, run, shards=32, bound="every simple polygon of a 3x3 lattice, with 3-5 (3-7) vertices on a 4x3 one (3-5 on a 4x4 one), with flat vertices or not, every start and direction, every point of half lattice", need=["convex", "concave", "flat"]),
    Scenario("pairs", pair_space, pair_run, shards=32, bound="every pair of polygons of 3-4 vertices of a 3x3 lattice, 7 offsets, shifted by 360 degrees", need=["contained", "partly contained", "merged"]),
]
