# -*- coding: utf-8 -*-
"""C20: points are attributed to the eddy whose contour contains them"""
from itertools import permutations, product

import numpy as np

from mc.core import Scenario
from mc.obsfix import make

ASSUMPTIONS = [
    "positions exactly on a contour could be inside or not",
    "when several contours contain a position, any of them is right but it doesn't depend on other positions",
    "a contour doesn't include a pole, its longitudes are continuous",
]
UNIT = 16
CONT = dict(e=("contour_lon_e", "contour_lat_e"), s=("contour_lon_s", "contour_lat_s"))
NB = 9
# vertices in 1/16 of degree
SHAPES = dict(
    square=[(-13, -11), (13, -11), (13, 11), (-13, 11)],
    triangle=[(-20, -9), (17, -15), (3, 22)],
    flag=[(-33, -17), (31, -15), (5, 1), (29, 19), (-31, 15)],
    spiral=[(-25, -25), (27, -25), (27, 25), (-25, 25), (-25, 11), (9, 11), (9, -9), (-25, -9)],
    thin=[(-70, 1), (70, -3), (70, 3), (-70, 5)],
    tiny=[(-3, -3), (3, -3), (1, 3)],
)
# centers in 1/16 of degree
XS = dict(origin=0, west=-2881, middle=2880, east=5757, far=11520 + 37, left=-5760 - 7, box=16 * 10 + 8)
YS = dict(equator=0, south=-16 * 60 - 3, north=16 * 45 + 8, top=16 * 87)


def polygon(name, x, y, variant=0, scale=1):
    pts = [(x + scale * u, y + scale * v) for u, v in SHAPES[name]]
    if variant & 1:
        pts = pts[::-1]
    if variant & 2:
        pts = pts[1:] + pts[:1]
    return pts


def side(p, a, b):
    return (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])


def locate(p, poly):
    """exact: 1 inside, 0 outside, None on the contour"""
    inside = False
    for a, b in zip(poly, poly[1:] + poly[:1]):
        s = side(p, a, b)
        if s == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]):
            return None
        if (a[1] > p[1]) != (b[1] > p[1]):
            if (s > 0) == (b[1] > a[1]):
                inside = not inside
    return int(inside)


def anywhere(p, poly):
    """Whatever the convention of longitude"""
    low = min(v[0] for v in poly)
    x = (p[0] - low) % (360 * UNIT) + low
    return locate((x, p[1]), poly)


def dataset(polys_e, polys_s):
    n = len(polys_e)
    obs = make("eddies", n, arrays=list(CONT["e"] + CONT["s"]), nb_sample=NB, only=["lon", "lat", "time"] + list(CONT["e"] + CONT["s"]))
    for k in range(n):
        for c, polys in (("e", polys_e), ("s", polys_s)):
            pts = polys[k] + [polys[k][0]] * (NB - len(polys[k]))
            for d in (0, 1):
                obs.obs[CONT[c][d]][k] = [p[d] / UNIT for p in pts]
        obs.obs["lon"][k], obs.obs["lat"][k] = np.mean(polys_e[k], axis=0) / UNIT
    return obs


def near(x, y, scale=1):
    """Lattice of positions which covers a contour"""
    step = 6 * scale
    return [(x + i * step, y + j * step) for i in range(-6, 7) for j in range(-5, 6) if abs(y + j * step) <= 90 * UNIT]


def one_space(tier):
    variants = range(4) if tier == "thorough" else (0, 3)
    for name in SHAPES:
        for x in XS:
            for y in YS:
                for v in variants:
                    yield [name, x, y, v]


def one_run(ctx, payload):
    name, xn, yn, variant = payload
    x, y = XS[xn], YS[yn]
    if yn == "top" and name in ("spiral", "flag"):
        y -= UNIT
    out = polygon(name, x, y, variant)
    inn = polygon("tiny", x + 7, y - 2, variant)
    obs = dataset([out], [inn])
    pts = near(x, y) + near(x + 5, y - 3, 2)
    for c, poly in (("e", out), ("s", inn)):
        for k in (0, 1, -1, 2):
            for dtype in ("f8", "f4"):
                shifted = [((p[0] + k * 360 * UNIT) / UNIT, p[1] / UNIT) for p in pts]
                px = np.array([p[0] for p in shifted] + [np.nan, 3.0, np.nan], dtype=dtype)
                py = np.array([p[1] for p in shifted] + [3.0, np.nan, np.nan], dtype=dtype)
                intern = c == "s"
                index = obs.contains(px, py, intern=intern)
                flag = obs.inside(px, py, intern=intern)
                ctx.step(2)
                ctx.check(index.shape == px.shape and flag.shape == px.shape, "shape", f"{payload}")
                ctx.check((index[-3:] == -1).all() and not flag[-3:].any(), "undefined", lambda: f"{payload} {c}: {index[-3:]} {flag[-3:]}")
                for i, p in enumerate(pts):
                    ref = anywhere(p, poly)
                    if ref is None:
                        ctx.cover("on contour")
                        continue
                    ctx.cover("in" if ref else "out")
                    ctx.check(index[i] == ref - 1, "contains", lambda: f"{payload} {c} shift {k} {dtype} {shifted[i]}: {index[i]} instead of {ref - 1}")
                    ctx.check(bool(flag[i]) == bool(ref), "inside", lambda: f"{payload} {c} shift {k} {dtype} {shifted[i]}: {flag[i]}")
    # alone, and nothing
    for i in range(0, len(pts), 7):
        ref = anywhere(pts[i], out)
        if ref is not None:
            got = obs.contains(np.array([pts[i][0] / UNIT]), np.array([pts[i][1] / UNIT]))
            ctx.step()
            ctx.check(got[0] == ref - 1, "alone", lambda: f"{payload} {pts[i]}: {got}")
    for f in (obs.contains, obs.inside):
        ctx.check(f(np.empty(0), np.empty(0)).size == 0, "nothing", f"{payload}")
    ctx.state(*payload)


OFFSETS = [(0, 0), (9, 5), (40, 0), (-23, 31), (360 * UNIT + 11, -6), (-360 * UNIT, 40), (16, -16)]


def two_space(tier):
    names = list(SHAPES)
    for a, b in product(names, names):
        if tier == "quick" and (a, b) != ("spiral", "square") and (names.index(a) + names.index(b)) % 3:
            continue
        for o in range(len(OFFSETS)):
            for x in ("origin", "middle", "box", "left"):
                for y in ("equator", "north"):
                    yield [a, b, o, x, y]


def two_run(ctx, payload):
    """Two or three contours, every order of positions"""
    a, b, o, xn, yn = payload
    x, y = XS[xn], YS[yn]
    x1, y1 = x + OFFSETS[o][0], y + OFFSETS[o][1]
    polys = [polygon(a, x, y), polygon(b, x1, y1, 3), polygon("tiny", x + 2, y + 200)]
    obs = dataset(polys, polys[::-1])
    pts = near(x, y) + [(x + 2, y + 199), (x + 60 * UNIT, y)]
    ref = [[anywhere(p, q) for q in polys] for p in pts]
    base = obs.contains(np.array([p[0] / UNIT for p in pts]), np.array([p[1] / UNIT for p in pts]))
    rev = obs.contains(np.array([p[0] / UNIT for p in pts]), np.array([p[1] / UNIT for p in pts]), intern=True)
    ctx.step(2)

    def right(got, r, what):
        ctx.check(-1 <= got < 3, "index", lambda: f"{payload} {what}: {got}")
        if None in r:
            return
        if sum(r) == 0:
            ctx.check(got == -1, "contains", lambda: f"{payload} {what}: {got} instead of none")
        else:
            ctx.check(got != -1 and r[got] == 1, "contains", lambda: f"{payload} {what}: {got}, inside {r}")
            if sum(r) > 1:
                ctx.cover("overlap")

    for i, p in enumerate(pts):
        right(base[i], ref[i], p)
        right(rev[i], ref[i][::-1], p)
    # small sets in every order must give the same answer
    special = [k for k in range(0, len(pts), 11)][:12] + [len(pts) - 2, len(pts) - 1]
    for k in range(0, len(special) - 3, 3):
        sub = special[k : k + 4]
        for order in permutations(sub):
            px = np.array([pts[i][0] / UNIT for i in order])
            py = np.array([pts[i][1] / UNIT for i in order])
            got = obs.contains(px, py)
            flag = obs.inside(px, py)
            ctx.step(2)
            ctx.check((got == base[list(order)]).all(), "order", lambda: f"{payload} {order}: {got} {base[list(order)]}")
            ctx.check((flag == (got != -1)).all(), "order", lambda: f"{payload} {order}: {got} {flag}")
    ctx.state(*payload)
    ctx.outcome(base.tobytes())


# polygons of user: in degrees
USER = dict(
    small=[(-5, -5), (7, -5), (7, 6), (-5, 6)],
    cross=[(350, 10), (374, 10), (374, 40), (350, 40)],
    west=[(-190, -30), (-150, -35), (-150, 35), (-190, 30)],
    wide=[(20, -70), (250, -70), (260, 70), (30, 70)],
    wider=[(-170, -20), (165, -25), (170, 20), (-175, 25)],
    globe=[(-180, -85), (180, -85), (180, 85), (-180, 85)],
    band=[(0, 30), (360, 30), (360, 60), (0, 60)],
    concave=[(-60, -40), (60, -40), (0, 0), (60, 40), (-60, 40)],
)
LON = [-179, -160.5, -90, -20, -1, 0.5, 3, 15, 89, 171, 180.5, 200, 251, 300, 359, 365, 540]
LAT = [-88, -50, -12, 1, 3, 33, 61, 86]


def user_space(tier):
    names = list(USER)
    for a in names:
        yield [a]
        for b in names:
            yield [a, b]
            if tier == "thorough":
                for c in names:
                    yield [a, b, c]


def user_run(ctx, payload):
    spots = [(x, y) for x in LON for y in LAT]
    polys = [USER[p] for p in payload]
    arrays = [(np.array([p[0] for p in q], dtype="f8"), np.array([p[1] for p in q], dtype="f8")) for q in polys]
    ref = list()
    for x, y in spots:
        r = [anywhere((x * UNIT, y * UNIT), [(u * UNIT, v * UNIT) for u, v in q]) for q in polys]
        ref.append(None if None in r else any(r))
    subs = [list(range(len(spots))), [], [0], [5], list(range(len(spots)))[::-3]]
    # only those which are in the first polygon
    subs.append([i for i, (x, y) in enumerate(spots) if anywhere((x * UNIT, y * UNIT), [(u * UNIT, v * UNIT) for u, v in polys[0]])])
    for shift in (0, 360, -360):
        for sub in subs:
            obs = make("eddies", len(sub), only=["lon", "lat", "time"])
            if sub:
                obs.obs["lon"] = [spots[i][0] + shift for i in sub]
                obs.obs["lat"] = [spots[i][1] for i in sub]
            m = obs.mask_from_polygons(arrays)
            ctx.step()
            ctx.check(m.shape == (len(sub),) and m.dtype == bool, "mask", f"{payload} {m.shape} {m.dtype}")
            for i, v in zip(sub, m):
                if ref[i] is None:
                    continue
                ctx.cover("selected" if ref[i] else "rejected")
                ctx.check(bool(v) == ref[i], "polygons", lambda: f"{payload} {spots[i]} shift {shift}: {v}")
    ctx.state(*payload)


SCENARIOS = [
    Scenario("one", one_space, one_run, shards=8, need=("in", "out", "on contour"),
             bound="6 shapes x 7 longitudes x 4 latitudes x 2 (4) orientations/starts, 280 positions in 4 conventions of longitude"),
    Scenario("two", two_space, two_run, shards=8, need=("overlap",),
             bound="pairs of shapes x 7 offsets x 8 places, all positions, every order of sets of 4 positions"),
    Scenario("user", user_space, user_run, shards=4, need=("selected", "rejected"),
             bound="lists of up to 2 (3) polygons among 8 (narrow, wide, around the globe), 136 positions"),
]
