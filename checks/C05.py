# -*- coding: utf-8 -*-
"""C05: similarity of eddies is a symmetric ratio of overlapped areas"""
from fractions import Fraction
from itertools import permutations, product

from numpy import array

from mc.core import Fail, Scenario
from mc.geom import area2, inter_area, lattice_polygons
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.poly import vertice_overlap

ASSUMPTIONS = ["vertices on a lattice (step 1 or 0.5 degree), closed contours; areas computed in longitude/latitude plane as documented"]


def family(tier):
    """Simple polygons with vertices on a 3x3 lattice, one by shape (up to translation)"""
    seen, out = set(), list()
    for p in lattice_polygons(3, 3, 3, 4 if tier == "quick" else 5):
        x0, y0 = min(x for x, _ in p), min(y for _, y in p)
        q = tuple((x - x0, y - y0) for x, y in p)
        if q not in seen:
            seen.add(q)
            out.append(q)
    return out


FAMILY = dict()
NB = 8


def get(tier):
    if tier not in FAMILY:
        FAMILY[tier] = family(tier)
    return FAMILY[tier]


def closed(p, dx=0, dy=0, start=0, reverse=False):
    """As arrays with a constant number of points (vertices may be repeated at the end)"""
    p = p[start:] + p[:start]
    if reverse:
        p = p[:1] + p[1:][::-1]
    p = p + p[:1]
    p = p + p[-1:] * (NB - len(p))
    return [x + dx for x, _ in p], [y + dy for _, y in p]


def ratios(p, q):
    i = inter_area(p, q)
    a, b = Fraction(abs(area2(p)), 2), Fraction(abs(area2(q)), 2)
    return float(i / (a + b - i)), float(i / min(a, b)), float(i / b)


MOVES = [(x, y) for x in (-1, 0, 1, 2, 3) for y in (-1, 0, 1, 2)]
LON0 = [0, 359]


def space_pair(tier):
    f = get(tier)
    for i in range(len(f)):
        yield [i]


def run_pair(ctx, payload):
    (i,) = payload
    f = get(ctx.tier)
    p = f[i]
    for j in range(len(f)):
        q0 = f[j]
        if j < i:
            continue
        moves = MOVES if ctx.tier != "quick" else MOVES[(i + j + 1) % 2 :: 2]
        x0, y0, x1, y1, want = [], [], [], [], []
        keys = list()
        for dx, dy in moves:
            q = tuple((x + dx, y + dy) for x, y in q0)
            w = ratios(p, q)
            wt = ratios(q, p)
            for lon0 in LON0:
                for k, start, rev in ((0, 0, 0), (360, 1, 0), (-360, 0, 1), (0, 2, 1)):
                    xa, ya = closed(p, lon0)
                    xb, yb = closed(q, lon0 + k, 0, start, rev)
                    x0.append(xa), y0.append(ya), x1.append(xb), y1.append(yb), want.append(w)
                    keys.append((dx, dy, lon0, k, start, rev))
                    # other way
                    x0.append(xb), y0.append(yb), x1.append(xa), y1.append(ya), want.append(wt)
                    keys.append((dx, dy, lon0, k, start, rev, "swap"))
        # EddiesObservations keeps contours in f4
        a = [array(v, dtype="f4") for v in (x0, y0, x1, y1)]
        for n, kw in enumerate((dict(), dict(minimal_area=True), dict(p1_area=True))):
            c = vertice_overlap(*a, **kw)
            ctx.step(len(c))
            for k in range(len(c)):
                if abs(c[k] - want[k][n]) > 1e-4:
                    raise Fail("ratio", f"{p} and {q0} {keys[k]} {kw}: {c[k]} instead of {want[k][n]}")
        limit = 0.4
        c = vertice_overlap(*a, min_overlap=limit)
        h = vertice_overlap(*a, min_overlap=limit, hybrid_area=True)
        ctx.step(2 * len(c))
        for k in range(len(c)):
            w, m = want[k][:2]
            if abs(w - limit) < 1e-3:
                continue
            e = w if w > limit else 0
            if abs(c[k] - e) > 1e-4:
                raise Fail("min_overlap", f"{p} and {q0} {keys[k]}: {c[k]} instead of {e}")
            eh = w if w > limit or m > 0.999 else 0
            if abs(h[k] - eh) > 1e-4:
                raise Fail("hybrid", f"{p} and {q0} {keys[k]}: {h[k]} instead of {eh}")
            if eh != e:
                ctx.cover("included")
            ctx.state(i, j, keys[k])
            ctx.outcome(round(w, 5))
            if 0 < w < 1:
                ctx.cover("partial")
            if w == 1:
                ctx.cover("identical")


# Matching of sets
SHAPES = [((0, 0), (4, 0), (4, 2), (0, 2)), ((0, 0), (2, 0), (2, 2), (0, 2)), ((0, 0), (4, 0), (0, 4))]
PLACES = [(0, 0), (2, 0), (3, 1), (4, 0), (1, -1)]
ITEMS = [(s, p) for s in range(3) for p in range(5)]


def poly(item):
    s, p = item
    return tuple((x + PLACES[p][0], y + PLACES[p][1]) for x, y in SHAPES[s])


def observations(items, shift, intern):
    e = EddiesObservations(
        size=len(items),
        only_variables=["time", "lon", "lat", "contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"],
        track_array_variables=NB,
        array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"],
    )
    k, other = ("s", "e") if intern else ("e", "s")
    for n, item in enumerate(items):
        x, y = closed(poly(item), shift)
        e.obs[f"contour_lon_{k}"][n], e.obs[f"contour_lat_{k}"][n] = x, y
        # the other contour overlaps nothing
        e.obs[f"contour_lon_{other}"][n] = [180 + v for v in x]
        e.obs[f"contour_lat_{other}"][n] = [70 + 0.5 * n + 0 * v for v in x]
    return e


PAIRS = dict()


def pair(i, j):
    k = ITEMS[i], ITEMS[j]
    if k not in PAIRS:
        PAIRS[k] = ratios(poly(k[0]), poly(k[1]))
    return PAIRS[k]


def space_match(tier):
    nb = dict(quick=2, thorough=3)[tier]
    for n in range(nb + 1):
        for a in permutations(range(len(ITEMS)), n):
            yield list(a)


def run_match(ctx, a):
    n = 1 if len(a) == 2 and ctx.tier == "quick" else 2
    for nb in range(n + 1):
        for b in permutations(range(len(ITEMS)), nb):
            shift = (-1, 359, -361, 719)[(len(a) + sum(a) + sum(b)) % 4]
            intern = bool((sum(a) + len(b)) % 2)
            s = observations([ITEMS[i] for i in a], -1, intern)
            o = observations([ITEMS[i] for i in b], shift, intern)
            for cmin, kw, num in ((0, dict(), 0), (0.3, dict(), 0), (0.3, dict(minimal_area=True), 1), (0, dict(min_overlap=0.4), 0)):
                limit = kw.get("min_overlap", cmin)
                i, j, c = s.match(o, intern=intern, cmin=cmin, **kw)
                ctx.step()
                got = list(zip(i.tolist(), j.tolist()))
                if len(set(got)) != len(got):
                    raise Fail("twice", f"{a} {b} {shift}: {got}")
                got = dict(zip(got, c.tolist()))
                for x, y in product(range(len(a)), range(len(b))):
                    w = pair(a[x], b[y])[num]
                    if abs(w - limit) < 1e-5 and limit > 0:
                        continue
                    v = got.pop((x, y), None)
                    if w > limit:
                        if v is None or abs(v - w) > 1e-4:
                            raise Fail("score", f"{a} {b} {shift} {cmin} {kw}: pair {(x, y)} {v} instead of {w}")
                        ctx.cover("pair")
                    elif v is not None and (cmin > 0 or v != 0):
                        raise Fail("under", f"{a} {b} {shift} {cmin} {kw}: pair {(x, y)} has score {w} and is kept with {v}")
                if [k for k in got if not (0 <= k[0] < len(a) and 0 <= k[1] < len(b))]:
                    raise Fail("index", f"{got}")
            ctx.state(a, b)
            ctx.outcome(sorted(zip(i.tolist(), j.tolist())))


# Sub selection of observations in match
def space_subset(tier):
    for n in range(5):
        for sub in permutations(range(4), n):
            yield list(sub)


def run_subset(ctx, sub):
    items = [0, 6, 2, 12]
    s, o = observations([ITEMS[i] for i in items], -1, False), observations([ITEMS[i] for i in items[::-1]], 359, False)
    i, j, c = s.match(o)
    full = {(a, b): v for a, b, v in zip(i.tolist(), j.tolist(), c.tolist())}
    for other in permutations(range(4), 2):
        i, j, c = s.match(o, i_self=array(sub, dtype=int), i_other=array(other, dtype=int))
        ctx.step()
        ctx.state(sub, other)
        got = {(sub[a], other[b]): v for a, b, v in zip(i.tolist(), j.tolist(), c.tolist())}
        want = {k: v for k, v in full.items() if k[0] in sub and k[1] in other}
        if got != want or len(got) != len(i):
            raise Fail("subset", f"{sub} {other}: {got} instead of {want}")
        ctx.outcome(sorted(got))
        if got:
            ctx.cover("found")


# close_center
def space_center(tier):
    yield from product((0, 359.95, -0.02, 180, 90), repeat=2)


def run_center(ctx, lons):
    for lats in product((0, 0.05, 0.3, -0.25), repeat=2):
        for shift in (0, 360, -360):
            a, b = EddiesObservations(size=1), EddiesObservations(size=1)
            a.obs["lon"], a.obs["lat"] = lons[0], lats[0]
            b.obs["lon"], b.obs["lat"] = lons[1] + shift, lats[1]
            i, j, c = a.match(b, method="close_center", delta=0.1)
            ctx.step()
            d = (lons[0] - lons[1] + 180) % 360 - 180
            want = abs(d) < 0.1 and abs(lats[0] - lats[1]) < 0.1
            if (len(i) == 1) != want:
                raise Fail("close_center", f"{lons} {lats} {shift}: {i} {j} instead of {want}")
            ctx.state(lons, lats, shift)
            if want:
                ctx.cover("close")
            ctx.outcome(want)


SCENARIOS = [
    Scenario("pair", space_pair, run_pair, shards=8, need=("partial", "identical", "included"),
             bound="every pair of simple polygons with 3-4 vertices (3-5 thorough) on a 3x3 lattice, 20 offsets (10 in quick), both sides of the 0 meridian, shifts of 360, start vertex and direction"),
    Scenario("match", space_match, run_match, shards=8, need=("pair",), bound="every ordered pair of sets of up to 2 of 15 polygons"),
    Scenario("subset", space_subset, run_subset, shards=2, need=("found",), bound="every ordered subset"),
    Scenario("close_center", space_center, run_center, need=("close",), bound="5x5 longitudes, 4x4 latitudes, 3 conventions"),
]
