# -*- coding: utf-8 -*-
"""C13: pixels inside contours and along paths are the geometric ones"""
import os
import tempfile
from itertools import product

import numpy as np
from matplotlib.path import Path
from netCDF4 import Dataset
from numpy import array, ma

from mc.core import Fail, Scenario
from mc.geom import lattice_polygons, locate
from py_eddy_tracker.dataset.grid import RegularGridDataset, UnRegularGridDataset

ASSUMPTIONS = [
    "contours narrower than 180 degrees, global grids of at least 12 columns for contours",
    "pixels exactly on a contour are accepted in or out",
    "no preferred side for a path between pixels at exactly a half turn",
]

# x first center, x step, nb x, y first, y step, nb y
KINDS = dict(
    regional=(2.0, 0.5, 5, 10.0, 0.5, 4),
    across0=(358.0, 1.0, 4, -2.0, 1.0, 5),
    west=(-171.0, 2.0, 5, 30.0, 2.0, 4),
    globe=(0.0, 30.0, 12, -60.0, 30.0, 5),
    globe180=(-165.0, 30.0, 12, -60.0, 30.0, 5),
    globeoff=(17.5, 22.5, 16, -30.0, 22.5, 4),
)


def grid(kind):
    x0, dx, nx, y0, dy, ny = KINDS[kind]
    x, y = x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)
    return RegularGridDataset.with_array(
        ("x", "y"), dict(x=x, y=y, h=ma.zeros((nx, ny))),
        variables_description=dict(h=dict(units="m")), centered=True,
    )


# (offset in hundredths of cell, scale in hundredths) of lattice polygons
PLACES = dict(off=((37, 41), 100), small=((13, 29), 45), aligned=((0, 0), 100), big=((37, 41), 170), wide=((95, 41), 294), wide2=((17, 41), 294))


def space_contours(tier):
    nmax = 4 if tier == "quick" else 5
    polys = list(lattice_polygons(3, 3, 3, nmax))
    if tier == "thorough":
        polys += [p for p in lattice_polygons(4, 3, 3, 4) if p not in set(polys)]
    for kind in KINDS:
        for place in PLACES:
            for k, p in enumerate(polys):
                if tier == "quick" and (place == "big" and kind == "globe180" and k % 2 or place.startswith("wide") and k % 4 != (place == "wide")):
                    continue
                yield [kind, place, [list(v) for v in p]]


CACHE = dict()


def get_grid(kind):
    if kind not in CACHE:
        CACHE[kind] = grid(kind)
    return CACHE[kind]


def pixel_set(i, j, where):
    out = list(zip((int(v) for v in i), (int(v) for v in j)))
    if len(set(out)) != len(out):
        raise Fail("duplicate", f"{where}: a pixel is given twice {out}")
    return set(out)


def run_contours(ctx, payload):
    kind, place, poly = payload
    x0, dx, nx, y0, dy, ny = KINDS[kind]
    circular = kind.startswith("globe")
    g = get_grid(kind)
    (ox, oy), s = PLACES[place]
    # exact coordinates in hundredths of cells
    ref = [(a * s + ox, b * s + oy) for a, b in poly]
    reach = max(max(v) for v in ref) // 100 + 1
    if (max(v[0] for v in ref) - min(v[0] for v in ref)) * dx / 100 > 90:
        ctx.cover("wide")
    turns = (0, -1, 1, 2)
    for px in range(0 if circular else -reach - 1, nx + 1):
        for py in range(-reach - 1 if not circular else -2, ny + 1):
            lo = (min(v[0] for v in ref) // 100 + px - 1, max(v[0] for v in ref) // 100 + px + 2)
            expected, border = set(), set()
            p_ = [(a + 100 * px, b + 100 * py) for a, b in ref]
            for j in range(ny):
                for i in range(*lo):
                    if not circular and not 0 <= i < nx:
                        continue
                    w = locate(p_, (100 * i, 100 * j))
                    if w > 0:
                        expected.add((i % nx, j))
                    elif w == 0:
                        border.add((i % nx, j))
            ctx.state(kind, tuple(sorted(expected)))
            if expected:
                ctx.cover("some")
                if circular and any(i < 2 for i, _ in expected) and any(i > nx - 3 for i, _ in expected):
                    ctx.cover("across edge")
                if not circular and (px < 0 or py < 0):
                    ctx.cover("partly out")
            else:
                ctx.cover("none")
            base = array(p_, dtype="f8") / 100.0
            vx, vy = x0 + base[:, 0] * dx, y0 + base[:, 1] * dy
            for k in turns if (px + py) % 2 == 0 else (0,):
                for close in (False, True):
                    # first vertex and direction do not matter
                    v = np.roll(array((vx + 360 * k, vy)).T, px, axis=0)
                    if py % 2:
                        v = v[::-1]
                    v = np.concatenate((v, v[:1]))
                    if close:
                        path = Path(v)
                        i, j = path.pixels_in(g)
                        nb = path.nb_pixel
                        if nb != len(i):
                            raise Fail("nb_pixel", f"{nb} != {len(i)}")
                    else:
                        i, j = g.get_pixels_in(np.ascontiguousarray(v))
                    where = f"{kind} {place} {poly} at ({px},{py}) turn {k}"
                    got = pixel_set(i, j, where)
                    ctx.step()
                    if got - border != expected - border:
                        raise Fail("pixels", f"{where}: {sorted(got)} instead of {sorted(expected)} (border {sorted(border)})")
    ctx.outcome(kind, place)


# tilted grid: x = a*i + b*j, y = c*i + d*j
TILTS = dict(tilt=(1.0, 0.5, -0.5, 1.0), shear=(1.0, 0.25, 0.0, 0.5), plain=(1.0, 0.0, 0.0, 1.0))


def space_unregular(tier):
    polys = list(lattice_polygons(3, 3, 3, 3 if tier == "quick" else 4))
    for tilt in TILTS:
        yield [tilt, [[list(v) for v in p] for p in polys]]


def run_unregular(ctx, payload):
    tilt, polys = payload
    a, b, c, d = TILTS[tilt]
    nx, ny = 6, 5
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    x, y = 5 + a * i + b * j, 40 + c * i + d * j
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "g.nc")
        with Dataset(fn, "w") as h:
            h.createDimension("i", nx)
            h.createDimension("j", ny)
            for name, data in (("lon", x), ("lat", y), ("h", 0 * x)):
                h.createVariable(name, "f8", ("i", "j"))[:] = data
        g = UnRegularGridDataset(fn, "lon", "lat")
        for poly in polys:
            for px, py in product(range(-3, nx), range(-3, ny)):
                # vertices in hundredths of index
                p_ = [(100 * (u + px) + 37, 100 * (v + py) + 41) for u, v in poly]
                expected = {
                    (k, l) for k in range(nx) for l in range(ny) if locate(p_, (100 * k, 100 * l)) > 0
                }
                v = array(p_, dtype="f8") / 100
                v = array((5 + a * v[:, 0] + b * v[:, 1], 40 + c * v[:, 0] + d * v[:, 1])).T
                v = np.concatenate((v, v[:1]))
                ctx.step()
                ctx.state(tilt, tuple(sorted(expected)))
                if expected:
                    ctx.cover("unregular")
                got = pixel_set(*Path(v).pixels_in(g), f"{tilt} {poly}")
                if got != expected:
                    raise Fail("unregular", f"{tilt} {poly} at ({px},{py}): {sorted(got)} instead of {sorted(expected)}")
    ctx.outcome(tilt)


PATHS = dict(
    globe4=(0.0, 90.0, 4, -45.0, 45.0, 3),
    globe5=(-180.0, 72.0, 5, -45.0, 45.0, 3),
    globe6=(0.5, 60.0, 6, -45.0, 45.0, 3),
    globe12=(15.0, 30.0, 12, -60.0, 30.0, 5),
    globe7=(0.0, 360 / 7.0, 7, -60.0, 30.0, 4),
    regional=(2.0, 0.5, 8, 10.0, 0.5, 5),
    across0=(355.0, 1.0, 9, -2.0, 1.0, 4),
    wide=(-100.0, 40.0, 6, -2.0, 1.0, 3),
)


def space_paths(tier):
    for kind in PATHS:
        nx, ny = PATHS[kind][2], PATHS[kind][5]
        for i, j in product(range(nx), range(ny)):
            yield [kind, i, j]


def run_paths(ctx, payload):
    kind, i0, j0 = payload
    x0, dx, nx, y0, dy, ny = PATHS[kind]
    x, y = x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)
    g = RegularGridDataset.with_array(
        ("x", "y"), dict(x=x, y=y, h=ma.zeros((nx, ny))), variables_description=dict(h=dict(units="m")), centered=True,
    )
    circular = kind.startswith("globe")
    moves, starts, stops = list(), list(), list()
    for i1, j1 in product(range(nx), range(ny)):
        for f in (0.0, 0.4, -0.4) if ctx.tier == "quick" else (0.0, 0.25, 0.49, -0.49, -0.25):
            for k in (0, 1, -1):
                moves.append((i1, j1, f, k))
                starts.append((x0 + (i0 + f) * dx, y0 + (j0 - f) * dy))
                stops.append((x0 + (i1 - f) * dx + 360 * k, y0 + (j1 + f) * dy))
    starts, stops = array(starts), array(stops)
    # all in a call, then one by one
    batches = [np.arange(len(moves))] + [array([k]) for k in range(0, len(moves), 1 if ctx.tier == "thorough" else 5)]
    for batch in batches:
        i, j, d = g.compute_pixel_path(
            starts[batch, 0].copy(), starts[batch, 1].copy(), stops[batch, 0].copy(), stops[batch, 1].copy()
        )
        if len(d) != len(batch) or (d + 1).sum() != len(i) or len(i) != len(j):
            raise Fail("size", f"{kind}: {d} does not describe {len(i)} pixels")
        e = np.cumsum(d + 1)
        for n, (a, b) in enumerate(zip(e - d - 1, e)):
            i1, j1, f, k = moves[batch[n]]
            pi, pj = [int(v) for v in i[a:b]], [int(v) for v in j[a:b]]
            where = f"{kind} ({i0},{j0})->({i1},{j1}) offset {f} turn {k}: {list(zip(pi, pj))}"
            ctx.step()
            if (pi[0], pj[0]) != (i0, j0) or (pi[-1], pj[-1]) != (i1, j1):
                raise Fail("ends", where)
            di, dj = i1 - i0, j1 - j0
            accepted = {di}
            if circular:
                short = min((di + nx * t for t in (-1, 0, 1)), key=abs)
                accepted = {short, -short} if abs(short) * 2 == nx else {short}
                if short != di:
                    ctx.cover("across edge")
            elif abs(di) * dx > 180:
                # shortest way goes out of the grid
                continue
            # unwrapped position
            u, total = [0], 0
            for p, q in zip(pi, pi[1:]):
                s = q - p
                if circular:
                    s = (s + nx // 2) % nx - nx // 2 if nx > 4 else s
                    s = next((t for t in (s, s - nx, s + nx) if abs(t) <= 1), s)
                if abs(s) > 1:
                    raise Fail("chain", where)
                total += s
                u.append(total)
            if any(abs(q - p) > 1 for p, q in zip(pj, pj[1:])):
                raise Fail("chain", where)
            if total not in accepted:
                raise Fail("way", where)
            if d[n] != max(abs(total), abs(dj)):
                raise Fail("length", where)
            # close to the straight line
            m = max(abs(total), abs(dj))
            for p, q in zip(u, pj):
                if m and abs(p * dj - (q - j0) * total) >= m * max(1, 1):
                    raise Fail("straight", where)
            if m > 1:
                ctx.cover("long")
            ctx.state(kind, total, dj)
    ctx.outcome(kind)


SCENARIOS = [
    Scenario("contours", space_contours, run_contours, shards=8, need=("some", "none", "across edge", "partly out", "wide"),
             bound="every simple lattice polygon of 3-4 (5) vertices on 3x3 (4x3), 5 offsets/scales (up to 176 degrees wide), every cell around 3 regional and 3 global grids, turns -1..2, vertices given by array or path"),
    Scenario("unregular", space_unregular, run_unregular, shards=3, need=("unregular",),
             bound="every lattice triangle (quadrilateral) around 3 tilted grids of 6x5 points read from file"),
    Scenario("paths", space_paths, run_paths, shards=8, need=("across edge", "long"),
             bound="every pair of pixels of 5 global and 3 regional grids, 3 (5) positions in pixels, turns -1..1, in one call and one by one"),
]
