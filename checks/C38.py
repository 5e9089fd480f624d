# -*- coding: utf-8 -*-
"""C38: iso lines of a grid are complete, closed, joined over the cut of longitudes, and found around a point"""
from itertools import product

import numpy as np
from contourpy import contour_generator

from mc.core import Scenario
from mc.detect import identify, make_grid

ASSUMPTIONS = [
    "iso lines of the reference come from contourpy on a grid where the pattern is far from edges",
    "no value of the field is equal to a level",
]


def reference(x, y, z, level):
    """Closed lines, as sets of vertices"""
    gen = contour_generator(x, y, z.T, name="mpl2014", corner_mask=True)
    out = list()
    for v in gen.lines(level)[0]:
        if v.shape[0] >= 4 and np.abs(v[0] - v[-1]).max() < 1e-9:
            out.append(v)
    return out


def key(v, turn=False):
    lon = np.round(v[:, 0] % 360, 6) % 360 if turn else np.round(v[:, 0], 6)
    return frozenset(zip(lon.tolist(), np.round(v[:, 1], 6).tolist()))


def contours(x, y, z, levels, wrap):
    from py_eddy_tracker.eddy_feature import Contours

    return Contours(x, y, np.ma.array(z, mask=np.zeros(z.shape, dtype=bool)), np.array(levels), wrap_x=wrap)


def compare(ctx, what, c, wanted, levels, dx, turn):
    """Closed lines of each level are the wanted ones"""
    for k, level in enumerate(levels):
        got = [p.vertices for p in c.contours.collections[k].get_paths()]
        for v in got:
            ctx.check(np.array_equal(v[0], v[-1]), "closed", lambda: f"{what} level {level}: {v.tolist()}")
            jump = np.abs(np.diff(v, axis=0)).max()
            ctx.check(jump <= dx + 1e-6, "continuous", lambda: f"{what} level {level}: {v.tolist()}")
        a, b = sorted(map(sorted, (key(v, turn) for v in got))), sorted(map(sorted, (key(v, turn) for v in wanted[k])))
        ctx.check(a == b, "lines", lambda: f"{what} level {level}: lines {a} instead of {b}")
        # same number of vertices, out of junctions
        ctx.outcome(level, len(got), sum(len(v) for v in wanted[k]))
        ctx.cover("several", len(got) > 1)


# patterns over the cut
NX = 10
DX = 360 / NX
STACK = 4


def space_cut(tier):
    if tier == "quick":
        sizes = ((3, 5, 2, (1,)), (3, 4, 2, (1,)), (4, 2, 2, (1, 2)), (2, 3, 3, (1,)))
    else:
        sizes = ((3, 6, 2, (1,)), (3, 5, 2, (0, 2)), (4, 4, 2, (1, 2, 3)), (3, 3, 3, (0, 1, 2)))
    for nx, ny, nb, cuts in sizes:
        for k in range(1, nb ** (nx * ny), 64):
            for cut in cuts:
                yield [nx, ny, nb, cut, k, tier == "quick" and ny == 5]


def run_cut(ctx, payload):
    nx, ny, nb, cut, start, short = payload
    patterns = list()
    for k in range(start, min(start + 64, nb ** (nx * ny))):
        values = np.array([k // nb**b % nb for b in range(nx * ny)], dtype="f8").reshape(nx, ny)
        if short and (np.diff(np.concatenate([[0], values[cut], [0]])) > 0).sum() < 2:
            continue
        patterns.append(values)
        ctx.state((nx, ny, nb, cut, k))
    levels = (0.5,) if nb == 2 else (0.5, 1.5)
    # several of them, one over the other, in a grid
    for i in range(0, len(patterns), STACK):
        stack = patterns[i : i + STACK]
        z0 = np.zeros((NX, STACK * (ny + 1) + 1))
        for j, values in enumerate(stack):
            z0[3 : 3 + nx, j * (ny + 1) + 1 : (j + 1) * (ny + 1)] = values
        if z0.max() < levels[-1]:
            continue
        x, y = np.arange(NX) * DX - 180, np.arange(z0.shape[1]) * 3.0 - 40
        z = np.roll(z0, -3 - cut, axis=0)
        wanted = [reference(x, y, z0, level) for level in levels]
        for w in wanted:
            for v in w:
                v[:, 0] -= (3 + cut) * DX
        c = contours(x, y, z, levels, True)
        ctx.step(len(stack))
        what = f"patterns {[v.astype(int).tolist() for v in stack]} cut at {cut}"
        compare(ctx, what, c, wanted, levels, DX, True)
        ctx.cover("several times", any((np.diff(v[cut]) != 0).sum() >= 4 for v in stack))


# search around a point
def space_around(tier):
    n = (4, 3) if tier == "quick" else (4, 4)
    for k in range(1, 2 ** (n[0] * n[1]), 64):
        for wrap in (0, 1):
            yield [n, k, wrap]


def run_around(ctx, payload):
    (nx, ny), start, wrap = payload
    if wrap:
        x, y, dx, i0 = np.arange(NX) * DX - 180, np.arange(ny + 2) * DX - 90, DX, NX - 2
    else:
        x, y, dx, i0 = np.arange(nx + 2.0), np.arange(ny + 2.0), 1, 1
    points = [(a, b) for a in np.arange(0.25, nx + 1, 0.5) for b in np.arange(0.25, ny + 1, 0.5)]
    for k in range(start, min(start + 64, 2 ** (nx * ny))):
        values = np.array([k // 2**b % 2 for b in range(nx * ny)], dtype="f8").reshape(nx, ny)
        z = np.zeros((x.size, y.size))
        for i, j in product(range(nx), range(ny)):
            z[(i0 + i) % x.size, 1 + j] = values[i, j]
        c = contours(x, y, z, (0.5, 0.9), bool(wrap))
        ctx.state((payload[0], k, wrap))
        for level in (0, 1):
            paths = [p.vertices for p in c.contours.collections[level].get_paths()]
            for a, b in points:
                px, py = x[0] + (i0 - 1 + a) * dx, y[0] + b * dx
                dist = list()
                for v in paths:
                    lon = (px - v[:, 0].min()) % 360 + v[:, 0].min() if wrap else px
                    inside = v[:, 0].min() <= lon <= v[:, 0].max() and v[:, 1].min() <= py <= v[:, 1].max()
                    dist.append(np.hypot(v[:, 0] - lon, v[:, 1] - py).min() if inside else np.inf)
                got = c.contours.collections[level].get_nearest_path_bbox_contain_pt(px, py)
                ctx.step()
                what = f"pattern {values.astype(int).tolist()} wrap {wrap} level {level} point ({a}, {b})"
                if not dist or min(dist) == np.inf:
                    ctx.check(got is None, "around", lambda: f"{what}: a path {got.vertices.tolist()} instead of none")
                    continue
                ctx.check(got is not None, "around", lambda: f"{what}: no path")
                rank = [i for i, v in enumerate(paths) if v is got.vertices or np.array_equal(v, got.vertices)][0]
                ctx.check(
                    dist[rank] <= min(dist) + 1e-9, "around",
                    lambda: f"{what}: path {rank} at {dist[rank]}, distances {dist}",
                )
                ctx.cover("choice", sum(d < np.inf for d in dist) > 1)
                ctx.cover("not first", rank > 0)


# fields with few lines or none
def space_flat(tier):
    for k in range(2**9):
        for kind in range(3):
            for place in range(2):
                if tier == "quick" and (k + kind + place) % 4:
                    continue
                yield [k, kind, place]


def run_flat(ctx, payload):
    k, kind, place = payload
    n = 5
    x, y = (np.arange(n) * 72.0 - 180 if place else np.arange(n) * 0.5 + 3), np.arange(n) * 0.5 + 20
    mask = np.ones((n, n), dtype=bool)
    mask[1:4, 1:4] = np.array([k >> b & 1 for b in range(9)], dtype=bool).reshape(3, 3)
    if kind == 2:
        # values out of the mesh, constant over 2 columns
        mask[0], mask[-1] = False, False
    h = np.full((n, n), (0.0, 0.033, 0.005)[kind])
    if kind == 2:
        h += np.arange(n)[:, None] // 2 * 0.002
    g = make_grid(x, y, h, mask=mask, u=np.full((n, n), 0.1), v=np.full((n, n), 0.1))
    a, c = identify(g, pixel_limit=(1, 400))
    ctx.step()
    ctx.state(str(payload))
    ctx.check(len(a) == 0 and len(c) == 0, "flat", lambda: f"{payload}: {len(a)} {len(c)} eddies in a field without closed line")
    ctx.cover("masked", mask.all())
    for o in (a, c):
        # it is a dataset as others
        ctx.check(o.contour_lon_e.shape == (0, 400) and o.time.size == 0, "empty", lambda: f"{payload}: {o.contour_lon_e.shape}")
        ctx.check(o.sign_type == (1 if o is a else -1), "empty", lambda: f"{payload}: {o.sign_type}")


SCENARIOS = [
    Scenario("cut", space_cut, run_cut, shards=16, need=("several", "several times"),
             bound="every pattern of 2 values in 3x4, 4x2 and 3x5 pixels, those which are several times over the edge for the last (3x5, 3x6, 4x4) and 3 values in 2x3 (3x3) pixels, cut by the edge of a global grid at the middle (everywhere)"),
    Scenario("around", space_around, run_around, shards=16, need=("choice", "not first"),
             bound="every pattern in 4x3 (4x4) pixels on a regional grid and over the edge of a global one, 2 levels, points every half pixel"),
    Scenario("flat", space_flat, run_flat, shards=8, need=("masked",),
             bound="every mask of 3x3 pixels (a quarter of combinations), 3 fields without closed line, regional and global"),
]
