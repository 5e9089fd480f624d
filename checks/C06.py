# -*- coding: utf-8 -*-
"""C06: every detected eddy satisfies the detection criteria and every area which satisfies them is detected"""
from itertools import product

import numpy as np

from mc.core import Fail, Scenario
from mc.detect import STEP, compare, identify, make_grid, observed, pixels_of, reference, warm  # noqa: F401

ASSUMPTIONS = [
    "heights are half way between two levels (no pixel lies on a contour)",
    "fields where a contour has a shape error at less than 0.5 % of the limit are explored but not compared (label ambiguous)",
    "iso lines of the reference come from contourpy, pixels, circle fits, extrema and reservation from an independent model",
]
EMPTY = 0.5


def run_field(ctx, key, x, y, h, valid, circular=False, **opt):
    h = h * STEP
    g = make_grid(x, y, h, ~valid)
    a, c = identify(g, **opt)
    ctx.step()
    want, ambiguous = reference(x, y, h, valid, circular, **opt)
    got = observed(a, c, x, y, circular)
    ctx.state(key)
    seen = {1: set(), -1: set()}
    lim = opt.get("pixel_limit", (3, 200))
    for sign, o in ((1, a), (-1, c)):
        for i in range(len(o)):
            for n in "es":
                lon, lat = o[f"contour_lon_{n}"][i], o[f"contour_lat_{n}"][i]
                if lon[0] != lon[-1] or lat[0] != lat[-1]:
                    raise Fail("closed", f"contour {n} is not closed")
            h_e, h_s, h_i = (float(o[f"height_{n}_contour"][i]) for n in ("external", "max_speed", "inner"))
            if not (sign * h_e <= sign * h_s + 1e-6 and sign * h_s <= sign * h_i + 1e-6):
                raise Fail("levels", f"external {h_e}, speed {h_s}, inner {h_i}")
            p_e, p_s = (pixels_of(o, i, x, y, circular, n) for n in "es")
            if not p_s <= p_e:
                raise Fail("speed_contour", f"speed contour {sorted(p_s)} out of {sorted(p_e)}")
            if p_s != p_e and len(p_s) <= lim[0]:
                raise Fail("speed_pixels", f"speed contour with {len(p_s)} pixels, limit {lim}")
            if any(sign * (h[p] - h_s) <= 0 for p in p_s):
                raise Fail("speed_side", f"pixels of speed contour are not all on a side of {h_s}")
            n = int(o.nb_contour_selected[i])
            if n != int(round(abs(h_i - h_e) / STEP)) + 1:
                raise Fail("nb_contour", f"{n} contours between {h_e} and {h_i}")
            if p_e & seen[sign]:
                raise Fail("shared", f"pixels {sorted(p_e & seen[sign])} are in two eddies")
            seen[sign] |= p_e
            if not 0 <= o.lon[i] < 360:
                raise Fail("lon", f"{o.lon[i]}")
            ctx.cover("speed" if h_s != h_e else "flat")
    if ambiguous:
        ctx.cover("ambiguous")
        return
    compare(got, want)
    ctx.outcome([(s, round(l, 4), sorted(p)) for s, l, p, _ in want])
    ctx.cover(f"eddies_{min(len(want), 2)}")
    for w in want:
        ctx.cover("anticyclonic" if w[0] == 1 else "cyclonic")


def cone(nx, ny, ci, cj, top, circular=False, rx=2, ry=2):
    """Pyramid of integer heights"""
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    di = abs(i - ci)
    if circular:
        di = np.minimum(di, nx - di)
    d = np.maximum(di / rx, abs(j - cj) / ry)
    s = -1 if top < 0 else 1
    return s * np.floor(np.clip(abs(top) * (1 - d / 1.5), 0, None))


X9, Y9 = np.arange(9.0), np.arange(10.0, 19.0)


# every set of pixels
def space_blob(tier):
    shape = (3, 4) if tier == "quick" else (4, 4)
    n = shape[0] * shape[1]
    for k in range(1, 2**n):
        bits = [k >> b & 1 for b in range(n)]
        rows = [bits[r * shape[1] : (r + 1) * shape[1]] for r in range(shape[0])]
        # mirror in longitude gives the same area
        if bits <= sum(rows[::-1], []):
            yield [shape, bits]


def run_blob(ctx, payload):
    shape, bits = payload
    h = np.full((9, 9), EMPTY)
    s = 1 if sum(bits) % 2 else -1
    h[3 : 3 + shape[0], 2 : 2 + shape[1]] += 5 * s * np.array(bits).reshape(shape)
    run_field(ctx, payload, X9, Y9, h, np.ones(h.shape, bool), shape_error=60)


# every height in a patch
HEIGHTS = (0, 2, 4, -3)


def space_height(tier):
    n = 5 if tier == "quick" else 6
    yield from map(list, product(range(4), repeat=n))


def run_height(ctx, cells):
    h = np.full((9, 9), EMPTY)
    v = [HEIGHTS[c] for c in cells]
    pos = [(4, 4), (3, 4), (4, 5), (5, 5), (5, 3), (3, 3)][: len(v)]
    # heights on a small foot
    h[3:6, 3:6] += 1
    for p, k in zip(pos, v):
        h[p] += k
    run_field(ctx, cells, X9, Y9, h, np.ones(h.shape, bool), shape_error=70, nb_step_min=1)


# two bumps
def space_pair(tier):
    tops = (4, 7, -5) if tier == "quick" else (3, 4, 5, 7, 9, -4, -6)
    for t0, t1 in product(tops, repeat=2):
        for di in range(0, 8):
            for dj in (0, 1, 3) if tier == "quick" else range(0, 6):
                if di + dj:
                    yield [t0, t1, di, dj]


def run_pair(ctx, payload):
    t0, t1, di, dj = payload
    h = EMPTY + cone(14, 11, 3, 3, t0) + cone(14, 11, 3 + di, 3 + dj, t1)
    run_field(ctx, payload, np.arange(14.0) + 355, np.arange(-5.0, 6), h, np.ones(h.shape, bool), shape_error=70)


# masks
def space_mask(tier):
    cells = [(i, j) for i in range(8) for j in range(8)]
    for c in cells:
        yield [c]
    for i, j in cells:
        for di, dj in ((1, 0), (0, 1), (1, 1), (2, 0), (3, 3), (4, 1)) if tier == "quick" else product(range(5), range(-4, 5)):
            if i + di < 8 and 0 <= j + dj < 8 and (di, dj) > (0, 0):
                yield [(i, j), (i + di, j + dj)]


def run_mask(ctx, payload):
    h = EMPTY + cone(8, 8, 3, 4, 7) + cone(8, 8, 7, 0, -4)
    valid = np.ones(h.shape, bool)
    for c in payload:
        valid[tuple(c)] = False
    run_field(ctx, payload, np.arange(8.0), np.arange(-30.0, -22), h, valid, shape_error=80)
    if len(payload):
        ctx.cover("masked")


# every position, in a regional and in a global grid
def space_place(tier):
    for circular in (0, 1):
        n = (24 if circular else 11), 9
        for i in range(n[0]):
            for j in range(n[1]):
                for t in (6, -5) if tier == "quick" else (6, -5, 3, -9):
                    for second in (0, 1):
                        if second and tier == "quick" and (i + j) % 3:
                            continue
                        yield [circular, i, j, t, second]


def run_place(ctx, payload):
    circular, i, j, t, second = payload
    if circular:
        x, y = np.arange(24) * 15.0, np.arange(-60.0, 61, 15)
    else:
        x, y = np.arange(11) * 1.0 - 3, np.arange(40.0, 49)
    nx, ny = x.size, y.size
    h = EMPTY + cone(nx, ny, i, j, t, circular)
    if second:
        h += cone(nx, ny, (i + 5) % nx, (j + 2) % ny, 7, circular)
    run_field(ctx, payload, x, y, h, np.ones(h.shape, bool), bool(circular), shape_error=1e4)
    ctx.cover("global" if circular else "regional")


# criteria
def space_option(tier):
    for p in product(
        range(3),
        ((1, 200), (4, 200), (9, 200), (3, 12), (10, 26)),
        (60, 1e4),
        (1, 2),
        (1, 2, 4),
        (1, 2, 3) if tier == "quick" else (1, 2, 3, 4),
    ):
        yield p


def run_option(ctx, payload):
    f, pixel_limit, shape_error, mle, nb_step_min, nb_step_to_be_mle = payload
    nx, ny = 13, 9
    h = EMPTY + 0 * cone(nx, ny, 0, 0, 3)
    if f == 0:
        h += cone(nx, ny, 4, 4, 7) + cone(nx, ny, 8, 4, 5)
    elif f == 1:
        h += cone(nx, ny, 4, 4, -6, rx=3, ry=1.5) + cone(nx, ny, 8, 3, -5)
    else:
        h += cone(nx, ny, 6, 4, 8, rx=4, ry=2) + cone(nx, ny, 4, 4, 4, rx=1, ry=1) + cone(nx, ny, 8, 4, 2, rx=1, ry=1)
    run_field(
        ctx,
        payload,
        np.arange(13.0),
        np.arange(9.0) + 30,
        h,
        np.ones(h.shape, bool),
        pixel_limit=tuple(pixel_limit),
        shape_error=shape_error,
        mle=mle,
        nb_step_min=nb_step_min,
        nb_step_to_be_mle=nb_step_to_be_mle,
    )


SCENARIOS = [
    Scenario("blob", space_blob, run_blob, shards=8, need=("eddies_1", "eddies_0", "anticyclonic", "cyclonic"), bound="every subset, up to mirror in longitude, of a 3x4 patch (4x4 thorough)"),
    Scenario("height", space_height, run_height, shards=8, need=("eddies_1", "speed"), bound="every assignment of 4 heights to 5 (6) pixels"),
    Scenario("pair", space_pair, run_pair, shards=8, need=("eddies_1", "eddies_2"), bound="2 bumps, every height of a set at every offset"),
    Scenario("mask", space_mask, run_mask, shards=8, need=("eddies_1", "masked"), bound="every single masked pixel and pairs of a 8x8 grid"),
    Scenario("place", space_place, run_place, shards=8, need=("global", "regional", "eddies_2"), bound="a bump at every pixel of a regional and of a global grid"),
    Scenario("option", space_option, run_option, shards=8, need=("eddies_1", "eddies_2"), bound="product of criteria on 3 fields"),
]
