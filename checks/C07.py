# -*- coding: utf-8 -*-
"""C07: detection commutes with the sign of the field, the origin of longitude, and ignores values under the mask"""
from itertools import product

import numpy as np

from checks.C06 import EMPTY, cone, run_field
from mc.core import Fail, Scenario
from mc.detect import STEP, identify, make_grid, pixels_of, warm  # noqa: F401

ASSUMPTIONS = [
    "comparison of two runs of the code under test; radius, centre, shape error are compared with a tolerance because the "
    "first vertex of an iso line may change (levels, amplitudes, pixels and counts are exact)",
    "fields without eddy nested in an eddy of the opposite sign (areas are reserved for the first eddy found)",
]


def features(o, x, y, circular):
    out = list()
    for i in range(len(o)):
        out.append(
            dict(
                pixels=pixels_of(o, i, x, y, circular),
                speed_pixels=pixels_of(o, i, x, y, circular, "s"),
                h_e=float(o.height_external_contour[i]),
                h_s=float(o.height_max_speed_contour[i]),
                h_i=float(o.height_inner_contour[i]),
                amplitude=float(o.amplitude[i]),
                nb=int(o.nb_contour_selected[i]),
                lon=float(o.lon[i]),
                lat=float(o.lat[i]),
                radius_e=float(o.radius_e[i]),
                radius_s=float(o.radius_s[i]),
                error=float(o.shape_error_e[i]),
                speed=float(o.speed_average[i]),
                area=float(o.effective_area[i]),
                width=float(np.ptp(o.contour_lon_e[i])),
                offset=float((o.contour_lon_e[i].max() + o.contour_lon_e[i].min()) / 2 - o.lon[i]),
                time=float(o.time[i]),
            )
        )
    return out


def close(a, b, rel=0.02, abs_=0.05):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


def same_set(got, want, sign=1, roll=0, nx=0, dlon=0.0, step=1.0):
    """:param roll: columns of which `want` must be moved to give `got`"""
    if len(got) != len(want):
        raise Fail("count", f"{len(got)} eddies instead of {len(want)}: {[sorted(g['pixels']) for g in got]} / {[sorted(w['pixels']) for w in want]}")

    def move(p):
        return frozenset(((i + roll) % nx if roll else i, j) for i, j in p)

    todo = list(want)
    for g in got:
        for w in todo:
            if g["pixels"] == move(w["pixels"]):
                break
        else:
            raise Fail("pixels", f"eddy {sorted(g['pixels'])} has no counterpart in {[sorted(move(w['pixels'])) for w in todo]}")
        todo.remove(w)
        # mean speeds of two contours may be the same up to sampling of the contours
        tie = abs(g["h_s"] - sign * w["h_s"]) > 1e-5 and close(g["speed"], w["speed"], 0.02, 0)
        if not tie and g["speed_pixels"] != move(w["speed_pixels"]):
            raise Fail("speed_pixels", f"{sorted(g['speed_pixels'])} instead of {sorted(move(w['speed_pixels']))}")
        if g["nb"] != w["nb"]:
            raise Fail("nb_contour", f"{g['nb']} instead of {w['nb']}")
        for k in ("h_e", "h_i") if tie else ("h_e", "h_s", "h_i"):
            if abs(g[k] - sign * w[k]) > 1e-5:
                raise Fail(k, f"{g[k]} instead of {sign * w[k]}")
        if abs(g["amplitude"] - w["amplitude"]) > 1e-5 or g["time"] != w["time"]:
            raise Fail("amplitude", f"{g['amplitude']} instead of {w['amplitude']}")
        if tie:
            continue
        d = (g["lon"] - w["lon"] - dlon + 180) % 360 - 180
        if abs(d) > 0.05 * step or abs(g["lat"] - w["lat"]) > 0.05 * step:
            raise Fail("position", f"{g['lon'], g['lat']} instead of {w['lon'] + dlon, w['lat']}")
        for k in ("radius_e", "radius_s", "area", "speed"):
            if not close(g[k], w[k], 0.02, 1e-4):
                raise Fail(k, f"{g[k]} instead of {w[k]}")
        for k in ("width", "offset"):
            if not close(g[k], w[k], 0.02, 0.05 * step):
                raise Fail(k, f"{g[k]} instead of {w[k]}")
        if not close(g["error"], w["error"], 0.03, 2):
            raise Fail("shape_error", f"{g['error']} instead of {w['error']}")


def speed(x, y):
    """Currents which vary from place to place"""
    i, j = np.meshgrid(np.arange(x.size), np.arange(y.size), indexing="ij")
    return 0.1 + 0.02 * ((3 * i + 5 * j) % 7), 0.05 * ((2 * i + j) % 5) - 0.1


def detect(x, y, h, valid, u, v, under=None, **kw):
    return identify(make_grid(x, y, h * STEP, ~valid, u, v, under), **kw)


# ------- sign
def space_sign(tier):
    tops = (4, 7, -5) if tier == "quick" else (3, 4, 6, 8, -5, -7)
    for circular in (0, 1):
        for t0, t1 in product(tops, repeat=2):
            for di in range(0, 8, 2 if tier == "quick" else 1):
                for dj in (0, 2) if tier == "quick" else range(5):
                    if di + dj:
                        yield [circular, t0, t1, di, dj]


def run_sign(ctx, payload):
    circular, t0, t1, di, dj = payload
    nx, ny = (24, 9) if circular else (14, 9)
    x = np.arange(nx) * 15.0 if circular else np.arange(14.0) - 3
    y = np.arange(ny) * (15.0 if circular else 1.0) - (60 if circular else -20)
    h = EMPTY + cone(nx, ny, 3, 4, t0, circular) + cone(nx, ny, 3 + di, 4 + dj, t1, circular)
    valid = np.ones(h.shape, bool)
    u, v = speed(x, y)
    a, c = detect(x, y, h, valid, u, v)
    a_, c_ = detect(x, y, -h, valid, -u, -v)
    ctx.step(2)
    f = [features(o, x, y, circular) for o in (a, c, a_, c_)]
    same_set(f[3], f[0], -1)
    same_set(f[2], f[1], -1)
    ctx.state(payload)
    ctx.outcome([sorted(i["pixels"]) for k in f[:2] for i in k])
    if f[0]:
        ctx.cover("anticyclonic")
    if f[1]:
        ctx.cover("cyclonic")


# ------- roll
FIELDS = [
    [(3, 4, 6), (8, 3, -5), (15, 5, 8)],
    [(0, 4, 6), (12, 3, 5), (12, 6, -6), (20, 4, 9)],
    [(5, 4, -7), (9, 4, -7), (17, 4, 12), (19, 6, 4)],
    [(2, 4, 9), (4, 2, 9), (6, 6, -8), (14, 4, -3), (21, 3, -9)],
]


def space_roll(tier):
    for f in range(len(FIELDS)):
        for shape in ((24, 15.0, 0.0), (36, 10.0, -180.0)):
            for wide in (2, 3):
                for roll in range(1, shape[0]):
                    if tier == "quick" and shape[0] == 36 and wide == 3 and roll % 2:
                        continue
                    yield [f, shape, wide, roll]


def run_roll(ctx, payload):
    f, (nx, step, x0), wide, roll = payload
    x, y = x0 + np.arange(nx) * step, np.arange(9) * 12.0 - 48
    h = EMPTY + sum(cone(nx, 9, i, j, t, True, rx=wide) for i, j, t in FIELDS[f])
    valid = np.ones(h.shape, bool)
    if f == 1:
        valid[16:18, 2:4] = False
    u, v = speed(x, y)
    ref = detect(x, y, h, valid, u, v)
    r = [np.roll(k, roll, axis=0) for k in (h, valid, u, v)]
    new = detect(x, y, *r)
    ctx.step(2)
    for n, o in zip(new, ref):
        want = features(o, x, y, True)
        same_set(features(n, x, y, True), want, 1, roll, nx, roll * step, step)
        if any({0, nx - 1} <= {(i + roll) % nx for i, _ in w["pixels"]} for w in want):
            ctx.cover("edge")
        ctx.outcome([sorted(w["pixels"]) for w in want])
    ctx.state(payload)


# ------- every area which crosses the edge, in several pieces
def space_comb(tier):
    nx, ny = (3, 4) if tier == "quick" else (4, 4)
    for k in range(1, 2 ** (nx * ny)):
        bits = [k >> b & 1 for b in range(nx * ny)]
        if tier == "quick":
            # mirror in latitude
            rows = [bits[i * ny : (i + 1) * ny] for i in range(nx)]
            if bits > sum((r[::-1] for r in rows), []) or sum(bits) < 4:
                continue
        yield [[nx, ny], bits, 1 + k % (nx - 1)]


def run_comb(ctx, payload):
    (nx, ny), bits, cut = payload
    x, y = np.arange(18) * 20.0, np.arange(9) * 12.0 - 48
    h = np.full((18, 9), EMPTY)
    s = 1 if sum(bits) % 2 else -1
    h[: nx, 2 : 2 + ny] += 5 * s * np.array(bits).reshape(nx, ny)
    h = np.roll(h, -cut, axis=0)
    run_field(ctx, payload, x, y, h, np.ones(h.shape, bool), True)


# ------- origin of a regional grid
def space_origin(tier):
    for f in range(8):
        for x0 in range(-362, 725, 45 if tier == "quick" else 15):
            yield [f, x0]


def run_origin(ctx, payload):
    f, x0 = payload
    y = np.arange(9.0) + 30
    h = EMPTY + cone(12, 9, 3, 4, 7 - f) + cone(12, 9, 8, 4, f - 9)
    valid = np.ones(h.shape, bool)
    res = list()
    for o in (20.0, float(x0)):
        x = np.arange(12.0) + o
        u, v = speed(x, y)
        res.append([features(i, x, y, False) for i in detect(x, y, h, valid, u, v)])
        ctx.step()
    for n, o in zip(res[1], res[0]):
        same_set(n, o, 1, 0, 0, x0 - 20.0, 1)
        if n:
            ctx.cover("eddies")
        ctx.outcome(len(n), f)
    ctx.state(payload)


# ------- under the mask
UNDER = (1e3, -1e3, 3 * STEP, 1e20, float("nan"), float("inf"))


def space_under(tier):
    cells = [(i, j) for i in range(8) for j in range(8)]
    pair = [((i, j), (i + di, j + dj)) for i, j in cells for di, dj in ((1, 0), (1, 1)) if i + di < 8 and j + dj < 8]
    for c in [(c,) for c in cells] + (pair[::3] if tier == "quick" else pair):
        yield c


def run_under(ctx, payload):
    h = EMPTY + cone(8, 8, 3, 4, 7) + cone(8, 8, 6, 2, -4, rx=1.5, ry=1.5)
    x, y = np.arange(8.0), np.arange(10.0, 18)
    valid = np.ones(h.shape, bool)
    for c in payload:
        valid[tuple(c)] = False
    u, v = speed(x, y)
    ref = [features(o, x, y, False) for o in detect(x, y, h, valid, u, v, under=0)]
    ctx.step()
    for n, k in enumerate(UNDER):
        if ctx.tier == "quick" and n % 2 != sum(payload[0]) % 2:
            continue
        u_, v_ = u.copy(), v.copy()
        u_[~valid], v_[~valid] = k, -k
        new = detect(x, y, h, valid, u_, v_, under=k)
        ctx.step()
        try:
            for a, b in zip(new, ref):
                same_set(features(a, x, y, False), b)
        except Fail as e:
            raise Fail(e.code, f"{k} under mask {payload}: {e.msg}")
        ctx.state(payload, str(k))
    ctx.outcome([sorted(w["pixels"]) for o in ref for w in o])
    if any(ref):
        ctx.cover("eddies")


SCENARIOS = [
    Scenario("sign", space_sign, run_sign, shards=8, need=("anticyclonic", "cyclonic"), bound="2 bumps, every height of a set, offsets, regional and global"),
    Scenario("roll", space_roll, run_roll, shards=8, need=("edge",), bound="every roll of 24 and 36 columns global grids, 4 fields"),
    Scenario("comb", space_comb, run_comb, shards=8, need=("eddies_1",), bound="every area of a 3x4 (4x4) patch over the edge of a global grid, absolute reference"),
    Scenario("origin", space_origin, run_origin, shards=8, need=("eddies",), bound="origins from -362 to 724 degrees"),
    Scenario("under", space_under, run_under, shards=8, need=("eddies",), bound="every masked pixel and pairs, 6 values under mask"),
]
