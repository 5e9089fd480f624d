# -*- coding: utf-8 -*-
"""C37: characteristics stored for a detected eddy are those of its contours"""
from itertools import product
from math import pi

import numpy as np
from contourpy import contour_generator  # noqa: F401 (reference of iso lines)

from checks.C06 import EMPTY, X9, Y9, cone
from mc.core import Scenario
from mc.detect import DATE, STEP, closed_lines, fit, identify, levels_of, local, make_grid, pixels_of, shoelace, warm

ASSUMPTIONS = [
    "heights are half way between two levels, eddies have one extremum and no area under one of their levels in their contour of this level",
    "iso lines of the reference come from contourpy",
    "between contours whose mean speeds differ by less than 2 % any of them could be the speed contour; a contour with exactly the minimal number of pixels could be one or not",
]
TIME = (DATE - __import__("datetime").datetime(1950, 1, 1)).total_seconds() / 86400


def dense(lon, lat, n=2000):
    """Points equally spaced (m) on a line"""
    d = pi / 180
    a = np.sin(np.diff(lat) * d / 2) ** 2 + np.cos(lat[1:] * d) * np.cos(lat[:-1] * d) * np.sin(np.diff(lon) * d / 2) ** 2
    s = np.concatenate([[0], np.cumsum(2 * np.arcsin(np.sqrt(a)))])
    t = np.linspace(0, s[-1], n)
    return np.interp(t, s, lon), np.interp(t, s, lat)


def bilinear(x, y, z, lon, lat, circular):
    """Values of z at positions, nan out of grid or next to undefined values"""
    dx, dy = x[1] - x[0], y[1] - y[0]
    fi, fj = (lon - x[0]) / dx, (lat - y[0]) / dy
    if circular:
        fi = fi % x.size
    i, j = np.floor(fi).astype(int), np.floor(fj).astype(int)
    a, b = fi - i, fj - j
    out = np.full(lon.shape, np.nan)
    ok = (j >= 0) & (j < y.size - 1)
    if not circular:
        ok &= (i >= 0) & (i < x.size - 1)
    i, j, a, b = i[ok], j[ok], a[ok], b[ok]
    k = (i + 1) % x.size
    out[ok] = (1 - a) * (1 - b) * z[i, j] + a * (1 - b) * z[k, j] + (1 - a) * b * z[i, j + 1] + a * b * z[k, j + 1]
    return out


def circle(lon, lat):
    """Least square circle: center, radius, area of the line, error"""
    lon0, lat0 = lon[1:].mean(), lat[1:].mean()
    x, y = local(lon, lat, lon0, lat0)
    m = np.stack([2 * x[1:], 2 * y[1:], np.ones(x.size - 1)], axis=1)
    s = np.abs(m[:, :2]).max()
    x0, y0, c = np.linalg.lstsq(m / [s, s, 1], (x[1:] ** 2 + y[1:] ** 2) / s, rcond=None)[0] * [1, 1, s]
    r = np.sqrt(c + x0**2 + y0**2)
    return lon0, lat0, x0, y0, r, shoelace(x, y), fit(lon, lat)


def close(a, b, tol):
    return abs(a - b) <= tol


def check_line(ctx, obs, i, name, line, sampling, what):
    """Stored contour has the right size and is on the iso line"""
    lon, lat = obs[f"contour_lon_{name}"][i].astype("f8"), obs[f"contour_lat_{name}"][i].astype("f8")
    ctx.check(lon.size == sampling, "sampling", lambda: f"{what}: {lon.size}")
    ctx.check(lon[0] == lon[-1] and lat[0] == lat[-1], "closed", what)
    dlon, dlat = dense(line.lon, line.lat, 4000)
    scale = np.ptp(line.lat) + np.ptp(line.lon)
    turn = 360 * np.round((lon.mean() - dlon.mean()) / 360)
    d = np.abs(lon[:, None] - turn - dlon) + np.abs(lat[:, None] - dlat)
    worst = d.min(axis=1).max()
    # the cut at vertices of the resampling is at most a piece of it
    ctx.check(worst < scale / 150, "on line", lambda: f"{what}: contour {name} is at {worst} degrees of the level line")
    # and conversely it goes everywhere on the line
    clon, clat = dense(lon - turn, lat, 1000)
    worst_ = (np.abs(dlon[::4, None] - clon) + np.abs(dlat[::4, None] - clat)).min(axis=1).max()
    ctx.check(worst_ < scale * 3.5 / sampling + scale / 150, "whole line", lambda: f"{what}: line is at {worst_} of contour {name}")


def check_eddy(ctx, o, i, sign, x, y, h, valid, circular, speed, lim, sampling, what):
    """:return: label of the level of speed contour"""
    levels = levels_of(h, valid)
    h_e = float(o.height_external_contour[i])
    p_e = pixels_of(o, i, x, y, circular)
    k0 = int(np.argmin(np.abs(levels - h_e)))
    ctx.check(close(levels[k0], h_e, 1e-5), "external", lambda: f"{what}: level {h_e} is not one of {levels}")
    top = max(p_e, key=lambda c: sign * h[c])
    ctx.check(close(float(o.amplitude[i]), abs(h[top] - levels[k0]), 1e-5), "amplitude", lambda: f"{what}: {o.amplitude[i]}")
    # every level up to the last which is around the extremum
    chain = list()
    k = k0
    while 0 <= k < levels.size:
        every = closed_lines(x, y, h, valid, levels[k], circular)
        lines = [l for l in every if top in l.pixels]
        if len(lines) != 1:
            break
        if any(l.pixels < lines[0].pixels for l in every):
            # an area under the level in the eddy: the line of this level around the center could be its edge
            return
        chain.append((k, lines[0]))
        k += sign
    ctx.check(chain and chain[0][1].pixels == p_e, "effective", lambda: f"{what}: {sorted(p_e)}")
    means = list()
    for k, line in chain:
        v = bilinear(x, y, speed, *dense(line.lon, line.lat), circular)
        means.append(float(np.nanmean(v)))
    n = int(o.nb_contour_selected[i])
    ctx.check(n == len(chain), "nb_contour", lambda: f"{what}: {n} contours instead of {len(chain)}")
    ctx.check(close(float(o.height_inner_contour[i]), levels[chain[-1][0]], 1e-5), "inner", lambda: f"{what}: {o.height_inner_contour[i]}")
    h_s = float(o.height_max_speed_contour[i])
    ks = int(np.argmin(np.abs(levels - h_s)))
    ctx.check(close(levels[ks], h_s, 1e-5), "speed level", lambda: f"{what}: {h_s}")
    rank = [k for k, _ in chain].index(ks) if ks in [k for k, _ in chain] else -1
    ctx.check(rank != -1, "speed level", lambda: f"{what}: {h_s} is not between levels of eddy")
    allowed = [0] + [r for r in range(1, len(chain)) if len(chain[r][1].pixels) > lim]
    ctx.check(rank in allowed or len(chain[rank][1].pixels) >= lim, "speed pixels", lambda: f"{what}: {len(chain[rank][1].pixels)} pixels")
    best = max(means[r] for r in allowed)
    ctx.check(
        means[rank] >= best * 0.98 - 1e-9, "speed contour",
        lambda: f"{what}: mean speeds {means}, pixels {[len(l.pixels) for _, l in chain]}, selected {rank}",
    )
    got = float(o.speed_average[i])
    ctx.check(abs(got - means[rank]) < 0.02 * means[rank] + 1e-4, "speed_average", lambda: f"{what}: {got} instead of {means[rank]}")
    # profile from effective contour to inner one (stored with a step of 0.0001 m/s)
    profile = o.uavg_profile[i].astype("f8")
    want = np.interp(np.linspace(0, len(means) - 1, profile.size), np.arange(len(means)), means) if len(means) > 1 else np.full(profile.size, means[0])
    ctx.check(np.all(np.abs(profile - want) < 0.03 * max(means) + 1e-3), "profile", lambda: f"{what}: {profile.tolist()} instead of {want.tolist()}")

    for name, line in (("e", chain[0][1]), ("s", chain[rank][1])):
        check_line(ctx, o, i, name, line, sampling, what)
        # junctions over the edge of a global grid could be counted twice
        more = int((np.abs((line.lon - x[0] + 180) % 360 - 180) < 1e-9).sum()) if circular else 0
        ctx.check(0 <= int(o[f"num_point_{name}"][i]) - line.lon.size <= more, "num_point", lambda: f"{what} {name}: {o[f'num_point_{name}'][i]} instead of {line.lon.size}")
        lon0, lat0, x0, y0, r, area, err = circle(*dense(line.lon, line.lat))
        got = float(o[f"radius_{name}"][i])
        ctx.check(abs(got - r) < 0.01 * r, "radius", lambda: f"{what}: radius_{name} {got} instead of {r}")
        got = float(o[f"shape_error_{name}"][i])
        ctx.check(abs(got - err) < 1.0, "shape_error", lambda: f"{what}: shape_error_{name} {got} instead of {err}")
        got = float(o["effective_area" if name == "e" else "speed_area"][i])
        ctx.check(abs(got - area) < 0.01 * area, "area", lambda: f"{what}: area {name} {got} instead of {area}")
        if name == "s":
            gx, gy = local(np.array([float(o.lon[i])]), np.array([float(o.lat[i])]), lon0, lat0)
            ctx.check(np.hypot(gx[0] - x0, gy[0] - y0) < 0.01 * r, "center", lambda: f"{what}: ({o.lon[i]}, {o.lat[i]})")
    lon0, lat0, x0, y0, r, _, _ = circle(*dense(chain[-1][1].lon, chain[-1][1].lat))
    gx, gy = local(np.array([float(o.lon_max[i])]), np.array([float(o.lat_max[i])]), lon0, lat0)
    ctx.check(np.hypot(gx[0] - x0, gy[0] - y0) < 0.01 * r, "inner center", lambda: f"{what}: ({o.lon_max[i]}, {o.lat_max[i]})")
    ctx.check(0 <= o.lon[i] < 360 and 0 <= o.lon_max[i] < 360, "lon", lambda: f"{what}: {o.lon[i]} {o.lon_max[i]}")
    ctx.check(close(float(o.time[i]), TIME, 1e-9), "time", lambda: f"{what}: {o.time[i]}")
    return rank, len(chain)


def run_field(ctx, what, x, y, h, circular, speed, lim, sampling=200, method="uniform", angle=0.3, expected=None, **opt):
    h = h * STEP
    valid = np.ones(h.shape, dtype=bool)
    g = make_grid(x, y, h, u=speed * np.cos(angle), v=speed * np.sin(angle))
    a, c = identify(g, pixel_limit=(lim, 400), sampling=sampling, sampling_method=method, **opt)
    ctx.step()
    ctx.state(str(what))
    n = 0
    for sign, o in ((1, a), (-1, c)):
        for i in range(len(o)):
            result = check_eddy(ctx, o, i, sign, x, y, h, valid, circular, speed, lim, sampling, f"{what} eddy {i} ({sign})")
            n += 1
            if result is None:
                ctx.cover("hole")
                continue
            rank, size = result
            ctx.outcome(sign, rank, size, round(float(o.radius_e[i]), -2))
            ctx.cover("effective" if rank == 0 else "inner" if rank == size - 1 else "between")
    if expected is not None:
        ctx.check(n == expected, "eddies", lambda: f"{what}: {n} eddies")
    ctx.cover("eddy", n > 0)


def rings(nx, ny, ci, cj, circular=False):
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    d = abs(i - ci)
    if circular:
        d = np.minimum(d, nx - d)
    return np.maximum(d, abs(j - cj))


# every profile of speed on a pyramid
def space_profile(tier):
    values = (1, 2, 4)
    nb = 5 if tier == "quick" else 6
    for speeds in product(values, repeat=nb):
        for lim in (0, 9) if tier == "quick" else (0, 4, 9, 25):
            k = sum(speeds) + lim
            yield [list(speeds), lim, -1 if k % 2 else 1, k % 3]


def run_profile(ctx, payload):
    speeds, lim, sign, place = payload
    nb = len(speeds)
    size = 2 * nb + 5
    circular = place == 2
    if circular:
        x, y, c = np.arange(24) * 15.0, np.linspace(-45, 45, size), 23
    else:
        x, y, c = np.arange(size) * 0.5 + (350, -3)[place], np.arange(size) * 0.5 + (20, -40)[place], nb + 2
    r = rings(x.size, y.size, c, nb + 2, circular)
    h = EMPTY + sign * np.clip(nb - r, 0, None)
    speed = np.array(list(speeds) + [1] * x.size)[np.clip(r, 0, x.size)] * 0.1
    run_field(ctx, payload, x, y, h.astype("f8"), circular, speed, lim, expected=1)


# every small shape of summit
def space_shape(tier):
    shape = (3, 3) if tier == "quick" else (3, 4)
    n = shape[0] * shape[1]
    for k in range(1, 2**n):
        bits = [k >> b & 1 for b in range(n)]
        for p in range(3):
            if tier == "quick" and (k + p) % 3:
                continue
            yield [shape, bits, p]


def run_shape(ctx, payload):
    shape, bits, p = payload
    sign = 1 if sum(bits) % 2 else -1
    x, y, circular = ((X9, Y9, False), (X9 * 0.25 + 179, Y9 * 0.25 - 60, False), (np.arange(30) * 12.0, Y9 * 4 - 66, True))[p]
    i0 = 3 if not circular else 28
    h = np.full((x.size, y.size), EMPTY)
    for di, dj in product(range(5), range(6)):
        h[(i0 - 1 + di) % x.size, 1 + dj] += sign
    for di, dj in product(range(shape[0]), range(shape[1])):
        h[(i0 + di) % x.size, 2 + dj] += sign * (1 + 2 * bits[di * shape[1] + dj])
    speed = 0.05 + 0.01 * (np.arange(x.size)[:, None] % 5) + 0.02 * (np.arange(y.size)[None] % 3)
    run_field(
        ctx, payload, x, y, h, circular, speed, 3, sampling=(50, 100, 200)[sum(bits) % 3],
        method=("uniform", "visvalingam")[sum(bits[::2]) % 2],
    )


# every place
def space_place(tier):
    for lat in (-72, -40, -0.3, 33, 70) if tier == "quick" else (-78, -60, -40, -20, -0.3, 0.2, 15, 33, 55, 70, 78):
        for lon in (0, 3, 90, 179.5, 180.5, 270, 358, 365, -170):
            for top, rx, ry in ((5, 2, 2), (-6, 3, 2), (7, 2, 3)):
                yield [lat, lon, top, rx, ry]


def run_place(ctx, payload):
    lat, lon, top, rx, ry = payload
    h = EMPTY + cone(15, 15, 7, 7, top, rx=rx, ry=ry)
    i, j = np.meshgrid(np.arange(15), np.arange(15), indexing="ij")
    speed = 0.1 + 0.03 * np.abs(np.hypot((i - 7) / rx, (j - 7) / ry) - 1)
    run_field(ctx, payload, np.arange(15) * 0.25 + lon, np.arange(15) * 0.25 + lat, h, False, speed, 3, shape_error=70)


SCENARIOS = [
    Scenario("profile", space_profile, run_profile, shards=8, need=("effective", "inner", "between"),
             bound="every profile of speeds (3 values, 5 (6) rings) of a pyramid, 2 (4) pixel limits, 2 regional grids and the edge of a global one"),
    Scenario("shape", space_shape, run_shape, shards=8, need=("eddy",), bound="every summit in 3x3 (3x4) pixels at one of (each of) 3 places, 3 samplings, 2 methods"),
    Scenario("place", space_place, run_place, shards=8, need=("eddy",), bound="5 (11) latitudes x 9 longitudes x 3 shapes"),
]
