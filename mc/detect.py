# -*- coding: utf-8 -*-
"""
Reference model of the detection: connected areas of pixels above (below) a level, criteria, reservation of pixels.
Independent of the code under test: areas come from a flood fill, closed lines from contourpy.
"""
from datetime import datetime
from math import pi

import numpy as np
from contourpy import contour_generator
from matplotlib.path import Path

import py_eddy_tracker.dataset.grid as grid_module
from py_eddy_tracker.dataset.grid import RegularGridDataset

from .core import Fail
from .geom import locate

R = 6370997.0
DATE = datetime(2010, 1, 1)

if hasattr(grid_module, "UnitRegistry"):
    # The registry of units is only slow to build (0.2 s), it is shared by the executions
    _registry = grid_module.UnitRegistry()
    grid_module.UnitRegistry = lambda *a, **k: _registry


def make_grid(x, y, h, mask=None, u=None, v=None, under=None):
    mask = np.zeros(h.shape, dtype=bool) if mask is None else mask.copy()
    h = h.astype("f8").copy()
    if under is not None:
        h[mask] = under
    u = np.full(h.shape, 0.1) if u is None else u.copy()
    v = np.zeros(h.shape) if v is None else v.copy()

    def f(a):
        return np.ma.array(a, mask=mask.copy())

    return RegularGridDataset.with_array(
        ("x", "y"),
        dict(x=x.copy(), y=y.copy(), h=f(h), u=f(u), v=f(v)),
        variables_description=dict(h=dict(units="m"), u=dict(units="m/s"), v=dict(units="m/s")),
        centered=True,
    )


def identify(g, **kw):
    opt = dict(step=STEP, pixel_limit=(3, 200), shape_error=1e4, sampling=400)
    opt.update(kw)
    a, c = g.eddy_identification("h", "u", "v", DATE, **opt)
    return a, c


STEP = 0.01


def local(lon, lat, lon0, lat0):
    d = pi / 180
    dx = (lon - lon0) * d
    a = np.sin((lat - lat0) * d / 2) ** 2 + np.cos(lat0 * d) * np.cos(lat * d) * np.sin(dx / 2) ** 2
    m = 2 * R * np.arcsin(np.sqrt(np.clip(a, 0, 1)))
    e = np.cos(lat * d) * np.sin(dx)
    n = np.cos(lat0 * d) * np.sin(lat * d) - np.sin(lat0 * d) * np.cos(lat * d) * np.cos(dx)
    r = np.hypot(e, n)
    r[r == 0] = 1
    return m * e / r, m * n / r


def shoelace(x, y):
    return abs((x[:-1] * y[1:] - x[1:] * y[:-1]).sum()) / 2


def fit(lon, lat):
    """Least square circle and shape error (%) of a closed line"""
    lon0, lat0 = lon[1:].mean(), lat[1:].mean()
    x, y = local(lon, lat, lon0, lat0)
    s = np.hypot(x, y).max()
    x, y = x / s, y / s
    m = np.stack([2 * x[1:], 2 * y[1:], np.ones(x.size - 1)], axis=1)
    x0, y0, c = np.linalg.lstsq(m, x[1:] ** 2 + y[1:] ** 2, rcond=None)[0]
    r = np.sqrt(c + x0**2 + y0**2)
    d = np.hypot(x - x0, y - y0)
    k = np.minimum(1, r / np.where(d == 0, 1, d))
    inter = shoelace(x0 + (x - x0) * k, y0 + (y - y0) * k)
    area = pi * r**2
    return (shoelace(x, y) + area - 2 * inter) / area * 100


def component(h, valid, level, sign, start, circular):
    """Pixels strictly above (below) level joined to start, corners are joined through the mean of the cell"""
    nx, ny = h.shape
    a = sign * (h - level)
    up = valid & (a > 0)
    seen = {start}
    todo = [start]
    while todo:
        i, j = todo.pop()
        for di in (-1, 0, 1):
            for dj in (-1, 0, 1):
                k, m = i + di, j + dj
                if circular:
                    k %= nx
                if not (0 <= k < nx and 0 <= m < ny) or (k, m) in seen or not up[k, m]:
                    continue
                if di and dj:
                    # corner: center of the cell must be on the same side
                    cell = [(i, j), (k, j), (i, m), (k, m)]
                    if not all(valid[c] for c in cell):
                        continue
                    if np.mean([a[c] for c in cell]) <= 0:
                        continue
                seen.add((k, m))
                todo.append((k, m))
    return frozenset(seen)


class Line:
    __slots__ = ("lon", "lat", "pixels", "error", "masked")


def closed_lines(x, y, h, valid, level, circular):
    """Closed lines of the level with pixels inside"""
    nx = x.size
    if circular:
        xs = np.concatenate([x - 360, x, x + 360, x[:1] + 720])
        z = np.ma.array(np.concatenate([h, h, h, h[:1]]), mask=~np.concatenate([valid, valid, valid, valid[:1]]))
    else:
        xs, z = x, np.ma.array(h, mask=~valid)
    gen = contour_generator(xs, y, z.T, name="mpl2014", corner_mask=True)
    vertices, _ = gen.lines(level)
    out, keys = list(), set()
    for v in vertices:
        if np.abs(v[0] - v[-1]).max() > 1e-9 or v.shape[0] < 4:
            continue
        if circular:
            if np.ptp(v[:, 0]) >= 360:
                continue
            # keep one copy
            mean = v[1:, 0].mean()
            k = round((mean - (mean - (x[0] - 0.5e-6)) % 360) - (x[0] - 0.5e-6))
            if k != 0:
                continue
        line = Line()
        line.lon, line.lat = v[:, 0], v[:, 1]
        p = [tuple(c) for c in v[:-1]]
        px = set()
        ii = np.flatnonzero((xs >= v[:, 0].min()) & (xs <= v[:, 0].max()))
        jj = np.flatnonzero((y >= v[:, 1].min()) & (y <= v[:, 1].max()))
        for i in ii:
            for j in jj:
                if locate(p, (xs[i], y[j])) > 0:
                    px.add((int(i) % nx, int(j)))
        line.pixels = frozenset(px)
        line.masked = any(not valid[c] for c in px)
        line.error = fit(line.lon, line.lat)
        key = line.pixels
        if circular and key and key in keys:
            continue
        keys.add(key)
        out.append(line)
    return out


def extrema(h, valid, pixels, sign, circular):
    """Pixels not under any of their defined neighbours"""
    nx, ny = h.shape
    out = list()
    for i, j in sorted(pixels):
        top = True
        for di in (-1, 0, 1):
            for dj in (-1, 0, 1):
                k, m = i + di, j + dj
                if circular:
                    k %= nx
                if 0 <= k < nx and 0 <= m < ny and valid[k, m] and sign * h[k, m] > sign * h[i, j]:
                    top = False
        if top:
            out.append((i, j))
    return out


def summits(ext, nx, circular):
    """Groups of extrema joined by a side (plateaus)"""
    todo, groups = set(ext), list()
    while todo:
        g = [todo.pop()]
        for i, j in g:
            for di, dj in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                k = (i + di) % nx if circular else i + di
                if (k, j + dj) in todo:
                    todo.remove((k, j + dj))
                    g.append((k, j + dj))
        groups.append(g)
    return groups


def levels_of(h, valid, step=STEP):
    z = h[valid]
    z0, z1 = z.min(), z.max()
    return np.arange(z0 - z0 % step, z1 - z1 % step + 2 * step, step)


def reference(x, y, h, valid, circular, pixel_limit=(3, 200), shape_error=1e4, mle=1, nb_step_min=2, nb_step_to_be_mle=2, step=STEP):
    """
    :return: list of (sign, level, pixels, amplitude), ambiguous
    """
    levels = levels_of(h, valid, step)
    found, reserved = list(), set()
    ambiguous = False
    for sign in (1, -1):
        for level in levels if sign == 1 else levels[::-1]:
            for line in closed_lines(x, y, h, valid, level, circular):
                p = line.pixels
                if line.masked or p & reserved:
                    continue
                if not p or any(sign * (h[c] - level) <= 0 for c in p):
                    continue
                if not pixel_limit[0] <= len(p) <= pixel_limit[1]:
                    continue
                if abs(line.error - shape_error) < 0.5:
                    ambiguous = True
                if line.error > shape_error:
                    continue
                tops = summits(extrema(h, valid, p, sign, circular), x.size, circular)
                best = max(abs(h[c] - level) for c in p)
                if len(tops) > mle:
                    # only summits well above the contour count
                    if sum(abs(h[g[0]] - level) >= nb_step_to_be_mle * step - 1e-12 for g in tops) > mle:
                        continue
                if best < nb_step_min * step - 1e-12:
                    continue
                found.append((sign, float(level), p, float(best)))
                reserved |= p
    return found, ambiguous


def pixels_of(obs, i, x, y, circular, name="e"):
    """Pixels inside a stored contour"""
    v = list(zip(obs[f"contour_lon_{name}"][i].astype("f8"), obs[f"contour_lat_{name}"][i].astype("f8")))
    poly = Path(np.array(v))
    shifts = (-360, 0, 360) if circular else (0, -360, 360, -720, 720)
    px = set()
    for s in shifts:
        xx, yy = np.meshgrid(x + s, y, indexing="ij")
        m = poly.contains_points(np.stack([xx.ravel(), yy.ravel()], axis=1)).reshape(xx.shape)
        px |= set(zip(*map(lambda a: a.tolist(), np.where(m))))
    return frozenset(px)


def observed(a, c, x, y, circular):
    out = list()
    for sign, o in ((1, a), (-1, c)):
        if o.sign_type != sign:
            raise Fail("sign_type", f"{o.sign_type} for {sign}")
        for i in range(len(o)):
            out.append(
                (
                    sign,
                    float(o.height_external_contour[i]),
                    pixels_of(o, i, x, y, circular),
                    float(o.amplitude[i]),
                )
            )
    return out


def compare(found, want, tol=2e-4):
    """Each eddy observed is one expected and conversely"""
    want = list(want)
    for f in found:
        for w in want:
            if f[0] == w[0] and f[2] == w[2]:
                break
        else:
            raise Fail("unexpected", f"eddy {show(f)} isn't expected, remaining expected {[show(i) for i in want]}")
        if abs(f[1] - w[1]) > tol:
            raise Fail("level", f"{show(f)} instead of {show(w)}")
        if abs(f[3] - w[3]) > tol:
            raise Fail("amplitude", f"{show(f)} instead of {show(w)}")
        want.remove(w)
    if want:
        raise Fail("missing", f"{[show(i) for i in want]} found {[show(i) for i in found]}")


def show(f):
    return (f[0], round(f[1], 4), sorted(f[2]), round(f[3], 4))


def warm():
    """Compile what detection needs"""
    x, y = np.arange(9.0), np.arange(10.0, 19)
    i, j = np.meshgrid(np.arange(9), np.arange(9), indexing="ij")
    h = 10 * np.exp(-((i - 4.1) ** 2 + (j - 4.2) ** 2) / 4) + 0.5
    valid = np.ones(h.shape, bool)
    a, c = identify(make_grid(x, y, h * STEP))
    a, c = identify(make_grid(np.arange(9) * 40.0, y * 5, h * STEP))
    reference(x, y, h * STEP, valid, False)
