# -*- coding: utf-8 -*-
"""C09: currents deduced from height only use defined heights"""
from fractions import Fraction
from itertools import combinations
from math import cos, pi, radians, sin

import numpy as np
from numpy import array, ma

from mc.core import Fail, Scenario
from py_eddy_tracker.dataset.grid import RegularGridDataset

ASSUMPTIONS = [
    "at least 5 points on each axis, regular ascending axes, latitudes out of equator",
    "oracle: largest centred scheme whose points are all defined, exact for polynomials (coefficients solved here in rationals), one sided difference when only one neighbour is defined",
]

G = RegularGridDataset.GRAVITY
R = RegularGridDataset.EARTH_RADIUS
SIDEREAL = 23 * 3600 + 56 * 60 + 4.1


def solve(w):
    """Antisymmetric scheme of half width w exact for x, x^3 ... x^(2w-1), coefficients of h(k)-h(-k)"""
    m = [[2 * Fraction(k) ** (2 * r + 1) for k in range(1, w + 1)] + [Fraction(1 if r == 0 else 0)] for r in range(w)]
    for c in range(w):
        p = next(r for r in range(c, w) if m[r][c] != 0)
        m[c], m[p] = m[p], m[c]
        m[c] = [v / m[c][c] for v in m[c]]
        for r in range(w):
            if r != c and m[r][c] != 0:
                m[r] = [a - m[r][c] * b for a, b in zip(m[r], m[c])]
    return [float(m[r][w]) for r in range(w)]


COEF = {w: solve(w) for w in (1, 2, 3, 4)}


def reference(h, mask, circular, width):
    """Derivative by index along a line; None where undefined"""
    n = len(h)

    def get(i):
        if circular:
            i %= n
        if i < 0 or i >= n or mask[i]:
            return None
        return h[i]

    out = list()
    for i in range(n):
        c = get(i)
        a, b = get(i - 1), get(i + 1)
        if c is None or (a is None and b is None):
            out.append(None)
        elif a is None:
            out.append(b - c)
        elif b is None:
            out.append(c - a)
        else:
            w = 1
            while w < width and get(i - w - 1) is not None and get(i + w + 1) is not None:
                w += 1
            out.append(sum(k * (get(i + d) - get(i - d)) for d, k in enumerate(COEF[w], 1)))
    return out


def grid(x, y, h, mask, dtype, under):
    h = h.astype(dtype)
    h[mask] = under
    return RegularGridDataset.with_array(
        ("x", "y"), dict(x=x.copy(), y=y.copy(), h=ma.array(h, mask=mask.copy())),
        variables_description=dict(h=dict(units="m")), centered=True,
    )


def compare(got, want, scale, where):
    m = bool(ma.getmaskarray(got)[()]) if got is not ma.masked else True
    if want is None:
        if not m:
            raise Fail("defined", f"{where}: {got} where no current may be computed")
    else:
        if m:
            raise Fail("undefined", f"{where}: nothing where current is {want}")
        if not abs(float(got) - want) <= scale:
            raise Fail("value", f"{where}: {got} instead of {want}")


def lines(n, fn):
    """One function by code: impulses, linear or irregular"""
    if fn < n:
        return array([1.0 if i == fn else 0.0 for i in range(n)])
    if fn == n:
        return array([0.5 * i + 3 for i in range(n)])
    return array([((5 * i * i + 3 * i + 1) % 17) / 4.0 for i in range(n)])


def space_lines(tier):
    n = 8 if tier == "quick" else 10
    unders = (1e20, float("nan"))
    for axis in "xy":
        for kind in ("regional", "globe") if axis == "x" else ("regional",):
            for width in (1, 2, 3, 4):
                for fn in range(n + 2):
                    for dtype in ("f8", "f4"):
                        yield [n, axis, kind, width, fn, dtype, "nan" if np.isnan(unders[(fn + width) % 2]) else 1e20]


def run_lines(ctx, payload):
    """Each line of the grid has its own mask, all masks in the same grid"""
    n, axis, kind, width, fn, dtype, under = payload
    under = float(under)
    nb = 1 << n
    codes = np.arange(nb)
    if fn % 2:
        # other neighbours for each line
        codes = (codes * 37 + 11) % nb
    masks = array([[bool(c >> k & 1) for c in codes] for k in range(n)])
    h0 = lines(n, fn)
    h = np.repeat(h0[:, None], nb, axis=1) + np.arange(nb) % 3
    circular = kind == "globe"
    if axis == "x":
        step = 360.0 / n if circular else 0.5
        x, y = 10 + np.arange(n) * step, 10 + np.arange(nb) * 0.05
    else:
        step = 0.5
        x, y = 5 + np.arange(nb) * 0.05, -40 + np.arange(n) * step
        h, masks = h.T, masks.T
    g = grid(x, y, h, masks, dtype, under)
    if bool(g.is_circular()) != circular:
        raise Fail("circular", str(payload))
    keep = g.grid("h").copy()
    g.add_uv("h", "u", "v", stencil_halfwidth=width)
    ctx.step(2 * h.size)
    f = 4 * pi / SIDEREAL
    now = g.grid("h")
    if not (np.array_equal(keep.mask, now.mask) and np.array_equal(keep.data, now.data, equal_nan=True)):
        raise Fail("source", f"{payload}: height modified")
    deg = R * 2 * pi / 360
    for k in range(nb):
        sl = (slice(None), k) if axis == "x" else (k, slice(None))
        m = masks[sl]
        ref = reference(h[sl], m, circular, width)
        got = (g.grid("v") if axis == "x" else g.grid("u"))[sl]
        gm, gd = ma.getmaskarray(got), got.data
        ctx.state(payload[:4], int(codes[k]))
        for i, r in enumerate(ref):
            lat = y[k] if axis == "x" else y[i]
            if r is None:
                ctx.cover("undefined")
            else:
                ctx.cover("one sided" if (r is not None and (m[i - 1] or m[(i + 1) % n])) else "defined")
            if axis == "x":
                factor = G / (f * sin(radians(lat))) / (step * deg * cos(radians(lat)))
            else:
                factor = -G / (f * sin(radians(lat))) / (step * deg)
            want = None if r is None else r * factor
            scale = abs(factor) * (1e-9 if dtype == "f8" else 2e-5)
            if (want is None) != bool(gm[i]) or want is not None and not abs(gd[i] - want) <= scale:
                raise Fail("current", f"{payload} mask {array(m, dtype='i1')} point {i}: {'undefined' if gm[i] else gd[i]} instead of {want}")


def space_plane(tier):
    nx, ny = 6, 5
    n = nx * ny
    k = 2 if tier == "quick" else 3
    for kind in ("regional", "globe"):
        for size in range(k + 1):
            for c in combinations(range(n), size):
                yield [kind, list(c), size % 4 + 1, False]
                # complement: only those pixels are defined
                yield [kind, list(c), 4, True]


def run_plane(ctx, payload):
    kind, pixels, width, comp = payload
    nx, ny = 6, 5
    circular = kind == "globe"
    step = 60.0 if circular else 0.25
    ystep = 0.25
    x, y = 2 + step * np.arange(nx), 30 + ystep * np.arange(ny)
    mask = np.zeros(nx * ny, dtype=bool)
    mask[pixels] = True
    mask = mask.reshape(nx, ny)
    if comp:
        mask = ~mask
    h = array([[((7 * i * i + 3 * i + 5 * j * j * (i + 1)) % 23) / 8 for j in range(ny)] for i in range(nx)])
    f = 4 * pi / SIDEREAL
    deg = R * 2 * pi / 360
    g = grid(x, y, h, mask, "f8", 1e10)
    g.add_uv("h", "u", "v", stencil_halfwidth=width)
    ctx.state(*payload[:2], comp)
    ctx.step(2 * h.size)
    u, v = g.grid("u"), g.grid("v")
    if u.shape != h.shape or v.shape != h.shape:
        raise Fail("shape", f"{payload}: {u.shape} {v.shape}")
    for j in range(ny):
        r = reference(h[:, j], mask[:, j], circular, width)
        for i in range(nx):
            fac = G / (f * sin(radians(y[j]))) / (step * deg * cos(radians(y[j])))
            compare(v[i, j], None if r[i] is None else r[i] * fac, abs(fac) * 1e-8, f"v {payload} at {i, j}")
    for i in range(nx):
        r = reference(h[i], mask[i], False, width)
        for j in range(ny):
            fac = -G / (f * sin(radians(y[j]))) / (ystep * deg)
            compare(u[i, j], None if r[j] is None else r[j] * fac, abs(fac) * 1e-8, f"u {payload} at {i, j}")


def space_roll(tier):
    for n in (5, 8, 9, 12):
        for k in range(n):
            for width in (1, 2, 3, 4):
                for code in (0, 1, 5):
                    yield [n, k, width, code]


def run_roll(ctx, payload):
    """Moving the first column of a global grid only moves the currents"""
    n, k, width, code = payload
    x, y = np.arange(n) * 360.0 / n, array([-20.0, -10, 10, 20, 30])
    y = np.arange(5) * 10 + 5.0
    h = array([[((7 * i * i + 3 * i + 5 * j * j * (i + 1)) % 23) / 8 for j in range(5)] for i in range(n)])
    mask = np.zeros(h.shape, dtype=bool)
    for b in range(3):
        if code >> b & 1:
            mask[(b * 2) % n, :] = True
    res = list()
    for roll in (0, k):
        g = grid(x + 360.0 / n * roll, y, np.roll(h, -roll, axis=0), np.roll(mask, -roll, axis=0), "f8", 7.0)
        g.add_uv("h", "u", "v", stencil_halfwidth=width)
        res.append([np.roll(g.grid(f).filled(-999), roll, axis=0) for f in "uv"])
        ctx.step(h.size)
    ctx.state(*payload)
    for a, b, f in zip(*res, "uv"):
        if not np.allclose(a, b, rtol=1e-9, atol=1e-12):
            raise Fail("roll", f"{payload}: {f} changes with the first longitude")


SCENARIOS = [
    Scenario("lines", space_lines, run_lines, shards=8, bound="every mask of 8 (10) points x 4 widths x both axes x regional/global x impulse basis, linear and irregular heights x 2 precisions", need=("defined", "one sided", "undefined")),
    Scenario("plane", space_plane, run_plane, shards=4, bound="6x5 grids, every set of at most 2 (3) undefined or defined pixels"),
    Scenario("roll", space_roll, run_roll, shards=1, bound="every first column of global grids of 5 to 12 columns"),
]
