# -*- coding: utf-8 -*-
"""C10: high and low pass filters share the signal and ignore undefined values"""
from itertools import combinations
from math import ceil, pi

import numpy as np
from numpy import array, ma
from scipy.special import j1

from mc.core import Fail, Scenario
from py_eddy_tracker.dataset.grid import RegularGridDataset

ASSUMPTIONS = [
    "latitudes under lat_max where filter applies; kernel smaller than the globe and not wider than a half turn",
    "kernels are the documented functions of the great circle distance, in a window of +/- wave length (along the latitude of the pixel)",
    "pixels where sum of weights is lower than 1e-3 of the total of absolute weights are not judged (kernels have negative lobes)",
]
R = 6370997.0

# x first, x step, nb x, y first, y step, nb y, wave length km
KINDS = dict(
    regional=(-4.0, 1.0, 7, 30.0, 1.0, 6, 260.0),
    globe=(0.0, 20.0, 18, -40.0, 20.0, 5, 4800.0),
    globe180=(-180.0, 30.0, 12, -30.0, 30.0, 3, 7000.0),
    south=(358.5, 0.5, 6, -60.0, 0.5, 7, 120.0),
    polar=(10.0, 5.0, 8, 75.0, 5.0, 4, 1200.0),
)
LAT_MAX = 85


def distance(lon0, lat0, lon1, lat1):
    d = pi / 180
    a = np.sin((lat1 - lat0) * d / 2) ** 2 + np.cos(lat0 * d) * np.cos(lat1 * d) * np.sin((lon1 - lon0) * d / 2) ** 2
    return 2 * R * np.arctan2(np.sqrt(a), np.sqrt(1 - a))


def weight(name, d, order):
    with np.errstate(all="ignore"):
        if name == "bessel":
            w = np.where(d == 0, pi, np.sinc(d / order) * j1(2 * pi * d) / d)
        elif name == "lanczos":
            w = np.sinc(d / order) * np.sinc(d)
        else:
            w = (1 - d**3) ** 3
    return np.where(d > order, 0, w)


MATRIX = dict()


def matrix(kind, name, order):
    """Weight of each source pixel for each target pixel, by direct evaluation on the sphere; and total of weights"""
    key = kind, name, order
    if key in MATRIX:
        return MATRIX[key]
    x0, dx, nx, y0, dy, ny, wl = KINDS[kind]
    x, y = x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)
    circular = kind.startswith("globe")
    w = np.zeros((nx, ny, nx, ny))
    total = np.zeros(ny)
    km_y = distance(0, 0, 0, 1.0) / 1000 * dy
    for j in range(ny):
        if abs(y[j]) > LAT_MAX:
            continue
        km_x = distance(0, y[j], 1.0, y[j]) / 1000 * dx
        hx, hy = ceil(wl / km_x) * order, ceil(wl / km_y) * order
        if circular and 2 * hx + 1 > nx:
            hx = (nx - 1) // 2
        for di in range(-hx, hx + 1):
            for dj in range(-hy, hy + 1):
                v = float(weight(name, distance(0, y[j], dx * di, y[j] + dy * dj) / 1000 / wl, order))
                total[j] += v
                jj = j + dj
                if jj < 0 or jj >= ny:
                    continue
                for i in range(nx):
                    ii = i + di
                    if circular:
                        ii %= nx
                    elif ii < 0 or ii >= nx:
                        continue
                    w[i, j, ii, jj] += v
    MATRIX[key] = w.reshape(nx * ny, nx * ny), np.repeat(total[None], nx, axis=0).reshape(-1)
    return MATRIX[key]


def grid(kind, h, mask, dtype="f8", under=1e15, roll=0):
    x0, dx, nx, y0, dy, ny, _ = KINDS[kind]
    h = h.astype(dtype)
    h[mask] = under
    return RegularGridDataset.with_array(
        ("x", "y"), dict(x=x0 + dx * (np.arange(nx) + roll), y=y0 + dy * np.arange(ny), h=ma.array(h, mask=mask.copy())),
        variables_description=dict(h=dict(units="m")), centered=True,
    )


def base(kind):
    _, _, nx, _, _, ny, _ = KINDS[kind]
    return array([[((7 * i * i + 3 * i + 5 * j * j * (i + 1)) % 23) / 8 for j in range(ny)] for i in range(nx)])


def reference(kind, name, order, h, mask, extend):
    """:return: low pass, undefined, not judged"""
    w, total = matrix(kind, name, order)
    ok = ~mask.reshape(-1)
    hh = np.where(ok, h.reshape(-1), 0)
    s = w @ ok
    with np.errstate(all="ignore"):
        low = (w @ hh) / s
    weak = np.abs(s) < 1e-3 * np.abs(w).sum(axis=1)
    und = mask.reshape(-1).copy()
    if extend:
        und = s < extend * total
        weak |= np.abs(s - extend * total) < 1e-6 * np.abs(total)
    # lines which are completely undefined remain undefined, as latitudes over the limit
    x0, dx, nx, y0, dy, ny, _ = KINDS[kind]
    lines = mask.all(axis=0) | (np.abs(y0 + dy * np.arange(ny)) > LAT_MAX)
    und = und.reshape(mask.shape) | lines
    weak = weak.reshape(mask.shape) & ~lines
    if extend:
        weak &= ~(und & mask)
    return low.reshape(mask.shape), und, weak


def compare(ctx, kind, got, want, und, weak, tol, where):
    gm = ma.getmaskarray(got)
    if got.shape != want.shape:
        raise Fail("shape", where)
    bad = (gm != und) & ~weak
    if bad.any():
        k = tuple(int(v[0]) for v in np.where(bad))
        raise Fail("mask", f"{where} pixel {k}: {'undefined' if gm[k] else got.data[k]} but expected {'undefined' if und[k] else want[k]}")
    with np.errstate(all="ignore"):
        bad = ~und & ~weak & ~(np.abs(got.data - want) <= tol)
    if bad.any():
        k = tuple(int(v[0]) for v in np.where(bad))
        raise Fail("value", f"{where} pixel {k}: {got.data[k]} instead of {want[k]}")
    ctx.cover("undefined", int(und.sum()))
    ctx.cover("defined", int((~und & ~weak).sum()))


LOW = dict(
    bessel=lambda g, **k: g.bessel_low_filter("h", **k),
    lanczos=lambda g, **k: g.lanczos_low_filter("h", **k),
)
HIGH = dict(
    bessel=lambda g, **k: g.bessel_high_filter("h", **k),
    lanczos=lambda g, **k: g.lanczos_high_filter("h", **k),
)


def both(ctx, kind, name, order, h, mask, dtype, under, extend, where):
    wl = KINDS[kind][6]
    low, und, weak = reference(kind, name, order, h, mask, extend)
    kw = dict(wave_length=wl, order=order, lat_max=LAT_MAX)
    if extend:
        kw["extend"] = extend
    tol = (1e-9 if dtype == "f8" else 1e-4) * 100
    if name == "loess":
        g = grid(kind, h, mask, dtype, under)
        out = g.convolve_filter_with_dynamic_kernel("h", g.kernel_loess, **kw)
        ctx.step(h.size)
        compare(ctx, kind, out, low, und, weak, tol, f"low {where}")
        return
    g = grid(kind, h, mask, dtype, under)
    LOW[name](g, **kw)
    gl = g.grid("h")
    compare(ctx, kind, gl, low, und, weak, tol, f"low {where}")
    g = grid(kind, h, mask, dtype, under)
    HIGH[name](g, **kw)
    gh = g.grid("h")
    compare(ctx, kind, gh, h - low, und | mask, weak, tol, f"high {where}")
    ctx.step(2 * h.size)
    if gl.dtype != np.dtype(dtype) or gh.dtype != np.dtype(dtype):
        raise Fail("dtype", f"{where}: {gl.dtype} {gh.dtype}")
    # split of the signal
    ok = ~(ma.getmaskarray(gl) | ma.getmaskarray(gh)) & ~weak
    if ok.any() and np.abs(gl.data + gh.data - h)[ok].max() > tol:
        raise Fail("split", f"{where}: low and high don't give the original field")


def space_impulse(tier):
    for kind in KINDS:
        n = KINDS[kind][2] * KINDS[kind][5]
        for name in ("bessel", "lanczos", "loess"):
            for order in (1, 2) if name != "loess" else (1,):
                if order == 2 and (kind.startswith("globe") or kind == "polar"):
                    continue
                for k in list(range(n)) + [-1, -2]:
                    yield [kind, name, order, k]


def run_impulse(ctx, payload):
    """Basis of the linear space, and constants"""
    kind, name, order, k = payload
    _, _, nx, _, _, ny, wl = KINDS[kind]
    h = np.zeros(nx * ny)
    if k >= 0:
        h[k] = 1
    elif k == -1:
        h[:] = 3.5
    else:
        h[:] = base(kind).reshape(-1)
    h = h.reshape(nx, ny)
    ctx.state(*payload)
    both(ctx, kind, name, order, h, np.zeros(h.shape, dtype=bool), "f8", 0, 0, str(payload))


def patterns(nx, ny):
    yield [i * ny + j for i in range(nx) for j in range(ny) if (i + j) % 2]
    for j in range(ny):
        yield [i * ny + j for i in range(nx)]
    for i in range(nx):
        yield [i * ny + j for j in range(ny)]
    yield [i * ny + j for i in range(nx) for j in range(ny) if not (0 < i < 3 and 0 < j < 3)]
    yield [i * ny + j for i in range(nx) for j in range(ny) if i < nx // 2]


def space_masks(tier):
    for kind in KINDS:
        _, _, nx, _, _, ny, _ = KINDS[kind]
        n = nx * ny
        for c in range(n):
            yield [kind, [c]]
        for c in patterns(nx, ny):
            yield [kind, c]
        for a, b in combinations(range(n), 2):
            if tier != "quick" or abs(a - b) in (1, ny, ny + 1):
                yield [kind, [a, b]]
        if tier != "quick" and kind in ("regional", "globe180"):
            for c in combinations(range(n), 3):
                if c[2] - c[0] <= 2 * ny:
                    yield [kind, list(c)]


UNDER = (1e15, float("nan"), float("inf"))


def run_masks(ctx, payload):
    kind, pixels = payload
    _, _, nx, _, _, ny, wl = KINDS[kind]
    mask = np.zeros(nx * ny, dtype=bool)
    mask[pixels] = True
    mask = mask.reshape(nx, ny)
    h = base(kind)
    under = UNDER[sum(pixels) % 3]
    dtype = "f4" if sum(pixels) % 5 == 0 else "f8"
    ctx.state(kind, pixels)
    for name in ("bessel", "lanczos", "loess"):
        for extend in (0, 0.1, 0.6):
            both(ctx, kind, name, 1, h, mask, dtype, under, extend, f"{payload} {name} extend {extend}")
    # Constant field
    g = grid(kind, np.full(h.shape, 2.25), mask, dtype, under)
    g.bessel_low_filter("h", wave_length=wl, lat_max=LAT_MAX)
    low, und, weak = reference(kind, "bessel", 1, np.full(h.shape, 2.25), mask, 0)
    compare(ctx, kind, g.grid("h"), np.full(h.shape, 2.25), und, weak, 1e-5, f"constant {payload}")


def space_roll(tier):
    for kind in KINDS:
        if kind.startswith("globe"):
            nx = KINDS[kind][2]
            for k in range(-nx, nx):
                for pixels in ([], [0], [1, 2], list(range(10))):
                    yield [kind, k, pixels]


def run_roll(ctx, payload):
    kind, k, pixels = payload
    _, _, nx, _, _, ny, wl = KINDS[kind]
    h = base(kind)
    mask = np.zeros(h.size, dtype=bool)
    mask[pixels] = True
    mask = mask.reshape(h.shape)
    ctx.state(*payload)
    for fn, opt in ((LOW["bessel"], {}), (HIGH["bessel"], {}), (LOW["bessel"], dict(extend=0.2)), (LOW["lanczos"], {})):
        res = list()
        for roll in (0, k):
            g = grid(kind, np.roll(h, -roll, axis=0), np.roll(mask, -roll, axis=0), roll=roll)
            fn(g, wave_length=wl, lat_max=LAT_MAX, **opt)
            res.append(np.roll(g.grid("h").filled(-999), roll, axis=0))
            ctx.step(h.size)
        if not np.allclose(*res, rtol=1e-9, atol=1e-9):
            raise Fail("roll", f"{payload} {opt}")


def space_band(tier):
    for kind in ("regional", "south"):
        _, _, nx, _, _, ny, _ = KINDS[kind]
        for k in [-1] + list(range(nx * ny)):
            yield [kind, k]


def run_band(ctx, payload):
    """Band is a low pass at the short wave length, followed by a high pass at the long one"""
    kind, k = payload
    _, _, nx, _, _, ny, wl = KINDS[kind]
    mask = np.zeros(nx * ny, dtype=bool)
    if k >= 0:
        mask[k] = True
    mask = mask.reshape(nx, ny)
    h = base(kind)
    a, b = grid(kind, h, mask), grid(kind, h, mask)
    a.bessel_band_filter("h", wl, wl * 1.5)
    b.bessel_low_filter("h", wave_length=wl)
    b.bessel_high_filter("h", wave_length=wl * 1.5)
    ctx.step(4 * h.size)
    ctx.state(*payload)
    if not np.allclose(a.grid("h").filled(-999), b.grid("h").filled(-999), rtol=1e-9, atol=1e-9):
        raise Fail("band", f"{payload}")
    if not np.array_equal(a.grid("h").mask, mask):
        raise Fail("band_mask", f"{payload}")


SCENARIOS = [
    Scenario("impulse", space_impulse, run_impulse, shards=8, bound="every impulse of 5 grids (global, regional, polar, southern) x 3 kernels x orders 1-2, constant and irregular fields"),
    Scenario("masks", space_masks, run_masks, shards=8, bound="every undefined pixel, neighbouring pairs (every pair and close triples in thorough), lines, columns, checkerboard x 3 kernels x 3 extension limits, values 1e15/nan/inf under mask", need=("defined", "undefined")),
    Scenario("roll", space_roll, run_roll, shards=2, bound="every roll of 2 global grids x 4 masks"),
    Scenario("band", space_band, run_band, shards=2, bound="every undefined pixel of 2 grids"),
]
