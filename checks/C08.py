# -*- coding: utf-8 -*-
"""C08: interpolation is local, exact and circular"""
from itertools import product

import numpy as np
from numpy import array, ma

from mc.core import Fail, Scenario
from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset
from py_eddy_tracker.observations.observation import EddiesObservations

ASSUMPTIONS = [
    "positions exactly on a grid line: an undefined result is accepted when a neighbour without weight is undefined or out of the grid",
    "nearest: either neighbour is accepted at equal distance",
    "ascending regular axes; at most 1e-3 cell of rounding for axes stored in single precision",
]

# x first, x step, nb x, y first, y step, nb y
KINDS = dict(
    regional=(-2.0, 0.5, 4, 10.0, 0.5, 3),
    across0=(358.0, 1.0, 4, -1.0, 1.0, 3),
    globe=(0.0, 90.0, 4, -30.0, 30.0, 3),
    globe180=(-180.0, 90.0, 4, -30.0, 30.0, 3),
    globeoff=(30.0, 60.0, 6, -30.0, 30.0, 3),
    globethird=(1 / 3.0, 120.0, 3, -1.0, 1 / 3.0, 3),
)


def grid(x, y, h, mask, under=1e20):
    h = array(h, dtype="f8") if h.dtype.kind != "f" else h.copy()
    h[mask] = under
    return RegularGridDataset.with_array(
        ("x", "y"), dict(x=x.copy(), y=y.copy(), h=ma.array(h, mask=mask.copy())),
        variables_description=dict(h=dict(units="m")), centered=True,
    )


def values(nx, ny):
    """Neither linear nor symmetrical"""
    return array([[((7 * i * i + 3 * i + 5 * j * j * (i + 1)) % 23) + 0.5 * j for j in range(ny)] for i in range(nx)], dtype="f8")


def reference(h, mask, circular, i, j, method):
    """
    :param i,j: exact positions in cells
    :return: accepted values (None for undefined)
    """
    nx, ny = h.shape

    def get(a, b):
        if circular:
            a %= nx
        if a < 0 or a >= nx or b < 0 or b >= ny or mask[a, b]:
            return None
        return h[a, b]

    if method == "nearest":
        out = list()
        for a in {int(np.ceil(i - 0.5)), int(np.floor(i + 0.5))}:
            for b in {int(np.ceil(j - 0.5)), int(np.floor(j + 0.5))}:
                out.append(get(a, b))
        return out
    i0, j0 = int(np.floor(i)), int(np.floor(j))
    fi, fj = i - i0, j - j0
    v, lazy = 0.0, False
    for a, wa in ((i0, 1 - fi), (i0 + 1, fi)):
        for b, wb in ((j0, 1 - fj), (j0 + 1, fj)):
            g = get(a, b)
            w = wa * wb
            if g is None:
                if w:
                    return [None]
                lazy = True
            else:
                v += w * g
    return [v, None] if lazy else [v]


def compare(got, accepted, tol, where):
    got = None if np.isnan(got) else float(got)
    for a in accepted:
        if a is None and got is None:
            return got is None
        if a is not None and got is not None and abs(a - got) <= tol:
            return False
    raise Fail("value", f"{where}: {got} instead of {accepted}")


def fractions(kind):
    exact = kind != "globethird"
    return (0.0, 0.25, 0.5, 0.875) if exact else (0.125, 0.375, 0.875)


def positions(kind):
    nx, ny = KINDS[kind][2], KINDS[kind][5]
    f = fractions(kind)
    return [(i + a, j + b) for i in range(-2, nx + 1) for a in f for j in range(-2, ny + 1) for b in f]


def space_masks(tier):
    for kind in KINDS:
        nx, ny = KINDS[kind][2], KINDS[kind][5]
        n = nx * ny
        if tier == "quick":
            # every mask with at most 2 masked pixels (or at most one defined), and a checkerboard
            for code in sorted(range(1 << n), key=lambda c: bin(c).count("1")):
                nb = bin(code).count("1")
                if nb <= 2 or nb >= n - 1:
                    yield [kind, code]
        else:
            if n > 12:
                for code in range(1 << n):
                    if bin(code).count("1") <= 4:
                        yield [kind, code]
            else:
                for code in range(1 << n):
                    yield [kind, code]


def run_masks(ctx, payload):
    kind, code = payload
    x0, dx, nx, y0, dy, ny = KINDS[kind]
    circular = kind.startswith("globe")
    x, y = x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)
    mask = array([bool(code >> k & 1) for k in range(nx * ny)]).reshape(nx, ny)
    h = values(nx, ny)
    if kind == "across0":
        h = h.astype("f4")
    g = grid(x, y, h, mask, under=(1e20, 5.0, np.nan)[code % 3])
    pos = positions(kind)
    px = array([x0 + dx * i for i, _ in pos])
    py = array([y0 + dy * j for _, j in pos])
    ctx.state(kind, code)
    for method in ("bilinear", "nearest"):
        ref = [reference(h, mask, circular, i, j, method) for i, j in pos]
        base = None
        for k in (0, 1, -1, 2) if circular else (0,):
            got = g.interp("h", px + 360 * k, py, method)
            ctx.step(got.size)
            for v, r, p in zip(got, ref, pos):
                u = compare(v, r, 1e-5, f"{kind} {method} mask {code:b} cell {p} +{k}x360")
                ctx.cover("undefined" if u else "defined")
            if base is None:
                base = got
        # Position of the batch must have no influence: reversed order and one by one for a rotating position
        got = g.interp("h", px[::-1].copy(), py[::-1].copy(), method)[::-1]
        ctx.step(got.size)
        if not np.array_equal(got, base, equal_nan=True):
            raise Fail("order", f"{kind} {method} mask {code:b}: result depends on order of positions")
        for n in range(code % 5, len(pos), 5):
            one = g.interp("h", px[n : n + 1], py[n : n + 1], method)
            ctx.step()
            if not np.array_equal(one, base[n : n + 1], equal_nan=True):
                raise Fail("order", f"{kind} {method} mask {code:b} cell {pos[n]}: {one} alone, {base[n]} in a batch")
        # undefined positions
        nan = np.nan
        got = g.interp("h", array([nan, x[0], nan]), array([y[0], nan, nan]), method)
        if not np.isnan(got).all():
            raise Fail("nan_position", f"{kind} {method}: {got} at an undefined position")
    if code:
        ctx.cover(f"mask {kind}")
    # same rule at the position of eddies
    o = EddiesObservations(len(pos), array_variables=None)
    o.lon[:], o.lat[:] = px, py
    for method, name in (("center", "bilinear"), ("nearest", "nearest")):
        got = o.interp_grid(g, "h", method=method)
        sel = slice(code % 3, None, 2)
        part = o.interp_grid(g, "h", i=sel, method=method)
        ctx.step(len(got))
        for v, (i, j) in zip(got, pos):
            compare(v, reference(h, mask, circular, i, j, name), 1e-4, f"interp_grid {kind} {method} mask {code:b} cell {i, j}")
        if not np.array_equal(part, got[sel], equal_nan=True):
            raise Fail("eddy_subset", f"interp_grid {kind} {method} mask {code:b}: subset gives other values")


def space_pairs(tier):
    for kind in KINDS:
        nx, ny = KINDS[kind][2], KINDS[kind][5]
        for code in [0] + [1 << k for k in range(nx * ny)]:
            yield [kind, code]


def run_pairs(ctx, payload):
    """Every ordered pair of cells visited one after the other in the same call"""
    kind, code = payload
    x0, dx, nx, y0, dy, ny = KINDS[kind]
    circular = kind.startswith("globe")
    mask = array([bool(code >> k & 1) for k in range(nx * ny)]).reshape(nx, ny)
    h = values(nx, ny)
    g = grid(x0 + dx * np.arange(nx), y0 + dy * np.arange(ny), h, mask)
    turns = (0, nx, -nx) if circular else (0,)
    pos = [(i + 0.25 + t, j + 0.625) for i in range(-1, nx + 1) for j in range(-1, ny + 1) for t in turns]
    seq = [p for a in pos for b in pos for p in (a, b)]
    got = g.interp("h", array([x0 + dx * i for i, _ in seq]), array([y0 + dy * j for _, j in seq]))
    ctx.step(len(seq))
    ctx.state(kind, code)
    ref = {p: reference(h, mask, circular, *p, "bilinear") for p in pos}
    for n, (v, p) in enumerate(zip(got, seq)):
        compare(v, ref[p], 1e-5, f"{kind} mask {code:b} cell {p} after {seq[n - 1] if n else None}")


AXES = list()
for step, name in ((1 / 12.0, "1/12"), (0.1, "0.1"), (1 / 3.0, "1/3"), (0.25, "1/4"), (0.125, "1/8"), (1.0, "1")):
    for origin in (0.0, -180.0, 100.0):
        for off in (0.0, 0.5, 1.0):
            for dtype in ("f8", "f4"):
                for how in ("mul", "add", "linspace"):
                    AXES.append([step, origin, off, dtype, how])


def space_axes(tier):
    for a in AXES:
        for part in (1.0, 0.75):
            yield a + [part]


def run_axes(ctx, payload):
    step, origin, off, dtype, how, part = payload
    nx = int(round(360 / step * part))
    first = origin + off * step
    if how == "mul":
        x = first + np.arange(nx) * step
    elif how == "add":
        x = np.arange(nx) * step + first - 360 + 360
        x = np.round(x, 6)
    else:
        x = np.linspace(first, first + (nx - 1) * step, nx)
    x = x.astype(dtype).astype("f8")
    circular = part == 1.0
    y = array([0.0, 1.0, 2.0])
    h = np.repeat(array([(i * 7) % 11 for i in range(nx)], dtype="f8")[:, None], 3, axis=1)
    mask = np.zeros(h.shape, dtype=bool)
    g = grid(x, y, h, mask)
    ctx.state(*payload)
    if bool(g.is_circular()) != circular:
        raise Fail("circular", f"{payload}: circular {g.is_circular()}")
    ctx.cover("circular axis" if circular else "regional axis")
    i = np.arange(-1, nx + 1)
    for f in (0.25, 0.75):
        for k in (0, 360, -720) if circular else (0,):
            px = first + (i + f) * step + k
            py = np.full(px.shape, 0.5)
            c = i + f
            i0, i1 = i, i + 1
            inside = (i0 >= 0) & (i1 < nx) | circular
            want = h[i0 % nx, 0] * (1 - f) + h[i1 % nx, 0] * f
            got = g.interp("h", px, py)
            near = g.interp("h", px, py, "nearest")
            ctx.step(2 * got.size)
            n_ = np.round(c).astype(int)
            inside_n = (n_ >= 0) & (n_ < nx) | circular
            for v, w, ins, nm in ((got, want, inside, "bilinear"), (near, h[n_ % nx, 0], inside_n, "nearest")):
                # f4 axis : 1.5e-5 degree of rounding on each coordinate and values change by 11 at most
                tol = 1e-3 if dtype == "f8" else 2e-2
                bad = ins & ~(np.abs(v - w) <= tol) | ~ins & ~np.isnan(v)
                if bad.any():
                    b = np.where(bad)[0][0]
                    raise Fail("axis", f"{payload} {nm} at {px[b]} (cell {c[b]}): {v[b]} instead of {w[b] if ins[b] else None}")


def space_regrid(tier):
    for src, dst in product(KINDS, KINDS):
        n = KINDS[src][2] * KINDS[src][5]
        for code in [0] + [1 << k for k in range(n)]:
            yield [src, dst, code]


def run_regrid(ctx, payload):
    src, dst, code = payload
    x0, dx, nx, y0, dy, ny = KINDS[src]
    mask = array([bool(code >> k & 1) for k in range(nx * ny)]).reshape(nx, ny)
    h = values(nx, ny)
    g = grid(x0 + dx * np.arange(nx), y0 + dy * np.arange(ny), h, mask)
    X0, DX, NX, Y0, DY, NY = KINDS[dst]
    # Grid of destination is a zoom inside of the source, with the shape of destination
    ctx.state(*payload)
    X = x0 + dx * (0.125 + 0.625 * np.arange(NX))
    Y = y0 + dy * (-0.25 + 0.5 * np.arange(NY))
    other = grid(X, Y, np.zeros((NX, NY)), np.zeros((NX, NY), dtype=bool))
    other.regrid(g, "h", "new")
    r = other.grid("new")
    ctx.step(r.size)
    if r.shape != (NX, NY):
        raise Fail("regrid", f"{payload}: shape {r.shape}")
    for a in range(NX):
        for b in range(NY):
            i, j = (X[a] - x0) / dx, (Y[b] - y0) / dy
            i = round(i * 8) / 8
            j = round(j * 8) / 8
            v = np.nan if np.ma.getmaskarray(r)[a, b] else r.data[a, b]
            compare(v, reference(h, mask, src.startswith("globe"), i, j, "bilinear"), 1e-5, f"regrid {payload} at {i, j}")
    if not np.array_equal(g.grid("h").mask, mask):
        raise Fail("regrid", f"{payload}: source grid modified")


def space_time(tier):
    for kind in KINDS:
        for code in [0, 1, 1 << 4]:
            for code1 in [0, 1, 1 << 5]:
                yield [kind, code, code1]


def run_time(ctx, payload):
    kind, *codes = payload
    x0, dx, nx, y0, dy, ny = KINDS[kind]
    circular = kind.startswith("globe")
    x, y = x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)
    hs, ms = list(), list()
    c = GridCollection()
    for n in range(3):
        code = codes[n] if n < 2 else 0
        mask = array([bool(code >> k & 1) for k in range(nx * ny)]).reshape(nx, ny)
        h = values(nx, ny) * (n + 1) + n * n
        hs.append(h)
        ms.append(mask)
        c.datasets.append((100 + n, grid(x, y, h, mask)))
    pos = positions(kind)[::3]
    px = array([x0 + dx * i for i, _ in pos])
    py = array([y0 + dy * j for _, j in pos])
    ctx.state(*payload)
    for t in (100, 100.25, 100.5, 101, 101.75):
        n, w = int(t) - 100, t - int(t)
        for method in ("bilinear", "nearest"):
            got = c.interp("h", t, px, py, method)
            ctx.step(got.size)
            for v, (i, j) in zip(got, pos):
                r0 = reference(hs[n], ms[n], circular, i, j, method)
                r1 = reference(hs[n + 1], ms[n + 1], circular, i, j, method)
                acc = [None if a is None or b is None else a * (1 - w) + b * w for a, b in product(r0, r1)]
                if w == 0:
                    acc += r0
                compare(v, acc, 1e-5, f"time {t} {payload} {method} at {i, j}")


SCENARIOS = [
    Scenario("masks", space_masks, run_masks, shards=8, bound="3x3 to 6x3 grids, at most 2 undefined or 1 defined pixels (every mask in thorough), positions each quarter of cell from 2 cells out, k x 360, both methods", need=("defined", "undefined", "mask regional", "mask globe")),
    Scenario("pairs", space_pairs, run_pairs, shards=4, bound="every ordered pair of cells in one call x every single undefined pixel"),
    Scenario("axes", space_axes, run_axes, shards=4, bound="324 axes (steps, origins, rounding, precision) x global/regional, every column", need=("circular axis", "regional axis")),
    Scenario("regrid", space_regrid, run_regrid, shards=2, bound="36 pairs of grids x every single undefined pixel"),
    Scenario("time", space_time, run_time, shards=2, bound="5 dates x 9 mask pairs x 6 grids"),
]


def warm():
    g = grid(np.arange(3.0), np.arange(3.0), values(3, 3), np.zeros((3, 3), dtype=bool))
    for dtype in ("f8", "f4"):
        for m in ("bilinear", "nearest"):
            g.interp("h", np.ones(1, dtype=dtype), np.ones(1, dtype=dtype), m)
            g.vars["h"] = g.vars["h"].astype("f4") if dtype == "f8" else g.vars["h"].astype("f8")
