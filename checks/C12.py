# -*- coding: utf-8 -*-
"""C12: grid files are read and written without moving or altering values"""
import os
import tempfile
from itertools import combinations, permutations, product

import numpy as np
from netCDF4 import Dataset
from numpy import array, ma

from mc.core import Fail, Scenario
from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset, UnRegularGridDataset

ASSUMPTIONS = [
    "ascending regular axes (descending axes are refused by the code)",
    "writing a grid loaded at one index of extra dimensions writes this grid for every index",
]

SIZES = dict(x=4, y=3, t=3, z=2)
# x first center, x step, y first, y step
AXES = dict(regional=(2.0, 0.5, 10.0, 0.25), globe=(0.0, 90.0, -30.0, 30.0), globe180=(-180.0, 90.0, -1.0, 1.0))


def cube(dims):
    """Each value is its own address"""
    shape = [SIZES[d] for d in dims]
    out = np.zeros(shape)
    for idx in np.ndindex(*shape):
        a = dict(zip(dims, idx))
        out[idx] = a["x"] + 10 * a["y"] + 100 * a.get("t", 0) + 1000 * a.get("z", 0)
    return out


def mask_cube(dims, code):
    """Mask changes with every index"""
    shape = [SIZES[d] for d in dims]
    out = np.zeros(shape, dtype=bool)
    for idx in np.ndindex(*shape):
        a = dict(zip(dims, idx))
        n = a["x"] * SIZES["y"] + a["y"]
        out[idx] = (code >> ((n + a.get("t", 0) + 2 * a.get("z", 0)) % 12)) & 1
    return out


def make(filename, dims, kind, axes, code, tdim="t", dtype="f8", missing="fill"):
    x0, dx, y0, dy = AXES[axes]
    with Dataset(filename, "w") as h:
        for d in dims:
            h.createDimension(tdim if d == "t" else d, SIZES[d])
        h.title = "my title"
        for name, v, d in (
            ("x", x0 + dx * np.arange(SIZES["x"]), "x"),
            ("y", y0 + dy * np.arange(SIZES["y"]), "y"),
            ("t", 100 + np.arange(SIZES["t"]), "t"),
        ):
            if d in dims:
                var = h.createVariable(name, "f4" if kind == "f4axes" else "f8", (tdim if d == "t" else d,))
                var[:] = v
                var.units = "degrees" if d != "t" else "days since 1950-01-01"
        data, mask = cube(dims), mask_cube(dims, code)
        names = tuple(tdim if d == "t" else d for d in dims)
        if missing == "nan":
            v = h.createVariable("h", dtype, names)
            data = data.copy()
            data[mask] = np.nan
            v[:] = data
        elif missing == "default":
            v = h.createVariable("h", dtype, names)
            v[:] = ma.array(data, mask=mask)
        else:
            v = h.createVariable("h", dtype, names, fill_value=-999 if dtype != "i2" else -32767)
            if dtype == "i2":
                v.scale_factor = 0.25
                v.add_offset = 10.0
            v[:] = ma.array(data, mask=mask)
        v.units = "m"
        v.comment = "about h"
    return data, mask


def expect(dims, data, mask, index):
    """Array (x, y) at this index"""
    out, m = np.zeros((SIZES["x"], SIZES["y"])), np.zeros((SIZES["x"], SIZES["y"]), dtype=bool)
    for i, j in np.ndindex(*out.shape):
        a = dict(x=i, y=j, **index)
        k = tuple(a[d] for d in dims)
        out[i, j], m[i, j] = data[k], mask[k]
    return out, m


def compare(got, values, mask, where):
    if not isinstance(got, ma.MaskedArray):
        raise Fail("type", f"{where}: {type(got)}")
    if got.shape != values.shape:
        raise Fail("shape", f"{where}: {got.shape} instead of {values.shape}")
    m = ma.getmaskarray(got)
    if (m != mask).any():
        raise Fail("mask", f"{where}: {m.tolist()} instead of {mask.tolist()}")
    if np.shape(got.mask) != got.shape:
        raise Fail("mask shape", f"{where}")
    if not np.array_equal(got.data[~mask], values[~mask]):
        raise Fail("values", f"{where}: {got.tolist()} instead of {ma.array(values, mask=mask).tolist()}")


def layouts():
    for n in (0, 1, 2):
        for extra in combinations("tz", n):
            yield from permutations(("x", "y") + extra)


CODES_QUICK = (0, 0xFFF, 0b101101, 1, 0b100000000000)


def space_load(tier):
    for dims in layouts():
        for code in CODES_QUICK if tier == "quick" else range(0, 4096, 1 if len(dims) == 2 else 111):
            for dtype, missing in (("f8", "fill"), ("f4", "nan"), ("i2", "fill"), ("f4", "default")):
                if tier == "quick" and code not in (0, 0b101101) and missing != "fill":
                    continue
                if tier == "quick" and len(dims) == 4 and (code != 0b101101 or dtype not in ("f8", "i2")):
                    continue
                yield [list(dims), code, dtype, missing]


def check_axes(g, axes, centered, sx, sy, where):
    x0, dx, y0, dy = AXES[axes]
    x, y = x0 + dx * np.arange(SIZES["x"])[sx], y0 + dy * np.arange(SIZES["y"])[sy]
    if not centered:
        x, y = x + dx / 2, y + dy / 2
    for name, got, b, ref in (("x", g.x_c, g.x_bounds, x), ("y", g.y_c, g.y_bounds, y)):
        if len(got) != len(ref) or not np.allclose(got, ref, atol=1e-9, rtol=0):
            raise Fail("centers", f"{where} {name}: {got} instead of {ref}")
        if len(b) != len(ref) + 1:
            raise Fail("bounds", f"{where} {name}: {len(b)} bounds for {len(ref)} centers")
        d = ref[1] - ref[0]
        if not np.allclose(b, np.concatenate((ref - d / 2, ref[-1:] + d / 2)), atol=1e-9, rtol=0):
            raise Fail("bounds", f"{where} {name}: {b} around {ref}")
    full = axes.startswith("globe") and sx == slice(None)
    if bool(g.is_circular()) != full:
        raise Fail("circular", f"{where}: {g.is_circular()}")


def run_load(ctx, payload):
    dims, code, dtype, missing = payload
    extra = [d for d in dims if d not in "xy"]
    axes = ("regional", "globe", "globe180")[code % 3]
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "g.nc")
        for tdim in ("t", "time_counter") if "t" in dims and (dtype == "f8" or ctx.tier == "thorough") else ("t",):
            data, mask = make(fn, dims, "f8axes", axes, code, tdim, dtype, missing)
            kw = dict(nan_masking=missing == "nan")
            indexs_ = [dict()] + [dict(zip(extra, v)) for v in product(*(range(SIZES[d]) for d in extra)) if extra]
            if len(extra) == 2:
                indexs_ += [{d: SIZES[d] - 1} for d in extra]
            shared = RegularGridDataset(fn, "x", "y", centered=True, **kw)
            for n, index in enumerate(indexs_):
                ends = n in (0, len(indexs_) - 2, len(indexs_) - 1) or ctx.tier == "thorough"
                full = {d: 0 for d in extra}
                full.update(index)
                values, m = expect(dims, data, mask, full)
                real = {(tdim if k == "t" else k): v for k, v in index.items()}
                where = f"{dims} {real} mask {code} {dtype} {missing}"
                ctx.state(tuple(dims), code, tuple(sorted(full.items())))
                # immediate load
                for centered in (True, False, None) if ends else (True,):
                    g = RegularGridDataset(fn, "x", "y", centered=centered, indexs=dict(real), **kw)
                    check_axes(g, axes, centered is not False, slice(None), slice(None), where)
                    compare(g.grid("h"), values, m, where + " immediate")
                    compare(g.grid("h"), values, m, where + " second call")
                    ctx.step(2)
                # lazy load
                g = RegularGridDataset(fn, "x", "y", centered=True, indexs=dict(real), unset=True, **kw)
                g.populate()
                compare(g.grid("h"), values, m, where + " lazy")
                g.clean()
                g.populate()
                compare(g.grid("h"), values, m, where + " cleaned then loaded")
                # index given with the grid, other indexs were asked before
                if index:
                    compare(shared.grid("h", indexs=dict(real)), values, m, where + " index of grid()")
                    ctx.cover("index")
                if m.any():
                    ctx.cover("masked")
                # part of the grid
                for sx, sy in ((slice(1, None), slice(None)), (slice(0, 3), slice(1, 3)), (slice(None), slice(0, 2))) if ends else ():
                    g = RegularGridDataset(fn, "x", "y", centered=True, indexs=dict(real, x=sx, y=sy), **kw)
                    check_axes(g, axes, True, sx, sy, where)
                    compare(g.grid("h"), values[sx, sy], m[sx, sy], where + f" part {sx} {sy}")
                    out = os.path.join(tmp, "part.nc")
                    g.write(out)
                    back = RegularGridDataset(out, "x", "y", centered=True, **kw)
                    check_axes(back, axes, True, sx, sy, where + " written")
                    compare(back.grid("h"), values[sx, sy], m[sx, sy], where + f" part {sx} {sy} written")
                    ctx.step(2)
                # write and read back
                g = RegularGridDataset(fn, "x", "y", centered=True, indexs=dict(real), **kw)
                g.grid("h")
                out = os.path.join(tmp, "out.nc")
                g.write(out)
                with Dataset(out) as h:
                    v = h.variables["h"]
                    if v.units != "m" or v.comment != "about h" or h.title != "my title":
                        raise Fail("attributes", where)
                    names = tuple(tdim if d == "t" else d for d in dims)
                    if v.dimensions != names or v.dtype != np.dtype(dtype):
                        raise Fail("format", f"{where}: {v.dimensions} {v.dtype}")
                for again in indexs_ if ctx.tier == "thorough" else (dict(), index):
                    again = {(tdim if k == "t" else k): v for k, v in again.items()}
                    back = RegularGridDataset(out, "x", "y", centered=True, indexs=again, **kw)
                    check_axes(back, axes, True, slice(None), slice(None), where + " written")
                    compare(back.grid("h"), values, m, where + f" written then read at {again}")
                    ctx.step()
                g.copy("h", "other")
                g.write(out)
                compare(RegularGridDataset(out, "x", "y", centered=True, **kw).grid("other"), values, m, where + " copy")
            if "t" in dims:
                c = GridCollection.from_netcdf_cube(fn, "x", "y", "t", centered=True, **kw)
                if [float(v) for v in c.time] != [100.0, 101.0, 102.0]:
                    raise Fail("cube dates", str(c.time))
                for k in range(SIZES["t"]):
                    values, m = expect(dims, data, mask, dict({d: 0 for d in extra}, t=k))
                    compare(c[100 + k].grid("h"), values, m, f"{dims} cube date {k} dimension {tdim}")
                    ctx.step()
                ctx.cover("cube")
    ctx.outcome(tuple(dims), dtype, missing)


def space_array(tier):
    for axes in AXES:
        for code in range(4096) if tier == "thorough" else [c for c in range(4096) if bin(c).count("1") in (0, 1, 2, 11, 12)]:
            yield [axes, code]


def run_array(ctx, payload):
    """Grid built from arrays then written"""
    axes, code = payload
    x0, dx, y0, dy = AXES[axes]
    x, y = x0 + dx * np.arange(SIZES["x"]), y0 + dy * np.arange(SIZES["y"])
    mask = mask_cube("xy", code)
    h = cube("xy") * 0.1
    centered = bool(code % 2)
    under = (np.nan, 1e20, 3.0)[code % 3]
    v = h.copy()
    v[mask] = under
    ctx.state(axes, code)
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "g.nc")
        names = ("x", "y") if code % 5 else ("lon", "lat")
        g = RegularGridDataset.with_array(
            names, {names[0]: x, names[1]: y, "h": ma.array(v, mask=mask)},
            variables_description=dict(h=dict(units="m")), centered=centered,
        )
        check_axes(g, axes, centered, slice(None), slice(None), "array")
        g.write(fn)
        for i in range(2):
            back = RegularGridDataset(fn, *names, centered=centered)
            where = f"{payload} written {i + 1} times"
            check_axes(back, axes, centered, slice(None), slice(None), where)
            compare(back.grid("h"), h, mask, where)
            if back.units("h") != "m":
                raise Fail("units", where)
            fn = os.path.join(tmp, f"g{i}.nc")
            back.write(fn)
            ctx.step()
    ctx.cover("all masked" if code == 4095 else "one masked" if bin(code).count("1") == 1 else "other")
    ctx.outcome(axes, bool(code))


def space_list(tier):
    for order in permutations(range(3)):
        for dims in (("x", "y"), ("y", "x"), ("t", "y", "x"), ("y", "t", "x")):
            yield [list(order), list(dims)]


def run_list(ctx, payload):
    """Collection of files"""
    order, dims = payload
    with tempfile.TemporaryDirectory() as tmp:
        fns = list()
        for k in range(4):
            fns.append(os.path.join(tmp, f"{k}.nc"))
            make(fns[-1], dims, "f8axes", "regional", 1 << k)
        values, _ = cube(dims), None
        index = dict(t=1) if "t" in dims else dict()
        for lazy in (True, False):
            c = GridCollection.from_netcdf_list(
                [fns[k] for k in order], [20 + k for k in order], "x", "y", indexs=dict(index), centered=True, unset=lazy
            )
            if list(c.are_loaded) != [not lazy] * 3:
                raise Fail("loaded", f"{c.are_loaded}")

            def check(dates):
                for k in dates:
                    v, m = expect(dims, values, mask_cube(dims, 1 << k), index)
                    compare(c[20 + k].grid("h"), v, m, f"file {k} of list {order}")
                    ctx.step()

            check(order)
            c.shift_files(23, fns[3], x_name="x", y_name="y", indexs=dict(index), centered=True)
            check(order[1:] + [3])
            if list(c.time) != [20 + k for k in order[1:]] + [23]:
                raise Fail("dates", str(c.time))
            try:
                c[20 + order[0]]
                raise Fail("shift", "oldest file is still here")
            except KeyError:
                pass
    ctx.state(tuple(order), tuple(dims))
    ctx.outcome(tuple(dims))


def space_derived(tier):
    for index in range(3):
        for then in range(3):
            yield [index, then]


def run_derived(ctx, payload):
    """Grids which are not in file are kept whatever the index asked"""
    index, then = payload
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "g.nc")
        data = np.arange(3 * 6 * 5).reshape(3, 6, 5) ** 1.5
        with Dataset(fn, "w") as h:
            for d, n in (("t", 3), ("y", 6), ("x", 5)):
                h.createDimension(d, n)
                h.createVariable(d, "f8", (d,))[:] = 10 + np.arange(n)
            h.createVariable("h", "f8", ("t", "y", "x"))[:] = data
            h.variables["h"].units = "m"
        g = RegularGridDataset(fn, "x", "y", centered=True, indexs=dict(t=index))
        g.add_uv("h")
        u = g.grid("u").copy()
        ref = RegularGridDataset(fn, "x", "y", centered=True, indexs=dict(t=index))
        ref.vars["h"] = ma.array(data[index].T, mask=np.zeros((5, 6), dtype=bool))
        ref.add_uv("h")
        for name in ("u", "v"):
            if not np.array_equal(g.grid(name, indexs=dict(t=then)).filled(9e9), ref.grid(name).filled(9e9)):
                raise Fail("derived", f"{payload} {name}")
        if not np.array_equal(g.grid("h", indexs=dict(t=then)), data[then].T):
            raise Fail("values", f"{payload}")
        if not np.array_equal(g.grid("u").filled(9e9), u.filled(9e9)):
            raise Fail("derived", f"{payload} changed")
        ctx.step(4)
        ctx.state(index, then)
        ctx.outcome(index, then)


def space_unregular(tier):
    for extra in ((), ("t",), ("t", "z")):
        for perm in permutations(("i", "j") + extra):
            if perm.index("i") < perm.index("j"):
                for code in CODES_QUICK:
                    yield [list(perm), code]


def run_unregular(ctx, payload):
    dims, code = payload
    alias = [dict(i="x", j="y").get(d, d) for d in dims]
    extra = [d for d in dims if d in "tz"]
    nx, ny = SIZES["x"], SIZES["y"]
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    lon, lat = 5 + i + 0.25 * j, 40 - 0.5 * i + j
    data, mask = cube(alias), mask_cube(alias, code)
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "g.nc")
        with Dataset(fn, "w") as h:
            for d, a in zip(dims, alias):
                h.createDimension(d, SIZES[a])
            h.createVariable("lon", "f8", ("i", "j"))[:] = lon
            h.createVariable("lat", "f8", ("i", "j"))[:] = lat
            h.createVariable("h", "f8", dims, fill_value=-9)[:] = ma.array(data, mask=mask)
        for index in [dict(zip(extra, v)) for v in product(*(range(SIZES[d]) for d in extra))]:
            g = UnRegularGridDataset(fn, "lon", "lat", centered=True, indexs=dict(index))
            values, m = expect(alias, data, mask, index)
            for k in range(2):
                if not np.array_equal(g.x_c, lon) or not np.array_equal(g.y_c, lat):
                    raise Fail("centers", f"{payload}")
                compare(g.grid("h"), values, m, f"{payload} at {index}, {k} times written")
                ctx.step()
                ctx.state(tuple(dims), code, tuple(index.items()))
                out = os.path.join(tmp, f"out{k}.nc")
                g.write(out)
                g = UnRegularGridDataset(out, "lon", "lat", centered=True, indexs=dict(index))
            for a, b in np.ndindex(nx, ny):
                if tuple(int(v) for v in g.nearest_grd_indice(lon[a, b] + 0.1, lat[a, b] - 0.1)) != (a, b):
                    raise Fail("nearest", f"{a} {b}")
    ctx.outcome(tuple(dims))


SCENARIOS = [
    Scenario("derived", space_derived, run_derived, bound="currents computed at each index then every index asked"),
    Scenario("load", space_load, run_load, shards=8, need=("index", "masked", "cube"),
             bound="every order of x, y and 0-2 other dimensions (dimension named as its variable or not), every index, 5 masks (thorough: 37 to 4096), 4 types of storage, centered or not, immediate/lazy/reload, 3 parts of the grid, written then read back"),
    Scenario("array", space_array, run_array, shards=8, need=("all masked", "one masked"),
             bound="every mask with 0-2 or 11-12 pixels (thorough: every one) of a 4x3 grid, 3 kinds of axes, written and read twice"),
    Scenario("list", space_list, run_list, shards=4, bound="every order of 3 files, 4 layouts, lazy or not, with a shift of files"),
    Scenario("unregular", space_unregular, run_unregular, shards=4, bound="every position of 0-2 extra dimensions, every index, 5 masks"),
]
