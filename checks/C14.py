# -*- coding: utf-8 -*-
"""C14: observations survive storage in netCDF and zarr"""
import os
import shutil
from itertools import product

import numpy as np
import zarr
from netCDF4 import Dataset

from mc.core import Fail, Scenario, scratch
from mc.obsfix import (
    ARRAYS, CLASSES, CONTOURS, PERIODIC, RANGES, is_array, make, same, stored_error, table,
)
from py_eddy_tracker import VAR_DESCR

ASSUMPTIONS = [
    "rotation sense is set, values are in the range which the storage type can hold",
    "a contour whose longitudes aren't storable is stored shifted by a whole turn",
]


def path_of(tmp, fmt, name="f"):
    """File, or group of an in memory store: storage is the same, without the cost of a file by chunk and attribute"""
    if fmt == "zmem":
        return zarr.group(store=zarr.storage.MemoryStore())
    return os.path.join(tmp, f"{name}.{'nc' if fmt == 'nc' else 'zarr'}")


def write(obs, filename, fmt, chunk=None):
    kw = dict()
    if fmt == "zmem":
        obs.to_zarr(filename, **(dict() if chunk is None else dict(chunck_size=chunk)))
        return
    if fmt == "zarr":
        kw["zarr_flag"] = True
        if chunk is not None:
            kw["chunck_size"] = chunk
    obs.write_file(filename=filename, **kw)
    if not os.path.exists(filename):
        raise Fail("no-file", filename)


def packed(filename, fmt):
    """Content of file without any interpretation of py_eddy_tracker"""
    out = dict()
    if fmt == "nc":
        with Dataset(filename) as h:
            for name, v in h.variables.items():
                v.set_auto_maskandscale(False)
                out[name] = (str(v.dtype), v.dimensions, np.array(v[:]))
    else:
        h = filename if fmt == "zmem" else zarr.open(filename, "r")
        for name in h:
            v = h[name]
            out[name] = (str(v.dtype), v.shape, np.array(v[:]))
    return out


def compare(expected, got, code, names):
    for name in names:
        err = stored_error(name, expected[name], got[name])
        if err is not None:
            raise Fail(code, f"{name}: {err}")


def load(kind, filename, raw=False, **kw):
    return CLASSES[kind].load_file(filename, raw_data=raw, **kw)


def close(a, b):
    eps = np.finfo(b.dtype).eps * 2
    return bool(np.allclose(a.astype("f8"), b.astype("f8"), rtol=eps, atol=0))


def cycle(ctx, kind, obs, fmt, fmt2, chunk=None, buffer_size=None, complete=True):
    """write, load, write, load, raw load, raw write, load"""
    tmp = scratch()
    try:
        names = sorted(obs.fields)
        before = table(obs)
        f0 = path_of(tmp, fmt)
        write(obs, f0, fmt, chunk)
        ctx.step()
        for n in names:
            if not same(before[n], obs.obs[n]):
                raise Fail("source", f"{n} changed by write")
        kw = dict() if buffer_size is None or fmt == "nc" else dict(buffer_size=buffer_size)
        o1 = load(kind, f0, **kw)
        ctx.step()
        if len(o1) != len(obs):
            raise Fail("size", f"{len(obs)} -> {len(o1)}")
        if sorted(o1.fields) != names and (complete or set(names) - set(o1.fields)):
            raise Fail("fields", f"{names} -> {sorted(o1.fields)}")
        if o1.sign_type != obs.sign_type:
            raise Fail("sign", f"{obs.sign_type} -> {o1.sign_type}")
        if sorted(o1.array_variables) != sorted(obs.array_variables):
            raise Fail("arrays", f"{obs.array_variables} -> {o1.array_variables}")
        first = table(o1)
        compare(before, first, "value", names)
        # Second storage doesn't change anything
        f1 = path_of(tmp, fmt2, "g")
        write(o1, f1, fmt2, chunk)
        o2 = load(kind, f1)
        ctx.step(2)
        if o2.sign_type != obs.sign_type or len(o2) != len(obs) or (complete and sorted(o2.fields) != names):
            raise Fail("again-shape", f"{o2.sign_type} {len(o2)} {sorted(o2.fields)}")
        for n in names:
            # decoding of two formats differs of a rounding
            if not (same(first[n], o2.obs[n]) or (fmt != fmt2 and n in RANGES and close(first[n], o2.obs[n]))):
                raise Fail("again-value", f"{n}: {first[n].ravel()[:8]} -> {o2.obs[n].ravel()[:8]}")
        if fmt == fmt2:
            p0, p1 = packed(f0, fmt), packed(f1, fmt)
            if sorted(p0) != sorted(p1) and complete:
                raise Fail("content-names", f"{sorted(p0)} {sorted(p1)}")
            for n in p0:
                if p0[n][:2] != p1[n][:2] or not same(p0[n][2], p1[n][2]):
                    raise Fail("content", f"{n}: {p0[n]} {p1[n]}")
        # Raw mode: what is in memory are integers of the file
        r = load(kind, f0, raw=True, **kw)
        ctx.step()
        stored = dict(nc=None, zarr=None)
        if fmt == "nc":
            stored = {n: v[2] for n, v in packed(f0, fmt).items()}
            for n in names:
                if not same(stored[VAR_DESCR[n]["nc_name"]], r.obs[n]):
                    raise Fail("raw-load", f"{n}: {stored[VAR_DESCR[n]['nc_name']].ravel()[:8]} {r.obs[n].ravel()[:8]}")
        for n in names:
            if n in RANGES and len(r):
                scale, offset = VAR_DESCR[n]["scale_factor"], VAR_DESCR[n].get("add_offset", 0)
                d = np.abs(r.obs[n].astype("f8") * scale + offset - first[n].astype("f8"))
                if not (d <= scale * 0.26 + 1e-3 * np.abs(first[n].astype("f8")) * (n in ("score",) or "shape" in n)).all():
                    raise Fail("raw-decode", f"{n} {d.max()}")
        raws = table(r)
        f2 = path_of(tmp, fmt2, "h")
        write(r, f2, fmt2, chunk)
        r2 = load(kind, f2, raw=True)
        o3 = load(kind, f2)
        ctx.step(3)
        if len(r2) != len(obs) or len(o3) != len(obs):
            raise Fail("raw-size", f"{len(r2)} {len(o3)}")
        for n in names:
            if not same(raws[n], r2.obs[n]):
                raise Fail("raw-value", f"{n}: {raws[n].ravel()[:8]} -> {r2.obs[n].ravel()[:8]}")
        compare(before, table(o3), "raw-then-load", names)
        if o3.sign_type != obs.sign_type:
            raise Fail("raw-sign", f"{obs.sign_type} -> {o3.sign_type}")
        ctx.outcome(kind, fmt, fmt2, len(obs), tuple(names))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- every packed value
FRACTIONS = [0.0, 0.25, 0.45, -0.45]


def space_values(tier):
    for fmt, fmt2 in (("nc", "nc"), ("zmem", "zmem"), ("nc", "zmem"), ("zmem", "nc")):
        for name in sorted(RANGES):
            for i_frac in range(len(FRACTIONS)) if tier == "thorough" else (0, 2) if fmt == fmt2 else (1,):
                yield [name, fmt, fmt2, i_frac]


def run_values(ctx, p):
    name, fmt, fmt2, i_frac = p
    low, high, step = RANGES[name]
    nb = int(round((high - low) / step))
    if nb > 1000000:
        # every second of the first and last days, and dates all along
        k = np.unique(np.concatenate((np.arange(1, 90000), np.arange(nb - 90000, nb), np.arange(1, nb, 86399))))
    else:
        k = np.arange(1, nb)
    v = low + (k + FRACTIONS[i_frac]) * step
    if is_array(name):
        nb_sample = 8
        if name in PERIODIC:
            # contours of 8 neighbours pixels
            v = v[: v.size // 8 * 8]
        else:
            v = v[: v.size // 8 * 8]
        obs = make("eddies", v.size // 8, arrays=[name], nb_sample=nb_sample)
        obs.obs[name] = v.reshape((-1, 8))
    else:
        obs = make("eddies", v.size, extra=[] if name in make("eddies", 1).fields else [name])
        obs.obs[name] = v
    keep = [n for n in obs.fields if n == name]
    obs = obs.remove_fields(*[n for n in obs.fields if n != name])
    assert keep == [name]
    ctx.cover(f"packed {name}")
    ctx.state(name, fmt, fmt2, i_frac)
    cycle(ctx, "eddies", obs, fmt, fmt2, complete=False)


# ---------------------------------------------------------------- exact fields
EXACT = sorted(n for n in VAR_DESCR if n not in RANGES)


def space_exact(tier):
    for fmt in ("nc", "zmem"):
        for name in EXACT:
            yield [name, fmt]


def run_exact(ctx, p):
    name, fmt = p
    dtype = np.dtype(VAR_DESCR[name]["nc_type"])
    out = np.dtype(VAR_DESCR[name]["output_type"])
    if dtype.kind in "iu" or dtype.kind == "S" or VAR_DESCR[name]["nc_type"] == "byte":
        info = np.iinfo(np.dtype("i1") if VAR_DESCR[name]["nc_type"] == "byte" else out)
        v = [info.min, info.min + 1, -1 if info.min < 0 else 0, 0, 1, 2, 100, info.max - 1, info.max]
        # every value around the byte boundaries
        v += [x for x in range(-300, 300) if info.min <= x <= info.max]
    else:
        fi = np.finfo(out)
        v = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 180.0, 359.99, -179.99, float(fi.tiny), float(fi.max), float(fi.min), np.nan]
        v += [x / 7 for x in range(-400, 400)]
    base = make("eddies", 1)
    obs = make("eddies", len(v), extra=[] if name in base.fields else [name])
    obs.obs[name] = v
    if name != "type_cyc":
        obs = obs.remove_fields(*[n for n in obs.fields if n != name])
    else:
        obs.sign_type = int(obs.obs[name][0])
        obs.obs[name] = 1
        obs.sign_type = 1
    ctx.cover(f"exact {name}")
    ctx.state(name, fmt)
    cycle(ctx, "eddies", obs, fmt, fmt, complete=name == "type_cyc")


# ---------------------------------------------------------------- configurations
def space_config(tier):
    extras = [[], ["eke"], ["type_cyc", "distance_next"], ["i", "j", "lon_max", "lat_max"]]
    arrays = [[], CONTOURS, ARRAYS, CONTOURS[2:], ["uavg_profile"]]
    formats = (("nc", "nc"), ("zmem", "zmem"), ("nc", "zmem"), ("zmem", "nc"))
    if tier == "quick":
        # every pair of values of two options
        full = list()
        for kind, size in product(CLASSES, (0, 1, 3)):
            for f in formats:
                full.append([kind, size, 1, 1, 1, f, 4, None])
            for a in range(len(arrays)):
                full.append([kind, size, a, 0, -1, formats[a % 2], 4, 8 if a % 2 else None])
            for e in range(len(extras)):
                full.append([kind, size, (0, 2)[e % 2], e, 1, formats[(e + 1) % 2], 2, None if (e + 1) % 2 == 0 else 4])
        for a, e in product(range(len(arrays)), range(len(extras))):
            full.append(["eddies", 2, a, e, 1, formats[(a + e) % 4], 2, None])
    else:
        full = product(
            CLASSES, (0, 1, 2, 3, 5), range(len(arrays)), range(len(extras)), (1, -1), formats, (1, 2, 4, 7), (None, 8, 16)
        )
    for kind, size, arr, extra, sign, (fmt, fmt2), nb_sample, chunk in full:
        if arr == 0 and nb_sample != 4 and tier == "thorough":
            continue
        if chunk is not None and fmt == fmt2 == "nc":
            continue
        if "type_cyc" in extras[extra] and (size == 0 or sign != 1):
            # sense comes from this field
            continue
        yield [kind, size, arrays[arr], extras[extra], sign, fmt, fmt2, nb_sample, chunk]


def run_config(ctx, p):
    kind, size, arr, extra, sign, fmt, fmt2, nb_sample, chunk = p
    obs = make(kind, size, extra=extra, arrays=arr, nb_sample=nb_sample, sign=sign)
    ctx.cover(kind)
    ctx.cover(fmt)
    if size == 0:
        ctx.cover("empty")
    ctx.state(*map(str, p))
    cycle(ctx, kind, obs, fmt, fmt2, chunk)
    ctx.sample(p)


# ---------------------------------------------------------------- chunk of storage and buffer of read
def space_chunk(tier):
    top = 7 if tier == "quick" else 12
    for size in range(0, top):
        for chunk in range(2, top + 1):
            for buffer_size in range(1, top + 1) if tier == "thorough" else (1, 2, 3, 5, 8):
                yield [size, chunk, buffer_size]


def run_chunk(ctx, p):
    size, chunk, buffer_size = p
    obs = make("track", size, arrays=CONTOURS[:2], nb_sample=2)
    ctx.cover("chunk cut" if chunk < size else "one chunk")
    ctx.cover("buffer cut" if buffer_size < size else "one buffer")
    ctx.state(size, chunk, buffer_size)
    cycle(ctx, "track", obs, "zmem", "zmem", chunk, buffer_size)


# ---------------------------------------------------------------- files packed in an other way
PACKINGS = ["none", "f4", "x10", "x0.5", "offset"]


def space_packing(tier):
    for name in sorted(RANGES):
        for packing in PACKINGS:
            for fmt in ("nc", "zmem"):
                yield [name, packing, fmt]
    # file of previous versions: whole days, and milimeters
    for kind in CLASSES:
        for fmt in ("nc", "zmem"):
            yield ["old", kind, fmt]


def rewrite(source, target, change):
    """Copy of a netCDF file, with variables packed in an other way"""
    with Dataset(source) as i, Dataset(target, "w") as o:
        for k, d in i.dimensions.items():
            o.createDimension(k, len(d))
        o.setncatts({k: i.getncattr(k) for k in i.ncattrs()})
        for k, v in i.variables.items():
            v.set_auto_maskandscale(True)
            v.set_auto_mask(False)
            data = np.array(v[:], dtype="f8" if k in change else None)
            dtype, scale, offset = change.get(k, (None, None, None))
            atts = {a: v.getncattr(a) for a in v.ncattrs() if a not in ("scale_factor", "add_offset", "min", "max", "_FillValue")}
            if dtype is None:
                dtype, v_scale = v.dtype, getattr(v, "scale_factor", None)
                if v_scale is not None:
                    v.set_auto_maskandscale(False)
                    data, atts["scale_factor"], atts["add_offset"] = np.array(v[:]), v_scale, v.add_offset
            elif scale is not None:
                atts["scale_factor"] = scale
                if offset is not None:
                    atts["add_offset"] = offset
                data = np.round((data - (offset or 0)) / scale)
            w = o.createVariable(k, dtype, v.dimensions)
            w.set_auto_maskandscale(False)
            w[:] = data
            w.setncatts(atts)


def run_packing(ctx, p):
    name, packing, fmt = p
    if name == "old":
        kind, arrays, extra = packing, CONTOURS, []
        change = dict(time=("i4", None, None), amplitude=("u2", 0.001, None))
    else:
        kind, arrays, extra = "eddies", [name] if is_array(name) else [], [name]
        low, high, step = RANGES[name]
        nc_name = VAR_DESCR[name]["nc_name"]
        change = {nc_name: dict(none=("f8", None, None), f4=("f4", None, None), offset=("i8", step, low + 3 * step)).get(
            packing, ("i8", step * float(packing[1:]) if packing[0] == "x" else None, None))}
    extra = [e for e in extra if e not in make(kind, 1).fields and not is_array(e)]
    obs = make(kind, 5, extra=extra, arrays=arrays, nb_sample=4)
    if name == "old":
        obs.obs["time"] = np.round(obs.obs["time"])
    tmp = scratch()
    try:
        f0, f1 = path_of(tmp, "nc", "a"), path_of(tmp, "nc", "b")
        write(obs, f0, "nc")
        rewrite(f0, f1, change)
        ref = load(kind, f1)
        names = sorted(ref.fields)
        ctx.step(3)
        raw = load(kind, f1, raw=True)
        f2 = path_of(tmp, fmt, "c")
        write(raw, f2, fmt)
        got = load(kind, f2)
        ctx.check(sorted(got.fields) == names and len(got) == len(ref), "packing-size", lambda: f"{len(got)} {got.fields}")
        compare(table(ref), table(got), "packing", names)
        # selected part of it
        part = load(kind, f1, raw=True, indexs=dict(obs=slice(1, 3)))
        for n in names:
            ctx.check(same(part.obs[n], raw.obs[n][1:3]), "packing-slice", lambda: f"{n}: {part.obs[n]} {raw.obs[n]}")
        ctx.cover(f"packing {packing if name != 'old' else name}")
        ctx.state(*p)
        ctx.outcome(name, packing, raw.obs[names[0]].tobytes())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- names of file
def space_name(tier):
    for sign in (1, -1):
        for zarr_flag in (False, True):
            for model in ("%(path)s/%(sign_type)s.nc", "%(path)s/a_%(sign_type)s_b.nc", "%(path)s/c.zarr", None):
                yield [sign, zarr_flag, model]


def run_name(ctx, p):
    sign, zarr_flag, model = p
    obs = make("eddies", 3, sign=sign)
    tmp = scratch()
    try:
        kw = dict() if model is None else dict(filename=model)
        obs.write_file(path=tmp, zarr_flag=zarr_flag, **kw)
        name = (model or "%(path)s/%(sign_type)s.nc") % dict(
            path=tmp, sign_type="Anticyclonic" if sign == 1 else "Cyclonic"
        )
        if zarr_flag:
            name = name.replace(".nc", ".zarr")
        ctx.step()
        if os.listdir(tmp) != [os.path.basename(name)]:
            raise Fail("file-name", f"{os.listdir(tmp)} {name}")
        o = load("eddies", name)
        ctx.state(*map(str, p))
        ctx.outcome(name[len(tmp):])
        if o.sign_type != sign or stored_error("time", obs.obs["time"], o.obs["time"]):
            raise Fail("file-content", f"{o.sign_type}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- zarr on disk
def space_disk(tier):
    for kind in ("eddies", "track", "network"):
        for fmt, fmt2, size in (("zarr", "zarr", 0), ("zarr", "zarr", 3), ("zarr", "nc", 3), ("nc", "zarr", 3)):
            for arr, sign in (([], 1), (CONTOURS, -1)):
                yield [kind, size, arr, ["eke"], sign, fmt, fmt2, 4, None]


SCENARIOS = [
    Scenario("config", space_config, run_config, shards=8,
             bound="class x size x contours x extra fields x rotation x both formats x samples x chunk",
             need=("eddies", "track", "network", "nc", "zmem", "empty")),
    Scenario("values", space_values, run_values, shards=8,
             bound="every packed value of each packed field (time: every second of 2 days and a grid of dates), on and between steps, both formats",
             need=[f"packed {n}" for n in RANGES]),
    Scenario("exact", space_exact, run_exact, shards=8,
             bound="extreme and 600 neighbour values of each field stored unscaled, both formats",
             need=[f"exact {n}" for n in EXACT]),
    Scenario("chunk", space_chunk, run_chunk, shards=8,
             bound="number of observations x chunk of storage x buffer of reading up to 7 (12)",
             need=("chunk cut", "one chunk", "buffer cut", "one buffer")),
    Scenario("disk", space_disk, run_config, shards=8, bound="zarr stored on disk: class x size x contours x rotation"),
    Scenario("name", space_name, run_name, bound="models of file name x rotation x format"),
    Scenario("packing", space_packing, run_packing, shards=8, need=tuple(f"packing {k}" for k in PACKINGS + ["old"]),
             bound="every packed field stored with 5 other packings, files of previous versions, raw load then write in both formats"),
]
