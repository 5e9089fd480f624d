# -*- coding: utf-8 -*-
"""C15: partial loading equals full loading followed by selection"""
import os
import shutil
import tarfile
from io import BytesIO
from itertools import combinations, product

import numpy as np
import zarr
from netCDF4 import Dataset

from mc.core import Fail, Scenario, scratch
from mc.obsfix import CLASSES, CONTOURS, make, same, table
from py_eddy_tracker import VAR_DESCR
from py_eddy_tracker.data import get_remote_demo_sample

ASSUMPTIONS = [
    "step of a slice isn't used (documented by a warning of the loader): slices are contiguous",
    "fields which are not asked are not compared (some are kept at zero)",
]

SIZE = 5
KINDS = ("eddies", "track", "network")
FILES = dict()


def source(kind, fmt, arrays=True, size=SIZE):
    """One file by configuration and process"""
    key = (kind, fmt, arrays, size)
    if key not in FILES:
        obs = make(kind, size, extra=["eke"], arrays=CONTOURS if arrays else [], nb_sample=3, sign=1)
        if fmt == "zmem":
            h = zarr.group(store=zarr.storage.MemoryStore())
            obs.to_zarr(h, chunck_size=6)
            FILES[key] = h, None
        else:
            d = scratch()
            try:
                f = os.path.join(d, "a.nc" if fmt == "nc" else "a.zarr")
                obs.write_file(filename=f)
                if fmt == "nc":
                    with open(f, "rb") as h:
                        FILES[key] = h.read(), None
                else:
                    raise NotImplementedError
            finally:
                shutil.rmtree(d, ignore_errors=True)
    return FILES[key][0]


def opened(content):
    """netCDF content is read from memory"""
    return BytesIO(content) if isinstance(content, bytes) else content


FULL = dict()


def full(kind, fmt, arrays=True, size=SIZE, raw=False):
    key = (kind, fmt, arrays, size, raw)
    if key not in FULL:
        o = CLASSES[kind].load_file(opened(source(kind, fmt, arrays, size)), raw_data=raw)
        if len(o) != size:
            raise Fail("full-size", f"{len(o)}")
        FULL[key] = table(o), o.sign_type, sorted(o.array_variables), sorted(o.track_extra_variables)
    return FULL[key]


def agree(got, reference, names, start, stop, sign):
    stop = max(start, stop)
    if len(got) != stop - start:
        raise Fail("size", f"{len(got)} observations instead of {stop - start}")
    if got.sign_type != sign:
        raise Fail("sign", f"{got.sign_type} {sign}")
    for n in names:
        if n not in got.fields:
            raise Fail("field-lost", n)
        if got.obs[n].dtype != reference[n].dtype:
            raise Fail("type", f"{n} {got.obs[n].dtype} {reference[n].dtype}")
        if not same(got.obs[n], reference[n][start:stop]):
            raise Fail("value", f"{n}: {got.obs[n].ravel()[:6]} instead of {reference[n][start:stop].ravel()[:6]}")


def bounds(start, stop, size):
    """Meaning of a slice on a list"""
    index = list(range(size))[slice(start, stop)]
    return (index[0], index[-1] + 1) if index else (0, 0)


# ---------------------------------------------------------------- slices
def space_slice(tier):
    ends = [None] + list(range(-SIZE - 2, SIZE + 3))
    for kind, fmt in product(KINDS if tier == "thorough" else KINDS[:1], ("nc", "zmem")):
        for start, stop in product(ends, ends):
            buffers = (None,) if fmt == "nc" else range(1, 7) if tier == "thorough" else (1, 2, 3, 100)
            for raw in (False, True) if tier == "thorough" else (False,):
                for buffer_size in buffers:
                    yield [kind, fmt, start, stop, raw, buffer_size]
    if tier == "quick":
        for kind, fmt, raw in product(KINDS, ("nc", "zmem"), (False, True)):
            for start, stop in product((None, 1, -2), (None, 3, 9)):
                yield [kind, fmt, start, stop, raw, None if fmt == "nc" else 2]


def run_slice(ctx, p):
    kind, fmt, start, stop, raw, buffer_size = p
    ref, sign, arr, extra = full(kind, fmt, raw=raw)
    kw = dict() if buffer_size is None else dict(buffer_size=buffer_size)
    index = dict(obs=slice(start, stop))
    got = CLASSES[kind].load_file(opened(source(kind, fmt)), raw_data=raw, indexs=index, **kw)
    ctx.step()
    if index != dict(obs=slice(start, stop)):
        raise Fail("argument", f"indexs of the caller changed {index}")
    if sorted(got.array_variables) != arr or sorted(got.track_extra_variables) != extra:
        raise Fail("structure", f"{got.array_variables} {got.track_extra_variables}")
    i0, i1 = bounds(start, stop, SIZE)
    agree(got, ref, sorted(ref), i0, i1, sign)
    ctx.cover("empty" if i0 == i1 else "full" if i1 - i0 == SIZE else "partial")
    ctx.state(*map(str, p))
    ctx.outcome(kind, fmt, i0, i1)


# ---------------------------------------------------------------- fields
NAMES = ["lon", "time", "amplitude", "contour_lon_s", "contour_lat_e", "eke", "track"]


def space_field(tier):
    for kind, fmt in product(KINDS, ("nc", "zmem")):
        names = [n for n in NAMES if n != "track" or kind != "eddies"]
        for nb in range(1, len(names) + 1):
            for sub in combinations(names, nb):
                if tier == "quick" and 3 < nb < len(names):
                    continue
                for mode in ("include", "remove"):
                    for sl in ([None, None], [1, 4]) if tier == "quick" else ([None, None], [1, 4], [-2, None], [0, 1], [2, 2]):
                        for raw in (False, True):
                            if tier == "quick" and raw and sl[0] is None:
                                continue
                            yield [kind, fmt, list(sub), mode, sl, raw]


def run_field(ctx, p):
    kind, fmt, sub, mode, sl, raw = p
    ref, sign, _, _ = full(kind, fmt, raw=raw)
    nc_names = [VAR_DESCR[n]["nc_name"] for n in sub]
    given = list(nc_names)
    kw = {"include_vars" if mode == "include" else "remove_vars": given}
    if sl != [None, None] or mode == "remove":
        kw["indexs"] = dict(obs=slice(*sl))
    if fmt == "zmem":
        kw["buffer_size"] = 2
    got = CLASSES[kind].load_file(opened(source(kind, fmt)), raw_data=raw, **kw)
    ctx.step()
    if given != nc_names:
        raise Fail("argument", f"{given}")
    expected = set(sub) if mode == "include" else set(ref) - set(sub)
    if mode == "include":
        # nothing else, except fields that a class can't live without
        others = set(got.fields) - expected - set(CLASSES[kind](only_variables=[]).fields)
        if others:
            raise Fail("field-added", f"{others}")
    else:
        for n in sub:
            if n.startswith("contour") and n in got.fields:
                raise Fail("field-kept", n)
    i0, i1 = bounds(*sl, SIZE)
    agree(got, ref, sorted(expected), i0, i1, sign)
    ctx.cover(mode)
    ctx.state(*map(str, p))
    ctx.outcome(kind, fmt, mode, tuple(sub))


# ---------------------------------------------------------------- way to give the file
def space_access(tier):
    for kind in KINDS:
        for mode in ("path", "numpy-bytes", "bytesio", "bytesio-moved", "handle", "handle-moved", "tar", "zarr-path",
                     "zarr-group", "zarr-numpy-bytes"):
            for sl in ([None, None], [1, 4], [3, None], [5, 9]):
                for arrays in (True, False):
                    for only in (None, ["lon", "time"], ["lon"]):
                        for raw in (False, True):
                            if tier == "quick" and raw and only:
                                continue
                            yield [kind, mode, sl, arrays, only, raw]


def run_access(ctx, p):
    kind, mode, sl, arrays, only, raw = p
    is_zarr = mode.startswith("zarr")
    fmt = "zmem" if is_zarr else "nc"
    ref, sign, _, _ = full(kind, fmt, arrays, raw=raw)
    content = source(kind, fmt, arrays)
    kw = dict(raw_data=raw)
    if sl != [None, None]:
        kw["indexs"] = dict(obs=slice(*sl))
    if only is not None:
        kw["include_vars"] = [VAR_DESCR[n]["nc_name"] for n in only]
    load = CLASSES[kind].load_file
    tmp = scratch()
    try:
        name = os.path.join(tmp, "a.zarr" if is_zarr else "a.nc")
        if mode == "zarr-group":
            got = load(content, **kw)
        elif is_zarr:
            zarr.copy_store(content.store, zarr.DirectoryStore(name))
            got = load(name if mode == "zarr-path" else np.bytes_(name.encode()).astype(str), **kw)
        elif mode.startswith("bytesio"):
            h = BytesIO(content)
            if mode.endswith("moved"):
                h.read(17)
            got = load(h, **kw)
        else:
            with open(name, "wb") as h:
                h.write(content)
            if mode == "path":
                got = load(name, **kw)
            elif mode == "numpy-bytes":
                got = load(np.array([name])[0], **kw)
            elif mode.startswith("handle"):
                with open(name, "rb") as h:
                    if mode.endswith("moved"):
                        h.read(100)
                    got = load(h, **kw)
                    # a second time with same handle
                    if len(load(h, **kw)) != len(got):
                        raise Fail("handle", "second read is different")
            elif mode == "tar":
                # archive of samples
                tname = os.path.join(tmp, "a.tar.xz")
                with tarfile.open(tname, "w:xz") as t:
                    t.add(name, arcname="c.nc")
                    t.add(name, arcname="b.nc")
                handlers = get_remote_demo_sample(tname)
                if [h.filename for h in handlers] != ["c.nc", "b.nc"]:
                    raise Fail("archive", f"{handlers}")
                load(handlers[1])
                got = load(handlers[1], **kw)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.step()
    i0, i1 = bounds(*sl, SIZE)
    agree(got, ref, sorted(ref) if only is None else only, i0, i1, sign)
    ctx.cover(mode)
    ctx.state(*map(str, p))
    ctx.outcome(*map(str, p))


# ---------------------------------------------------------------- buffer and chunk
def space_buffer(tier):
    top = 6 if tier == "quick" else 9
    for size in range(0, top + 1):
        for chunk in range(3, top + 2) if tier == "thorough" else (3, 4, 7):
            for buffer_size in range(1, top + 2):
                for start in range(0, size + 1):
                    for stop in range(start, size + 1) if tier == "thorough" else (start, start + 1, size - 1, size, size + 1):
                        yield [size, chunk, buffer_size, start, stop]


STORES = dict()


def run_buffer(ctx, p):
    size, chunk, buffer_size, start, stop = p
    key = size, chunk
    if key not in STORES:
        obs = make("eddies", size, arrays=CONTOURS[:2], nb_sample=3)
        obs = obs.remove_fields(*[n for n in obs.fields if n not in ("time", "lat", "contour_lon_e", "contour_lat_e")])
        h = zarr.group(store=zarr.storage.MemoryStore())
        obs.to_zarr(h, chunck_size=chunk)
        o = CLASSES["eddies"].load_file(h)
        STORES[key] = h, table(o, obs.fields)
    h, ref = STORES[key]
    got = CLASSES["eddies"].load_file(h, indexs=dict(obs=slice(start, stop)), buffer_size=buffer_size)
    ctx.step()
    i0, i1 = bounds(start, stop, size)
    agree(got, ref, sorted(ref), i0, i1, 1)
    ctx.cover("several buffers" if i1 - i0 > buffer_size else "one buffer")
    ctx.state(*p)
    ctx.outcome(size, i0, i1)


SCENARIOS = [
    Scenario("slice", space_slice, run_slice, shards=8, need=("empty", "full", "partial"),
             bound="5 observations, every start and stop of None, -7..7; classes, formats, raw, buffers"),
    Scenario("field", space_field, run_field, shards=8, need=("include", "remove"),
             bound="every subset of 7 fields (up to 3 or all in quick) included or removed, with slices, raw or not, both formats"),
    Scenario("access", space_access, run_access, shards=8,
             need=("path", "bytesio", "handle", "tar", "zarr-path", "zarr-group"),
             bound="ways to give the file x slices x contours x fields x raw"),
    Scenario("buffer", space_buffer, run_buffer, shards=8, need=("several buffers", "one buffer"),
             bound="up to 6 (9) observations x chunk of storage x buffer x every start and stop"),
]
