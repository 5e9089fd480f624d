# -*- coding: utf-8 -*-
"""C36: command line tools which subset, merge, translate, count and compare datasets"""
import contextlib
import io
import os
import re
import runpy
import shutil
import sys
from itertools import combinations, product

import numpy as np
from netCDF4 import Dataset

from mc.core import Fail, Scenario, scratch
from mc.netfix import NET_FIELDS, family, network, square
from mc.obsfix import CONTOURS, PERIODIC, make, tolerance
from py_eddy_tracker import VAR_DESCR
from py_eddy_tracker.appli import eddies as appli, network as net_appli
from py_eddy_tracker.dataset.grid import RegularGridDataset
from py_eddy_tracker.observations.network import NetworkObservations
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

ASSUMPTIONS = [
    "options are applied in the order of the documentation of the tool",
    "reject_virtual is used with full_path",
    "files to merge have the same fields",
]
SCRIPTS = os.path.join(os.path.dirname(appli.__file__), "..", "..", "scripts")
CLASSES = dict(eddies=EddiesObservations, track=TrackEddiesObservations, network=NetworkObservations)


def call(function, *argv):
    """:return: what is printed"""
    old = sys.argv
    sys.argv = ["tool", *map(str, argv)]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            function()
    finally:
        sys.argv = old
    return out.getvalue()


def script(name, *argv):
    return call(lambda: runpy.run_path(os.path.join(SCRIPTS, name), run_name="__main__"), *argv)


def decoded(obs):
    return {k: np.array(obs[k], copy=True) for k in obs.fields}


def differ(name, got, want):
    """Same values, in a longitude turn for contours"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return f"shape {got.shape} != {want.shape}"
    if got.dtype.kind not in "fiub":
        return None if (got == want).all() else "values"
    g, w = got.astype("f8"), want.astype("f8")
    if name in PERIODIC and g.size:
        turn = np.round((g - w) / 360.0)
        turn[np.isnan(turn)] = 0
        if (turn != turn[:, :1]).any():
            return "contour is cut"
        g = g - 360 * turn
    if not np.allclose(g, w, rtol=1e-6, atol=tolerance(name) * 1e-2 + 1e-9, equal_nan=True):
        return f"{got.tolist()} != {want.tolist()}"[:300]
    return None


def compare(ctx, obs, table, rows, fields, what):
    ctx.check(len(obs) == len(rows), "rows", lambda: f"{what}: {len(obs)} observations, {len(rows)} expected {list(rows)}")
    ctx.check(set(fields) <= set(obs.fields), "fields", lambda: f"{what}: {sorted(set(fields) - set(obs.fields))} are lost")
    for k in fields:
        bad = differ(k, obs[k], table[k][list(rows)])
        ctx.check(bad is None, "values", lambda: f"{what}: {k} {bad}")


# ----------------------------------------------------------------------------------------------------------------------
# Sub set of trajectories

T0 = 20000
# identifier, first day, virtual, longitudes, latitudes
TRACKS = (
    (3, 2, [0], [359.5], [5]),
    (5, 0, [0, 1, 0], [358.5, 359.5, 0.5], [1, 2, 3]),
    (9, 1, [0, 1, 1, 0], [20, 19.5, 19, 18.5], [-10, -10.5, -10.25, -11]),
    (12, 3, [1, 0], [181, 181.5], [60, 60]),
)
OPTIONS = dict(
    ids=[[5], [9, 3], [4], [99, 12]],
    length=[[2, -1], [-1, 2], [3, 3]],
    period=[[T0 + 1, T0 + 3], [0, T0 + 1], [T0 + 2, 0], [-1, 0], [0, -2], [-1, -1], [30000, 0], [T0 + 2, -1]],
    area=[[-5, -5, 5, 10], [355, 0, 360, 90], [10, -20, 30, -10.4], [0, -90, 360, 90], [100, 0, 110, 10]],
    direction=[["E"], ["W"], ["S"], ["N"], ["E", 1.0], ["N", 1.5]],
    box=[1.0, 10.0],
    sort_time=[True],
    variables=[["remove", "amplitude", "effective_contour_longitude"], ["include", "time", "track", "longitude", "latitude", "observation_flag"]],
)
FLAGS = ((), ("full_path",), ("remove_incomplete",), ("full_path", "reject_virtual"))
ORDER = list(OPTIONS)


def tracks():
    n = sum(len(t[2]) for t in TRACKS)
    obs = make("track", n, arrays=CONTOURS, nb_sample=5, extra=["virtual", "cost_association"])
    k = 0
    for ident, day, virtual, lon, lat in TRACKS:
        for j, v in enumerate(virtual):
            obs.obs["track"][k], obs.obs["n"][k], obs.obs["virtual"][k] = ident, j, v
            obs.obs["time"][k], obs.obs["lon"][k], obs.obs["lat"][k] = T0 + day + j, lon[j], lat[j]
            for c, half in (("e", 0.5), ("s", 0.25)):
                obs.obs[f"contour_lon_{c}"][k], obs.obs[f"contour_lat_{c}"][k] = square(lon[j], lat[j], half)
            k += 1
    return obs


def select(table, p):
    """Rows selected, in the order of the output"""
    rows = list(range(len(table["time"])))
    tr, t, x, y, v = (table[k] for k in ("track", "time", "lon", "lat", "virtual"))
    flags = p.get("flags", ())

    def groups():
        out = dict()
        for i in rows:
            out.setdefault(int(tr[i]), []).append(i)
        return out

    def paths(keep):
        g = groups()
        if "full_path" in flags:
            good = {k for k, items in g.items() if any(keep(i) and not ("reject_virtual" in flags and v[i]) for i in items)}
            return [i for i in rows if int(tr[i]) in good]
        if "remove_incomplete" in flags:
            good = {k for k, items in g.items() if all(keep(i) for i in items)}
            return [i for i in rows if int(tr[i]) in good]
        return [i for i in rows if keep(i)]

    if "ids" in p:
        rows = [i for i in rows if tr[i] in p["ids"]]
    if "length" in p:
        a, b = p["length"]
        size = {k: len(g) for k, g in groups().items()}
        rows = [i for i in rows if a <= size[int(tr[i])] and (b < 0 or size[int(tr[i])] <= b)]
    if "period" in p and rows:
        a, b = p["period"]
        first, last = min(t[i] for i in rows), max(t[i] for i in rows)
        a = a if a > 0 else first - a
        b = b if b > 0 else last + b
        rows = paths(lambda i: a <= t[i] <= b)
    if "area" in p:
        x0, y0, x1, y1 = p["area"]
        rows = paths(lambda i: y0 < y[i] < y1 and x0 < (x[i] - x0) % 360 + x0 < x1)
    if "direction" in p:
        d, limit = p["direction"][0], (p["direction"] + [0])[1]
        sign, f = dict(E=(1, x), W=(-1, x), N=(1, y), S=(-1, y))[d]
        move = dict()
        for k, g in groups().items():
            delta = float(f[g[-1]]) - float(f[g[0]])
            move[k] = sign * (delta if d in "NS" else (delta + 180) % 360 - 180)
        rows = [i for i in rows if move[int(tr[i])] > limit]
    if "box" in p:
        seen, out = set(), list()
        for i in rows:
            k = int(tr[i]), x[i] // p["box"], y[i] // p["box"]
            if k not in seen:
                out.append(i)
            seen.add(k)
        rows = out
    if "sort_time" in p:
        rows = sorted(rows, key=lambda i: (t[i], x[i], y[i]))
    return rows


def space_subset(tier):
    full = tier != "quick"
    items = [(k, v) for k in ORDER for v in OPTIONS[k]]
    base = dict(raw=True, ext="nc")
    for raw, ext in ((True, "nc"), (False, "nc")):
        yield dict(base, raw=raw, ext=ext)
        for k, v in items:
            for flags in FLAGS if k in ("period", "area") else FLAGS[:1]:
                yield dict(base, raw=raw, ext=ext, flags=flags, **{k: v})
    for raw in (True, False):
        for p in (dict(), dict(period=[T0 + 1, T0 + 3]), dict(area=OPTIONS["area"][0], flags=FLAGS[1])):
            yield dict(base, raw=raw, ext="zarr", **p)
    rank = 0
    for (a, va), (b, vb) in combinations(items, 2):
        if a == b:
            continue
        for flags in FLAGS if {a, b} & {"period", "area"} else FLAGS[:1]:
            rank += 1
            if full:
                for raw in (True, False):
                    yield {**base, "raw": raw, "flags": flags, a: va, b: vb}
            elif rank % 4 == 0 or {a, b} == {"period", "area"}:
                yield {**base, "flags": flags, a: va, b: vb}
    if full:
        for (a, va), (b, vb), (c, vc) in combinations(items, 3):
            if len({a, b, c}) == 3 and "variables" not in (a, b, c):
                yield {**base, "flags": FLAGS[hash((len(va) if hasattr(va, "__len__") else 1, b, c)) % 1], a: va, b: vb, c: vc}


STORE = dict()


def source(name, build):
    """Files used as input, written once by process"""
    if name not in STORE:
        if "root" not in STORE:
            STORE["root"] = scratch()
            import atexit

            atexit.register(shutil.rmtree, STORE["root"], ignore_errors=True)
        path = os.path.join(STORE["root"], name)
        obs = build()
        obs.write_file(filename=path)
        STORE[name] = path, decoded(obs.load_file(path))
    return STORE[name]


def run_subset(ctx, p):
    path, table = source(f"tracks.{p['ext']}", tracks)
    out = scratch()
    try:
        dest = os.path.join(out, f"o.{p['ext']}")
        argv, fields = [path, dest], list(table)
        names = {v: k for k, v in NAMES.items()}
        for k, v in p.items():
            if k in ("ids", "length", "period", "area"):
                argv += [f"--{k}", *v]
            elif k == "direction":
                argv += ["--direction", v[0]]
                if len(v) == 2:
                    argv += ["--minimal_degrees_displacement_in_direction", v[1]]
            elif k == "box":
                argv += ["--select_first_observation_in_box", v]
            elif k == "sort_time":
                argv.append("--sort_time")
            elif k == "variables":
                argv += [f"--{v[0]}_var", *v[1:]]
                listed = {names[i] for i in v[1:]}
                fields = [f for f in fields if (f in listed) == (v[0] == "include")]
            elif k == "flags":
                argv += [f"--{i}" for i in v]
        if not p["raw"]:
            argv.append("--no_raw_mode")
        rows = select(table, p)
        ctx.step()
        ctx.state(str(p))
        script("EddySubSetter", *argv)
        if not rows:
            ctx.check(not os.path.exists(dest), "empty", lambda: f"{argv} writes a file")
            ctx.cover("nothing")
            return
        ctx.check(os.path.exists(dest), "no_output", lambda: f"{argv} doesn't write rows {rows}")
        compare(ctx, TrackEddiesObservations.load_file(dest), table, rows, fields, f"{argv[2:]}")
        obs = TrackEddiesObservations.load_file(dest)
        if "variables" in p and p["ext"] == "nc":
            with Dataset(dest) as h:
                kept = set(h.variables)
            # identifier and rank are always there
            allowed = {NAMES.get(k, VAR_DESCR[k]["nc_name"]) for k in fields} | {"track", "observation_number"}
            ctx.check(kept <= allowed, "fields", lambda: f"{argv}: {kept - allowed} are kept")
        ctx.check(obs.sign_type == 1, "sign", lambda: f"{argv} {obs.sign_type}")
        ctx.outcome(tuple(rows), tuple(fields))
        ctx.cover("part" if len(rows) < len(table["time"]) else "all")
    finally:
        shutil.rmtree(out, ignore_errors=True)


# names in files
NAMES = dict(
    amplitude="amplitude", contour_lon_e="effective_contour_longitude", time="time", track="track", lon="longitude",
    lat="latitude", virtual="observation_flag",
)

# ----------------------------------------------------------------------------------------------------------------------
# Sub set of networks


def networks(k):
    """Some networks: trash, a network with a dead end, a short one, a long one"""
    shapes = (
        [(0, 0, (0, 1, 2), None, None), (4, 1, (0, 1, 2, 3), None, None), (4, 2, (2,), (1, 1), None), (7, 1, (5, 6), None, None)],
        [(2, 1, (0, 1, 2), None, None), (2, 2, (0, 1), None, (0, 2)), (3, 1, (1, 2, 3, 4, 5), None, None), (3, 2, (2, 3), (2, 0), (2, 3))],
        [(1, 1, (3, 4, 5), None, None), (1, 2, (1, 2), None, (0, 0)), (1, 3, (4,), None, (0, 2)), (6, 1, (0, 9), None, None)],
    )
    obs, _ = network(shapes[k])
    obs.obs["time"] += 20000
    return obs


NET_OPTIONS = dict(
    ids=[[4], [2, 6], [3, 7, 0], [50]],
    length=[[3, -1], [-1, 4], [2, 5]],
    remove_dead_end=[[3, 0], [2, 2], [0, 3], [4, 6]],
    remove_trash=[True],
    period=[[20001, 20003], [0, 20002], [20002, 0], [-1, 0], [0, -1], [-2, -1], [30000, 0]],
)


def space_net(tier):
    items = [(k, v) for k in NET_OPTIONS for v in NET_OPTIONS[k]]
    for net in range(3):
        for ext in ("nc", "zarr"):
            yield dict(net=net, ext=ext)
        for k, v in items:
            yield dict(net=net, ext="nc", **{k: v})
        for (a, va), (b, vb) in combinations(items, 2):
            if a != b:
                yield dict(net=net, ext="nc", **{a: va, b: vb})
        if tier != "quick":
            for (a, va), (b, vb), (c, vc) in combinations(items, 3):
                if len({a, b, c}) == 3:
                    yield dict(net=net, ext="nc", **{a: va, b: vb, c: vc})


def keep_rows(table, rows):
    """Extraction of rows: links follow observations, the other ones are cut"""
    new = {k: v[rows].copy() for k, v in table.items()}
    place = {r: i for i, r in enumerate(rows)}
    for k in ("next", "previous"):
        old = new[f"{k}_obs"].copy()
        for i, o in enumerate(old):
            new[f"{k}_obs"][i] = place.get(int(o), -1) if o != -1 else -1
    return new


def dead_end(table, nobs, ndays):
    """Segments which are short and joined to less than two others are sent in trash"""
    n = len(table["time"])
    seg = list(zip(table["track"].tolist(), table["segment"].tolist()))
    members = dict()
    for i, s in enumerate(seg):
        members.setdefault(s, []).append(i)
    around = {s: set() for s in members}
    for i in range(n):
        for k in ("next_obs", "previous_obs"):
            j = int(table[k][i])
            if j != -1 and seg[j] != seg[i]:
                around[seg[i]].add(seg[j])
                around[seg[j]].add(seg[i])
    gone = set()
    for s, items in members.items():
        t = table["time"][items]
        if not (t[-1] - t[0] + 1 >= ndays and len(items) >= nobs) and len(around[s]) < 2:
            gone |= set(items)
    new = {k: v.copy() for k, v in table.items()}
    for i in range(n):
        if i in gone:
            new["track"][i] = new["segment"][i] = 0
        for k in ("next", "previous"):
            j = int(table[f"{k}_obs"][i])
            if j != -1 and (i in gone or j in gone):
                new[f"{k}_obs"][i], new[f"{k}_cost"][i] = -1, 0
    order = sorted(range(n), key=lambda i: (new["track"][i], new["segment"][i], new["time"][i]))
    out = {k: v[order].copy() for k, v in new.items()}
    where = {o: i for i, o in enumerate(order)}
    for k in ("next_obs", "previous_obs"):
        out[k] = np.array([where[int(j)] if j != -1 else -1 for j in out[k]], dtype=out[k].dtype)
    return out


def run_net(ctx, p):
    path, table = source(f"net_{p['net']}.{p['ext']}", lambda: networks(p["net"]))
    out = scratch()
    try:
        dest = os.path.join(out, f"o.{p['ext']}")
        argv = [path, dest]
        for k, v in p.items():
            if k == "remove_trash":
                argv.append("--remove_trash")
            elif k in NET_OPTIONS:
                argv += [f"--{k}", *v]
        n = len(table["time"])
        want = table
        if "ids" in p:
            want = keep_rows(want, [i for i in range(n) if want["track"][i] in p["ids"]])
        if "length" in p:
            a, b = p["length"]
            span = {t: np.ptp(want["time"][want["track"] == t]) + 1 for t in set(want["track"].tolist())}
            want = keep_rows(
                want, [i for i, t in enumerate(want["track"].tolist()) if a <= span[t] and (b < 0 or span[t] <= b)]
            )
        if "remove_dead_end" in p:
            want = dead_end(want, *p["remove_dead_end"])
        if "remove_trash" in p:
            want = keep_rows(want, [i for i, t in enumerate(want["track"]) if t != 0])
        if "period" in p and len(want["time"]):
            a, b = p["period"]
            t = want["time"]
            a = a if a > 0 else t.min() - a
            b = b if b > 0 else t.max() + b
            want = keep_rows(want, [i for i in range(len(t)) if a <= t[i] <= b])
        ctx.step()
        ctx.state(str(p))
        call(net_appli.subset_network, *argv)
        got = NetworkObservations.load_file(dest)
        # order of trash at a same date is free
        ctx.check(len(got) == len(want["time"]), "rows", lambda: f"{argv[2:]}: {len(got)} instead of {len(want['time'])}")
        key = [(tr, s, t, a) for tr, s, t, a in zip(*(got[k].tolist() for k in ("track", "segment", "time", "amplitude")))]
        key_ = list(zip(*(want[k].tolist() for k in ("track", "segment", "time", "amplitude"))))
        i0, i1 = (sorted(range(len(k)), key=k.__getitem__) for k in (key, key_))
        for name in table:
            g, w = np.asarray(got[name])[i0], want[name][i1]
            if name in ("next_obs", "previous_obs"):
                g = [-1 if j == -1 else i0.index(j) for j in g]
                w = [-1 if j == -1 else i1.index(j) for j in w]
                ctx.check(g == w, "links", lambda: f"{argv[2:]}: {name} {g} instead of {w}")
                continue
            if name in ("next_cost", "previous_cost"):
                # cost of a link which is cut is not specified
                m = want[name.replace("cost", "obs")][i1] != -1
                g, w = g[m], w[m]
            bad = differ(name, g, w)
            ctx.check(bad is None, "values", lambda: f"{argv[2:]}: {name} {bad}")
        ctx.outcome(str(sorted(key_)))
        ctx.cover("nothing" if len(got) == 0 else "part" if len(got) < n else "all")
    finally:
        shutil.rmtree(out, ignore_errors=True)


# ----------------------------------------------------------------------------------------------------------------------
# Translation, concatenation, circles, maps


def space_files(tier):
    kinds = ("eddies", "track", "network")
    for kind, n, sign, arrays in product(kinds, (1, 3), (1, -1), (False, True)):
        for a, b, unraw in product(("nc", "zarr"), ("nc", "zarr"), (False, True)):
            if a == "zarr" and unraw:
                continue
            if tier == "quick" and (a == b == "zarr" or "zarr" in (a, b) and (sign == -1 or n == 1)):
                continue
            yield dict(tool="translate", kind=kind, n=n, sign=sign, arrays=arrays, source=a, dest=b, unraw=unraw)
        for only in (None, "time track longitude amplitude", "effective_contour_longitude time"):
            for rotation in (False, True):
                if only and "contour" in only and not arrays:
                    continue
                for sizes in ((2,), (2, 1), (1, 3, 2)):
                    if n == 1 and kind == "track":
                        yield dict(tool="merge", kind=kind, sizes=list(sizes), sign=sign, arrays=arrays, rotation=rotation, only=only)
        for ext in ("nc", "zarr"):
            if ext == "nc" or (tier != "quick" or (kind == "track" and n == 3 and sign == 1)):
                yield dict(tool="circle", kind=kind, n=n, sign=sign, arrays=arrays, ext=ext)
        for area in (None, [0, -90, 360, 90], [5, -60, 9, -50]):
            yield dict(tool="infos", kind=kind, n=n, sign=sign, arrays=arrays, area=area)


def run_files(ctx, p):
    arrays = CONTOURS if p["arrays"] else []
    cls = CLASSES[p["kind"]]
    root = scratch()
    ctx.state(str(p))
    try:

        def write(n, name, salt=0):
            obs = make(p["kind"], n, arrays=arrays, nb_sample=6, sign=p["sign"], salt=salt, extra=["virtual"])
            if p["kind"] == "network":
                obs.obs["next_obs"] = obs.obs["previous_obs"] = -1
            path = os.path.join(root, name)
            obs.write_file(filename=path)
            return path, decoded(cls.load_file(path))

        ctx.step()
        if p["tool"] == "translate":
            path, table = write(p["n"], f"i.{p['source']}")
            dest = os.path.join(root, f"o.{p['dest']}")
            script("EddyTranslate", path, dest, *(["--unraw"] if p["unraw"] else []))
            new = cls.load_file(dest)
            compare(ctx, new, table, range(p["n"]), list(table), str(p))
            ctx.check(new.sign_type == p["sign"], "sign", lambda: f"{new.sign_type}")
            ctx.check(set(new.fields) == set(table), "fields", lambda: f"{set(new.fields) ^ set(table)}")
        elif p["tool"] == "merge":
            paths, tables = zip(*(write(n, f"{i}.nc", i * 10) for i, n in enumerate(p["sizes"])))
            dest = os.path.join(root, "o.nc")
            argv = [*paths, dest]
            if p["only"]:
                argv += ["--include_var", *p["only"].split()]
            if p["rotation"]:
                argv.append("--add_rotation_variable")
            call(appli.merge_eddies, *argv)
            # trajectories of a file follow those of previous one
            for t, u in zip(tables, tables[1:]):
                u["track"] = u["track"] + t["track"].max() + 1
            table = {k: np.concatenate([t[k] for t in tables]) for k in tables[0]}
            fields = list(table)
            if p["only"]:
                fields = [k for k in fields if NAMES.get(k, k) in p["only"].split()]
            new = TrackEddiesObservations.load_file(dest)
            compare(ctx, new, table, range(sum(p["sizes"])), fields, str(p))
            ctx.check(new.sign_type == p["sign"], "sign", lambda: f"{new.sign_type}")
            if p["rotation"]:
                ctx.check((new["type_cyc"] == p["sign"]).all(), "rotation", lambda: f"{new['type_cyc']} {p['sign']}")
        elif p["tool"] == "circle":
            path, table = write(p["n"], f"i.{p['ext']}")
            dest = os.path.join(root, f"o.{p['ext']}")
            call(appli.eddies_add_circle, path, dest)
            new = cls.load_file(dest)
            compare(ctx, new, table, range(p["n"]), [k for k in table if k not in CONTOURS], str(p))
            ctx.check(set(CONTOURS) <= set(new.fields), "contours", lambda: f"{new.fields}")
            nb = 6 if p["arrays"] else 50
            for i in range(p["n"]):
                for c in "es":
                    x, y = np.radians(new[f"contour_lon_{c}"][i].astype("f8")), np.radians(new[f"contour_lat_{c}"][i].astype("f8"))
                    ctx.check(x.shape == (nb,), "samples", lambda: f"{x.shape}")
                    x0, y0 = np.radians(float(table["lon"][i])), np.radians(float(table["lat"][i]))
                    r = float(table[f"radius_{c}"][i])
                    # position relative to the center on the tangent plane
                    dx, dy = 6370997.0 * (x - x0) * np.cos(y0), 6370997.0 * (y - y0)
                    tol = 1e-4 * r + 6371 * 0.4
                    ctx.check(
                        (np.abs(np.hypot(dx, dy) - r) < tol + 0.02 * r).all(), "radius",
                        lambda: f"{p} contour {c} of {i}: {np.hypot(dx, dy).tolist()} instead of {r}",
                    )
                    angle = np.unwrap(np.arctan2(dy, dx))
                    if r > 1e5:
                        ctx.check(abs(abs(angle[-1] - angle[0]) - 2 * np.pi) < 0.3, "turn", lambda: f"{angle}")
        else:
            path, table = write(p["n"], "i.nc")
            argv = [path] + (["--area", *p["area"]] if p["area"] else [])
            text = call(appli.display_infos, *argv)
            n = p["n"]
            if p["area"]:
                x0, y0, x1, y1 = p["area"]
                n = sum(
                    y0 < y < y1 and x0 < (x - x0) % 360 + x0 < x1 for x, y in zip(table["lon"].tolist(), table["lat"].tolist())
                )
            found = re.search(r"(\d+) obs", text)
            ctx.check(found is not None and int(found.group(1)) == n, "infos", lambda: f"{n} observations: {text}")
            ctx.cover("infos nothing", n == 0)
        ctx.outcome(str(p))
        ctx.cover(p["tool"])
    finally:
        shutil.rmtree(root, ignore_errors=True)


# Contours around center of pixels
BOXES = ((2, 2, 1.5, 0.5), (4, 3, 0.9, 0.4), (2, 3, 2.2, 1.2), (362, 2, 1.5, 0.5), (0, 0, 0.9, 0.9), (7, 1, 3.5, 0.2))


def space_map(tier):
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for items in combinations(range(len(BOXES)), k):
            for intern in (False, True):
                for step in (1.0, 0.5):
                    yield dict(items=list(items), intern=intern, step=step)


def run_map(ctx, p):
    root = scratch()
    try:
        boxes = [BOXES[i] for i in p["items"]]
        obs = make("eddies", len(boxes), arrays=CONTOURS, nb_sample=5)
        for i, (x, y, e, s) in enumerate(boxes):
            obs.obs["lon"][i], obs.obs["lat"][i] = x, y
            obs.obs["contour_lon_e"][i], obs.obs["contour_lat_e"][i] = square(x, y, e)
            obs.obs["contour_lon_s"][i], obs.obs["contour_lat_s"][i] = square(x, y, s)
        path, dest = os.path.join(root, "i.nc"), os.path.join(root, "o.nc")
        obs.write_file(filename=path)
        ctx.step()
        ctx.state(str(p))
        argv = [path, dest, "--xrange", -2, 8, p["step"], "--yrange", -2, 6, p["step"]]
        call(appli.get_frequency_grid, *argv, *(["--intern"] if p["intern"] else []))
        with Dataset(dest) as h:
            name = [k for k in h.variables if k not in ("lon", "lat")]
            ctx.check(len(name) == 1, "variables", lambda: f"{list(h.variables)}")
            lon, lat, v = np.array(h["lon"][:]), np.array(h["lat"][:]), h[name[0]][:].filled(0)
            if h[name[0]].dimensions == ("lat", "lon"):
                v = v.T
        ctx.check(v.shape == (lon.size, lat.size), "shape", lambda: f"{v.shape} {lon} {lat}")
        ctx.check(np.allclose(lon[0], -2 + p["step"] / 2) and np.allclose(np.diff(lon), p["step"]), "axis", lambda: f"{lon}")
        ctx.check(np.allclose(lat[0], -2 + p["step"] / 2) and np.allclose(np.diff(lat), p["step"]), "axis", lambda: f"{lat}")
        want = np.zeros(v.shape, dtype=int)
        for x, y, e, s in boxes:
            r = s if p["intern"] else e
            for k in (-360, 0, 360):
                # a pixel on the border is free
                want += (np.abs(lon[:, None] - x + k) < r) & (np.abs(lat - y) < r)
        free = np.zeros(v.shape, dtype=bool)
        for x, y, e, s in boxes:
            r = s if p["intern"] else e
            for k in (-360, 0, 360):
                dx, dy = np.abs(lon[:, None] - x + k), np.abs(lat - y)
                free |= ((np.abs(dx - r) < 1e-3) & (dy < r + 1e-3)) | ((np.abs(dy - r) < 1e-3) & (dx < r + 1e-3))
        ctx.check((free | (v == want)).all(), "count", lambda: f"{p}: {v.tolist()} instead of {want.tolist()}")
        ctx.outcome(str(want.tolist()))
        ctx.cover("several", (want > 1).any())
        ctx.cover("counted", (want > 0).any())
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ----------------------------------------------------------------------------------------------------------------------
# Comparison of networks

CONTENTS = dict(
    none=None,
    a=[[0, 1]],
    two=[[0], [1]],
    long=[[0, 1, 2]],
    cut=[[0, 1], [2]],
    one=[[0]],
)


def space_compare(tier):
    names = list(CONTENTS)
    slots = 2
    for ref in product(names, repeat=slots):
        for first in (0, 1):
            yield dict(ref=list(ref), first=first)
    if tier != "quick":
        for ref in product(names, repeat=3):
            yield dict(ref=list(ref), first=1)


def networks_of(names, first):
    segments, rank = list(), list()
    for slot, name in enumerate(names):
        if CONTENTS[name] is None:
            continue
        ident = first + slot
        for k, dates in enumerate(CONTENTS[name]):
            # network 0 is for isolated eddies
            segments.append((ident, k + 1 if ident else 0, tuple(dates), None, None))
            rank.extend([slot] * len(dates))
    obs, _ = network(segments)
    obs.obs["lon"] = 10 + 20 * np.array(rank, dtype="f4")
    obs.obs["lat"] = 5
    obs.obs["time"] += 20000
    return obs


def run_compare(ctx, p):
    root = scratch()
    try:
        ref_names = p["ref"]
        ref = networks_of(ref_names, p["first"])
        if len(ref) == 0:
            return
        f_ref = os.path.join(root, "r.nc")
        ref.write_file(filename=f_ref)
        others, expected = dict(), dict()
        pool = list(product(CONTENTS, repeat=len(ref_names)))
        if len(ref_names) == 3:
            pool = pool[::5]
        for k, names in enumerate(pool):
            other = networks_of(names, k % 2)
            if len(other) == 0:
                continue
            out = dict.fromkeys(("same N(N)", "same N(Obs)", "same NS(N)", "same NS(Obs)", "same S(S)", "same S(Obs)"), 0)
            for slot, (a, b) in enumerate(zip(ref_names, names)):
                a, b = CONTENTS[a] or [], CONTENTS[b] or []
                # without distinction of segments for isolated eddies
                sa = a if p["first"] + slot else [sorted(sum(a, []))] if a else []
                sb = b if k % 2 + slot else [sorted(sum(b, []))] if b else []
                n = sum(map(len, a))
                if n >= 2 and sorted(sum(a, [])) == sorted(sum(b, [])):
                    out["same N(N)"] += 1
                    out["same N(Obs)"] += n
                    if sorted(sa) == sorted(sb):
                        out["same NS(N)"] += 1
                        out["same NS(Obs)"] += n
                for s in sa:
                    if s in sb:
                        out["same S(S)"] += 1
                        out["same S(Obs)"] += len(s)
            name = "-".join(names) + f"_{k % 2}"
            others[name], expected[name] = other, out
        ctx.step(len(others))
        ctx.state(str(p))
        with contextlib.redirect_stdout(io.StringIO()):
            got = net_appli.run_compare(ref, others)
        ctx.check(list(got) == list(expected), "others", lambda: f"{list(got)}")
        for k, v in expected.items():
            g = {i: int(j) for i, j in got[k].items()}
            ctx.check(g == v, "compare", lambda: f"{ref_names} {p['first']} / {k}: {g} instead of {v}")
            ctx.outcome(str(v))
            ctx.cover("same network", v["same N(N)"] > 0)
            ctx.cover("same segmentation", v["same NS(N)"] > 0)
            ctx.cover("different segmentation", v["same NS(N)"] < v["same N(N)"])
            ctx.cover("nothing same", v["same S(S)"] == 0)
        # Command line
        f_others = list()
        for name in list(others)[:: max(1, len(others) // 3)]:
            f_others.append(os.path.join(root, name + ".nc"))
            others[name].write_file(filename=f_others[-1])
        text = call(net_appli.quick_compare, f_ref, *f_others)
        lines = re.findall(r"-> (\d+) network / (\d+) segment / (\d+) obs -> (\d+) trash obs", text)
        ctx.check(len(lines) == 1 + len(f_others), "lines", lambda: text)
        for line, f in zip(lines, [f_ref] + f_others):
            n = NetworkObservations.load_file(f)
            tr = n["track"].tolist()
            want = len(set(tr)), len(set(zip(tr, n["segment"].tolist()))), len(tr), tr.count(0)
            ctx.check(tuple(map(int, line)) == want, "infos", lambda: f"{f}: {line} instead of {want}")
        rows = re.findall(r"^\[ *\d+\] +(.*%.*)$", text, re.M)
        ctx.check(len(rows) == len(f_others), "table", lambda: text)
        for row, f in zip(rows, f_others):
            g = [int(i) for i in re.findall(r"\((\d+)\)", row)]
            v = expected[os.path.basename(f)[:-3]]
            ctx.check(g == list(v.values()), "table", lambda: f"{f}: {row} instead of {v}")
    finally:
        shutil.rmtree(root, ignore_errors=True)


SCENARIOS = [
    Scenario(
        "subset", space_subset, run_subset, shards=8,
        bound="every value of every option (raw or decoded, netCDF or zarr), couples of options (one fourth of them in quick), triples in thorough",
        need=("nothing", "part", "all"),
    ),
    Scenario(
        "networks", space_net, run_net, shards=8,
        bound="3 datasets, every value of each option and every couple (triples in thorough)",
        need=("nothing", "part", "all"),
    ),
    Scenario(
        "files", space_files, run_files, shards=8,
        bound="3 kinds of datasets, 2 sizes, both rotations, with or without contours, every format",
        need=("translate", "merge", "circle", "infos"),
    ),
    Scenario(
        "map", space_map, run_map, shards=4, bound="every set of 1 to 3 (4) contours among 6, both contours, 2 resolutions",
        need=("several", "counted"),
    ),
    Scenario(
        "compare", space_compare, run_compare, shards=8,
        bound="every pair of datasets of 2 (3 thorough) networks among 6 contents, with or without isolated eddies",
        need=("same network", "same segmentation", "different segmentation", "nothing same"),
    ),
]
