# -*- coding: utf-8 -*-
"""C35: tracking tools, from lists of files and yaml file to files of trajectories"""
import os
import runpy
import shutil
import sys
from datetime import datetime, timedelta
from itertools import combinations, permutations, product

import numpy as np
from netCDF4 import Dataset

from mc.core import Fail, Scenario, scratch
from mc.obsfix import CONTOURS, make
from mc.trackmodel import Model
from py_eddy_tracker.appli import eddies as appli
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

ASSUMPTIONS = [
    "one date by file; dates of files are different",
    "eddies are well separated: association itself is property C04",
    "correspondences are merged when periods have enough files in common (virtual length + 2)",
]
SCRIPTS = os.path.join(os.path.dirname(appli.__file__), "..", "..", "scripts")
DAY0 = datetime(2020, 2, 27)
T0 = 25624  # days since 1950 of DAY0


def call(function, *argv):
    old = sys.argv
    sys.argv = [getattr(function, "__name__", "script"), *map(str, argv)]
    try:
        return function()
    finally:
        sys.argv = old


def script(name, *argv):
    def run():
        return runpy.run_path(os.path.join(SCRIPTS, name), run_name="__main__")

    return call(run, *argv)


# ----------------------------------------------------------------------------------------------------------------------
# Selection of files

TRACK_REGEXP = ".*_([0-9T]*?).[nz].*"
FORMATS = ("%Y%m%d", "%Y%m%d%H%M%S", "%Y%m%dT%H%M%S")
FOLDERS = ("", "run", "run_19990101", "r_19990101/s_2", "run.nc", "é_ø", "d" * 200 + "/" + "e" * 200 + "/" + "f" * 150)


def space_browse(tier):
    n = 4 if tier == "quick" else 5
    # names in an order which isn't those of dates
    for order in permutations(range(n)):
        yield dict(kind="list", folder="run", fmt=0, order=list(order), ext="nc")
    for folder, fmt, ext in product(range(len(FOLDERS)), range(3), ("nc", "zarr")):
        yield dict(kind="list", folder=FOLDERS[folder], fmt=fmt, order=[2, 0, 1], ext=ext)
        yield dict(kind="glob", folder=FOLDERS[folder], fmt=fmt, order=[2, 0, 1], ext=ext)
    for kind in ("attr", "var_attr"):
        for order in permutations(range(3)):
            yield dict(kind=kind, folder="run", fmt=0, order=list(order), ext="nc")
    # dates between files, subset, first, last
    for sub, start, stop, fmt in product((1, 2, 3), (None, -1, 0, 1, 2.5, 5), (None, -2, 1, 2.5, 3, 9), (0, 2)):
        yield dict(kind="list", folder="run", fmt=fmt, order=[3, 1, 0, 2], ext="nc", sub=sub, start=start, stop=stop)
    # every set of days
    for k in range(1, n + 1):
        for days in combinations(range(n + 1), k):
            yield dict(kind="list", folder="run", fmt=0, order=list(range(k))[::-1], ext="nc", days=list(days))
    # a file without date among others
    for k, bad in product(range(3), ("nodate", "x_", "x_2020", "y_20201301")):
        yield dict(kind="list", folder="run_19990101", fmt=0, order=[0, 1, 2], ext="nc", undated=[k, bad])
    yield dict(kind="list", folder="run", fmt=0, order=[], ext="nc")
    yield dict(kind="glob", folder="run", fmt=0, order=[], ext="nc")


def run_browse(ctx, p):
    root = scratch()
    home = os.getcwd()
    try:
        os.chdir(root)
        order = p["order"]
        days = p.get("days", list(range(len(order))))
        hours = 6 if p["fmt"] else 24
        dates = [DAY0 + timedelta(hours=hours * d) for d in days]
        if p["folder"]:
            os.makedirs(p["folder"])
        # reverse alphabetic order
        names = [
            os.path.join(p["folder"], f"{'zyxwv'[i]}_{d.strftime(FORMATS[p['fmt']])}.{p['ext']}") for i, d in enumerate(dates)
        ]
        regexp, kw = TRACK_REGEXP, dict()
        if "attr" in p["kind"]:
            regexp = "date" if p["kind"] == "attr" else "lat:day"
            names = [os.path.join(p["folder"], f"{'zyxwv'[i]}.nc") for i in range(len(dates))]
            for name, d in zip(names, dates):
                with Dataset(name, "w") as h:
                    h.date = d.strftime("%Y-%m-%d") if p["kind"] == "attr" else "x"
                    h.createDimension("o", 1)
                    h.createVariable("lat", "f4", ("o",)).day = d.strftime("%Y%m%d")
            if p["kind"] == "attr":
                kw["date_model"] = "%Y-%m-%d"
        if "undated" in p:
            k, bad = p["undated"]
            names[k] = os.path.join(p["folder"], bad + ".nc")
        if p["kind"] == "glob":
            for name in names:
                open(name, "w").close()
                open(name.replace("_", "-"), "w").close() if not p["folder"] else None
            args = dict(data_dir=p["folder"], files_model="*_*." + p["ext"], files=None)
        else:
            args = dict(data_dir=None, files_model=None, files=[names[i] for i in order])
        if p.get("start") is not None:
            kw["start_date"] = DAY0 + timedelta(hours=p["start"] * hours)
        if p.get("stop") is not None:
            kw["end_date"] = DAY0 + timedelta(hours=p["stop"] * hours)
        if "sub" in p:
            kw["sub_sampling_step"] = p["sub"]
        ctx.step()
        ctx.state(str(p))
        steps = {b - a for a, b in zip(dates, dates[1:])}
        refused = len(steps) > 1 or "undated" in p
        try:
            out = appli.browse_dataset_in(date_regexp=regexp, **args, **kw)
        except Fail:
            raise
        except Exception as e:
            ctx.check(refused, "crash", lambda: f"{type(e).__name__}: {e}")
            ctx.cover("refused")
            ctx.outcome("refused", p.get("undated", "steps"))
            return
        ctx.check(not refused, "accepted", lambda: f"files {names} are accepted as {out}")
        expected = list(zip(names, dates))[:: p.get("sub", 1)]
        expected = [
            (n, d) for n, d in expected if kw.get("start_date", d) <= d <= kw.get("end_date", d)
        ]
        got = [(os.fsdecode(f["filename"]), f["date"].astype(datetime)) for f in out]
        ctx.check(got == expected, "files", lambda: f"{got} instead of {expected}")
        ctx.outcome(tuple(d for _, d in got))
        ctx.cover(p["kind"])
    finally:
        os.chdir(home)
        shutil.rmtree(root, ignore_errors=True)


# ----------------------------------------------------------------------------------------------------------------------
# Tracking

CONFIGS = dict(
    default=None,
    area=dict(MODULE="py_eddy_tracker.featured_tracking.area_tracker", CLASS="AreaTracker"),
    options=dict(
        MODULE="py_eddy_tracker.featured_tracking.area_tracker", CLASS="AreaTracker", OPTIONS=dict(cmin=0.1)
    ),
)
# The first one goes through longitude 0
SLOTS = ((359.7, 10.0, 0.2, 0.05), (40.0, -20.0, 0.1, 0.1), (80.0, 30.0, -0.1, 0.0))


def detection(day, slots):
    """An eddy by slot"""
    obs = make("eddies", len(slots), arrays=CONTOURS, nb_sample=8, extra=["shape_error_e", "height_max_speed_contour", "lon_max", "lat_max"])
    t = np.arange(8) * 2 * np.pi / 7
    for i, s in enumerate(slots):
        x, y, u, v = SLOTS[s]
        x, y = (x + u * day) % 360, y + v * day
        obs.obs["time"][i] = T0 + day
        obs.obs["lon"][i], obs.obs["lat"][i] = x, y
        obs.obs["lon_max"][i], obs.obs["lat_max"][i] = x + 0.05, y + 0.05
        obs.obs["amplitude"][i] = 0.1 + 0.01 * s + 0.001 * day
        obs.obs["radius_e"][i] = 80000.0 + 100 * day
        obs.obs["radius_s"][i] = 70000.0 + 100 * day
        obs.obs["speed_average"][i] = 0.2 + 0.01 * s
        for k, r in (("e", 0.8), ("s", 0.7)):
            obs.obs[f"contour_lon_{k}"][i] = np.round(x + r * np.cos(t), 2)
            obs.obs[f"contour_lat_{k}"][i] = np.round(y + r * np.sin(t), 2)
    return obs


def present(patterns, day):
    return [s for s, pat in enumerate(patterns) if day < len(pat) and pat[day] == "1"]


def name_of(d, day, ext="nc"):
    return os.path.join(d, f"{'hgfedcba'[day]}_{(DAY0 + timedelta(days=day)).strftime('%Y%m%d')}.{ext}")


CACHE = dict()


def inputs(patterns, ext="nc"):
    """Files of detection, kept while payloads use the same history"""
    key = tuple(patterns), ext
    if CACHE.get("key") != key:
        if "d" in CACHE:
            shutil.rmtree(CACHE["d"], ignore_errors=True)
        d = scratch()
        rows = dict()
        for day in range(len(patterns[0])):
            slots = present(patterns, day)
            obs = detection(day, slots)
            obs.write_file(filename=name_of(d, day, ext))
            loaded = EddiesObservations.load_file(name_of(d, day, ext))
            for i, s in enumerate(slots):
                rows[s, day] = {k: np.array(loaded[k][i]) for k in loaded.fields}
        CACHE.update(key=key, d=d, rows=rows)
    return CACHE["d"], CACHE["rows"]


def expected_tracks(patterns, virtual, nb):
    """:return: lists of (day, slot)"""
    sizes = [len(present(patterns, d)) for d in range(nb)]
    m = Model(sizes, virtual)
    for day in range(nb - 1):
        now = present(patterns, day + 1)
        pairs = list()
        for step, i in m.candidates():
            s = present(patterns, step)[i]
            if s in now:
                pairs.append(((step, i), now.index(s)))
        m.advance(pairs)
    return [[(d, present(patterns, d)[i]) for d, i in t] for t in m.tracks]


def same_row(got, want):
    for k, w in want.items():
        if k not in got:
            return k
        g = got[k]
        if k.startswith("contour_lon") or k in ("lon", "lon_max"):
            turn = np.round((np.asarray(g, "f8") - w) / 360.0)
            if (turn != turn.ravel()[0]).any() or not np.allclose(g - 360 * turn, w, rtol=0, atol=1e-4):
                return k
        elif not np.allclose(np.asarray(g, "f8"), np.asarray(w, "f8"), rtol=1e-6, atol=1e-7):
            return k
    return None


def rows_of(obs):
    return [{k: np.array(obs[k][i]) for k in obs.fields} for i in range(len(obs))]


def judge(ctx, files, rows, patterns, virtual, l_min, nb):
    """Compare content of the three files with the scene"""
    tracks = expected_tracks(patterns, virtual, nb)
    long = TrackEddiesObservations.load_file(files["long"])
    short = TrackEddiesObservations.load_file(files["short"])
    untracked = EddiesObservations.load_file(files["untracked"])
    used = {c for t in tracks for c in t}
    want_unt = sorted(c for c in ((d, s) for d in range(nb) for s in present(patterns, d)) if c not in used)

    def identify(row):
        for (s, day), w in rows.items():
            if abs(float(row["time"]) - T0 - day) < 1e-5 and abs(float(row["lat"]) - w["lat"]) < 1e-5 and day < nb:
                return day, s
        raise Fail("unknown", f"eddy at time {row['time']} and latitude {row['lat']} isn't in the files used")

    got_unt = list()
    for row in rows_of(untracked):
        c = identify(row)
        bad = same_row(row, rows[c[1], c[0]])
        ctx.check(bad is None, "untracked_field", lambda: f"{c} field {bad}: {row.get(bad)} instead of {rows[c[1], c[0]][bad]}")
        got_unt.append(c)
    ctx.check(sorted(got_unt) == want_unt, "untracked", lambda: f"{sorted(got_unt)} instead of {want_unt}")

    seen = list()
    for what, obs in (("long", long), ("short", short)):
        by_id = dict()
        for row in rows_of(obs):
            by_id.setdefault(int(row["track"]), []).append(row)
        for rows_ in by_id.values():
            real = list()
            for j, row in enumerate(rows_):
                ctx.check(int(row["n"]) == j, "number", lambda: f"{what}: number {row['n']} at position {j}")
                if "virtual" in row and row["virtual"]:
                    ctx.cover("virtual")
                    continue
                c = identify(row)
                bad = same_row(row, rows[c[1], c[0]])
                ctx.check(
                    bad is None, "field", lambda: f"{what} {c} field {bad}: {row.get(bad)} instead of {rows[c[1], c[0]][bad]}"
                )
                real.append(c)
            first, last = real[0][0], real[-1][0]
            ctx.check(
                len(rows_) == last - first + 1, "length", lambda: f"{what}: {len(rows_)} rows for trajectory {real}"
            )
            for j, row in enumerate(rows_):
                # position between previous and next eddies
                day = first + j
                ctx.check(
                    abs(float(row["time"]) - T0 - day) < 1e-5, "time", lambda: f"{what}: {row['time']} for day {day}, {real}"
                )
                x, y, u, v = SLOTS[real[0][1]]
                ctx.check(
                    abs((float(row["lon"]) - (x + u * day) + 180) % 360 - 180) < 1e-3
                    and abs(float(row["lat"]) - (y + v * day)) < 1e-3,
                    "position",
                    lambda: f"{what}: ({row['lon']}, {row['lat']}) instead of ({x + u * day}, {y + v * day}), {real}",
                )
            ctx.check(
                (len(rows_) >= l_min) == (what == "long"),
                "output",
                lambda: f"trajectory of {len(rows_)} observations in {what} with a limit of {l_min}",
            )
            seen.append(real)
            ctx.cover(what)
    ctx.check(sorted(seen) == sorted(tracks), "tracks", lambda: f"{sorted(seen)} instead of {sorted(tracks)}")
    ctx.cover("untracked", len(got_unt))
    ctx.outcome(tuple(sorted(map(tuple, tracks))), l_min, nb)


def yaml_file(path, pattern, out, virtual=None, l_min=None, config="default", **paths):
    lines = ["PATHS:"]
    if isinstance(pattern, str):
        lines.append(f"  FILES_PATTERN: {pattern}")
    else:
        lines.append("  FILES_PATTERN:")
        lines.extend(f"    - {i}" for i in pattern)
    lines.append(f"  SAVE_DIR: {out}")
    for k, v in paths.items():
        lines.append(f"  {k}: '{v}'")
    if virtual is not None:
        lines.append(f"VIRTUAL_LENGTH_MAX: {virtual}")
    if l_min is not None:
        lines.append(f"TRACK_DURATION_MIN: {l_min}")
    c = CONFIGS[config]
    if c is not None:
        lines.append("CLASS:")
        lines.extend(f"  {k}: {c[k]}" for k in ("MODULE", "CLASS"))
        if "OPTIONS" in c:
            lines.append("  OPTIONS:")
            lines.extend(f"    {k}: {v}" for k, v in c["OPTIONS"].items())
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return path


def outputs(out, zarr=False):
    e = "zarr" if zarr else "nc"
    return {
        k: f"{out}/Anticyclonic{v}.{e}"
        for k, v in dict(long="", short="_track_too_short", untracked="_untracked").items()
    }


def histories(n, nb_others=1):
    """Presence of three eddies, the first one goes through every history, with some histories of others"""
    others = ("0" * n, "1" * n, "01" * n, "110" * n)
    for k, a in enumerate(product("01", repeat=n)):
        for j, (b, c) in enumerate(product(others, repeat=2)):
            if (k + j) % (16 // nb_others) == 0:
                yield "".join(a), b[:n], c[:n]


BASE = [("11011", "11111", "00110"), ("10101", "01110", "11000"), ("11100", "00111", "10011")]


def space_tool(tier):
    base = dict(order=None, virtual=1, l_min=3, blank=0, raw=True, zarr=False, ext="nc", config="default")
    full = tier != "quick"
    # every history
    for p in histories(5, 4 if full else 1):
        for virtual, l_min in ((0, 2), (1, 4), (2, 3)) if not full else product((0, 1, 2, 3), (1, 2, 4, 5)):
            yield dict(base, patterns=p, virtual=virtual, l_min=l_min)
    # every order of files
    for p in BASE[:1] if not full else BASE:
        pats = [i[: 5 if full else 4] for i in p]
        for order in permutations(range(len(pats[0]))):
            yield dict(base, patterns=pats, order=list(order))
    # every option
    for p in BASE if full else BASE[:1]:
        for blank, virtual, raw, config in product((0, 1, 2, 3), (0, 1, 2), (True, False), sorted(CONFIGS)):
            yield dict(base, patterns=p, blank=blank, virtual=virtual, raw=raw, config=config)
    # zarr is slow
    for p, virtual, raw in product(BASE if full else BASE[:1], (0, 1), (True, False)):
        yield dict(base, patterns=p, virtual=virtual, raw=raw, zarr=True)
        if raw or full:
            yield dict(base, patterns=p, virtual=virtual, raw=raw, ext="zarr")
            yield dict(base, patterns=p, virtual=virtual, raw=raw, ext="zarr", zarr=True)


def run_tool(ctx, p):
    patterns = [str(i) for i in p["patterns"]]
    d, rows = inputs(patterns, p["ext"])
    n = len(patterns[0])
    out = scratch()
    try:
        pattern = f"{d}/*.{p['ext']}" if p["order"] is None else [name_of(d, i, p["ext"]) for i in p["order"]]
        conf = yaml_file(f"{out}/c.yaml", pattern, f"{out}/new", p["virtual"], p["l_min"], p["config"])
        args = [conf]
        if p["zarr"]:
            args.append("--zarr")
        if not p["raw"]:
            args.append("--unraw")
        if p["blank"]:
            args.extend(("--blank_period", p["blank"]))
        ctx.step(n)
        ctx.state(str(p))
        nb = n - p["blank"]
        try:
            call(appli.eddies_tracking, *args)
        except Exception as e:
            ctx.check(nb < p["l_min"], "crash", lambda: f"{type(e).__name__}: {e}")
            ctx.cover("too_short_period")
            return
        ctx.check(nb >= p["l_min"], "short_period", lambda: f"{nb} files are accepted with a minimal duration {p['l_min']}")
        judge(ctx, outputs(f"{out}/new", p["zarr"]), rows, patterns, p["virtual"], p["l_min"], nb)
    finally:
        shutil.rmtree(out, ignore_errors=True)


# ----------------------------------------------------------------------------------------------------------------------
# Several runs


def joinable(patterns, virtual, stop, common):
    """Could trajectories be joined: the second tracking needs to know those which go on"""
    n, first = len(patterns[0]), stop - common
    merged = expected_tracks(patterns, virtual, stop)
    owner = {c: t for t in merged for c in t[1:]}
    late = expected_tracks([p[first:] for p in patterns], virtual, n - first)
    for t in late:
        t = [(d + first, s) for d, s in t]
        after = [k for k in range(1, len(t)) if t[k][0] >= stop]
        if not after:
            continue
        same = [owner[c] for c in t[1 : after[0]] if c in owner]
        if same:
            same[-1].extend(t[k] for k in after)
        else:
            merged.append(t[after[0] - 1 :])
    return sorted(merged) == sorted(expected_tracks(patterns, virtual, n))


def space_final(tier):
    full = tier != "quick"
    n = 6 if full else 5
    for p in histories(n, 2 if full else 1):
        if "1" not in p[0]:
            continue
        for virtual in (0, 1, 2):
            if not full and (int(p[0], 2) + virtual) % 3:
                continue
            # at once then correspondences only, then resumed, then merged
            yield dict(patterns=p, virtual=virtual, l_min=2 + virtual, mode="final")
            for stop in range(2, n) if full else (2, 3, 4):
                yield dict(patterns=p, virtual=virtual, l_min=3, mode="resume", stop=stop)
            for stop in range(3, n) if full else (3, 4):
                for common in (2, 3, 4) if full else (2, 3):
                    if common <= stop and joinable(p, virtual, stop, common):
                        yield dict(patterns=p, virtual=virtual, l_min=3, mode="merge", stop=stop, common=common)


def run_final(ctx, p):
    patterns = [str(i) for i in p["patterns"]]
    d, rows = inputs(patterns)
    n = len(patterns[0])
    out = scratch()
    try:
        files = [name_of(d, i) for i in range(n)]
        ctx.state(str(p))
        c1, c2, c3 = (f"{out}/c{i}.nc" for i in (1, 2, 3))

        def tracking(files, c_out, *extra, **kw):
            ctx.step(len(files))
            conf = yaml_file(f"{out}/c.yaml", files[::-1], f"{out}/new", p["virtual"], 1, **kw)
            call(appli.eddies_tracking, conf, "--correspondance_out", c_out, "--save_correspondance_and_stop", *extra)

        if p["mode"] == "final":
            tracking(files, c1)
            last = c1
        elif p["mode"] == "resume":
            tracking(files[: p["stop"]], c1)
            if p["stop"] % 2:
                tracking(files, c2, "--correspondance_in", c1)
            else:
                tracking(files, c2, CORRESPONDANCES_IN=c1)
            last = c2
        else:
            tracking(files[: p["stop"]], c1)
            tracking(files[p["stop"] - p["common"] :], c2)
            script("EddyMergeCorrespondances", c1, c2, c3)
            last = c3
        ctx.check(not os.path.exists(f"{out}/new/Anticyclonic.nc"), "stop", "Tracking writes trajectories")
        script(
            "EddyFinalTracking", last, "--path_out", f"{out}/fin/", "--nb_obs_min", p["l_min"], "--eddies_long_model",
            "%(path)s/%(sign_type)s.nc", "--eddies_short_model", "%(path)s/%(sign_type)s_track_too_short.nc",
            "--eddies_untracked_model", "%(path)s/%(sign_type)s_untracked.nc",
        )
        judge(ctx, outputs(f"{out}/fin"), rows, patterns, p["virtual"], p["l_min"], n)
        ctx.cover(p["mode"])
    finally:
        shutil.rmtree(out, ignore_errors=True)


SCENARIOS = [
    Scenario(
        "browse", space_browse, run_browse, shards=2,
        bound="4 files (5 thorough): every order, every set of days, 3 formats, 7 folders, every window of dates, sub sampling 1-3",
        need=("list", "glob", "attr", "var_attr", "refused"),
    ),
    Scenario(
        "tool", space_tool, run_tool, shards=8,
        bound="5 files, 3 eddies, every history of one of them (others: 1 pair of histories, 4 in thorough), every order of files, every set of options",
        need=("long", "short", "untracked", "virtual", "too_short_period"),
    ),
    Scenario(
        "final", space_final, run_final, shards=8,
        bound="5 files (6 thorough), 3 eddies, every history of one of them (others: 1 pair of histories, 2 in thorough), every stop of a tracking, resumed or joined with another tracking",
        need=("final", "resume", "merge", "virtual"),
    ),
]
