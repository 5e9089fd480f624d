# -*- coding: utf-8 -*-
"""C22: quantities along a trajectory depend on this trajectory only"""
from itertools import product
from math import asin, atan2, cos, degrees, radians, sin, sqrt

import numpy as np

from py_eddy_tracker.generic import cumsum_by_track
from py_eddy_tracker.observations.groups import get_missing_indices
from mc.core import Scenario
from mc.obsfix import make, same, table

ASSUMPTIONS = [
    "observations are sorted by trajectory then by time, longitudes are continuous along a trajectory",
    "age is given for trajectories of at least two observations",
    "the theoretical step used to insert observations is the median one",
    "contours of inserted observations are not defined",
]
IDS = dict(follow=(0, 1, 2, 3), first=(1, 2, 3, 4), holes=(2, 4, 9, 11))
# successive gaps of each kind of trajectory
GAPS = dict(alone=(), pair=(1,), hole=(2,), three=(1, 1), first_hole=(3, 1), last_hole=(1, 2), four=(1, 2, 1))
LON = [10, 10.75, 11.25, 13, 12.5]
LAT = [0, 0.5, -0.25, 1.5, 2]
AMP = [1, 4, 2, 8, 3]
VIRT = [0, 1, 1, 0, 1]


def cells(kind, rank):
    """One trajectory"""
    gaps = GAPS[kind]
    t = [20000 + 3 * rank]
    for g in gaps:
        t.append(t[-1] + g)
    n = len(t)
    return dict(time=t, n=list(range(n)), lon=[v + 40 * rank for v in LON[:n]], lat=[v - 20 * rank for v in LAT[:n]],
                amplitude=[v + rank * 0.5 for v in AMP[:n]], virtual=[(v + rank) % 2 if rank else v for v in VIRT[:n]])


def build(kinds, ids, ranks=None):
    """A set of trajectories"""
    ranks = range(len(kinds)) if ranks is None else ranks
    parts = [cells(k, r) for k, r in zip(kinds, ranks)]
    n = sum(len(p["time"]) for p in parts)
    obs = make("track", n, only=["lon", "lat", "time", "amplitude", "radius_e"])
    if n:
        for f in parts[0]:
            obs.obs[f] = [v for p in parts for v in p[f]]
        obs.obs["track"] = [IDS[ids][r] for p, r in zip(parts, ranks) for _ in p["time"]]
        obs.obs["radius_e"] = obs.obs["amplitude"] * 1000
    return obs


def slices(obs):
    """rows of each trajectory"""
    out, tr = list(), obs.obs["track"].tolist()
    for i, t in enumerate(tr):
        if not out or tr[i - 1] != t:
            out.append([])
        out[-1].append(i)
    return out


def haversine(lon0, lat0, lon1, lat1):
    a = sin(radians(lat1 - lat0) / 2) ** 2 + cos(radians(lat0)) * cos(radians(lat1)) * sin(radians(lon1 - lon0) / 2) ** 2
    return 2 * 6370997.0 * asin(sqrt(a))


def ref_distance(r):
    n = len(r["time"])
    return [haversine(r["lon"][i], r["lat"][i], r["lon"][i + 1], r["lat"][i + 1]) for i in range(n - 1)] + [0] * (n > 0)


def ref_loess(r, field, w):
    out, n = list(), len(r["time"])
    for i in range(n):
        s = p = 0
        for j in range(n):
            d = abs(r["time"][i] - r["time"][j])
            if d < w:
                k = (1 - (d / w) ** 3) ** 3
                s, p = s + k * r[field][j], p + k
        out.append(s / p)
    return out


def ref_median(r, field, w):
    n = len(r["time"])
    return [np.median([r[field][j] for j in range(n) if abs(r["time"][i] - r["time"][j]) <= w]) for i in range(n)]


def ref_azimuth(r):
    i, j = 0, len(r["time"]) - 1
    la0, la1, d = radians(r["lat"][i]), radians(r["lat"][j]), radians(r["lon"][j] - r["lon"][i])
    return degrees(atan2(sin(d) * cos(la1), cos(la0) * sin(la1) - sin(la0) * cos(la1) * cos(d))) + 90


def part(ref, rows):
    return {f: np.asarray(v)[rows].astype("f8").tolist() for f, v in ref.items()}


def close(a, b, tol=1e-5):
    a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


WINDOWS = (0.5, 1, 1.5, 2, 3.5)


def layouts(nb):
    names = list(GAPS)
    out = [()]
    for k in range(1, nb + 1):
        out += list(product(names, repeat=k))
    return out


def series_space(tier):
    for kinds in layouts(2 if tier == "quick" else 3):
        for ids in IDS:
            yield [list(kinds), ids]
    if tier == "quick":
        for kinds in product(("alone", "hole", "three"), repeat=3):
            yield [list(kinds), "holes"]


def series_run(ctx, payload):
    kinds, ids = payload
    obs = build(kinds, ids)
    ref = table(obs)
    rows = slices(obs)
    parts = [part(ref, r) for r in rows]
    n = len(obs)

    def check(name, got, expected, tol=1e-5):
        ctx.step()
        exp = [v for e in expected for v in e]
        ctx.check(close(got, exp, tol), name, lambda: f"{payload}: {got} instead of {exp}")

    check("lifetime", obs.lifetime, [[len(r)] * len(r) for r in rows])
    with np.errstate(all="ignore"):
        age = obs.age
    for r in rows:
        if len(r) > 1:
            ctx.check(close(np.array(age)[r], np.arange(len(r)) / (len(r) - 1) * 100), "age", lambda: f"{payload}: {age}")
    dist = obs.distance_to_next()
    check("distance", dist, [ref_distance(p) for p in parts], 1e-4)
    new = obs.add_distance()
    check("add distance", new["distance_next"], [ref_distance(p) for p in parts], 1e-4)
    ctx.check(new.add_distance() is new, "add distance", "twice")
    check("cumsum", cumsum_by_track(dist, obs.tracks), [np.cumsum(ref_distance(p)) for p in parts], 1e-4)
    for w in WINDOWS:
        for field in ("amplitude", "lon"):
            got = obs.copy().loess_filter(w, "time", field, inplace=False)
            check("loess", got, [ref_loess(p, field, w) for p in parts])
            got = obs.copy().median_filter(w, "time", field, inplace=False)
            check("median", got, [ref_median(p, field, w) for p in parts])
            o = obs.copy()
            r = o.median_filter(w, "time", field)
            ctx.check(r is o, "median", "inplace")
            check("median inplace", o[field], [ref_median(p, field, w) for p in parts])
            o = obs.copy()
            r = o.loess_filter(w, "time", field)
            ctx.check(r is o, "loess", "inplace")
            check("loess inplace", o[field], [ref_loess(p, field, w) for p in parts])
        for w2 in (1, 2.5):
            o = obs.copy()
            o.position_filter(w, w2)
            for field in ("lon", "lat"):
                exp = list()
                for p in parts:
                    q = dict(p)
                    q[field] = np.array(ref_median(p, field, w)).astype("f4").tolist()
                    exp.append(ref_loess(q, field, w2))
                check("position", o[field], exp)
            ctx.check(same(o.obs["amplitude"], ref["amplitude"]), "position", "other field")
    if n:
        azimuth, eq = obs.get_azimuth(), obs.get_azimuth(equatorward=True)
        check("azimuth", azimuth, [[ref_azimuth(p)] for p in parts], 1e-3)
        check("azimuth", eq, [[ref_azimuth(p) * (-1 if p["lat"][0] < 0 else 1)] for p in parts], 1e-3)
        ctx.check(obs.nb_tracks == len(rows), "nb_tracks", f"{payload}")
    for mask in (np.arange(n) % 2 == 0, np.arange(n) < 0, ref["virtual"] == 1):
        got = obs.count_by_track(mask)
        ctx.step()
        size = 1 + int(max(ref["track"])) if n else 0
        exp = [0] * size
        for r in rows:
            exp[int(ref["track"][r[0]])] = int(mask[r].sum())
        ctx.check(close(got, exp), "count_by_track", lambda: f"{payload} {mask}: {got} instead of {exp}")
    for f in ref:
        ctx.check(same(obs.obs[f], ref[f]), "source", f)
    if len(kinds) > 1:
        ctx.cover("several")
    if n == 0:
        ctx.cover("empty")
    ctx.state(*map(str, payload))
    ctx.outcome(str(np.round(dist)))


# ------------------------------------------------------ missing observations
def ref_missing(parts, dt):
    out, i = list(), 0
    for p in parts:
        for k in range(len(p["time"]) - 1):
            gap = p["time"][k + 1] - p["time"][k]
            out += [i + k + 1] * (int(gap // dt) - 1)
        i += len(p["time"])
    return out


def missing_space(tier):
    for kinds in layouts(3):
        if tier == "quick" and len(kinds) == 3 and len(set(kinds)) == 3:
            continue
        for ids in IDS:
            yield [list(kinds), ids]


def missing_run(ctx, payload):
    kinds, ids = payload
    obs = build(kinds, ids)
    ref = table(obs)
    rows = slices(obs)
    parts = [part(ref, r) for r in rows]
    for dt in (1, 2, 1.0, 0.5):
        got = obs.get_missing_indices(dt)
        ctx.step()
        exp = ref_missing(parts, dt)
        ctx.check(list(got) == exp, "missing", lambda: f"{payload} dt {dt}: {got} instead of {exp}")
    if len(obs):
        # with an identifier which is not followed
        skip = int(ref["track"][0])
        got = get_missing_indices(obs.time, obs.track, dt=1, flag_untrack=True, indice_untrack=skip)
        ctx.step()
        n0 = len(rows[0])
        exp = [i + n0 for i in ref_missing(parts[1:], 1)]
        ctx.check(list(got) == exp, "missing flag", lambda: f"{payload}: {got} instead of {exp}")
    # a step which is not 1 day
    steps = [t[i + 1] - t[i] for p in parts for t in [p["time"]] for i in range(len(t) - 1)]
    new = obs.insert_virtual()
    ctx.step()
    dt = np.median(steps) if steps else None
    exp = {f: list() for f in ref}
    for p in parts:
        k = len(p["time"])
        n = 0
        for i in range(k):
            nb = 1
            if dt is not None and i < k - 1:
                nb = max(int((p["time"][i + 1] - p["time"][i]) // dt), 1)
            for j in range(nb):
                for f in ref:
                    if f in ("lon", "lat", "time", "amplitude", "radius_e"):
                        a = p[f][i]
                        exp[f].append(a + (p[f][min(i + 1, k - 1)] - a) * j / nb)
                    elif f == "virtual":
                        exp[f].append(p[f][i] if j == 0 else 1)
                    elif f == "n":
                        exp[f].append(n)
                    elif f == "track":
                        exp[f].append(p[f][i])
                n += 1
    ctx.check(len(new) == len(exp["time"]), "insert size", lambda: f"{payload}: {new.time} instead of {exp['time']}")
    for f in ("time", "lon", "lat", "amplitude", "radius_e", "virtual", "n", "track"):
        ctx.check(close(new.obs[f], exp[f]), f"insert {f}", lambda: f"{payload}: {new.obs[f]} instead of {exp[f]}")
    if len(new) > len(obs):
        ctx.cover("inserted")
        if len(rows) > 1:
            ctx.cover("several")
    for f in ref:
        ctx.check(same(obs.obs[f], ref[f]), "source", f)
    ctx.state(*map(str, payload))
    ctx.outcome(tuple(exp["time"]))


def fill_space(tier):
    for kinds in layouts(2 if tier == "quick" else 3):
        yield list(kinds)


def fill_run(ctx, payload):
    """Interpolation of chosen observations: every choice inside of trajectories"""
    kinds = [k for k in payload]
    obs = build(kinds, "holes")
    ref = table(obs)
    rows = slices(obs)
    inner = [i for r in rows for i in r[1:-1]]
    for choice in product((False, True), repeat=len(inner)):
        mask = np.zeros(len(obs), dtype=bool)
        for i, c in zip(inner, choice):
            mask[i] = c
        o = obs.copy()
        o.filled_by_interpolation(mask)
        ctx.step()
        for f in ref:
            exp = ref[f].astype("f8")
            if f in ("lon", "lat", "time", "amplitude", "radius_e"):
                for i in np.nonzero(mask)[0]:
                    a = max(j for j in range(i) if not mask[j])
                    b = min(j for j in range(i + 1, len(obs)) if not mask[j])
                    exp[i] = ref[f][a] + (float(ref[f][b]) - float(ref[f][a])) * (i - a) / (b - a)
            ctx.check(close(o.obs[f], exp), "fill", lambda: f"{payload} {mask} {f}: {o.obs[f]} instead of {exp}")
        if mask.any():
            ctx.cover("filled")
    ctx.state(*payload)


# ------------------------------------------------------------- independence
def alone_space(tier):
    for kinds in product(GAPS, repeat=2):
        yield list(kinds)
    if tier == "thorough":
        for kinds in product(GAPS, repeat=3):
            yield list(kinds)


def results(obs):
    """Everything which is known about each trajectory, by (virtual) identifier"""
    out = dict()
    if len(obs) == 0:
        return out
    rows = slices(obs)
    series = dict(
        lifetime=obs.lifetime, distance=obs.distance_to_next(), cumsum=cumsum_by_track(obs.distance_to_next(), obs.tracks),
        loess=obs.loess_filter(2.5, "time", "amplitude", inplace=False),
        median=obs.median_filter(1, "time", "amplitude", inplace=False),
    )
    with np.errstate(all="ignore"):
        series["age"] = obs.age
    azimuth = obs.get_azimuth()
    count = obs.count_by_track(obs.virtual == 1)
    missing = obs.get_missing_indices(1)
    for k, r in enumerate(rows):
        d = {name: np.array(v)[r].tolist() for name, v in series.items()}
        d["azimuth"] = [float(azimuth[k])]
        d["count"] = [int(count[obs.track[r[0]]])]
        d["missing"] = [int(i) - r[0] for i in missing if r[0] < i <= r[-1]]
        out[float(obs.time[r[0]]), len(r), float(obs.lon[r[0]])] = d
    return out


def alone_run(ctx, payload):
    """Same results in every set which contains the trajectory, whatever the identifiers"""
    nb = len(payload)
    ref = dict()
    for r, k in enumerate(payload):
        ref.update(results(build([k], "follow", [r])))
    for ids in IDS:
        for keep in product((False, True), repeat=nb):
            ranks = [r for r in range(nb) if keep[r]]
            obs = build([payload[r] for r in ranks], ids, ranks)
            got = results(obs)
            ctx.step()
            ctx.check(len(got) == len(ranks), "tracks", f"{payload} {ids} {ranks}")
            for key, d in got.items():
                for name, v in d.items():
                    ctx.check(close(v, ref[key][name]), f"alone {name}", lambda: f"{payload} {ids} {ranks} {key}: {v} instead of {ref[key][name]}")
    ctx.state(*payload)


SCENARIOS = [
    Scenario("series", series_space, series_run, shards=8, need=("several", "empty"),
             bound="layouts of up to 2 (3) trajectories among 7 patterns of dates x 3 families of identifiers: lifetime, age, distance, filters, counts"),
    Scenario("missing", missing_space, missing_run, shards=8, need=("inserted", "several"),
             bound="layouts of up to 3 trajectories among 7 patterns of dates, 4 steps, insertion of virtual observations"),
    Scenario("fill", fill_space, fill_run, shards=4, need=("filled",), bound="every choice of inner observations to interpolate"),
    Scenario("alone", alone_space, alone_run, shards=8, bound="results of each trajectory in every subset of 2 (3) trajectories"),
]
