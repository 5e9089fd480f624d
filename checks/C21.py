# -*- coding: utf-8 -*-
"""C21: trajectory selections keep whole, correctly identified trajectories"""
from itertools import combinations, product

import numpy as np

from py_eddy_tracker.observations.tracking import TrackEddiesObservations
from mc.core import Scenario, bfs
from mc.obsfix import make, same, table

ASSUMPTIONS = [
    "observations are sorted by trajectory then by time",
    "reject_virtual is only asked with full_path",
    "when identifiers are compressed, new ones are free but they keep the order and are at most the number of trajectories",
    "positions differ of less than half a turn along a trajectory; observations of extract_first_obs_in_box are in the same convention",
]
IDS = dict(follow=(0, 1, 2, 3), first=(1, 2, 3, 4), holes=(1, 4, 9, 11), big=(0, 3, 300, 301))


def layouts(nb_obs, nb_track=3, length=3):
    """Lengths of trajectories"""
    out = [()]
    for k in range(1, nb_track + 1):
        out += [c for c in product(range(1, length + 1), repeat=k) if sum(c) <= nb_obs]
    return out


VIRTUAL = dict(none=lambda n: [0] * n, odd=lambda n: [i % 2 for i in range(n)], mixed=lambda n: [int(i % 3 == 0) for i in range(n)], all=lambda n: [1] * n)


def build(lengths, ids, virtual="odd", contours=False):
    n = sum(lengths)
    arrays = ["contour_lon_e", "contour_lat_e"] if contours else []
    obs = make("track", n, extra=["cost_association"], arrays=arrays, only=["lon", "lat", "time", "amplitude", "cost_association"] + arrays)
    obs.sign_type = -1
    if n:
        tr, num, t = list(), list(), list()
        for k, (i, length) in enumerate(zip(IDS[ids], lengths)):
            tr += [i] * length
            num += list(range(length))
            t += [10 + 2 * k + j for j in range(length)]
        obs.obs["track"], obs.obs["n"], obs.obs["time"], obs.obs["virtual"] = tr, num, t, VIRTUAL[virtual](n)
    return obs


def rows_by_track(tr):
    out = dict()
    for i, k in enumerate(tr):
        out.setdefault(int(k), list()).append(i)
    return out


def agree(ctx, new, ref, keep, what, renamed=False, kind=TrackEddiesObservations):
    """`new` must be the observations `keep` of `ref`"""
    ctx.check(len(new) == len(keep), "size", lambda: f"{what}: {len(new)} observations instead of {len(keep)} ({new.time} {new.track})")
    ctx.check(type(new) is kind and new.sign_type == -1, "type", f"{what} {type(new)} {new.sign_type}")
    ctx.check(set(new.fields) == set(ref), "fields", f"{what} {new.fields}")
    for f in ref:
        if f == "track" and renamed:
            continue
        ctx.check(same(new.obs[f], ref[f][keep]), "values", lambda: f"{what} {f}: {new.obs[f]} instead of {ref[f][keep]}")
    old = [int(t) for t in ref["track"][keep]]
    cur = [int(t) for t in new.obs["track"]]
    if renamed:
        pairs = sorted(set(zip(old, cur)))
        ctx.check(len(pairs) == len(set(old)) == len(set(cur)), "identifiers", lambda: f"{what}: {old} -> {cur}")
        ctx.check([p[1] for p in pairs] == sorted(p[1] for p in pairs), "identifiers order", lambda: f"{what}: {old} -> {cur}")
        ctx.check(not cur or max(cur) <= len(pairs), "identifiers range", lambda: f"{what}: {old} -> {cur}")
        ctx.cover("renamed", len(pairs) > 0 and old != cur)
    # every way to get identifiers and what depends on them
    for values in (new.track, new.tracks, new["track"]):
        ctx.check([int(v) for v in values] == cur, "identifiers access", lambda: f"{what}: {values} {cur}")
    groups = rows_by_track(cur)
    ctx.check(new.nb_tracks == len(groups), "nb_tracks", lambda: f"{what}: {new.nb_tracks} instead of {len(groups)}")
    if cur:
        i0, nb = new.index_from_track, new.nb_obs_by_track
        for k in range(max(cur) + 1):
            rows = groups.get(k, [])
            ctx.check(nb[k] == len(rows), "nb_obs_by_track", lambda: f"{what} {cur}: {nb}")
            if rows:
                ctx.check(i0[k] == rows[0], "index_from_track", lambda: f"{what} {cur}: {i0}")
                sl = new.track_slice(k)
                ctx.check(list(range(len(cur)))[sl] == rows, "track_slice", lambda: f"{what} {cur}: {k} {sl}")
    return True


BITS = ("full_path", "remove_incomplete", "compress_id", "reject_virtual")


def mask_space(tier):
    nb = 6 if tier == "quick" else 8
    for lengths in layouts(nb):
        for ids in IDS:
            for v in VIRTUAL:
                if tier == "quick" and v in ("all", "mixed") and ids != "holes":
                    continue
                yield [list(lengths), ids, v]


def kept(tr, mask, virtual, full_path, remove_incomplete, reject_virtual):
    groups = rows_by_track(tr)
    if full_path:
        sel = [m and not (reject_virtual and v) for m, v in zip(mask, virtual)]
        return sorted(i for rows in groups.values() if any(sel[j] for j in rows) for i in rows)
    if remove_incomplete:
        return sorted(i for rows in groups.values() if all(mask[j] for j in rows) for i in rows)
    return [i for i, m in enumerate(mask) if m]


def mask_run(ctx, payload):
    lengths, ids, virtual = payload
    obs = build(lengths, ids, virtual, contours=sum(lengths) == 3)
    ref = table(obs)
    n = len(obs)
    for mask in product((False, True), repeat=n):
        for options in product((False, True), repeat=4):
            kw = dict(zip(BITS, options))
            if kw["reject_virtual"] and not kw["full_path"]:
                continue
            m = np.array(mask, dtype=bool)
            new = obs.extract_with_mask(m, **kw)
            ctx.step()
            what = f"{payload} {mask} {kw}"
            keep = kept(ref["track"], mask, ref["virtual"], kw["full_path"], kw["remove_incomplete"], kw["reject_virtual"])
            agree(ctx, new, ref, keep, what, kw["compress_id"])
            ctx.check(tuple(m) == mask, "mask changed", what)
            if 0 < sum(mask) < n and not keep:
                ctx.cover("nothing kept")
            if kw["full_path"] and len(keep) > sum(mask):
                ctx.cover("completed")
            if kw["remove_incomplete"] and len(keep) < sum(mask):
                ctx.cover("removed")
        ctx.state(*map(str, payload), mask)
    for f in ref:
        ctx.check(same(obs.obs[f], ref[f]), "source", f"{payload} {f}")


def select_space(tier):
    nb = 6 if tier == "quick" else 8
    for lengths in layouts(nb, 3, 4):
        for ids in IDS:
            yield [list(lengths), ids]


def select_run(ctx, payload):
    lengths, ids = payload
    obs = build(lengths, ids)
    ref = table(obs)
    n = len(obs)
    groups = rows_by_track(ref["track"])
    # identifiers, known or not
    names = list(groups) + [0, 2, 5, 12, 4000]
    for k in range(4):
        for sub in combinations(sorted(set(names)), k):
            for sel in (list(sub), sub[::-1], np.array(sub, dtype="u4")):
                new = obs.extract_ids(sel)
                ctx.step()
                keep = sorted(i for t in set(sub) for i in groups.get(t, []))
                agree(ctx, new, ref, keep, f"{payload} ids {sel}")
            if any(t not in groups for t in sub):
                ctx.cover("unknown")
    # length
    for b0, b1 in product(range(-1, 6), repeat=2):
        if (b0, b1) == (-1, -1):
            continue
        new = obs.extract_with_length((b0, b1))
        ctx.step()
        keep = [i for rows in groups.values() if len(rows) >= b0 and (b1 == -1 or len(rows) <= b1) for i in rows]
        agree(ctx, new, ref, sorted(keep), f"{payload} length {b0} {b1}")
    for nb_min in range(0, 6):
        for compress in (False, True):
            new = obs.extract_longer_eddies(nb_min, obs.lifetime, compress_id=compress)
            ctx.step()
            keep = sorted(i for rows in groups.values() if len(rows) >= nb_min for i in rows)
            agree(ctx, new, ref, keep, f"{payload} longer {nb_min}", compress)
    # period
    if n:
        for p0, p1 in product((0, 9, 10, 12, 14, 20, -1), (0, 9, 11, 13, 20, -2)):
            t = ref["time"]
            low = p0 if p0 > 0 else t.min() - p0 if p0 < 0 else -1e9
            high = p1 if p1 > 0 else t.max() + p1 if p1 < 0 else 1e9
            mask = (t >= low) & (t <= high)
            for kw in (dict(), dict(full_path=True), dict(remove_incomplete=True)):
                new = obs.extract_with_period((p0, p1), **kw)
                ctx.step()
                keep = kept(ref["track"], mask, ref["virtual"], kw.get("full_path", False), kw.get("remove_incomplete", False), False)
                agree(ctx, new, ref, keep, f"{payload} period {p0} {p1} {kw}")
        for date, days in product((10, 11, 12, 13, 15), (0, 1, 2, -1, -2, 7)):
            new = obs.keep_tracks_by_date(date, days)
            ctx.step()
            keep = [i for rows in groups.values() if {date, date + days} <= set(ref["time"][rows].tolist()) for i in rows]
            agree(ctx, new, ref, sorted(keep), f"{payload} date {date} {days}")
    # ends
    ctx.step(2)
    agree(ctx, obs.first_obs(), ref, sorted(rows[0] for rows in groups.values()), f"{payload} first")
    agree(ctx, obs.last_obs(), ref, sorted(rows[-1] for rows in groups.values()), f"{payload} last")
    # one by one
    tracks = list(obs.iter_track()) if n else []
    ctx.check(len(tracks) == len(groups), "iter_track", f"{payload}")
    for track, (t, rows) in zip(tracks, groups.items()):
        ctx.step()
        agree(ctx, track, ref, rows, f"{payload} iter {t}")
        ctx.check(set(track.track.tolist()) == {t}, "iter_track", f"{payload}")
    if n == 0:
        ctx.cover("empty")
    ctx.state(*map(str, payload))


PATHS = dict(
    west=[(5, 10), (4, 10.5), (3, 11)], east=[(350, -10), (352, -9), (354, -12)], still=[(40, 0), (41, 3), (40, 0)],
    cross_west=[(1, 20), (0, 21), (359, 19)], cross_east=[(358, 5), (359.5, 4), (2, 3)], neg=[(-1, 2), (0.5, 2), (1.5, 2)],
    far=[(-179, 1), (179, 2), (176, 5)],
)


def turn(d):
    return (d + 180) % 360 - 180


def way_space(tier):
    names = list(PATHS)
    for a in names:
        for na in (1, 2, 3):
            yield [[[a, na]]]
        for b in names:
            for na, nb in ((1, 3), (2, 2), (3, 1), (3, 2)):
                yield [[[a, na], [b, nb]]]
                if tier == "thorough":
                    for c in names:
                        yield [[[a, na], [b, nb], [c, 2]]]
    yield [[]]


def way_run(ctx, payload):
    parts = payload[0]
    for ids in IDS:
        obs = build([p[1] for p in parts], ids)
        if parts:
            xy = [PATHS[p][i] for p, nb in parts for i in range(nb)]
            obs.obs["lon"], obs.obs["lat"] = zip(*xy)
        ref = table(obs)
        groups = rows_by_track(ref["track"])
        move = {t: (turn(ref["lon"][r[-1]] - ref["lon"][r[0]]), ref["lat"][r[-1]] - ref["lat"][r[0]]) for t, r in groups.items()}

        def expect(test):
            return sorted(i for t, r in groups.items() if test(*move[t]) for i in r)

        for delta in (None, 0.5, 1.5, 3.5, 5):
            d = 0 if delta is None else delta
            for west in (True, False):
                s = -1 if west else 1
                new = obs.extract_toward_direction(west=west, delta_lon=delta)
                ctx.step()
                agree(ctx, new, ref, expect(lambda x, y: x * s > 0 and abs(x) > d), f"{payload} {ids} toward west={west} {delta}")
            for c, f in dict(N=lambda x, y: y > d, S=lambda x, y: -y > d, E=lambda x, y: x > d, W=lambda x, y: -x > d).items():
                new = obs.extract_in_direction(c, d)
                ctx.step()
                keep = expect(f)
                agree(ctx, new, ref, keep, f"{payload} {ids} direction {c} {d}")
                if 0 < len(keep) < len(obs):
                    ctx.cover("part " + c)
        for res in (0.5, 2, 20):
            seen, keep = set(), list()
            for i in range(len(obs)):
                key = (ref["track"][i], ref["lon"][i] // res, ref["lat"][i] // res)
                if key not in seen:
                    keep.append(i)
                    seen.add(key)
            new = obs.extract_first_obs_in_box(res)
            ctx.step()
            agree(ctx, new, ref, keep, f"{payload} {ids} box {res}")
    ctx.state(str(payload))


# ----------------------------------------------------------------- programs
OPS = [
    ["mask", "even", {}], ["mask", "even", {"full_path": True}], ["mask", "late", {"remove_incomplete": True}],
    ["mask", "late", {"compress_id": True}], ["mask", "real", {"full_path": True, "compress_id": True}],
    ["mask", "none first", {"remove_incomplete": True, "compress_id": True}],
    ["length", 2, -1], ["length", -1, 2], ["period", 11, 13], ["ids", "last"], ["ids", "first and last"], ["slice", 1], ["copy"],
]


class State:
    def __init__(self, obs):
        self.obs = obs


def mask_of(name, obs):
    n = len(obs)
    t = np.array(obs.obs["time"])
    return dict(even=np.arange(n) % 2 == 0, late=t > 11, real=np.array(obs.obs["virtual"]) == 0, **{"none first": np.arange(n) > 0})[name]


def apply(ctx, state, op):
    obs = state.obs
    ref = table(obs)
    tr = ref["track"].tolist()
    groups = rows_by_track(tr)
    what = f"{tr} {ref['time'].tolist()} {op}"
    renamed = False
    # indexes are used before, they must not stay after
    obs.nb_tracks
    if op[0] == "mask":
        mask, kw = mask_of(op[1], obs), op[2]
        new = obs.extract_with_mask(mask.copy(), **kw)
        renamed = kw.get("compress_id", False)
        keep = kept(tr, mask, ref["virtual"], kw.get("full_path", False), kw.get("remove_incomplete", False), False)
    elif op[0] == "length":
        new = obs.extract_with_length((op[1], op[2]))
        keep = sorted(i for r in groups.values() if len(r) >= op[1] and (op[2] == -1 or len(r) <= op[2]) for i in r)
    elif op[0] == "period":
        new = obs.extract_with_period((op[1], op[2]))
        keep = [i for i, t in enumerate(ref["time"]) if op[1] <= t <= op[2]]
    elif op[0] == "ids":
        if not groups:
            return None
        k = [max(groups)] if op[1] == "last" else [min(groups), max(groups)]
        new = obs.extract_ids(k)
        keep = sorted(i for t in set(k) for i in groups[t])
    elif op[0] == "slice":
        new = obs.index(slice(1, None))
        keep = list(range(len(tr)))[1:]
    else:
        new = obs.copy()
        keep = list(range(len(tr)))
    agree(ctx, new, ref, keep, what, renamed)
    for f in ref:
        ctx.check(same(obs.obs[f], ref[f]), "source", what)
    return State(new)


def program_space(tier):
    for lengths in ((3, 2, 1), (1, 3, 2), (2, 2, 2)):
        for ids in ("follow", "holes"):
            for first in range(len(OPS)):
                yield [list(lengths), ids, first]


def program_run(ctx, payload):
    lengths, ids, first = payload
    start = apply(ctx, State(build(lengths, ids, "mixed")), OPS[first])
    if start is None:
        return

    def canon(s):
        return tuple(s.obs.obs["track"].tolist()), tuple(s.obs.obs["time"].tolist())

    bfs(ctx, [("start", start)], lambda s: OPS, lambda s, op: apply(ctx, s, op), canon, lambda s, p: None,
        depth=3 if ctx.tier == "quick" else 6)


SCENARIOS = [
    Scenario("mask", mask_space, mask_run, shards=8, need=("completed", "removed", "renamed", "nothing kept"),
             bound="every layout of up to 3 trajectories and 6 (8) observations, 4 families of identifiers, virtual patterns, every mask, every option"),
    Scenario("select", select_space, select_run, shards=8, need=("unknown", "empty"),
             bound="every layout of up to 3 trajectories and 6 (8) observations: identifiers, lengths, periods, dates, ends"),
    Scenario("way", way_space, way_run, shards=8, need=("part E", "part W", "part N", "part S"),
             bound="pairs (triples) of 7 paths (some across 0 or 180), 4 families of identifiers"),
    Scenario("program", program_space, program_run, shards=8, bound="sequences of 4 (7) selections among 13"),
]
