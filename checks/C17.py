# -*- coding: utf-8 -*-
"""C17: merging, inserting, copying and changing fields preserve observations"""
import numpy as np

from mc.core import Fail, Scenario, bfs
from mc.obsfix import make, same

ASSUMPTIONS = [
    "insert_observations (and +, append which use it) change the set on which they are called, negative positions count from the end (-1: after last)",
    "sets with other fields could be refused by concatenate and insert; merge keeps fields of the first one",
    "networks are out of scope (links are the matter of C26)",
]

CONT = ["contour_lon_e", "contour_lat_e"]
# fields which are kept to have small rows
BASE = ["lon", "time", "amplitude"]
FIELDS = ["lon", "time", "amplitude", "eke", "contour_lon_e", "chl", "track", "n", "virtual", "contour_lat_e"]


def small(kind, size, extra, arrays, salt, tracks=None, sign=1, only=None):
    obs = make(kind, size, extra=extra, arrays=arrays, nb_sample=2, sign=sign, salt=salt,
               only=(BASE if only is None else only) + list(extra) + list(arrays))
    if "track" in obs.fields and size:
        obs.obs["track"] = tracks
    return obs


def others(kind):
    """Sets which are used as argument"""
    out = dict(
        same2=lambda: small(kind, 2, ["eke"], CONT[:1], 50, [1, 3]),
        same0=lambda: small(kind, 0, ["eke"], CONT[:1], 0),
        less1=lambda: small(kind, 1, [], [], 70, [2]),
        more1=lambda: small(kind, 1, ["eke", "chl"], CONT, 80, [0]),
        # same number of fields but not the same
        swap1=lambda: small(kind, 1, ["eke"], CONT[:1], 90, [1], only=["lat", "time", "amplitude"]),
    )
    return out


class Model:
    """List of rows, row is a dict; track of a row is only known up to a renaming"""

    def __init__(self, rows, fields, sign):
        self.rows, self.fields, self.sign = rows, set(fields), sign

    def copy(self):
        return Model([dict(r) for r in self.rows], self.fields, self.sign)


def value(v):
    v = np.asarray(v)
    return tuple(v.tolist()) if v.ndim else v.item()


def rows_of(obs):
    return [{f: value(obs.obs[f][i]) for f in obs.fields} for i in range(len(obs))]


def model_of(obs):
    return Model(rows_of(obs), obs.fields, obs.sign_type)


class Pair:
    """A real set and what it must be"""

    def __init__(self, obs, model):
        self.obs, self.model = obs, model


class State:
    """Sets which are alive, current one is the last"""

    def __init__(self, kind, pool):
        self.kind, self.pool = kind, pool

    @property
    def cur(self):
        return self.pool[-1]


UNKNOWN = "unknown"


def check_pair(pair, where, rename_from=None):
    obs, m = pair.obs, pair.model
    if obs.sign_type != m.sign:
        raise Fail("sign", f"{where}: {obs.sign_type} instead of {m.sign}")
    if set(obs.fields) != m.fields:
        raise Fail("fields", f"{where}: {sorted(obs.fields)} instead of {sorted(m.fields)}")
    if len(obs) != len(m.rows):
        raise Fail("size", f"{where}: {len(obs)} instead of {len(m.rows)}")
    real = rows_of(obs)
    names, back = dict(), dict()
    for i, (r, e) in enumerate(zip(real, m.rows)):
        for f in m.fields:
            if e[f] is UNKNOWN:
                e[f] = r[f]
            elif f == "track" and isinstance(e[f], tuple):
                # renaming of tracks keeps them separated
                if names.setdefault(e[f], r[f]) != r[f] or back.setdefault(r[f], e[f]) != e[f]:
                    raise Fail("track", f"{where}: {[x['track'] for x in real]} for {[x['track'] for x in m.rows]}")
            elif r[f] != e[f]:
                raise Fail("value", f"{where}: {f}[{i}] {r[f]} instead of {e[f]}")
    # from now names are known
    if "track" in m.fields:
        for r, e in zip(real, m.rows):
            e["track"] = r["track"]
    if len(real) and "time" in m.fields:
        t = [r["time"] for r in real]
        if tuple(obs.period) != (min(t), max(t)):
            raise Fail("period", f"{where}: {obs.period} instead of {min(t), max(t)}")
    if len(real) and hasattr(type(obs), "nb_tracks") and "track" in m.fields:
        t = [r["track"] for r in real]
        # defined when observations are grouped by track
        if t == sorted(t):
            if obs.nb_tracks != len(set(t)):
                raise Fail("nb_tracks", f"{where}: {obs.nb_tracks} instead of {len(set(t))}")
            if obs.nb_obs_by_track.tolist() != [t.count(k) for k in range(max(t) + 1)]:
                raise Fail("nb_obs_by_track", f"{where}: {obs.nb_obs_by_track} for {t}")


def tag(rows, name):
    """Tracks of two sets are different things"""
    for r in rows:
        if "track" in r and not isinstance(r["track"], tuple):
            r["track"] = (name, r["track"])
    return rows


def ops(kind, tier):
    names = list(others(kind))

    def f(s):
        nb = len(s.cur.model.rows)
        out = [["copy"], ["drop", "eke"], ["drop", "contour_lon_e", "lon"], ["add", "chl"], ["add", "eke", "distance_next"],
               ["rotation"], ["self-merge"], ["mutate"], ["empty"]]
        if s.cur.obs.track_array_variables:
            out.append(["add-array", "contour_lat_e"])
        for n in names:
            out += [["merge", n], ["concat", n], ["concat3", n]]
            for i in sorted({0, 1, nb, -1, -2}):
                if -nb - 1 <= i <= nb:
                    out.append(["insert", n, i])
            out.append(["plus", n])
            out.append(["merge-in", n])
        if nb:
            out += [["index", nb - 1, 0], ["slice", 0, nb - 1]]
        return out

    return f


def apply_op(ctx, s, op):
    # states are rebuilt by replay: real objects are mutable
    cur = s.cur
    obs, m = cur.obs, cur.model
    kind = op[0]
    cls = type(obs)
    pool = s.pool
    where = str(op)
    new_fields = None
    if kind == "copy":
        pool.append(Pair(obs.copy(), m.copy()))
    elif kind == "drop":
        pool.append(Pair(obs.remove_fields(*op[1:]), m.copy()))
        # fields that a class can't live without stay
        pool[-1].model.fields -= set(op[1:])
        for r in pool[-1].model.rows:
            for n in op[1:]:
                r.pop(n, None)
    elif kind in ("add", "add-array", "rotation"):
        if kind == "rotation":
            got, names = obs.add_rotation_type(), ["type_cyc"]
        elif kind == "add":
            names = list(op[1:])
            got = obs.add_fields(names)
        else:
            names = list(op[1:])
            got = obs.add_fields(array_fields=names)
        m2 = m.copy()
        for r in m2.rows:
            for n in names:
                if kind == "rotation":
                    r[n] = m.sign
                elif n not in m.fields:
                    r[n] = UNKNOWN
        m2.fields |= set(names)
        pool.append(Pair(got, m2))
    elif kind == "self-merge":
        got = obs.merge(obs)
        m2 = m.copy()
        m2.rows = tag([dict(r) for r in m.rows], "a") + tag([dict(r) for r in m.rows], "b")
        pool.append(Pair(got, m2))
    elif kind == "mutate":
        if len(m.rows) == 0 or "time" not in m.fields:
            return None
        i = len(m.rows) - 1
        if "lon" in m.fields:
            obs.lon[i] = -77.25
            m.rows[i]["lon"] = -77.25
        else:
            return None
        if "contour_lon_e" in m.fields:
            obs.contour_lon_e[i] = 1.5
            m.rows[i]["contour_lon_e"] = (1.5,) * len(m.rows[i]["contour_lon_e"])
    elif kind == "empty":
        pool.append(Pair(obs.empty_dataset(), Model([], m.fields, m.sign)))
    elif kind in ("merge", "merge-in", "concat", "concat3", "insert", "plus"):
        other = others(s.kind)[op[1]]()
        om = model_of(other)
        same_fields = om.fields == m.fields
        a, b = tag([dict(r) for r in m.rows], "a"), tag([dict(r) for r in om.rows], "b")
        if kind == "merge-in":
            # other is the first
            got = other.merge(obs)
            m2 = Model(b + [{f: r.get(f, UNKNOWN) for f in om.fields} for r in a], om.fields, om.sign)
            pool.append(Pair(other, om))
            pool.append(Pair(got, m2))
        elif kind == "merge":
            got = obs.merge(other)
            m2 = Model(a + [{f: r.get(f, UNKNOWN) for f in m.fields} for r in b], m.fields, m.sign)
            pool.append(Pair(other, om))
            pool.append(Pair(got, m2))
        else:
            try:
                if kind == "concat":
                    got = cls.concatenate([obs, other])
                elif kind == "concat3":
                    got = cls.concatenate([other, obs, other])
                elif kind == "insert":
                    got = obs.insert_observations(other, op[2])
                else:
                    got = obs + other
            except Exception as e:
                if same_fields or type(e) not in (Exception, ValueError, TypeError):
                    raise
                # sets with other fields are refused
                ctx.cover("refused")
                check_pair(Pair(obs, m), where)
                return None
            if kind.startswith("concat"):
                if "track" in m.fields and cls.__name__ != "TrackEddiesObservations":
                    # only trajectories are renumbered
                    a, b = [dict(r) for r in m.rows], [dict(r) for r in om.rows]
                rows = a + b if kind == "concat" else b + a + tag([dict(r) for r in om.rows], "c")
                names = m.fields if kind == "concat" else om.fields
                if not same_fields:
                    names = set(got.fields)
                rows = [{f: r.get(f, UNKNOWN) for f in names} for r in rows]
                sign = m.sign if kind == "concat" else om.sign
                pool.append(Pair(other, om))
                pool.append(Pair(got, Model(rows, names, sign)))
            else:
                # rows aren't altered
                i = op[2] if kind == "insert" else -1
                if i < 0:
                    i = len(m.rows) + i + 1
                rows = [dict(r) for r in m.rows]
                extra = [{f: r.get(f, UNKNOWN) for f in m.fields} for r in om.rows]
                m.rows = rows[:i] + extra + rows[i:]
                if got is not obs:
                    pool.append(Pair(got, m.copy()))
                # other stays alive, before the current
                pool.insert(0, Pair(other, om))
    elif kind == "index":
        pool.append(Pair(obs.index(np.array(op[1:])), Model([dict(m.rows[i]) for i in op[1:]], m.fields, m.sign)))
    elif kind == "slice":
        pool.append(Pair(obs.index(slice(*op[1:])), Model([dict(r) for r in m.rows[slice(*op[1:])]], m.fields, m.sign)))
    else:
        raise ValueError(kind)
    # every set alive is what it must be
    for p in pool:
        check_pair(p, where)
    for i, p in enumerate(pool):
        for q in pool[i + 1:]:
            if p.obs is not q.obs and len(p.obs) and len(q.obs) and np.shares_memory(p.obs.obs, q.obs.obs):
                raise Fail("shared", f"{where}: two sets share their memory")
    return s


def canon(s):
    m = s.cur.model
    return repr((s.kind, sorted(m.fields), [sorted(r.items()) for r in m.rows], m.sign))


def start(kind, nb, extra, arrays):
    obs = small(kind, nb, extra, arrays, 0, [1, 1, 4][:nb])
    return State(kind, [Pair(obs, model_of(obs))])


INITS = [(2, ["eke"], CONT[:1]), (0, ["eke"], CONT[:1]), (1, [], []), (3, ["eke"], []), (2, [], CONT[:1])]


def space(tier):
    depth = 2 if tier == "quick" else 3
    for kind in ("eddies", "track"):
        for i, init in enumerate(INITS):
            for k, op in enumerate(ops(kind, tier)(start(kind, *init))):
                yield [kind, i, op, depth if i or tier == "quick" else depth, None]


def replay(ctx, kind, init, path):
    s = start(kind, *INITS[init])
    for p in s.pool:
        check_pair(p, "start")
    for op in path:
        ctx.step()
        if apply_op(ctx, s, op) is None:
            return None
    return s


def run(ctx, payload):
    """Breadth first from one first operation; states are mutable so each path is replayed from the start"""
    kind, init, first, depth, path = payload
    if path is not None:
        replay(ctx, kind, init, path)
        return
    s = replay(ctx, kind, init, [first])
    if s is None:
        return
    seen = {canon(s)}
    ctx.state(canon(s))
    frontier = [[first]]
    f = ops(kind, ctx.tier)
    for level in range(depth - 1 + (1 if len(INITS[init][1]) and init == 0 and ctx.tier == "quick" else 0)):
        nxt = list()
        for path in frontier:
            s = replay(ctx, kind, init, path)
            for op in f(s):
                p2 = path + [op]
                try:
                    s2 = replay(ctx, kind, init, p2)
                except Fail as e:
                    raise Fail(e.code, f"{p2}: {e.msg}", [kind, init, first, depth, p2])
                ctx.cover(op[0])
                if s2 is None:
                    continue
                k = canon(s2)
                if k in seen:
                    continue
                seen.add(k)
                ctx.state(k)
                ctx.outcome(kind, len(s2.cur.model.rows), tuple(sorted(s2.cur.model.fields)))
                nxt.append(p2)
        frontier = nxt


SCENARIOS = [
    Scenario("programs", space, run, shards=8,
             need=("copy", "drop", "add", "rotation", "merge", "merge-in", "concat", "concat3", "insert", "plus", "mutate", "refused"),
             bound="every program of 2 operations (3 from the first initial set; 3 (4) in thorough) from 5 initial sets of 0-3 rows, 2 classes, 5 other sets"),
]
