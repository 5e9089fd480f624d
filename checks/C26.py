# -*- coding: utf-8 -*-
"""C26: links of networks stay valid through every operation"""
from itertools import groupby, product

import numpy as np

from py_eddy_tracker.observations.network import NetworkObservations
from mc.core import Scenario
from mc.netfix import components, family, network
from mc.obsfix import same, table

ASSUMPTIONS = [
    "networks are sorted by network, segment and time before an operation, except sorting itself; they could have lost observations",
    "networks given to concatenation and merging have their own identifiers",
    "operations which change shape of segments (correct_close_events, swap_track, insert_virtual) are applied on networks whose segments are complete",
]


def specimens():
    S = dict()
    # main segment with a branch which leaves and comes back, and lonely eddies
    S["loop"] = [(0, 0, (0, 2, 2), None, None), (1, 1, (0, 1, 2, 3, 4, 5), None, None), (1, 2, (2, 3), (1, 1), (1, 4))]
    # segment A splits from B then B merges in A
    S["close"] = [(1, 1, (0, 1, 2, 3), None, (1, 2)), (1, 2, (2, 3, 4, 5), (0, 1), None), (2, 1, (1, 2), None, None)]
    S["two"] = [(1, 1, (0, 1, 2), None, None), (1, 2, (1, 2), (0, 0), None), (3, 1, (0, 1, 2, 3), None, None), (3, 2, (0, 1), None, (2, 2)), (3, 4, (3,), (2, 2), None)]
    # networks of one identifier which are not connected
    S["loose"] = [(0, 0, (5,), None, None), (2, 1, (0, 1), None, None), (2, 3, (1, 2, 3), None, None), (2, 4, (2, 3), (2, 0), None), (5, 1, (0, 3), None, None)]
    S["merge"] = [(1, 1, (0, 1, 2, 3), None, None), (1, 2, (0, 1), None, (0, 2)), (1, 3, (1,), None, (0, 2)), (1, 4, (3,), (0, 2), None)]
    S["chain"] = [(1, 1, (0, 1), None, (1, 1)), (1, 2, (1, 2, 3), None, (2, 1)), (1, 3, (3, 4, 5), (1, 1), None)]
    S["one"] = [(4, 1, (0,), None, None)]
    S["trash"] = [(0, 0, (0, 1, 1, 3), None, None)]
    S["holes"] = [(0, 0, (1, 1, 1, 1, 1, 1), None, None), (1, 1, (0, 1, 3, 4), None, None), (1, 2, (3, 6), (1, 1), None)]
    S["swap"] = [(1, 1, (0, 1, 2), None, None), (1, 2, (2, 3, 4, 5), (0, 1), None), (1, 3, (2, 3, 4), (0, 1), None)]
    S["empty"] = []
    return S


SPECIMENS = specimens()


# -------------------------------------------------------------------- model
class Row:
    __slots__ = ("id", "track", "segment", "time", "next", "previous", "next_cost", "previous_cost")

    def copy(self):
        new = Row()
        for k in self.__slots__:
            setattr(new, k, getattr(self, k))
        return new

    def key(self):
        # cost of a link which does not exist has no meaning
        return self.id, self.track, self.segment, self.time, self.next, self.previous, self.next and self.next_cost, self.previous and self.previous_cost


def read(obs, ids=None):
    """State of a network: rows in their order, links designate observations by their name (None when there is no link)"""
    n = len(obs)
    ids = obs.obs["amplitude"].tolist() if ids is None else ids
    out = list()
    col = {f: obs.obs[f].tolist() for f in ("track", "segment", "time", "next_obs", "previous_obs", "next_cost", "previous_cost")}
    for i in range(n):
        r = Row()
        r.id, r.track, r.segment, r.time = ids[i], col["track"][i], col["segment"][i], col["time"][i]
        r.next_cost, r.previous_cost = col["next_cost"][i], col["previous_cost"][i]
        for name, f in (("next", "next_obs"), ("previous", "previous_obs")):
            j = col[f][i]
            setattr(r, name, None if j == -1 else ids[j] if 0 <= j < n else "out of dataset")
        out.append(r)
    return out


def valid(ctx, state, what):
    """Links designate observations of the set, in the same network and in the right direction of time"""
    rows = {r.id: r for r in state}
    ctx.check(len(rows) == len(state), "observation duplicated", lambda: f"{what}")
    for r in state:
        for target, sign, name in ((r.next, 1, "next"), (r.previous, -1, "previous")):
            if target is None:
                continue
            ctx.check(target in rows, "link to nothing", lambda: f"{what} {name} of {r.id}: {target}")
            t = rows[target]
            ctx.check(t.track == r.track, "link out of network", lambda: f"{what} {name} of {r.id}: {target}")
            ctx.check((t.time - r.time) * sign > 0, "direction of time", lambda: f"{what} {name} of {r.id}: {target}")


def ordered(ctx, state, what):
    key = [(r.track, r.segment, r.time) for r in state]
    ctx.check(key == sorted(key), "order", lambda: f"{what} {key}")


def chains(state):
    """True if successive observations of each segment are linked"""
    for a, b in zip(state[:-1], state[1:]):
        if a.track and (a.track, a.segment) == (b.track, b.segment):
            if a.time >= b.time or a.next != b.id or b.previous != a.id:
                return False
    return True


def canonical(state):
    """Order of untracked observations of same date has no meaning"""
    out = list()
    for key, rows in groupby(state, key=lambda r: (r.track, r.segment, r.time)):
        out.extend(sorted(rows, key=lambda r: r.id) if key[0] == 0 else rows)
    return out


def agree(ctx, got, exp, what):
    got, exp = canonical(got), canonical(exp)
    if [r.key() for r in got] != [r.key() for r in exp]:
        for k in Row.__slots__:
            a, b = ([getattr(r, k) if k[-5:] != "_cost" or getattr(r, k[:-5]) is not None else None for r in x] for x in (got, exp))
            ctx.check(a == b, k, lambda: f"{what}: {a} instead of {b}")


def kept(state, keep):
    rows = [r.copy() for r, k in zip(state, keep) if k]
    ids = {r.id for r in rows}
    for r in rows:
        r.next = r.next if r.next in ids else None
        r.previous = r.previous if r.previous in ids else None
    return rows


def sort(rows):
    return sorted(rows, key=lambda r: (r.track, r.segment, r.time))


def ends(state):
    """First and last observation of each segment, in order of network"""
    out = dict()
    for r in state:
        out.setdefault((r.track, r.segment), list()).append(r)
    return out


def connexions(state):
    rows = {r.id: r for r in state}
    seg = ends(state)
    out = {k: set() for k in seg}
    for k, members in seg.items():
        for target in (members[0].previous, members[-1].next):
            if target is not None:
                o = rows[target].track, rows[target].segment
                out[k].add(o), out[o].add(k)
    return out


def regroup(state):
    """each set of connected segments is a network, in order of their first segment"""
    links = connexions(state)
    keys = list(links)
    comp = components(len(keys), [(keys.index(a), keys.index(b)) for a in keys for b in links[a]])
    first = min([r.track for r in state], default=1)
    label, k = dict(), 0 if first == 0 else 1
    for i, c in enumerate(comp):
        if c == i:
            label[i] = k
            k += 1
    out = [r.copy() for r in state]
    for r in out:
        r.track = label[comp[keys.index((r.track, r.segment))]]
    return sort(out)


def without_dead_end(state, nobs, ndays, recursive, mask):
    links = connexions(state)
    removed = set()
    for k, members in ends(state).items():
        short = len(members) < nobs or members[-1].time - members[0].time + 1 < ndays
        if short and len(links[k]) < 2 and not any(r.id in mask for r in members):
            removed |= {r.id for r in members}
    out = [r.copy() for r in state]
    for r in out:
        if r.id in removed:
            r.track = r.segment = 0
            r.next = r.previous = None
            r.next_cost = r.previous_cost = 0
        if r.next in removed:
            r.next, r.next_cost = None, 0
        if r.previous in removed:
            r.previous, r.previous_cost = None, 0
    out = sort(out)
    return without_dead_end(out, nobs, ndays, recursive - 1, mask) if recursive else out


# --------------------------------------------------------------- operations
def fresh(obs):
    """Observations computed from a state which must not be kept by the network"""
    for f in ("index_network", "index_segment_track", "segment_track_array", "period"):
        getattr(obs, f)


def op_mask(which):
    def run(ctx, obs, state, what):
        m = np.array([which(i, len(state), r) for i, r in enumerate(state)], dtype=bool)
        agree(ctx, read(obs.extract_with_mask(m)), kept(state, m), what)
        new = obs.extract_light_with_mask(m, track_extra_variables=["track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost"])
        exp = kept(state, m)
        agree(ctx, read(new, [r.id for r in exp]), exp, "light " + what)
        return obs.extract_with_mask(m), kept(state, m)

    return run


def op_slice(ctx, obs, state, what):
    n = len(state)
    sl = slice(n // 4, n - n // 4)
    keep = [sl.start <= i < sl.stop for i in range(n)]
    return obs.extract_with_mask(sl), kept(state, keep)


def op_index(ctx, obs, state, what):
    n = len(state)
    for index in (slice(0, n, 2), np.arange(n)[::3], np.arange(n) % 3 == 1, slice(n // 3, n)):
        keep = np.zeros(n, dtype=bool)
        keep[index] = True
        agree(ctx, read(obs.index(index)), kept(state, keep), f"{what} {index}")
    if n:
        i = np.arange(n)[1::3]
        keep = np.ones(n, dtype=bool)
        keep[i] = False
        agree(ctx, read(obs.index(i, reverse=True)), kept(state, keep), f"{what} {index}")
    return obs.index(slice(0, n, 2)), kept(state, [i % 2 == 0 for i in range(n)])


def op_network(ctx, obs, state, what):
    tracks = sorted({r.track for r in state})
    last = None
    for t in tracks:
        keep = [r.track == t for r in state]
        agree(ctx, read(obs.network(t)), kept(state, keep), f"{what} {t}")
    for sub in ([tracks[-1:], tracks[:1], tracks[::2], tracks] if tracks else []):
        keep = [r.track in sub for r in state]
        agree(ctx, read(obs.networks(sub)), kept(state, keep), f"{what} {sub}")
        last = sub
    sub = tracks[-1:]
    if not tracks:
        return obs, state
    return obs.networks(sub), kept(state, [r.track in sub for r in state])


def op_segments(ctx, obs, state, what):
    names = list(ends(state))
    if not names:
        return obs, state
    for sub in ([0], list(range(len(names)))[1::2] or [0], [len(names) - 1]):
        chosen = [names[i] for i in sub]
        keep = [(r.track, r.segment) in chosen for r in state]
        new, exp = obs.extract_segment(sub, absolute=True), kept(state, keep)
        agree(ctx, read(new), exp, f"{what} {sub}")
    return new, exp


def op_period(ctx, obs, state, what):
    if not state:
        return obs, state
    t0, t1 = min(r.time for r in state), max(r.time for r in state)
    for p in ((1, 3), (-1, 0), (0, -2), (2, -1), (-1, -1), (0, 0)):
        a = p[0] if p[0] > 0 else t0 - p[0]
        b = p[1] if p[1] > 0 else t1 + p[1]
        new, exp = obs.extract_with_period(p), kept(state, [a <= r.time <= b for r in state])
        agree(ctx, read(new), exp, f"{what} {p}")
    p = (-1, 0)
    return obs.extract_with_period(p), kept(state, [t0 + 1 <= r.time for r in state])


def op_longer(ctx, obs, state, what):
    days = dict()
    for r in state:
        days.setdefault(r.track, list()).append(r.time)
    days = {k: max(v) - min(v) + 1 for k, v in days.items()}
    for low, high in ((4, -1), (-1, 3), (2, 5), (100, -1)):
        exp = kept(state, [low <= days[r.track] <= (1e9 if high < 0 else high) for r in state])
        agree(ctx, read(obs.longer_than(low, high)), exp, f"{what} {low} {high}")
    exp = kept(state, [4 <= days[r.track] for r in state])
    return obs.longer_than(4), exp


def op_trash(ctx, obs, state, what):
    if not state:
        return obs, state
    first = [r for r in state if (r.track, r.segment) == (state[0].track, state[0].segment)]
    if any(r.track == 0 for r in state) and any(r.next is not None or r.previous is not None for r in first):
        return obs, state
    return obs.remove_trash(), kept(state, [r.track != 0 for r in state])


def op_sort(ctx, obs, state, what):
    ref = [r.id for r in state]
    for order in (("time", "track", "segment"), ("segment", "time", "track"), ("track", "time", "segment")):
        index_order, translate = obs.sort(order)
        new = read(obs)
        agree(ctx, new, sorted(state, key=lambda r: tuple(getattr(r, k) for k in order)), f"{what} {order}")
        ctx.check([ref[i] for i in index_order] == [r.id for r in new], "returned order", lambda: f"{what} {index_order}")
        ctx.check(translate[-1] == -1 and [new[translate[i]].id for i in range(len(ref))] == ref, "returned translation", lambda: f"{what} {translate}")
        obs.sort()
        agree(ctx, read(obs), state, f"{what} again")
    return obs, state


def op_dissociate(ctx, obs, state, what):
    if not state:
        return obs, state
    obs.dissociate_network()
    return obs, regroup(state)


def op_dead_end(nobs, ndays, recursive, masked):
    def run(ctx, obs, state, what):
        mask = None
        if masked:
            mask = np.array([i % 5 == 2 for i in range(len(state))], dtype=bool)
        protected = set() if mask is None else {r.id for r, m in zip(state, mask) if m}
        obs.remove_dead_end(nobs=nobs, ndays=ndays, recursive=recursive, mask=mask)
        return obs, without_dead_end(state, nobs, ndays, recursive, protected)

    return run


def op_number(ctx, obs, state, what):
    obs.numbering_segment(2)
    exp = [r.copy() for r in state]
    seen = dict()
    for r in exp:
        names = seen.setdefault(r.track, list())
        if r.segment not in names:
            names.append(r.segment)
        r.segment = 2 + names.index(r.segment)
    agree(ctx, read(obs), exp, what)
    fresh(obs)
    obs.numbering_network(5)
    names = list()
    for r in exp:
        if r.track not in names:
            names.append(r.track)
        r.track = 5 + names.index(r.track)
    agree(ctx, read(obs), exp, what)
    for k, _ in enumerate(names):
        ctx.check(len(obs.network(5 + k)) == sum(r.track == 5 + k for r in exp), "network after numbering", lambda: what)
    return obs, exp


def op_merge(ctx, obs, state, what):
    other, _ = network([(1, 1, (0, 1, 2), None, None), (1, 2, (1, 2), (0, 0), None)])
    other.obs["amplitude"] += 1000 * (1 + max((r.id for r in state), default=0) // 1000)
    so = read(other)
    shift = 1 + max((r.track for r in state), default=-1)
    exp = [r.copy() for r in so]
    for r in exp:
        r.track += shift
    got = obs.merge(other)
    agree(ctx, read(got), state + exp, "merge " + what)
    agree(ctx, read(other), so, "source " + what)
    other.obs["track"] += shift
    for r in so:
        r.track += shift
    agree(ctx, read(NetworkObservations.concatenate([obs, other])), state + so, "concatenate " + what)
    agree(ctx, read(NetworkObservations.concatenate([other, obs, other.extract_with_mask(np.zeros(5, dtype=bool))])), so + state, "concatenate " + what)
    for i in {0, len(state) // 2, len(state), -1}:
        target = obs.copy()
        target.insert_observations(other, i)
        i = len(state) if i == -1 else i
        agree(ctx, read(target), state[:i] + so + state[i:], f"insert at {i} {what}")
    agree(ctx, read(other), so, "source " + what)
    return NetworkObservations.concatenate([obs, other]), state + so


def unchanged_observations(ctx, new, state, what):
    a, b = sorted((r.id, r.time) for r in new), sorted((r.id, r.time) for r in state)
    ctx.check(a == b, "observations", lambda: f"{what}: {a} instead of {b}")


def op_close_events(ctx, obs, state, what):
    """Segments could be cut in an other way, next links are kept and segments are still chains"""
    if not chains(state):
        return obs, state
    old = {r.id: r for r in state}
    for days in (1, 3, 20):
        o = obs.copy()
        o.correct_close_events(nb_days_max=days)
        new = read(o)
        unchanged_observations(ctx, new, state, what)
        ctx.check(chains(new), "chains", lambda: f"{what} {days}: {[r.key() for r in new]}")
        for r in new:
            before = old[r.id]
            ctx.check(r.track == before.track and r.next == before.next and r.next_cost == before.next_cost, "next", lambda: f"{what} {r.key()}")
            if r.previous != before.previous:
                ctx.check(r.previous is not None and old[r.previous].next == r.id, "previous", lambda: f"{what} {r.key()}")
                ctx.check(r.previous_cost == old[r.previous].next_cost, "previous cost", lambda: f"{what} {r.key()}")
                ctx.cover("close event")
            else:
                ctx.check(r.previous_cost == before.previous_cost, "previous cost", lambda: f"{what} {r.key()}")
        # no more segment which splits from a segment which merges in it (one pass: corrections could create new ones)
        old_seg = ends(state)
        rows = {r.id: r for r in new}
        seg = ends(new)
        for k, members in seg.items():
            end = members[-1]
            if k[0] == 0 or end.next is None:
                continue
            target = rows[end.next]
            origin = seg[target.track, target.segment][0].previous
            if origin is None:
                continue
            before = old[target.id]
            already = old[end.id].next == target.id and old_seg[before.track, before.segment][0].previous == origin
            already &= (old[origin].track, old[origin].segment) == (old[end.id].track, old[end.id].segment)
            if already and (rows[origin].track, rows[origin].segment) == k:
                ctx.check(target.time - rows[origin].time >= days, "event not corrected", lambda: f"{what} {days}: {[r.key() for r in new]}")
                ctx.cover("too long event")
    return o, new


def op_swap(ctx, obs, state, what):
    if not chains(state):
        return obs, state
    old = {r.id: r for r in state}
    for args in ((2, 10, -0.2), (2, 2, -1.0), (1, 3, -0.2), (10, 1, -1.0)):
        o = obs.copy()
        o.swap_track(*args)
        new = read(o)
        unchanged_observations(ctx, new, state, what)
        ctx.check(chains(new), "chains", lambda: f"{what} {args}: {[r.key() for r in new]}")
        for r in new:
            ctx.check(r.track == old[r.id].track and r.previous == old[r.id].previous, "previous", lambda: f"{what} {r.key()}")
            if r.next != old[r.id].next:
                ctx.check(old[r.next].previous == r.id, "next", lambda: f"{what} {r.key()}")
                ctx.cover("swap")
        valid(ctx, new, what)
    return o, new


def op_virtual(ctx, obs, state, what):
    if not chains(state) or not state:
        return obs, state
    gaps = [b.time - a.time for a, b in zip(state[:-1], state[1:]) if a.track and (a.track, a.segment) == (b.track, b.segment)]
    if gaps and np.median(gaps) != 1:
        return obs, state
    o = obs.insert_virtual()
    n = len(o)
    ids = o.obs["amplitude"].copy()
    # names of new observations
    k = 5000 + 100 * (max(ids, default=0) // 5000)
    old_ids = [r.id for r in state]
    name = list()
    j = 0
    for i in range(n):
        if j < len(old_ids) and ids[i] == old_ids[j] and o.obs["time"][i] == state[j].time and o.obs["track"][i] == state[j].track:
            name.append(old_ids[j])
            j += 1
        else:
            name.append(float(k + i))
    ctx.check(j == len(old_ids), "observations", lambda: f"{what} {ids}")
    o.obs["amplitude"] = name
    new = read(o)
    valid(ctx, new, what)
    ordered(ctx, new, what)
    ctx.check(chains(new), "chains", lambda: f"{what} {[r.key() for r in new]}")
    rows = {r.id: r for r in new}
    for r in state:
        for forward in (True, False):
            # from neighbour to neighbour through new observations
            x = rows[r.id]
            target = x.next if forward else x.previous
            while target is not None and target not in old_ids:
                target = rows[target].next if forward else rows[target].previous
                ctx.cover("virtual")
            exp = r.next if forward else r.previous
            same_seg = exp is not None and (rows[exp].track, rows[exp].segment) == (r.track, r.segment)
            ctx.check(target == exp, "links across virtual", lambda: f"{what} {r.key()}: {target} {same_seg}")
    return o, new


OPS = dict(
    even=op_mask(lambda i, n, r: i % 2 == 0),
    all=op_mask(lambda i, n, r: True),
    none=op_mask(lambda i, n, r: False),
    first_cut=op_mask(lambda i, n, r: i != 1),
    last_cut=op_mask(lambda i, n, r: i < n - 2),
    early=op_mask(lambda i, n, r: r.time != 2),
    slice=op_slice,
    index=op_index,
    network=op_network,
    segments=op_segments,
    period=op_period,
    longer=op_longer,
    trash=op_trash,
    sort=op_sort,
    dissociate=op_dissociate,
    dead_end=op_dead_end(3, 0, 0, False),
    dead_end_days=op_dead_end(1, 3, 0, False),
    dead_end_again=op_dead_end(2, 4, 2, False),
    dead_end_mask=op_dead_end(4, 0, 1, True),
    number=op_number,
    merge=op_merge,
    close=op_close_events,
    swap=op_swap,
    virtual=op_virtual,
)


def apply(ctx, name, obs, state, what):
    fresh(obs)
    obs, exp = OPS[name](ctx, obs, state, what)
    ctx.step()
    got = read(obs)
    agree(ctx, got, exp, what)
    valid(ctx, got, what)
    if name not in ("merge",):
        ordered(ctx, got, what)
    # what is computed from links and identifiers must be up to date
    seg = ends(got)
    ctx.check([int(v) for v in obs.segment_track_array] == [list(seg).index((r.track, r.segment)) for r in got], "segments index", lambda: f"{what} {obs.segment_track_array}")
    ctx.check(obs.nb_segment == len(seg) and obs.nb_network == len({r.track for r in got}), "counts", lambda: f"{what} {obs.nb_segment} {obs.nb_network}")
    if got:
        sizes = {t: sum(r.track == t for r in got) for t in {r.track for r in got}}
        t = np.array(sorted(sizes))
        ctx.check([int(v) for v in obs.network_size(t)] == [sizes[i] for i in t], "network_size", lambda: f"{what} {obs.network_size(t)}")
        nb_seg = {i: sum(k[0] == i for k in seg) for i in sizes}
        ctx.check([int(v) for v in obs.network_segment_size(t)] == [nb_seg[i] for i in t], "network_segment_size", lambda: f"{what}")
        ctx.check(obs.period == (min(r.time for r in got), max(r.time for r in got)), "period", what)
    ctx.check([int(v) for v in obs.segment_size()] == [len(v) for v in seg.values()], "segment_size", what)
    return obs, got


def space(tier):
    depth = 2 if tier == "quick" else 3
    for s in SPECIMENS:
        for first in product(OPS, repeat=depth - 1):
            yield (s, first)


def run(ctx, payload):
    name, first = payload
    obs, _ = network(SPECIMENS[name])
    state = read(obs)
    valid(ctx, state, name)
    what = name
    for op in first:
        what += f" > {op}"
        obs, state = apply(ctx, op, obs, state, what)
        ctx.state(name, str([r.key() for r in state]))
    for op in OPS:
        _, end = apply(ctx, op, obs.copy(), state, f"{what} > {op}")
        agree(ctx, read(obs), state, f"source {what} > {op}")
        ctx.state(name, str([r.key() for r in end]))
        ctx.outcome(str([(r.id, r.next, r.previous) for r in end]))
    ctx.cover("emptied", len(SPECIMENS[name]) > 0 and not end)
    ctx.cover("trash", any(r.track == 0 for r in end))


# ------------------------------------------- every small network, one operation
def family_space(tier):
    sizes = [(2, 4, 4), (3, 4, 3)] if tier == "quick" else [(2, 5, 5), (3, 5, 3), (3, 4, 4)]
    for nb_segment, nb_date, length in sizes:
        for net in family(nb_segment, nb_date, length):
            yield (net,)
    for net in family(2, 5 if tier == "quick" else 6, 3, gap=2):
        yield (net,)


def family_run(ctx, payload):
    (net,) = payload
    net = [(t, s, tuple(d), p, n) for t, s, d, p, n in net]
    obs, _ = network(net)
    state = read(obs)
    valid(ctx, state, str(net))
    for op in OPS:
        _, end = apply(ctx, op, obs.copy(), state, f"{net} > {op}")
        ctx.outcome(op, str([(r.id, r.next, r.previous) for r in end]))
    ctx.cover("linked", any(p is not None for _, _, _, p, _ in net))
    ctx.state(str(net))


# ------------------------------------------------------------ a lot of segments
def long_space(tier):
    for shape in ("chain", "star", "ladder"):
        for n in (3, 900, 1500) if tier == "quick" else (3, 500, 900, 1000, 1500, 5000):
            yield (shape, n)


def long_network(shape, n):
    if shape == "chain":
        # each segment comes from the first observation of the previous one
        return [(1, k + 1, (k, k + 1), None if k == 0 else (k - 1, 0), None) for k in range(n)]
    if shape == "star":
        return [(1, 1, tuple(range(n + 1)), None, None)] + [(1, k + 2, (k + 1,), (0, k), None) for k in range(n - 1)]
    # each segment merges in the next one
    return [(1, k + 1, (2 * k, 2 * k + 1, 2 * k + 2), None, None if k == n - 1 else (k + 1, 1)) for k in range(n)]


def long_run(ctx, payload):
    shape, n = payload
    obs, _ = network(long_network(shape, n))
    state = read(obs)
    ctx.check(obs.nb_segment == n, "segments", f"{payload}")
    try:
        obs.dissociate_network()
        ctx.step()
    except RecursionError:
        ctx.fail("too many segments", f"{payload}")
    agree(ctx, read(obs), state, f"dissociate {payload}")
    obs.remove_dead_end(nobs=3)
    ctx.step()
    agree(ctx, read(obs), without_dead_end(state, 3, 0, 0, set()), f"dead end {payload}")
    ctx.state(shape, n)
    ctx.outcome(len(ends(read(obs))))


SCENARIOS = [
    Scenario("sequences", space, run, shards=32, bound="11 networks, every sequence of 2 (3) operations among 24", need=["emptied", "trash", "close event", "swap", "virtual"]),
    Scenario("family", family_space, family_run, shards=32, bound="every network of 2-3 segments over 4 (5) dates (links over 1-2 dates), each of 24 operations", need=["linked", "close event", "too long event", "swap"]),
    Scenario("long", long_space, long_run, shards=6, bound="networks of up to 1500 (5000) segments which follow each other"),
]
