# -*- coding: utf-8 -*-
"""Square eddies on a lattice : similarities are known exactly, small sets for networks"""
from fractions import Fraction

import numpy as np

from mc.obsfix import make

CONT = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
FIELDS = ["lon", "lat", "time", "amplitude"] + CONT


def square(x, y, half):
    return [x - half, x + half, x + half, x - half, x - half], [y - half, y - half, y + half, y + half, y - half]


def eddies(date, items, kind="eddies", extra=(), only=None, lon0=0.0, salt=0, unit=1.0):
    """items: (x, y, half size, half size of speed contour) in lattice units"""
    n = len(items)
    obs = make(kind, n, extra=list(extra), arrays=CONT, nb_sample=5, only=(FIELDS if only is None else only) + list(extra), salt=salt)
    obs.obs["time"] = date
    for i, (x, y, half, intern) in enumerate(items):
        x, y, half, intern = x * unit + lon0, y * unit, half * unit, intern * unit
        obs.obs["lon"][i], obs.obs["lat"][i] = x, y
        obs.obs["contour_lon_e"][i], obs.obs["contour_lat_e"][i] = square(x, y, half)
        obs.obs["contour_lon_s"][i], obs.obs["contour_lat_s"][i] = square(x, y, intern)
    return obs


def similarity(a, b, intern=False, minimal_area=False, hybrid_area=False, min_overlap=0.0):
    """Exact ratio of overlap of two squares, zero when it is not sufficient"""
    ha, hb = (a[3], b[3]) if intern else (a[2], b[2])
    ha, hb = Fraction(ha), Fraction(hb)
    out = Fraction(1)
    for k in (0, 1):
        ca, cb = Fraction(a[k]), Fraction(b[k])
        out *= max(Fraction(0), min(ca + ha, cb + hb) - max(ca - ha, cb - hb))
    small = min(4 * ha * ha, 4 * hb * hb)
    if minimal_area:
        ratio = out / small
    else:
        ratio = out / (4 * ha * ha + 4 * hb * hb - out)
    if ratio >= Fraction(min_overlap):
        return ratio
    if hybrid_area and ratio and out / small > Fraction(99, 100):
        return ratio
    return Fraction(0)


def components(n, pairs):
    """Label (first member) of each element"""
    label = list(range(n))

    def root(i):
        while label[i] != i:
            i = label[i]
        return i

    for i, j in pairs:
        a, b = root(i), root(j)
        if a != b:
            label[max(a, b)] = min(a, b)
    return [root(i) for i in range(n)]


def check_groups(ctx, group, n, pairs, what):
    """Two elements have the same non null group if and only if a chain of pairs joins them"""
    group = [int(g) for g in group]
    ctx.check(len(group) == n, "size", lambda: f"{what}: {group}")
    comp = components(n, pairs)
    linked = {i for p in pairs for i in p}
    for i in range(n):
        ctx.check((group[i] == 0) == (i not in linked), "alone", lambda: f"{what} {pairs}: {group}")
        for j in range(i):
            if i in linked and j in linked:
                ctx.check((group[i] == group[j]) == (comp[i] == comp[j]), "components", lambda: f"{what} {pairs}: {group}")
    return comp


# ------------------------------------------------------------------ networks
NET_FIELDS = ["track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost", "virtual", "time", "lon", "lat", "amplitude"]


def network(segments, extra=("virtual",), fields=None):
    """
    :param segments:
        list of (track, segment, dates, previous, next) where previous and next are None or (position of segment in list, position in dates)
    :return: network, position of each observation of each segment

    Segments are sorted by (track, segment) and by date. Observation k has amplitude k + 1.
    """
    rows, place = list(), dict()
    order = sorted(range(len(segments)), key=lambda i: segments[i][:2])
    for s in order:
        tr, seg, dates, _, _ = segments[s]
        for k, t in enumerate(dates):
            place[s, k] = len(rows)
            rows.append([tr, seg, t, -1, -1, 0.0, 0.0])

    def link(a, b, forward=True, backward=True):
        cost = ((a * 7 + b * 3) % 8 + 1) / 8
        if forward:
            rows[a][3], rows[a][5] = b, cost
        if backward:
            rows[b][4], rows[b][6] = a, cost

    for s in order:
        tr, seg, dates, previous, following = segments[s]
        if tr == 0:
            continue
        for k in range(len(dates) - 1):
            link(place[s, k], place[s, k + 1])
        if previous is not None:
            link(place[tuple(previous)], place[s, 0], forward=False)
        if following is not None:
            link(place[s, len(dates) - 1], place[tuple(following)], backward=False)
    n = len(rows)
    obs = make("network", n, extra=list(extra), only=NET_FIELDS if fields is None else fields)
    if n:
        for k, name in enumerate(("track", "segment", "time", "next_obs", "previous_obs", "next_cost", "previous_cost")):
            obs.obs[name] = [r[k] for r in rows]
        if "lon" in obs.fields:
            obs.obs["lon"] = [10.0 + 3 * r[2] + 0.25 * r[1] for r in rows]
            obs.obs["lat"] = [20.0 + 0.5 * r[1] for r in rows]
        obs.obs["amplitude"] = np.arange(n) + 1
        if "virtual" in obs.fields:
            obs.obs["virtual"] = 0
    return obs, place


def family(nb_segment, nb_date, max_length, gap=1):
    """
    Every network which could come from a splitting in segments: `nb_segment` segments in `nb_date` dates

    A segment comes from (goes in) an observation of an other segment at one of `gap` previous (next) dates.
    Target of a merging has always a main previous observation, source of a splitting has always a main next observation.
    """
    from itertools import combinations_with_replacement, product

    spans = [tuple(range(a, b)) for a in range(nb_date) for b in range(a + 1, min(a + max_length, nb_date) + 1)]
    for dates in combinations_with_replacement(spans, nb_segment):
        choices = list()
        for s, d in enumerate(dates):
            previous, following = [None], [None]
            for o, e in enumerate(dates):
                if o == s:
                    continue
                for k, t in enumerate(e):
                    if 1 <= d[0] - t <= gap:
                        previous.append((o, k))
                    if 1 <= t - d[-1] <= gap:
                        following.append((o, k))
            choices.append(list(product(previous, following)))
        for links in product(*choices):
            ok = True
            for s, (previous, following) in enumerate(links):
                # source of a splitting goes on somewhere
                if previous is not None:
                    o, k = previous
                    if k == len(dates[o]) - 1 and links[o][1] is None:
                        ok = False
                # target of a merging comes from somewhere
                if following is not None:
                    o, k = following
                    if k == 0 and (links[o][0] is None or links[o][0] == (s, len(dates[s]) - 1)):
                        ok = False
            if ok:
                yield [(1, s + 1, dates[s], links[s][0], links[s][1]) for s in range(nb_segment)]
