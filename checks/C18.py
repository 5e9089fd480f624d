# -*- coding: utf-8 -*-
"""C18: iteration and alignment by bins put each observation in its own bin"""
from itertools import product

import numpy as np

from mc.core import Scenario
from mc.obsfix import make

ASSUMPTIONS = [
    "bins are sorted, a value equal to the last bound is out, values are finite",
    "in window mode, values exactly on the border of the window could be inside or not",
    "alignment is made on integer values or with the same explicit bins for both sets",
]

LENGTH = dict(quick=4, thorough=6)
# a value and its neighbours
STEP = 0.1
EDGE = [round(STEP * i, 10) for i in range(5)]
VALUES = dict(
    i4=[0, 1, 2, 5], u2=[0, 1, 2, 5], u4=[0, 1, 2, 5], i1=[-3, 0, 1, 2], f4=[0, 0.5, 1, 2], f8=[-1, 0.25, 1, 2.75],
)
BINS = dict(
    default=lambda: None,
    regular=lambda: np.arange(0, 4),
    as_range=lambda: range(0, 4),
    as_list=lambda: [1, 2, 3],
    irregular=lambda: np.array([0, 1, 3, 7]),
    floats=lambda: np.array([-0.5, 0.25, 1, 1.75]),
    regular_float=lambda: np.arange(-1.5, 3, 0.5),
    one=lambda: [1, 2],
    one_large=lambda: [-10, 10],
    before=lambda: np.array([-20, -15, -10]),
    after=lambda: np.array([20, 25, 30]),
    inside=lambda: [0.9, 1.1],
)


def sequences(alphabet, length):
    for n in range(length + 1):
        yield from product(alphabet, repeat=n)


def groups(values, bins):
    """:return: list of (b0, b1, set of index), by the definition"""
    out = list()
    for b0, b1 in zip(bins[:-1], bins[1:]):
        index = {i for i, v in enumerate(values) if b0 <= v < b1}
        if index:
            out.append((float(b0), float(b1), index))
    return out


def default_bins(values):
    """bins of one unit from minimum"""
    if len(values) == 0:
        return [0]
    low, high = min(values), max(values)
    n = int(np.ceil(high - low)) + 1
    return [low + i for i in range(n + 2)]


def resolve(index, size):
    i = np.arange(size)[index]
    return set(i.tolist()), i.size


def check_groups(ctx, what, got, expected, size):
    res = list()
    for index, b0, b1 in got:
        s, n = resolve(index, size)
        ctx.check(n == len(s), "twice", lambda: f"{what}: an observation is twice in a group {index}")
        res.append((float(b0), float(b1), s))
    order = [r[0] for r in res]
    ctx.check(order == sorted(order), "order", lambda: f"{what}: groups are not sorted {order}")
    # a group which is empty isn't a mistake
    res = [r for r in res if r[2]]
    ctx.check(res == expected, "groups", lambda: f"{what}: {res} instead of {expected}")


def holder(size, cache=dict()):
    if size not in cache:
        cache[size] = make("track", size, only=["lon", "time", "lat", "amplitude"])
    return cache[size]


def iterate_space(tier):
    # each shard has its own type (less compilation)
    for n in range(LENGTH[tier] + 1):
        for name in BINS:
            for dtype in VALUES:
                yield [dtype, name, n]


def iterate_run(ctx, payload):
    dtype, name, n = payload
    obs = holder(n)
    for values in product(VALUES[dtype], repeat=n):
        x = np.array(values, dtype=dtype)
        exact = [v.item() for v in x]
        bins = BINS[name]()
        ctx.step()
        ctx.state(dtype, values)
        before = x.copy()
        kwargs = dict() if bins is None else dict(bins=bins)
        got = list(obs.iter_on(x, **kwargs))
        ctx.check((x == before).all(), "input", "values are modified")
        expected = groups(exact, default_bins(exact) if bins is None else list(bins))
        if exact != sorted(exact):
            ctx.cover("not sorted")
            if bins is not None and 2 * sum(len(g[2]) for g in expected) <= n:
                ctx.cover("minority in bins")
        elif len(expected) > 1:
            ctx.cover("sorted")
        if sum(len(g[2]) for g in expected) < n:
            ctx.cover("out of bins")
        if n == 0:
            ctx.cover("empty")
        check_groups(ctx, f"{dtype} {values} bins {name}", got, expected, n)
        ctx.outcome(repr(expected))


def edges_space(tier):
    """Values at a bound of bins, just before and just after"""
    for kind in ("arange", "linspace", "list", "origin", "third"):
        for n in range(1, 4 if tier == "thorough" else 3):
            yield [kind, n]


def edge_bins(kind):
    return dict(
        arange=np.arange(0, 0.55, 0.1),
        linspace=np.linspace(0, 1, 7),
        list=[0, 0.1, 0.3, 0.7],
        origin=np.arange(-0.25, 0.3, 0.125),
        third=np.arange(5) / 3.0 + 1000,
    )[kind]


def edges_run(ctx, payload):
    kind, n = payload
    bins = edge_bins(kind)
    alphabet = list()
    for b in bins:
        alphabet += [np.nextafter(b, -9999), float(b), np.nextafter(b, 9999)]
    obs = holder(n + 1)
    for values in product(alphabet, repeat=n):
        # sorted or not
        for last in (alphabet[0], alphabet[len(alphabet) // 2], alphabet[-1]):
            v = values + (last,)
            ctx.step()
            ctx.state(kind, v)
            got = list(obs.iter_on(np.array(v, dtype="f8"), bins=bins))
            check_groups(ctx, f"{kind} {v}", got, groups(v, list(bins)), n + 1)
    ctx.cover(kind)


def window_space(tier):
    for n in range(1, LENGTH[tier] + 1):
        for bins in ("default", "ints", "floats"):
            for dtype in ("i4", "u4", "f8"):
                yield [dtype, n, bins]


def window_run(ctx, payload):
    dtype, n, name = payload
    obs = holder(n)
    for values in product(VALUES[dtype], repeat=n):
        x = np.array(values, dtype=dtype)
        exact = [v.item() for v in x]
        for window in (0.4, 1, 1.5, 3):
            kwargs = dict(default=dict(), ints=dict(bins=[-2, 0, 1, 2, 9]), floats=dict(bins=np.array([0.5, 0.75, 2.5])))[name]
            centers = np.arange(min(exact), max(exact)) if name == "default" else kwargs["bins"]
            ctx.step()
            ctx.state(dtype, values, window)
            got = list(obs.iter_on(x, window=window, **kwargs))
            ctx.check(len(got) == len(centers), "windows", lambda: f"{values}: {len(got)} windows, {len(centers)} awaited")
            for c, (index, b0, b1) in zip(centers, got):
                s, nb = resolve(index, n)
                what = f"{dtype} {values} window {window} at {c}: {sorted(s)}"
                ctx.check(nb == len(s), "twice", what)
                ctx.check((b0, b1) == (c - window, c + window), "bounds", lambda: f"{what} {b0} {b1}")
                inside = {i for i, v in enumerate(exact) if abs(v - c) < window}
                around = {i for i, v in enumerate(exact) if abs(v - c) <= window}
                ctx.check(inside <= s <= around, "groups", lambda: f"{what} instead of {sorted(inside)}")
                if 0 < len(inside) < n:
                    ctx.cover("part")


FIELDS = dict(time=[3.0, 4.0, 6.0], track=[0, 1, 3], n=[0, 1, 2], virtual=[0, 1], lon=[-1.0, 0.0, 2.0])


def fields_space(tier):
    for n in range(LENGTH[tier] + 1):
        for name in FIELDS:
            yield [name, n]


def fields_run(ctx, payload):
    """By name of field, in the type of the field"""
    name, n = payload
    obs = make("track", n)
    for values in product(FIELDS[name], repeat=n):
        if n:
            obs.obs[name] = values
        for bins in (None, [0, 1, 2], [2, 4, 5, 7]):
            ctx.step()
            got = list(obs.iter_on(name, bins=bins))
            expected = groups(values, default_bins(values) if bins is None else bins)
            check_groups(ctx, f"{name} {values} {bins}", got, expected, n)
            # observations themselves
            for index, b0, b1 in got:
                sub = obs.index(index)
                v = sub[name]
                ctx.check(((v >= b0) & (v < b1)).all(), "extract", f"{name} {values} {bins}")
        ctx.state(name, values)


ALIGN = dict(i4=[0, 1, 2, 4], f8=[0.0, 1.0, 2.0, 4.0], u4=[0, 1, 2, 4])
ALIGN_BINS = dict(default=None, ints=[0, 1, 2, 3], floats=[0.5, 1.5, 4, 5], far=[40, 50])


def align_space(tier):
    n = 3 if tier == "quick" else 4
    for a, b in (("i4", "i4"), ("f8", "f8"), ("u4", "f8")):
        for first in sequences(range(4), n):
            if a != "i4" and len(first) == n and tier == "quick":
                continue
            yield [a, b, list(first), n - (1 if a != "i4" and tier == "quick" else 0)]


def align_run(ctx, payload):
    a, b, first, n = payload
    va = [ALIGN[a][i] for i in first]
    self_ = holder(len(va))
    xa = np.array(va, dtype=a)
    for other in sequences(range(4), n):
        vb = [ALIGN[b][i] for i in other]
        xb = np.array(vb, dtype=b)
        other_ = holder(len(vb))
        for name, bins in ALIGN_BINS.items():
            kwargs = dict() if bins is None else dict(bins=bins)
            ga = groups(va, default_bins(va) if bins is None else bins)
            gb = {g[0]: g[2] for g in groups(vb, default_bins(vb) if bins is None else bins)}
            for all_ref in (False, True):
                ctx.step()
                what = f"{a} {va} {b} {vb} bins {name} all_ref {all_ref}"
                got = list()
                for i, j, b0, b1 in self_.align_on(other_, (xa, xb), all_ref=all_ref, **kwargs):
                    si, ni = resolve(i, len(va))
                    sj, nj = resolve(j, len(vb))
                    ctx.check((ni, nj) == (len(si), len(sj)), "twice", what)
                    got.append((float(b0), float(b1), si, sj))
                expected = [(b0, b1, s, gb.get(b0, set())) for b0, b1, s in ga if all_ref or b0 in gb]
                ctx.check(got == expected, "align", lambda: f"{what}: {got} instead of {expected}")
                if all_ref and any(not e[3] for e in expected):
                    ctx.cover("alone")
                if any(e[3] for e in expected):
                    ctx.cover("pair")
    ctx.state(a, b, tuple(first))


def align_field_space(tier):
    for name in ("time", "track"):
        for first in sequences(range(3), 2 if tier == "quick" else 3):
            yield [name, list(first)]


def align_field_run(ctx, payload):
    """With a name of field"""
    name, first = payload
    va = [FIELDS[name][i] for i in first]
    self_ = make("track", len(va))
    if va:
        self_.obs[name] = va
    for second in sequences(range(3), 3):
        vb = [FIELDS[name][i] for i in second]
        other = make("track", len(vb))
        if vb:
            other.obs[name] = vb
        kwargs = dict() if name == "time" else dict(var_name=name)
        ctx.step()
        got = [(float(b0), resolve(i, len(va))[0], resolve(j, len(vb))[0]) for i, j, b0, _ in self_.align_on(other, **kwargs)]
        gb = {g[0]: g[2] for g in groups(vb, default_bins(vb))}
        expected = [(b0, s, gb[b0]) for b0, _, s in groups(va, default_bins(va)) if b0 in gb]
        ctx.check(got == expected, "align", lambda: f"{name} {va} {vb}: {got} instead of {expected}")
        ctx.state(name, tuple(va), tuple(vb))


SCENARIOS = [
    Scenario("iterate", iterate_space, iterate_run, shards=6, bound="every sequence of up to 4 (6) values, 6 types, 12 sets of bins",
             need=("not sorted", "sorted", "out of bins", "minority in bins", "empty")),
    Scenario("edges", edges_space, edges_run, shards=6, bound="values on bounds and at one ulp of them, sequences of up to 3 (4)",
             need=("arange", "linspace", "third")),
    Scenario("window", window_space, window_run, shards=3, bound="every sequence of up to 4 (6) values, 4 windows", need=("part",)),
    Scenario("fields", fields_space, fields_run, shards=5, bound="fields of each type by their name"),
    Scenario("align", align_space, align_run, shards=8, bound="every pair of sequences of up to 3 (4) values", need=("alone", "pair")),
    Scenario("align field", align_field_space, align_field_run, shards=2, bound="alignment by name of field"),
]
