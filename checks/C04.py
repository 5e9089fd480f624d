# -*- coding: utf-8 -*-
"""C04: association between two steps is one-to-one, made of allowed pairs, and stable"""
from itertools import permutations, product

from numpy import array, isfinite, nan

from mc.core import Fail, Scenario
from mc.geom import iou
from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker
from py_eddy_tracker.featured_tracking.old_tracker_reference import CheltonTracker
from py_eddy_tracker.observations.observation import EddiesObservations

FIELDS = ("time", "lon", "lat", "amplitude", "radius_e", "radius_s", "speed_average")
ASSUMPTIONS = [
    "costs of candidate pairs are chosen by the explorer through the documented hooks (mask_function, cost_function); "
    "the step itself is the unmodified public tracking() method",
]


class Costs:
    matrix = None


class Injected(EddiesObservations):
    """Identity of an eddy is its longitude, costs come from the explorer"""

    __slots__ = ()

    def mask_function(self, other, distance):
        return isfinite(Costs.matrix[self.lon.astype(int)][:, other.lon.astype(int)])

    @staticmethod
    def cost_function(records_in, records_out, distance):
        return Costs.matrix[records_in["lon"].astype(int), records_out["lon"].astype(int)]


class InjectedChelton(CheltonTracker):
    __slots__ = ()
    mask_function = Injected.mask_function
    cost_function = staticmethod(Injected.cost_function)


def build(cls, order, amplitude=None):
    e = cls(size=len(order), only_variables=FIELDS)
    e.sign_type = 1
    e.obs["lon"] = order
    e.obs["lat"] = 10
    for k in FIELDS[3:]:
        e.obs[k] = 1
    if amplitude is not None:
        e.obs["amplitude"] = [amplitude[i] for i in order]
    return e


def solve(cls, m, oi, oj, amplitude=None):
    """:return: dict (i, j) -> cost, with identities of the eddies"""
    Costs.matrix = m
    a, b = build(cls, oi, amplitude), build(cls, oj)
    i, j, c = a.tracking(b)
    out = dict()
    for i_, j_, c_ in zip(i, j, c):
        k = oi[i_], oj[j_]
        if k in out:
            raise Fail("twice", f"pair {k} is given twice")
        out[k] = float(c_)
    return out


def check_stable(pairs, cost, n0, n1):
    """
    :param dict pairs: pairs kept
    :param dict cost: cost of every pair allowed
    """
    if len({i for i, _ in pairs}) != len(pairs) or len({j for _, j in pairs}) != len(pairs):
        raise Fail("one_to_one", f"{sorted(pairs)}")
    for k, c in pairs.items():
        if k not in cost:
            raise Fail("not_allowed", f"pair {k} isn't proposed")
        if abs(c - cost[k]) > 1e-5:
            raise Fail("cost", f"pair {k} given with cost {c} instead of {cost[k]}")
    best_i, best_j = {i: cost[i, j] for i, j in pairs}, {j: cost[i, j] for i, j in pairs}
    for (i, j), c in cost.items():
        if (i, j) in pairs:
            continue
        if min(best_i.get(i, 9e9), best_j.get(j, 9e9)) > c:
            raise Fail("unstable", f"pair {(i, j)} (cost {c}) is missing, and not excluded by a cheaper one: {pairs}")


def as_dict(m):
    n0, n1 = m.shape
    return {(i, j): float(m[i, j]) for i in range(n0) for j in range(n1) if isfinite(m[i, j])}


# (shape, alphabet, length of prefix dealt to processes, every order of eddies)
SHAPES = dict(
    quick=[
        ((1, 1), 3, 0, True),
        ((0, 2), 1, 0, True),
        ((2, 0), 1, 0, True),
        ((0, 0), 1, 0, True),
        ((1, 3), 3, 0, True),
        ((3, 1), 3, 0, True),
        ((2, 2), 4, 1, True),
        ((2, 3), 3, 2, True),
        ((3, 2), 3, 2, False),
        ((3, 3), 2, 3, True),
        ((3, 3), 3, 4, False),
        ((3, 4), 2, 4, False),
        ((4, 3), 2, 4, False),
        ((4, 4), 2, 6, False),
    ],
    thorough=[
        ((2, 2), 5, 1, True),
        ((3, 2), 4, 3, True),
        ((3, 3), 3, 4, True),
        ((3, 3), 4, 5, False),
        ((3, 4), 3, 6, False),
        ((4, 4), 2, 8, False),
        ((4, 5), 2, 8, False),
        ((2, 5), 3, 5, False),
        ((5, 2), 3, 5, False),
    ],
)


def space_matrix(tier):
    for shape, nb, depth, orders in SHAPES[tier]:
        n = shape[0] * shape[1]
        for prefix in product(range(nb), repeat=min(depth, n)):
            yield [shape, nb, prefix, orders]


# values of the alphabet; 0 is "not proposed"
VALUES = [nan, 0.5, 0.25, 0.75, 0.125]


def run_matrix(ctx, payload):
    (n0, n1), nb, prefix, orders = payload
    i0, i1 = tuple(range(n0)), tuple(range(n1))
    for suffix in product(range(nb), repeat=n0 * n1 - len(prefix)):
        cells = tuple(prefix) + suffix
        v = list(map(VALUES.__getitem__, cells))
        if nb == 2:
            # All costs are distinct when the alphabet is "proposed or not", 2 orders of preference
            ranks = [lambda k: 7 * k % 16 / 16, lambda k: 5 * (k + 3) % 16 / 16]
        else:
            ranks = [None]
        for rank in ranks:
            w = v if rank is None else [x if x != x else 0.1 + rank(k) for k, x in enumerate(v)]
            m = array(w, dtype="f8").reshape(n0, n1)
            cost = as_dict(m)
            try:
                ref = solve(Injected, m, i0, i1)
                ctx.step()
                check_stable(ref, cost, n0, n1)
                ctx.state(n0, n1, w)
                ctx.outcome(n0, n1, sorted(ref))
                if orders and len(set(cost.values())) == len(cost):
                    ctx.cover("order")
                    for oi, oj in product(permutations(i0), permutations(i1)):
                        r = solve(Injected, m, oi, oj)
                        ctx.step()
                        if r != ref:
                            raise Fail("order", f"orders {oi} {oj} give {r} instead of {ref}")
                if len(ref) < min(len({i for i, _ in cost}), len({j for _, j in cost})):
                    ctx.cover("conflict_without_alternative")
                if len(cost) > len(ref):
                    ctx.cover("conflict")
            except Fail as e:
                raise Fail(e.code, f"costs {w} ({n0}x{n1}): {e.msg}", [[n0, n1], nb, cells, orders])
        ctx.beat(payload)


# Chelton: each eddy takes its closest candidate, then the one of largest amplitude keeps it
def space_chelton(tier):
    shapes = dict(
        quick=[((0, 0), 1), ((0, 2), 1), ((2, 0), 1), ((1, 1), 2), ((1, 2), 3), ((2, 1), 3), ((2, 2), 4), ((2, 3), 3), ((3, 2), 3), ((3, 3), 2)],
        thorough=[((3, 2), 4), ((3, 3), 3), ((2, 4), 3), ((4, 2), 3)],
    )[tier]
    for shape, nb in shapes:
        n = shape[0] * shape[1]
        for prefix in product(range(nb), repeat=min(3, n)):
            for amplitude in permutations(range(1, shape[0] + 1)):
                yield [shape, nb, prefix, amplitude]


def run_chelton(ctx, payload):
    (n0, n1), nb, prefix, amplitude = payload
    for suffix in product(range(nb), repeat=n0 * n1 - len(prefix)):
        cells = tuple(prefix) + suffix
        # Distinct costs: closest candidate is never ambiguous
        w = [nan if c == 0 else VALUES[c] + 0.01 * (k * 7 % 11) for k, c in enumerate(cells)]
        m = array(w, dtype="f8").reshape(n0, n1)
        cost = as_dict(m)
        choice = dict()
        for (i, j), c in cost.items():
            if i not in choice or cost[i, choice[i]] > c:
                choice[i] = j
        want = dict()
        for i, j in choice.items():
            if j not in want or amplitude[want[j]] < amplitude[i]:
                want[j] = i
        want = {(i, j) for j, i in want.items()}
        got = solve(InjectedChelton, m, tuple(range(n0)), tuple(range(n1)), amplitude)
        ctx.step()
        if set(got) != want:
            raise Fail("chelton", f"costs {w} amplitude {amplitude}: {sorted(got)} != {sorted(want)}", [[n0, n1], nb, cells, amplitude])
        ctx.state(n0, n1, w, amplitude)
        ctx.outcome(n0, n1, sorted(want))
        if len(choice) > len(want):
            ctx.cover("shared_target")


# Area tracker: rectangles, exact overlap
def rect(x, y, w, h):
    return ((x, y), (x + w, y), (x + w, y + h), (x, y + h))


def area_obs(polys, shift, cmin):
    e = AreaTracker(
        size=len(polys),
        only_variables=["time", "lon", "lat", "contour_lon_e", "contour_lat_e"],
        track_array_variables=5,
        array_variables=["contour_lon_e", "contour_lat_e"],
        cmin=cmin,
    )
    e.sign_type = 1
    for k, p in enumerate(polys):
        p = p + p[:1]
        e.obs["contour_lon_e"][k] = [x + shift for x, _ in p]
        e.obs["contour_lat_e"][k] = [y for _, y in p]
    return e


RECTS = [rect(0, 0, 4, 2), rect(1, 0, 4, 2), rect(2, 0, 4, 2), rect(0, 0, 2, 2), rect(0, 1, 4, 2), rect(9, 0, 4, 2)]


def space_area(tier):
    n = dict(quick=(2, 3), thorough=(3, 4))[tier]
    for n0 in range(n[0] + 1):
        for a in permutations(range(len(RECTS)), n0):
            for shift in (358, -2) if tier == "quick" else (358, -2, 718, -362):
                yield [a, n[1], shift]


def run_area(ctx, payload):
    a, nmax, shift = payload
    a = list(a)
    pair = {(i, j): iou(RECTS[i], RECTS[j]) for i in range(6) for j in range(6)}
    for n1 in range(nmax + 1):
        for b in permutations(range(len(RECTS)), n1):
            for cmin in (0, 0.2, 1 / 3.0 + 0.01):
                s, o = area_obs([RECTS[i] for i in a], 358, cmin), area_obs([RECTS[i] for i in b], shift, cmin)
                i, j, c = s.tracking(o)
                ctx.step()
                got = {(a[i_], b[j_]): float(c_) for i_, j_, c_ in zip(i, j, c)}
                if len(got) != len(i):
                    raise Fail("twice", f"{i} {j}")
                cost = {(x, y): 1 - float(pair[x, y]) for x in a for y in b if pair[x, y] > cmin}
                check_stable(got, cost, len(a), len(b))
                ctx.state(a, b, shift, cmin)
                ctx.outcome(sorted(got))
                if len(cost) > len(got):
                    ctx.cover("conflict")


SCENARIOS = [
    Scenario("matrix", space_matrix, run_matrix, shards=8, bound=str(SHAPES), need=("conflict", "order", "conflict_without_alternative")),
    Scenario("chelton", space_chelton, run_chelton, shards=4, need=("shared_target",), bound="every matrix up to 3x3, every order of amplitudes"),
    Scenario("area", space_area, run_area, shards=6, need=("conflict",), bound="every ordered set of up to 2x3 of 6 rectangles, 3 thresholds, same or other longitude convention"),
]
