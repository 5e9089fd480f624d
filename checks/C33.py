# -*- coding: utf-8 -*-
"""C33: particles of eddies are counted where they arrive"""
from itertools import product
import os
import shutil

import numpy as np

from mc.core import Fail, Scenario, scratch
from mc.obsfix import make
from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset
from py_eddy_tracker.observations.groups import particle_candidate, particle_candidate_step

ASSUMPTIONS = [
    "dates of eddies are whole days",
    "percents are whole numbers (truncated); between targets with the same number of particles any of them is right",
    "particles exactly on a contour aren't judged",
]
CONT = dict(effective=("contour_lon_e", "contour_lat_e"), speed=("contour_lon_s", "contour_lat_s"))
LABELS = tuple(CONT)
STEP = 0.25
DAY = 86400


def dataset(rows, kind="track"):
    """:param rows: list of (time, box of effective contour, box of speed contour)"""
    names = list(CONT["effective"] + CONT["speed"])
    obs = make(kind, len(rows), arrays=names, nb_sample=6, only=["lon", "lat", "time", "track"] + names)
    for i, (t, box_e, box_s) in enumerate(rows):
        obs.obs["time"][i] = t
        for label, (x0, x1, y0, y1) in (("effective", box_e), ("speed", box_s)):
            lon, lat = CONT[label]
            obs.obs[lon][i] = [x0, x1, x1, x0, x0, x0]
            obs.obs[lat][i] = [y0, y0, y1, y1, y0, y0]
        obs.obs["lon"][i], obs.obs["lat"][i] = (box_e[0] + box_e[1]) / 2, (box_e[2] + box_e[3]) / 2
    obs.obs["track"] = 1
    if kind == "network":
        for name in ("next_obs", "previous_obs"):
            obs.obs[name] = -1
        obs.obs["segment"] = np.arange(len(rows)) + 1
    return obs


def inside(box, x, y):
    """Whatever the convention of longitude"""
    if np.isnan(x) or np.isnan(y):
        return False
    x = (x - box[0]) % 360 + box[0]
    if min(abs(x - box[0]), abs(x - box[1]), abs(y - box[2]), abs(y - box[3])) < 1e-3:
        raise AssertionError("particle of the harness on a contour")
    return box[0] < x < box[1] and box[2] < y < box[3]


def mesh(box, step=STEP):
    """Every multiple of step which is in the box"""
    x0, x1, y0, y1 = box
    i = range(int(np.floor(x0 / step)), int(np.ceil(x1 / step)) + 1)
    j = range(int(np.floor(y0 / step)), int(np.ceil(y1 / step)) + 1)
    return [(a * step, b * step) for a in i for b in j if inside(box, a * step, b * step)]


def expected(counts, ref):
    """(best, second) percents"""
    c = sorted(counts.values(), reverse=True) + [0, 0]
    return [int(100 * v // ref) if ref else 0 for v in c[:2]]


def judge(ctx, targets, pct, counts, ref, where):
    """:param counts: number of particles by target"""
    targets, pct = [int(i) for i in targets], [float(p) for p in pct]
    ranked = sorted(counts.values(), reverse=True)
    for k in (0, 1):
        if k >= len(ranked):
            ctx.check(targets[k] == -1 and pct[k] == 0, "no target", lambda: f"{where} rank {k}: {targets} {pct}, {counts} / {ref}")
            continue
        ctx.check(counts.get(targets[k]) == ranked[k], "target", lambda: f"{where} rank {k}: {targets} {pct}, {counts} / {ref}")
        true = 100.0 * ranked[k] / ref
        ctx.check(true - 1 < pct[k] <= true + 1e-9, "percent", lambda: f"{where} rank {k}: {targets} {pct}, {counts} / {ref}")
    ctx.check(targets[0] != targets[1] or targets[0] == -1, "same target twice", lambda: f"{where}: {targets}")
    ctx.cover(f"targets{min(2, len(ranked))}")
    ctx.outcome(tuple(ranked[:2]), ref)


class Cube:
    """Currents which bring each particle where we want, speed is in degrees by second"""

    def __init__(self, arrival=None, speed=None):
        self.arrival, self.speed = arrival, speed
        self.calls = list()

    def advect(self, x, y, t_init, nb_step=10, time_step=600, backward=False, **kw):
        x, y = np.array(x, dtype="f8"), np.array(y, dtype="f8")
        self.calls.append((float(t_init), bool(backward), x.copy(), y.copy()))
        t = t_init * DAY
        while True:
            dt = nb_step * time_step * (-1 if backward else 1)
            t += dt
            if self.speed is not None:
                x, y = x + self.speed[0] * dt, y + self.speed[1] * dt
            # Arrival only at the date for which there are eddies
            if self.arrival is not None and abs(t - t_init * DAY) >= self.arrival[0] * DAY:
                k = [self.arrival[1](a, b) for a, b in zip(*self.calls[-1][2:])]
                x, y = np.array([p[0] for p in k], dtype="f8"), np.array([p[1] for p in k], dtype="f8")
            yield t, x, y


# ------------------------------------------------------------------ tables
# starting eddies : boxes of speed contour hold 2, 1 and 0 particles, those of effective contour 3, 1 and 0
START = [
    ((9.875, 10.625, 0.125, 0.375), (9.875, 10.375, 0.125, 0.375)),
    ((19.9, 20.1, -0.1, 0.1), (19.95, 20.05, -0.05, 0.05)),
    ((30.05, 30.2, 0.05, 0.2), (30.1, 30.15, 0.1, 0.15)),
]
# arrivals, first one is over longitude 0
END = [
    ((-1.0, 1.0, 3.0, 5.0), (-0.5, 0.5, 3.5, 4.5)),
    ((13.0, 15.0, 3.0, 5.0), (13.5, 14.5, 3.5, 4.5)),
    ((16.0, 18.0, 3.0, 5.0), (16.5, 17.5, 3.5, 4.5)),
]
PLACES = [(0.25, 4.0), (359.25, 4.0), (14.0, 4.0), (14.75, 4.0), (16.75, 4.0), (200.0, 4.0), (np.nan, np.nan)]
# an eddy of an other date is everywhere
DECOY = ((-10.0, 40.0, -10.0, 10.0), (-10.0, 40.0, -10.0, 10.0))
ORDERS = dict(
    sorted=["s0", "s1", "s2", "d", "e0", "e1", "e2"],
    mixed=["e1", "s2", "d", "s0", "e2", "e0", "s1"],
)
T0 = 20000


def rows(order, n_days):
    out = list()
    for k in ORDERS[order]:
        if k == "d":
            out.append((T0 + 5,) + DECOY)
        elif k[0] == "s":
            out.append((T0,) + START[int(k[1])])
        else:
            out.append((T0 + n_days,) + END[int(k[1])])
    return out


def space_tables(tier):
    for start, end in product(LABELS, repeat=2):
        nb = 3 if start == "speed" else 4
        places = range(len(PLACES)) if tier == "thorough" or nb == 3 else (0, 1, 2, 3, 5, 6)
        for i, arrivals in enumerate(product(places, repeat=nb)):
            # every order and direction are seen by each set of counts
            yield [start, end, ["sorted", "mixed"][i % 2], [1, -2, 3][i % 3], list(arrivals)]


def run_tables(ctx, payload):
    start, end, order, n_days, arrivals = payload
    table = rows(order, n_days)
    box = {label: k for k, label in enumerate(LABELS, start=1)}
    i_start = [k for k, r in enumerate(table) if r[0] == T0]
    i_end = [k for k, r in enumerate(table) if r[0] == T0 + n_days]
    # particles of each starting eddy and what must be counted
    where, counts, ref = dict(), {k: dict() for k in i_start}, dict()
    todo = list(arrivals)
    # order of eddies isn't the order of table
    for s in range(3):
        k = ORDERS[order].index(f"s{s}")
        particles = mesh(table[k][box[start]])
        ref[k] = len(particles)
        for p in particles:
            place = PLACES[todo.pop(0)]
            where[p] = place
            for j in i_end:
                if inside(table[j][box[end]], *place):
                    counts[k][j] = counts[k].get(j, 0) + 1
    if todo:
        raise AssertionError("number of particles of the harness")
    cube = Cube(arrival=(abs(n_days), lambda a, b: where[(float(a), float(b))]))
    obs = dataset(table)
    shape = len(obs), 2
    i_target, pct = -np.ones(shape, dtype="i4"), np.zeros(shape, dtype="i1")
    particle_candidate(cube, obs, STEP, T0, i_target, pct, contour_start=start, contour_end=end, n_days=n_days)
    ctx.step()
    got = sorted(zip(*[a.tolist() for a in cube.calls[0][2:]]))
    ctx.check(got == sorted(where), "particles", lambda: f"{got} instead of {sorted(where)}")
    for k in range(len(table)):
        judge(ctx, i_target[k], pct[k], counts.get(k, dict()), ref.get(k, 0), f"candidate, eddy {k}")
    # local version
    cube.calls.clear()
    contours = [[obs[name][ix] for name in CONT[label]] for label, ix in ((start, i_start), (end, i_end))]
    kw = dict(backward=True) if n_days < 0 else dict()
    i_local, pct_local = particle_candidate_step(T0, *contours, STEP, n_days, cube, **kw)
    ctx.step()
    ctx.check(i_local.shape == (3, 2), "shape", lambda: f"{i_local.shape}")
    for n, k in enumerate(i_start):
        target = [i_end[i] if i >= 0 else -1 for i in i_local[n]]
        judge(ctx, target, pct_local[n], counts[k], ref[k], f"step, eddy {k}")
    ctx.state(start, end, tuple(sorted((k, tuple(sorted(c.items()))) for k, c in counts.items())))
    lost = sum(np.isnan(p[0]) for p in where.values())
    ctx.cover("lost" if lost else "all alive")
    ctx.cover(start + " " + end)


# ------------------------------------------------------------------ every count for a lot of particles
BIG = (99.9, 101.1, -3.1, 0.1), (99.9, 101.1, -3.1, 0.1)


def space_counts(tier):
    for step in (STEP, STEP / 2):
        n = len(mesh(BIG[0], step))
        for a in range(n + 1):
            # with a lot of particles, only around half of them
            if tier == "quick" and step != STEP and not n - 25 < 2 * a < n + 5:
                continue
            yield [n, a]


def run_counts(ctx, payload):
    n, a = payload
    step = STEP if n == len(mesh(BIG[0])) else STEP / 2
    table = [(T0,) + BIG, (T0 + 1,) + END[0], (T0 + 1,) + END[1]]
    obs = dataset(table)
    particles = mesh(BIG[0], step)
    # number in the second one
    for b in sorted({0, 1, a - 1, a, a + 1, n - a - 1, n - a} & set(range(n - a + 1))):
        rank = {p: PLACES[0] if k < a else (PLACES[2] if k < a + b else PLACES[5]) for k, p in enumerate(particles)}
        cube = Cube(arrival=(1, lambda x, y: rank[(float(x), float(y))]))
        counts = {i: c for i, c in ((1, a), (2, b)) if c}
        for dtype in ("i1", "f8"):
            i_target, pct = -np.ones((3, 2), dtype="i4"), np.zeros((3, 2), dtype=dtype)
            particle_candidate(cube, obs, step, T0, i_target, pct, n_days=1)
            ctx.step()
            judge(ctx, i_target[0], pct[0], counts, n, f"{dtype}")
        contours = [[obs[name][ix] for name in CONT["speed"]] for ix in ([0], [1, 2])]
        i_local, pct_local = particle_candidate_step(T0, *contours, step, 1, cube)
        ctx.step()
        judge(ctx, [i + 1 if i >= 0 else -1 for i in i_local[0]], pct_local[0], counts, n, "step")
        ctx.state(n, a, b)
        ctx.cover("close" if abs(a - b) == 1 else "far")


# ------------------------------------------------------------------ every date
PATTERNS = [(0,), (0, 1), (1, 0), (), (1,)]
SIDE = ((0.0, 0.8), (0.9, 1.7))


def boxes(t, k, speed):
    """Eddies which are moved by the current"""
    dx, dy = speed[0] * DAY * t, speed[1] * DAY * t
    x0, x1 = SIDE[k][0] + 5.14 + dx, SIDE[k][1] + 5.14 + dx
    e = (x0, x1, 0.1 + dy, 1.1 + dy)
    return e, (x0 + 0.16, x1 - 0.04, 0.1 + dy + 0.16, 1.1 + dy - 0.06)


def space_atlas(tier):
    nb = 4 if tier == "quick" else 5
    for pattern in product(range(len(PATTERNS)), repeat=nb):
        if 3 in (pattern[0], pattern[-1]):
            continue
        if nb == 5 and sum(pattern) % 3:
            continue
        yield list(pattern)


def count_by_counting(table, i_start, i_end, start, end, move):
    box = {label: k for k, label in enumerate(LABELS, start=1)}
    out = dict()
    for k in i_start:
        particles = mesh(table[k][box[start]])
        counts = dict()
        for p in particles:
            q = move(*p)
            for j in i_end:
                if inside(table[j][box[end]], *q):
                    counts[j] = counts.get(j, 0) + 1
        out[k] = counts, len(particles)
    return out


def run_atlas(ctx, payload):
    # eddies don't follow exactly the currents
    speed, drift = (0.5 / DAY, 0.25 / DAY), (0.63 / DAY, 0.19 / DAY)
    table = list()
    for t, p in enumerate(payload):
        for k in PATTERNS[p]:
            table.append((T0 + t,) + boxes(t, k, drift))
    # not sorted by date
    table = table[1::2] + table[::2]
    obs = dataset(table)
    dates = [r[0] for r in table]
    for dt, (start, end) in product((1, -1, 2, -3), ((False, False), (True, False), (False, True))):
        names = [LABELS[int(i)] for i in (start, end)]
        cube = Cube(speed=speed)
        kw = dict(backward=True) if dt < 0 else dict()
        if start:
            kw["day_fraction"] = 4
        i_target, pct = obs.particle_candidate_atlas(cube, STEP, dt, start_intern=start, end_intern=end, **kw)
        ctx.step()
        ctx.check(i_target.shape == pct.shape == (len(obs), 2), "shape", lambda: f"{i_target.shape}")
        for t in range(min(dates), max(dates) + 1):
            i0 = [k for k, d in enumerate(dates) if d == t]
            i1 = [k for k, d in enumerate(dates) if d == t + dt]
            truth = count_by_counting(table, i0, i1, *names, lambda x, y: (x + speed[0] * DAY * dt, y + speed[1] * DAY * dt))
            for k, (counts, ref) in truth.items():
                judge(ctx, i_target[k], pct[k], counts, ref, f"{names} dt={dt} eddy {k} ({dates[k]})")
            # date by date
            if i0 and not start and not end:
                i_, p_ = -np.ones((len(obs), 2), dtype="i4"), np.zeros((len(obs), 2), dtype="i1")
                particle_candidate(Cube(speed=speed), obs, STEP, t, i_, p_, n_days=dt, contour_start=names[0], contour_end=names[1])
                ctx.step()
                ctx.check((p_[i0] == pct[i0]).all(), "atlas and candidate", lambda: f"{dt} {t}: {p_.tolist()} {pct.tolist()}")
        for t, back, _, _ in cube.calls:
            ctx.check(back == (dt < 0), "direction", lambda: f"{dt}")
            ctx.check(min(dates) <= t <= max(dates) and min(dates) <= t + dt <= max(dates), "date", lambda: f"{dt} {t}")
        ctx.cover("forward" if dt > 0 else "backward", (i_target[:, 0] != -1).sum())
        last = max(dates) if dt > 0 else min(dates)
        ctx.cover("last date reached", sum(i != -1 and dates[i] == last for i in i_target[:, 0]))
    ctx.state(tuple(payload))


# ------------------------------------------------------------------ currents from files
def write(path, u, v):
    x, y = np.arange(2.0, 14.0), np.arange(-3.0, 4.0)
    shape = x.size, y.size
    g = RegularGridDataset.with_array(
        ("lon", "lat"),
        dict(lon=x, lat=y, u=np.ma.array(np.full(shape, u)), v=np.ma.array(np.full(shape, v))),
        variables_description=dict(u=dict(units="m/s"), v=dict(units="m/s")),
        centered=True,
    )
    g.write(path)


MS = np.pi * RegularGridDataset.EARTH_RADIUS / 180 / DAY


def space_files(tier):
    for pattern in product((1, 2, 3), repeat=4 if tier == "quick" else 5):
        if pattern[0] == 3 or pattern[-1] == 3:
            continue
        yield list(pattern)


def run_files(ctx, payload):
    folder = scratch()
    try:
        table = list()
        for t, p in enumerate(payload):
            for k in PATTERNS[p]:
                table.append((T0 + t,) + boxes(t, k, (0.0, 0.41 / DAY)))
        obs = dataset(table, "network")
        dates = [r[0] for r in table]
        # North speed is a function of time : degrees by day
        v = {T0 + t: (0.5, 0.25, 0.5, 0.25, 0.75)[t] for t in range(len(payload))}
        for t in v:
            write(os.path.join(folder, f"{t}.nc"), 0.0, v[t] * MS)
        asked = list()

        def date2file(t):
            asked.append(int(t))
            return os.path.join(folder, f"{t}.nc")

        uv = dict(x_name="lon", y_name="lat")

        def integral(t0, t1):
            return sum((v[t] + v[t + 1]) / 2 for t in range(min(t0, t1), max(t0, t1))) * (1 if t1 > t0 else -1)

        for n_days, contours in product((1, 2, 3), (("speed", "speed"), ("effective", "speed"), ("speed", "effective"))):
            for sign in (1, -1):
                asked.clear()
                function = obs.segment_coherence_forward if sign > 0 else obs.segment_coherence_backward
                kw = dict(contour_start=contours[0], contour_end=contours[1])
                i_target, pct = function(date2file, uv, n_days=n_days, step_mesh=STEP, **kw)
                ctx.step()
                ctx.check(set(asked) <= set(v), "date of files", lambda: f"{asked}")
                for t in range(min(dates), max(dates) + 1):
                    dt = n_days * sign
                    i0 = [k for k, d in enumerate(dates) if d == t]
                    if not min(dates) <= t + dt <= max(dates):
                        truth = {k: (dict(), 1) for k in i0}
                    else:
                        i1 = [k for k, d in enumerate(dates) if d == t + dt]
                        dy = integral(t, t + dt)
                        truth = count_by_counting(table, i0, i1, *contours, lambda x, y: (x, y + dy))
                    for k, (counts, ref) in truth.items():
                        judge(ctx, i_target[k], pct[k], counts, ref, f"{contours} {dt} eddy {k} ({dates[k]})")
                ctx.cover("forward" if sign > 0 else "backward", (i_target[:, 0] != -1).sum())
        # cube with all the dates
        cube = GridCollection.from_netcdf_list([date2file(t) for t in v], list(v), **uv)
        for dt in (1, -1, 2):
            kw = dict(backward=True) if dt < 0 else dict()
            i_target, pct = obs.particle_candidate_atlas(cube, STEP, dt, u_name="u", v_name="v", **kw)
            ctx.step()
            for t in range(min(dates), max(dates) + 1):
                i0 = [k for k, d in enumerate(dates) if d == t]
                i1 = [k for k, d in enumerate(dates) if d == t + dt]
                if not i1:
                    truth = {k: (dict(), 1) for k in i0}
                else:
                    truth = count_by_counting(table, i0, i1, "effective", "effective", lambda x, y: (x, y + integral(t, t + dt)))
                for k, (counts, ref) in truth.items():
                    judge(ctx, i_target[k], pct[k], counts, ref, f"cube {dt} eddy {k} ({dates[k]})")
        ctx.state(tuple(payload))
    finally:
        shutil.rmtree(folder)


# ------------------------------------------------------------------ particles of contours
SHAPES = dict(
    box=[(0, 0), (4, 0), (4, 3), (0, 3)],
    triangle=[(0, 0), (5, 1), (2, 5)],
    hollow=[(0, 0), (6, 0), (6, 5), (3, 1), (0, 5)],
    tiny=[(0, 0), (1, 0), (1, 1)],
)


def space_mesh(tier):
    steps = (0.25, 0.5, 1.0, 0.1) if tier == "quick" else (0.25, 0.5, 1.0, 0.1, 1 / 60.0, 0.125)
    for step, name, x, y, variant in product(steps, SHAPES, (-180.3, -0.55, 0.05, 100.0625, 359.45), (-60.2, -0.3, 44.95), range(4)):
        yield [step, name, x, y, variant]


def run_mesh(ctx, payload):
    step, name, x, y, variant = payload
    unit = 0.15
    other = SHAPES["box"]
    polys = list()
    for k, pts in enumerate((SHAPES[name], other)):
        pts = [(np.float32(x + k * 0.2 + unit * a), np.float32(y + unit * b)) for a, b in pts]
        if variant & 1:
            pts = pts[::-1]
        if variant & 2:
            pts = pts[1:] + pts[:1]
        polys.append(pts)
    names = list(CONT["effective"] + CONT["speed"])
    obs = make("eddies", 2, arrays=names, nb_sample=7, only=["lon", "lat", "time"] + names)
    for intern in (True, False):
        for k, pts in enumerate(polys if intern else polys[::-1]):
            for d, label in enumerate(CONT["speed" if intern else "effective"]):
                obs.obs[label][k] = [p[d] for p in pts + [pts[0]] * (7 - len(pts))]
    for intern in (True, False):
        px, py, index = obs.create_particles(step, intern=intern)
        ctx.step()
        ctx.check(len(px) == len(py) == len(index), "size", lambda: f"{len(px)} {len(py)} {len(index)}")
        for k, pts in enumerate(polys if intern else polys[::-1]):
            m = index == k
            ij = [(round(a / step), round(b / step)) for a, b in zip(px[m].tolist(), py[m].tolist())]
            ctx.check(len(set(ij)) == len(ij), "twice", lambda: f"{ij}")
            for (i, j), a, b in zip(ij, px[m].tolist(), py[m].tolist()):
                ctx.check(abs(i * step - a) < 1e-6 and abs(j * step - b) < 1e-6, "mesh", lambda: f"{a, b} isn't a multiple of {step}")
            sure, may = set(), set()
            xs, ys = [float(p[0]) for p in pts], [float(p[1]) for p in pts]
            for i in range(int(min(xs) // step) - 1, int(max(xs) // step) + 3):
                for j in range(int(min(ys) // step) - 1, int(max(ys) // step) + 3):
                    d, ins = locate(i * step, j * step, list(zip(xs, ys)))
                    if d < 1e-6:
                        may.add((i, j))
                    elif ins:
                        sure.add((i, j))
            missing, extra = sure - set(ij), set(ij) - sure - may
            ctx.check(not missing and not extra, "particles", lambda: f"contour {k} missing {sorted(missing)[:4]}, out of contour {sorted(extra)[:4]}")
            ctx.cover("particles", len(sure))
            ctx.cover("without particle" if not sure else "with particle")
            ctx.state(step, name, x, y, k)
            ctx.outcome(len(sure))


def locate(x, y, pts):
    """distance to the contour, inside"""
    ins, dist = False, np.inf
    for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
        dx, dy = x1 - x0, y1 - y0
        f = min(1, max(0, ((x - x0) * dx + (y - y0) * dy) / (dx * dx + dy * dy)))
        dist = min(dist, np.hypot(x0 + f * dx - x, y0 + f * dy - y))
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) * dx / dy:
            ins = not ins
    return dist, ins


SCENARIOS = [
    Scenario("tables", space_tables, run_tables, shards=8, bound="every arrival of 3-4 particles of 3 eddies among 7 places (6 places for 4 particles in quick), 2 contours at each end", need=("targets0", "targets1", "targets2", "lost", "effective speed", "speed effective")),
    Scenario("counts", space_counts, run_counts, shards=8, bound="65 and 225 particles, every number of particles in a first eddy (around half of 225 in quick) and 7 for the second", need=("close", "targets2")),
    Scenario("atlas", space_atlas, run_atlas, shards=8, bound="every pattern of presence of two eddies over 4 (5) dates, 4 durations, 3 couples of contours", need=("forward", "backward", "last date reached")),
    Scenario("files", space_files, run_files, shards=8, bound="every pattern of presence of two eddies over 4 (5) dates, 3 durations, 3 couples of contours, currents read in files", need=("forward", "backward")),
    Scenario("mesh", space_mesh, run_mesh, shards=4, bound="4 shapes, 4 (6) steps, 15 positions, direction and first vertex", need=("particles", "without particle", "with particle")),
]
