# -*- coding: utf-8 -*-
"""C11: particles are advected independently, exactly and stop out of the domain"""
from itertools import product

import numpy as np
from numpy import array, ma

from mc.core import Fail, Scenario
from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset

ASSUMPTIONS = [
    "a particle needs the four values around it at each stage of the scheme (also when it is exactly on a grid line)",
    "time step divides the interval between two dates; dates are sorted",
    "positions closer than 1e-7 cell to a grid line are not judged on lost/not lost",
]
R = RegularGridDataset.EARTH_RADIUS
DAY = 86400

# x first, x step, nb x, y first, y step, nb y
KINDS = dict(
    regional=(-2.0, 0.5, 5, 10.0, 0.5, 4),
    globe=(0.0, 90.0, 4, -30.0, 20.0, 4),
    globe180=(-180.0, 60.0, 6, 20.0, 10.0, 3),
)


def axes(kind):
    x0, dx, nx, y0, dy, ny = KINDS[kind]
    return x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)


def grid(kind, u, v, mask, under=1e3):
    x, y = axes(kind)
    u, v = u.astype("f8"), v.astype("f8")
    u[mask], v[mask] = under, under
    return RegularGridDataset.with_array(
        ("x", "y"), dict(x=x, y=y, u=ma.array(u, mask=mask.copy()), v=ma.array(v, mask=mask.copy())),
        variables_description=dict(u=dict(units="m/s"), v=dict(units="m/s")), centered=True,
    )


def to_ms(kind, du, dv, dt):
    """Speed in m/s from displacements in degrees for dt seconds"""
    _, y = axes(kind)
    k = np.pi * R / 180 / dt
    return du * k * np.cos(np.radians(y)), dv * k


class Reference:
    """Integration of displacement (in degrees by step), nan where it isn't defined"""

    def __init__(self, kind):
        self.kind = kind
        self.circular = kind.startswith("globe")
        self.near = None

    def field(self, f, x, y):
        x0, dx, nx, y0, dy, ny = KINDS[self.kind]
        i, j = (x - x0) / dx, (y - y0) / dy
        near = np.minimum(np.abs(i - np.round(i)), np.abs(j - np.round(j)))
        self.near = np.fmin(self.near, near)
        out = np.full((2,) + x.shape, np.nan)
        ok = np.isfinite(i) & np.isfinite(j)
        i0, j0 = np.floor(i[ok]).astype(int), np.floor(j[ok]).astype(int)
        a, b = i[ok] - i0, j[ok] - j0
        i1, j1 = i0 + 1, j0 + 1
        if self.circular:
            i0, i1 = i0 % nx, i1 % nx
        bad = (i0 < 0) | (i1 >= nx) | (j0 < 0) | (j1 >= ny)
        i0, i1, j0, j1 = (np.where(bad, 0, k) for k in (i0, i1, j0, j1))
        for n in range(2):
            g = f[n]
            r = (g[i0, j0] * (1 - a) + g[i1, j0] * a) * (1 - b) + (g[i0, j1] * (1 - a) + g[i1, j1] * a) * b
            r[bad] = np.nan
            out[n, ok] = r
        return out

    def step(self, x, y, get, rk4):
        """get(fraction of step) -> fields; undefined at any stage: lost"""
        if not rk4:
            u, v = self.field(get(0), x, y)
            return x + u, y + v
        u1, v1 = self.field(get(0), x, y)
        u2, v2 = self.field(get(0.5), x + u1 * 0.5, y + v1 * 0.5)
        u3, v3 = self.field(get(0.5), x + u2 * 0.5, y + v2 * 0.5)
        u4, v4 = self.field(get(1), x + u3, y + v3)
        return x + (u1 + 2 * u2 + 2 * u3 + u4) / 6, y + (v1 + 2 * v2 + 2 * v3 + v4) / 6

    def run(self, x, y, getter, nb, rk4):
        """:param getter: function(step, fraction)"""
        x, y = x.copy(), y.copy()
        self.near = np.full(x.shape, 1.0)
        out = [(x, y)]
        for s in range(nb):
            x, y = self.step(x, y, lambda f: getter(s, f), rk4)
            lost = np.isnan(x) | np.isnan(y)
            x, y = np.where(lost, np.nan, x), np.where(lost, np.nan, y)
            out.append((x, y))
        return out


def starts(kind, fine=False):
    x0, dx, nx, y0, dy, ny = KINDS[kind]
    f = (0.0625, 0.3125, 0.5625, 0.8125) if fine else (0.1875, 0.6875)
    p = [(x0 + dx * (i + a), y0 + dy * (j + b)) for i in range(-1, nx + 1) for a in f for j in range(-1, ny + 1) for b in f]
    return array([a for a, _ in p]), array([b for _, b in p])


def compare(ctx, got, ref, near, where):
    for g, r in zip(got, ref):
        bad = ~((np.isnan(g) & np.isnan(r)) | (np.abs(g - r) <= 1e-7 * (1 + np.abs(r))))
        bad &= near > 1e-7
        if bad.any():
            k = np.where(bad)[0][0]
            raise Fail("position", f"{where} particle {k}: {got[0][k], got[1][k]} instead of {ref[0][k], ref[1][k]}")
    n = np.isnan(ref[0])
    ctx.cover("lost", int(n.sum()))
    ctx.cover("alive", int((~n).sum()))


def shapes(kind, fn):
    """Fields of displacement, in fraction of cell by step"""
    _, dx, nx, _, dy, ny = KINDS[kind]
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    if fn[0] == "uniform":
        du, dv = np.full((nx, ny), fn[1]), np.full((nx, ny), fn[2])
    elif fn[0] == "vortex":
        du, dv = -(j - 1.5) * 0.3, ((i % nx) - 1.5) * 0.2
    else:
        du, dv = (((5 * i * i + 3 * j + 1) % 7) - 3) * 0.125, (((3 * i + j * j * 5) % 5) - 2) * 0.125
    return du * dx, dv * dy


UNIFORM = [["uniform", a, b] for a in (-0.75, 0.0, 0.3) for b in (-0.4, 0.0, 0.9)]
DT = 3600


def space_single(tier):
    for kind in KINDS:
        _, _, nx, _, _, ny = KINDS[kind]
        for fn in UNIFORM + [["vortex"], ["mixed"]]:
            for rk4 in (True, False):
                for back in (False, True):
                    masks = [None]
                    if fn[0] != "uniform" or tier != "quick":
                        masks += [k for k in range(nx * ny)]
                    for m in masks:
                        yield [kind, fn, rk4, back, m]


def run_single(ctx, payload):
    kind, fn, rk4, back, m = payload
    x0, dx, nx, y0, dy, ny = KINDS[kind]
    du, dv = shapes(kind, fn)
    mask = np.zeros((nx, ny), dtype=bool)
    if m is not None:
        mask[m // ny, m % ny] = True
    u, v = to_ms(kind, du, dv, DT)
    g = grid(kind, u, v, mask)
    keep = g.grid("u").copy(), g.grid("v").copy()
    px, py = starts(kind, ctx.tier != "quick")
    ref = Reference(kind)
    s = -1 if back else 1
    f = array([np.where(mask, np.nan, du), np.where(mask, np.nan, dv)]) * s
    nb = 6
    traj = ref.run(px, py, lambda *_: f, nb, rk4)
    ctx.state(kind, fn, rk4, back, m)
    # every splitting of 6 steps in equal calls
    for nb_step in (1, 2, 3, 6):
        x, y = px.copy(), py.copy()
        p = g.advect(x, y, "u", "v", nb_step=nb_step, rk4=rk4, time_step=DT, backward=back)
        for k in range(nb_step, nb + 1, nb_step):
            gx, gy = next(p)
            ctx.step(gx.size * nb_step)
            compare(ctx, (gx, gy), traj[k], ref.near, f"{payload} after {k} steps by {nb_step}")
            if nb_step == 2 and k == 2 and fn[0] == "uniform":
                ok = ~np.isnan(gx)
                if np.abs(gx - px - du[0, 0] * k * s)[ok].max(initial=0) > 1e-7 * dx or np.abs(gy - py - dv[0, 0] * k * s)[ok].max(initial=0) > 1e-7 * dy:
                    raise Fail("uniform", f"{payload}: displacement isn't speed times duration")
    for a, b in zip(keep, (g.grid("u"), g.grid("v"))):
        if not (np.array_equal(a.data, b.data) and np.array_equal(a.mask, b.mask)):
            raise Fail("source", f"{payload}: currents modified")
    # factor and time step are speed times duration
    x, y = px.copy(), py.copy()
    next(g.advect(x, y, "u", "v", nb_step=nb, rk4=rk4, time_step=DT / 2, factor=2, backward=back))
    compare(ctx, (x, y), traj[nb], ref.near, f"{payload} factor")
    # filament : last positions of each particle, most recent first
    size = 3
    fil = g.filament(px, py, "u", "v", nb_step=1, filament_size=size, rk4=rk4, time_step=DT, backward=back)
    for k in range(1, nb + 1):
        fx, fy = next(fil)
        ctx.step(px.size)
        for c, n in ((fx, 0), (fy, 1)):
            c = c.reshape(-1, size + 1)
            if not np.isnan(c[:, size]).all():
                raise Fail("filament", f"{payload}: lines of two particles aren't separated")
            for a in range(min(size, k + 1)):
                w = traj[k - a][n]
                bad = ~((np.isnan(c[:, a]) & np.isnan(w)) | (np.abs(c[:, a] - w) < 1e-4)) & (ref.near > 1e-7)
                if bad.any():
                    raise Fail("filament", f"{payload} {k} steps: position {a} of line {np.where(bad)[0][0]} is {c[bad, a][0]} instead of {w[bad][0]}")


def space_order(tier):
    for kind in KINDS:
        for fn in (["vortex"], ["mixed"]):
            for rk4 in (True, False):
                for coll in (False, True):
                    for m in (None, 5, 6):
                        yield [kind, fn, rk4, coll, m]


def run_order(ctx, payload):
    """Every ordered pair of particles, one after the other in the same call"""
    kind, fn, rk4, coll, m = payload
    _, _, nx, _, _, ny = KINDS[kind]
    mask = np.zeros((nx, ny), dtype=bool)
    if m is not None:
        mask[m // ny, m % ny] = True
    u, v = to_ms(kind, *shapes(kind, fn), DT)
    g = grid(kind, u, v, mask)
    if coll:
        c = GridCollection()
        c.datasets = [(0, g), (1, grid(kind, -v, u, np.zeros_like(mask)))]

    def advect(x, y):
        x, y = x.copy(), y.copy()
        kw = dict(u_name="u", v_name="v", nb_step=3, time_step=DT, rk4=rk4)
        if coll:
            return next(c.advect(x, y, t_init=0, **kw))[1:]
        return next(g.advect(x, y, **kw))

    px, py = starts(kind)
    n = px.size
    px, py = np.append(px, [np.nan, px[0]]), np.append(py, [py[0], np.nan])
    n = px.size
    alone = [advect(px[k : k + 1], py[k : k + 1]) for k in range(n)]
    ax, ay = array([a[0] for a, _ in alone]), array([b[0] for _, b in alone])
    if not (np.isnan(ax[-2:]) | np.isnan(ay[-2:])).all():
        raise Fail("undefined_start", f"{payload}: {ax[-2:], ay[-2:]}")
    i, j = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
    seq = np.column_stack((i.reshape(-1), j.reshape(-1))).reshape(-1)
    x, y = advect(px[seq], py[seq])
    ctx.step(3 * (n + seq.size))
    ctx.state(*payload)
    bad = ~((np.isnan(x) & np.isnan(ax[seq]) | (x == ax[seq])) & (np.isnan(y) & np.isnan(ay[seq]) | (y == ay[seq])))
    # same quantity computed with the same operations, bit for bit but leave a margin to vectorisation
    bad &= ~(np.abs(x - ax[seq]) + np.abs(y - ay[seq]) < 1e-9)
    bad &= ~(np.isnan(px[seq]) | np.isnan(py[seq]))
    if bad.any():
        k = np.where(bad)[0][0]
        raise Fail("order", f"{payload}: particle {seq[k]} goes to {x[k], y[k]} after particle {seq[k - 1]}, to {ax[seq[k]], ay[seq[k]]} alone")


DATES = {"daily": (10, 11, 12, 13), "uneven": (10, 11, 13, 14), "half": (10.5, 11.5, 12.5, 13.5)}


def space_time(tier):
    steps = (1, 2, 3, 5, 8) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9)
    for kind in KINDS:
        for dates in DATES:
            for start in range(0, 12):
                for nb_step in steps:
                    for rk4 in (True, False):
                        for back in (False, True):
                            if tier == "quick" and (start + nb_step + len(kind)) % 2:
                                continue
                            yield [kind, dates, start, nb_step, rk4, back]


def run_time(ctx, payload):
    kind, dates, start, nb_step, rk4, back = payload
    _, _, nx, _, _, ny = KINDS[kind]
    days = DATES[dates]
    dt = 21600
    t0 = days[0] + start * 0.25
    total = days[-1] - days[0]
    if back:
        t0 = days[-1] - start * 0.25
    if t0 >= days[-1] and not back or t0 <= days[0] and back:
        return
    fields, c = list(), GridCollection()
    for n, d in enumerate(days):
        du, dv = shapes(kind, (["mixed"], ["vortex"], ["uniform", 0.3, -0.2], ["mixed"])[n])
        k = (1, 0.5, 1, -1)[n]
        mask = np.zeros((nx, ny), dtype=bool)
        if n == 2:
            mask[1, 1] = True
        f = array([np.where(mask, np.nan, du * k), np.where(mask, np.nan, dv * k)])
        fields.append(f)
        u, v = to_ms(kind, du * k, dv * k, dt)
        c.datasets.append((d, grid(kind, u, v, mask)))
    s = -1 if back else 1

    def getter(step, frac):
        # the step stays between two dates, whichever its stages
        a = t0 + s * step * 0.25
        mid = a + s * 0.125
        n = next(k for k in range(len(days) - 1) if days[k] <= mid <= days[k + 1])
        w = (a + s * 0.25 * frac - days[n]) / (days[n + 1] - days[n])
        if w == 0 or w == 1:
            # both fields must be defined anyway
            both = np.isnan(fields[n] + fields[n + 1])
            return np.where(both, np.nan, fields[n + int(w)]) * s
        return (fields[n] * (1 - w) + fields[n + 1] * w) * s

    avail = int(round(((days[-1] - t0) if not back else (t0 - days[0])) * 4))
    px, py = starts(kind)
    ref = Reference(kind)
    traj = ref.run(px, py, getter, avail, rk4)
    kw = dict(u_name="u", v_name="v", t_init=t0, nb_step=nb_step, time_step=dt, rk4=rk4, backward=back)
    ctx.state(*payload)
    x, y = px.copy(), py.copy()
    p = c.advect(x, y, **kw)
    calls = avail // nb_step
    for k in range(1, calls + 1):
        t, gx, gy = next(p)
        ctx.step(nb_step * x.size)
        if abs(t - (t0 + s * k * nb_step * 0.25) * DAY) > 1e-3:
            raise Fail("date", f"{payload} call {k}: date {t / DAY}")
        compare(ctx, (gx, gy), traj[k * nb_step], ref.near, f"{payload} call {k}")
        if any(days[0] < t0 + s * i * 0.25 < days[-1] and t0 + s * i * 0.25 in days for i in range((k - 1) * nb_step + 1, k * nb_step)):
            ctx.cover("date inside a call")
    if calls:
        # path gives the same positions
        t, X, Y = c.path(px, py, nb_time=calls, **kw)
        ctx.step(calls * nb_step * x.size)
        for k in range(calls + 1):
            compare(ctx, (X[k], Y[k]), traj[k * nb_step], ref.near, f"path {payload} call {k}")
        if not np.allclose(t[1:], [(t0 + s * k * nb_step * 0.25) * DAY for k in range(1, calls + 1)]):
            raise Fail("date", f"{payload} path: {t / DAY}")
        fil = c.filament(px, py, filament_size=2, **kw)
        for k in range(1, calls + 1):
            t, fx, fy = next(fil)
            for cc, n in ((fx, 0), (fy, 1)):
                cc = cc.reshape(-1, 3)
                for a in range(2):
                    w = traj[(k - a) * nb_step][n]
                    bad = ~((np.isnan(cc[:, a]) & np.isnan(w)) | (np.abs(cc[:, a] - w) < 1e-4)) & (ref.near > 1e-7)
                    if bad.any():
                        raise Fail("filament", f"{payload} call {k}: {cc[bad, a][0]} instead of {w[bad][0]}")
    if calls * nb_step == avail:
        # nothing after the last date
        try:
            next(p)
        except StopIteration:
            ctx.cover("end of collection")
        else:
            raise Fail("end", f"{payload}: advection goes on after the last date")


def space_mask(tier):
    for kind in KINDS:
        for rk4 in (True, False):
            for coll in (False, True):
                yield [kind, rk4, coll]


def run_mask(ctx, payload):
    """Grids without any undefined value, and several unaligned undefined currents"""
    kind, rk4, coll = payload
    _, _, nx, _, _, ny = KINDS[kind]
    du, dv = shapes(kind, ["mixed"])
    u, v = to_ms(kind, du, dv, DT)
    px, py = starts(kind)
    for mu, mv in product(range(nx * ny), range(nx * ny)):
        if (mu * 7 + mv) % 5:
            continue
        m1, m2 = np.zeros((nx, ny), dtype=bool), np.zeros((nx, ny), dtype=bool)
        m1[mu // ny, mu % ny] = True
        m2[mv // ny, mv % ny] = True
        g = grid(kind, u, v, np.zeros((nx, ny), dtype=bool))
        g.vars["u"] = ma.array(np.where(m1, 1e3, u), mask=m1)
        g.vars["v"] = ma.array(np.where(m2, 1e3, v), mask=m2)
        ref = Reference(kind)
        m = m1 | m2
        f = array([np.where(m, np.nan, du), np.where(m, np.nan, dv)])
        traj = ref.run(px, py, lambda *_: f, 3, rk4)
        x, y = px.copy(), py.copy()
        kw = dict(u_name="u", v_name="v", nb_step=3, time_step=DT, rk4=rk4)
        if coll:
            c = GridCollection()
            c.datasets = [(0, g), (1, grid(kind, u, v, np.zeros((nx, ny), dtype=bool)))]
            next(c.advect(x, y, t_init=0, **kw))
        else:
            next(g.advect(x, y, **kw))
        ctx.step(3 * x.size)
        ctx.state(kind, rk4, coll, mu, mv)
        compare(ctx, (x, y), traj[3], ref.near, f"{payload} u undefined in {mu}, v in {mv}")
    # particles that user puts aside stay
    if coll:
        g = grid(kind, u, v, np.zeros((nx, ny), dtype=bool))
        c = GridCollection()
        c.datasets = [(0, g), (1, g)]
        aside = np.arange(px.size) % 3 == 0
        x, y = px.copy(), py.copy()
        next(c.advect(x, y, 0, mask_particule=aside.copy(), u_name="u", v_name="v", nb_step=3, time_step=DT, rk4=rk4))
        if not (np.array_equal(x[aside], px[aside]) and np.array_equal(y[aside], py[aside])):
            raise Fail("aside", f"{payload}: particles out of the mask moved")


def warm():
    kind = "regional"
    u = np.zeros((5, 4))
    g = grid(kind, u, u, u > 1)
    c = GridCollection()
    c.datasets = [(0, g), (1, g)]
    for rk4 in (True, False):
        x, y = starts(kind)
        next(g.advect(x, y, "u", "v", rk4=rk4, time_step=3600))
        next(c.advect(x, y, 0, u_name="u", v_name="v", rk4=rk4, time_step=3600))


SCENARIOS = [
    Scenario("single", space_single, run_single, shards=8, bound="3 grids x 11 fields x every undefined cell x both schemes x both directions x every equal splitting of 6 steps, starts each half (quarter) of cell from one cell out", need=("lost", "alive")),
    Scenario("order", space_order, run_order, shards=4, bound="every ordered pair of start positions in one call"),
    Scenario("time", space_time, run_time, shards=8, bound="4 dates (3 spacings) x start each 6 hours x 1 to 9 steps by call x both schemes and directions", need=("date inside a call", "end of collection")),
    Scenario("mask", space_mask, run_mask, shards=4, bound="pairs of undefined cells, one in each component"),
]
