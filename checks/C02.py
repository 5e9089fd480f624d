# -*- coding: utf-8 -*-
"""C02: trajectories are gap free series, virtual gaps are bounded and flagged"""
from checks.C01 import ASSUMPTIONS, spaces
from mc.core import Scenario
from mc.trackmodel import replay
from mc.trackrun import check_series, load_outputs, run_app, scratch

BOUNDS = dict(
    quick=[(3, 2, 5, 1), (4, 2, 5, 1), (5, 1, 5, 2), (6, 1, 6, 1), (6, 1, 6, 3), (7, 1, 6, 3), (5, 2, 5, 2)],
    thorough=[(4, 2, 8, 1), (5, 2, 6, 2), (5, 2, 6, 1), (6, 2, 6, 2), (7, 1, 7, 3), (8, 1, 8, 4), (7, 1, 7, 1)],
)


def space(tier):
    for sizes, virtual, plan in spaces(BOUNDS[tier]):
        lengths = sorted({len(r) for r in map(replay(sizes, virtual, plan).rows, replay(sizes, virtual, plan).tracks)})
        # limits around the length of trajectories
        limits = sorted({n for i in lengths for n in (i, i + 1) if 1 <= n <= len(sizes)})
        if tier == "quick":
            limits = [limits[(sum(sizes) + len(plan[-1])) % len(limits)]]
        for l_min in limits:
            yield [sizes, virtual, l_min, plan]


def run(ctx, payload):
    sizes, virtual, l_min, plan = payload
    with scratch() as d:
        run_app(sizes, virtual, plan, l_min, d)
        outs = load_outputs(d)
    ctx.step(len(sizes) - 1)
    model = replay(sizes, virtual, plan)
    check_series(outs, model, l_min)
    ctx.state(payload)
    ctx.outcome([model.rows(t) for t in model.tracks])
    for k in ("long", "short"):
        if any(r["virtual"] for r in outs[k]):
            ctx.cover(f"virtual_{k}")
    ctx.sample(payload)


SCENARIOS = [
    Scenario("series", space, run, shards=8, bound=str(BOUNDS), need=("virtual_long", "virtual_short")),
]
