# -*- coding: utf-8 -*-
"""C01: conservation of the detected eddies by the tracking"""
from itertools import product

from mc.core import Scenario
from mc.trackmodel import histories, replay
from mc.trackrun import check_conservation, load_outputs, run_app, scratch

# (number of files, max by file, max of detections, virtual length)
BOUNDS = dict(
    quick=[(2, 2, 4, 0), (2, 2, 4, 1), (3, 2, 6, 0), (3, 2, 6, 1), (4, 2, 6, 0), (4, 2, 7, 1), (5, 2, 5, 2)],
    thorough=[
        (2, 4, 8, 0),
        (3, 3, 8, 0),
        (3, 3, 8, 1),
        (4, 2, 8, 0),
        (4, 2, 8, 1),
        (5, 2, 6, 0),
        (5, 2, 7, 1),
        (5, 2, 7, 2),
        (6, 2, 6, 2),
        (6, 1, 6, 3),
        (7, 1, 7, 3),
    ],
)


def spaces(bounds):
    for nb, n_max, s_max, virtual in bounds:
        for sizes in sorted(product(range(n_max + 1), repeat=nb), key=sum):
            if sum(sizes) > s_max:
                continue
            for plan in histories(list(sizes), virtual):
                # No association at all is out of the domain of the tool
                if any(plan):
                    yield list(sizes), virtual, plan


def space(tier):
    for i, (sizes, virtual, plan) in enumerate(spaces(BOUNDS[tier])):
        # associations are given in both orders
        yield [sizes, virtual, min(3, len(sizes)), plan, (sum(sizes) + len(plan[-1]) + len(plan[0])) % 2]


def run(ctx, payload):
    sizes, virtual, l_min, plan, reverse = payload
    with scratch() as d:
        run_app(sizes, virtual, plan, l_min, d, reverse=bool(reverse))
        outs = load_outputs(d)
    ctx.step(len(sizes) - 1)
    model = replay(sizes, virtual, plan)
    check_conservation(outs, model)
    ctx.state(payload[:2], plan)
    ctx.outcome(sorted(map(sorted, model.tracks)))
    for k, v in outs.items():
        if v:
            ctx.cover(k)
    if any(r.get("virtual") for r in outs["long"]):
        ctx.cover("virtual")
    ctx.sample(payload)


SCENARIOS = [
    Scenario(
        "history",
        space,
        run,
        shards=8,
        bound="(files, max eddies per file, max eddies, virtual length): " + str(BOUNDS),
        need=("long", "short", "untracked", "virtual"),
    )
]
ASSUMPTIONS = [
    "detections are held in memory behind the public loading interface of the tracking class",
    "associations between two files are chosen by the explorer (all of them), geometry is decided by C04/C05",
    "histories with no association at all are excluded (the tool refuses them)",
]
