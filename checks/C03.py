# -*- coding: utf-8 -*-
"""C03: a tracking stopped after any file and resumed equals the uninterrupted one; save/load of correspondences"""
import os

from numpy import array_equal

from checks.C01 import ASSUMPTIONS, spaces  # noqa: F401
from mc.core import Fail, Scenario
from mc.trackmodel import replay
from mc.trackrun import Registry, Script, install, load_outputs, run_app, scratch, signature

BOUNDS = dict(
    quick=[(3, 2, 5, 1), (4, 2, 4, 1), (4, 1, 4, 0), (5, 1, 5, 2), (6, 1, 5, 3)],
    thorough=[(4, 2, 8, 1), (4, 2, 7, 0), (5, 2, 6, 2), (5, 2, 6, 1), (6, 1, 6, 3), (7, 1, 7, 3), (7, 1, 7, 1)],
)


def space(tier):
    for sizes, virtual, plan in spaces(BOUNDS[tier]):
        nb = len(sizes)
        stops = [[k] for k in range(2, nb)]
        if tier == "thorough" or nb <= 3:
            stops += [[i, j] for i in range(2, nb) for j in range(i + 1, nb)]
        else:
            # stop after each file
            stops += [list(range(2, nb))]
        # something was associated before to stop, else there is nothing to save
        stops = [stop for stop in stops if any(plan[: stop[0] - 1])]
        if stops:
            yield [sizes, virtual, plan, stops]


def uninterrupted(sizes, virtual, plan, l_min):
    with scratch() as d:
        run_app(sizes, virtual, plan, l_min, d)
        return load_outputs(d)


def compare(ref, outs, what):
    for name in ref:
        if ref[name] == outs[name]:
            continue
        a, b = ref[name], outs[name]
        diff = [(x, y) for x, y in zip(a, b) if x != y][:1]
        raise Fail("differ", f"{what}: {name} output has {len(b)} rows instead of {len(a)}, first difference {diff}")


def run(ctx, payload):
    sizes, virtual, plan, all_stops = payload
    l_min = min(3, len(sizes))
    ref = uninterrupted(sizes, virtual, plan, l_min)
    ctx.outcome(ref)
    if any(r["virtual"] for r in ref["long"]):
        ctx.cover("virtual")
    for stops in all_stops:
        one_resume(ctx, sizes, virtual, plan, stops, l_min, ref)
    ctx.sample(payload)


def one_resume(ctx, sizes, virtual, plan, stops, l_min, ref):
    replay_ = [sizes, virtual, plan, [stops]]
    ctx.beat(replay_)
    with scratch() as d:
        c_in, done = None, 0
        try:
            for k, stop in enumerate(stops):
                c_out = os.path.join(d, f"part_{k}.nc")
                run_app(
                    sizes,
                    virtual,
                    plan[: stop - 1],
                    2,
                    d,
                    c_in=c_in,
                    c_out=c_out,
                    nb_files=stop,
                    start=done,
                    correspondances_only=True,
                )
                ctx.step(stop - 1 - done)
                c_in, done = c_out, stop - 1
            run_app(sizes, virtual, plan, l_min, d, c_in=c_in, start=done)
            ctx.step(len(sizes) - 1 - done)
            compare(ref, load_outputs(d), f"stopped after {stops} files")
        except Fail as e:
            e.replay = replay_
            raise
    ctx.state(sizes, virtual, plan, stops)
    ctx.cover("resumed")


def space_io(tier):
    for i, (sizes, virtual, plan) in enumerate(spaces(BOUNDS["quick"])):
        yield [sizes, virtual, plan]


def run_io(ctx, payload):
    """Correspondences saved then loaded give the same datasets"""
    from py_eddy_tracker.tracking import Correspondances

    from mc.trackfix import ScriptedObservations, fname

    sizes, virtual, plan = payload
    install(sizes)
    Registry.chooser = Script(sizes, virtual, plan)
    with scratch() as d:
        files = [fname(d, k) for k in range(len(sizes))]
        c = Correspondances(files, virtual=virtual, class_method=ScriptedObservations)
        c.track()
        ctx.step(len(sizes) - 1)
        filename = os.path.join(d, "c.nc")
        c.save(filename)
        c2 = Correspondances.load(filename)
        ctx.step(2)
        got = [f.decode() if isinstance(f, bytes) else str(f) for f in c2.datasets]
        if got != files:
            raise Fail("datasets", f"files of the correspondences {got} instead of {files}")
        if c2.nb_virtual != virtual or c2.class_method is not ScriptedObservations:
            raise Fail("setup", f"{c2.nb_virtual} {c2.class_method}")
        if len(c) != len(c2):
            raise Fail("steps", f"{len(c2)} steps instead of {len(c)}")
        for i, (a, b) in enumerate(zip(c, c2)):
            for k in ("in", "out", "id", "cost_value") + (("virtual",) if virtual else ()):
                if not array_equal(a[k], b[k]):
                    raise Fail("link", f"step {i} field {k}: {b[k]} instead of {a[k]}")
        outs = list()
        for obj in (c, c2):
            obj.prepare_merging()
            outs.append(
                dict(
                    tracks=signature(obj.merge(raw_data=False), True),
                    untracked=signature(obj.get_unused_data(raw_data=False), False),
                )
            )
        ctx.step(4)
    compare(outs[0], outs[1], "saved and loaded correspondences")
    n = sum(len(r) for r in map(replay(sizes, virtual, plan).rows, replay(sizes, virtual, plan).tracks))
    if n != len(outs[1]["tracks"]):
        raise Fail("size", f"{len(outs[1]['tracks'])} rows instead of {n}")
    ctx.state(payload)
    ctx.cover("loaded")


SCENARIOS = [
    Scenario("resume", space, run, shards=8, bound=str(BOUNDS), need=("virtual", "resumed")),
    Scenario("save_load", space_io, run_io, shards=2, bound=str(BOUNDS["quick"]), need=("loaded",)),
]
