# -*- coding: utf-8 -*-
"""C34: classes of a comparison between two detections"""
import contextlib
import io
import os
import re
import shutil
import sys
from itertools import product

import numpy as np

from mc.core import Scenario, scratch
from mc.obsfix import make
from py_eddy_tracker.appli import eddies as appli
from py_eddy_tracker.observations.observation import EddiesObservations

ASSUMPTIONS = [
    "scores are those of EddiesObservations.match (property C05), squares on a lattice have exact scores",
    "invalid <= low <= high",
]
INVALID, LOW, HIGH = 12.5, 25.0, 50.0
# under invalid, at each bound, between bounds and full
SCORES = [0.0625, 0.125, 0.1875, 0.25, 0.375, 0.5, 1.0]
CLASSES = ("nomatch", "low", "intermediate", "high", "multi_match")
MULTI = ("parent", "twin", "complex")


def classes(n1, n2, links):
    """
    Definition of each class
    :param links: dict (i, j) -> score in percent
    """
    valid = {k: s for k, s in links.items() if s >= INVALID}
    out = list()
    for n, side in ((n1, 0), (n2, 1)):
        groups = {k: set() for k in CLASSES + MULTI}
        for i in range(n):
            mine = [k for k in valid if k[side] == i]
            if not mine:
                groups["nomatch"].add(i)
                continue
            around = [[k for k in valid if k[1 - side] == m[1 - side]] for m in mine]
            if len(mine) == 1 and len(around[0]) == 1:
                s = valid[mine[0]]
                groups["low" if s < LOW else "high" if s >= HIGH else "intermediate"].add(i)
                continue
            groups["multi_match"].add(i)
            if len(mine) == 2 and all(len(a) == 1 for a in around):
                groups["parent"].add(i)
            elif len(mine) == 1 and len(around[0]) == 2 and all(
                len([k for k in valid if k[side] == a[side]]) == 1 for a in around[0]
            ):
                groups["twin"].add(i)
            else:
                groups["complex"].add(i)
        out.append(groups)
    return out


def content(v):
    v = np.asarray(v)
    return np.where(v)[0].tolist() if v.dtype == bool else v.tolist()


def judge(ctx, got, expected, where):
    for side, (g, e) in enumerate(zip(got, expected)):
        for k in CLASSES + MULTI:
            items = content(g[k])
            ctx.check(len(set(items)) == len(items), "twice", lambda: f"{where} side {side} {k}: {items}")
            ctx.check(set(items) == e[k], "class", lambda: f"{where} side {side} {k}: {items} instead of {sorted(e[k])}")
            ctx.cover(k, len(items))
    ctx.outcome(tuple(tuple(sorted(e[k])) for e in expected for k in CLASSES + MULTI))


def space_graph(tier):
    # every graph
    nb = 3
    for n1, n2 in product(range(nb + 1), repeat=2):
        pairs = list(product(range(n1), range(n2)))
        for present in product((0, 1), repeat=len(pairs)):
            for salt in range(3 if tier == "quick" else 12):
                links = [[i, j, SCORES[1 + (i * 5 + j * 3 + salt + i * j) % 6]] for (i, j), p in zip(pairs, present) if p]
                yield [n1, n2, links]
    # every score
    for n1, n2 in ((1, 2), (2, 1), (2, 2)) + (((2, 3), (3, 2)) if tier == "thorough" else ()):
        pairs = list(product(range(n1), range(n2)))
        scores = SCORES if n1 * n2 < 6 else SCORES[:1] + SCORES[3:6:2]
        for s in product([None] + scores, repeat=len(pairs)):
            yield [n1, n2, [[i, j, k] for (i, j), k in zip(pairs, s) if k is not None]]
    if tier == "thorough":
        pairs = list(product(range(4), range(4)))
        for present in product((0, 1), repeat=16):
            if sum(present) <= 6:
                yield [4, 4, [[i, j, SCORES[1 + (i * 5 + j * 3) % 6]] for (i, j), p in zip(pairs, present) if p]]


def run_graph(ctx, p):
    n1, n2, links = p
    i1, i2 = (np.array([k[d] for k in links], dtype="i8") for d in (0, 1))
    score = np.array([k[2] for k in links], dtype="f8")
    expected = classes(n1, n2, {(i, j): 100 * s for i, j, s in links})
    got = appli.get_group([None] * n1, [None] * n2, i1, i2, score, invalid=INVALID, low=LOW, high=HIGH)
    ctx.step()
    judge(ctx, got, expected, f"{links}")
    ctx.state(n1, n2, tuple(map(tuple, links)))


# ------------------------------------------------------------------ real detections
CONT = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
# (x, width) of boxes of height 1, in lattice units
BOXES = [(0, 8), (0, 4), (4, 4), (6, 8), (20, 4), (20, 6), (2, 2)]


def dataset(items, salt=0):
    """Effective contours are shifted from speed contours"""
    obs = make("eddies", len(items), arrays=CONT, nb_sample=5, extra=["i", "j"], salt=salt)
    for k, i in enumerate(items):
        x, w = BOXES[i]
        for label, shift, unit in (("e", 0.0, 0.25), ("s", 100.0, 0.25)):
            # speed contours are thinner for even eddies
            w_ = w / 2 if label == "s" and i % 2 == 0 else w
            x0, x1 = shift + x * unit, shift + (x + w_) * unit
            obs.obs[f"contour_lon_{label}"][k] = [x0, x1, x1, x0, x0]
            obs.obs[f"contour_lat_{label}"][k] = [0, 0, 1, 1, 0]
        obs.obs["amplitude"][k] = 0.1 + 0.01 * (k + 1) + 0.1 * (salt != 0)
    return obs


def score(i, j, intern, minimal):
    (x0, w0), (x1, w1) = BOXES[i], BOXES[j]
    if intern:
        w0, w1 = (w / 2 if k % 2 == 0 else w for w, k in ((w0, i), (w1, j)))
    inter = max(0, min(x0 + w0, x1 + w1) - max(x0, x1))
    return 100 * inter / (min(w0, w1) if minimal else w0 + w1 - inter)


def space_files(tier):
    sets = [[], [0], [3], [0, 3], [1, 2], [4, 1, 2], [0, 4, 6], [5, 3, 2, 0]] + ([[2, 3, 4], [0, 1, 2, 3, 4, 5, 6], [6, 1]] if tier == "thorough" else [])
    for a, b in product(range(len(sets)), repeat=2):
        for intern, minimal, area in product((False, True), repeat=3):
            if tier == "quick" and (a + b + intern + minimal + area) % 2:
                continue
            yield [sets[a], sets[b], intern, minimal, area]


def call(function, *args):
    argv, out = sys.argv, io.StringIO()
    sys.argv = ["tool"] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out):
            function()
    finally:
        sys.argv = argv
    return out.getvalue()


def run_files(ctx, p):
    a, b, intern, minimal, area = p
    links = {(i, j): score(m, n, intern, minimal) for i, m in enumerate(a) for j, n in enumerate(b)}
    for s in links.values():
        if any(0 < abs(s - bound) < 1e-3 for bound in (INVALID, LOW, HIGH)) or s in (INVALID, LOW, HIGH):
            # bounds are judged by the other scenario
            return
    expected = classes(len(a), len(b), {k: s for k, s in links.items() if s > 0})
    tmp = scratch()
    try:
        ref, other = dataset(a), dataset(b, salt=3)
        with contextlib.redirect_stdout(io.StringIO()):
            got = appli.run_compare(ref, dict(x=other), invalid=INVALID, low=LOW, high=HIGH, intern=intern, minimal_area=minimal)
        ctx.step()
        judge(ctx, (got[0]["x"], got[1]["x"]), expected, f"{p}")
        f0, f1 = os.path.join(tmp, "ref.nc"), os.path.join(tmp, "other.nc")
        ref.write_file(filename=f0)
        other.write_file(filename=f1)
        options = ["--invalid", INVALID, "--low", LOW, "--high", HIGH]
        options += ["--intern"] if intern else []
        options += ["--minimal_area"] if minimal else []
        # table
        text = call(appli.quick_compare, f0, f1, *options, *(["--area"] if area else []))
        ctx.step()
        rows = [line for line in text.splitlines() if re.match(r"^\[ ?\d+\]  ", line) and "->" not in line]
        ctx.check(len(rows) == 2, "table", lambda: text)
        heads = [line.split() for line in text.splitlines() if "nomatch" in line]
        ctx.check(len(heads) == 2, "table", lambda: text)
        for side, (row, obs) in enumerate(zip(rows, (ref, other))):
            values = re.findall(r"\(([\d.]+)(?:Mkm²)?\)", row) if len(obs) else re.findall(r"[\d.]+", row.split("]")[1])
            ctx.check(len(values) == 8, "table", lambda: f"{row} {values}")
            names = re.sub(r"[\d.]+ <= (low) < [\d.]+|[\d.]+ <= (high)", lambda m: m.group(1) or m.group(2), [line for line in text.splitlines() if "nomatch" in line][side]).split()
            for name, v in zip(names, values):
                items = sorted(expected[side][name])
                if area:
                    true = obs["speed_area" if intern else "effective_area"][items].sum() / 1e12
                    ctx.check(abs(true - float(v)) <= 0.051, "table value", lambda: f"{name} {v} {true}\n{text}")
                else:
                    ctx.check(int(float(v)) == len(items), "table value", lambda: f"{name} {v} {items}\n{text}")
        # files
        out = os.path.join(tmp, "out")
        call(appli.quick_compare, f0, f1, *options, "--path_out", out)
        ctx.step()
        folder, = os.listdir(out)
        names = sorted(os.listdir(os.path.join(out, folder)))
        ctx.check(names == sorted(f"{s}_{k}.nc" for s in ("ref", "other") for k in CLASSES + MULTI), "files", lambda: f"{names}")
        for side, (s, obs) in enumerate((("ref", ref), ("other", other))):
            for k in CLASSES + MULTI:
                o = EddiesObservations.load_file(os.path.join(out, folder, f"{s}_{k}.nc"))
                items = sorted(expected[side][k])
                amplitude = sorted(np.round(o.amplitude, 4).tolist())
                true = sorted(np.round(obs.amplitude[items], 4).tolist())
                ctx.check(np.allclose(amplitude, true) if len(amplitude) == len(true) else False, "file", lambda: f"{s}_{k} {amplitude} {true}")
                ctx.check(len(o) == 0 or o.sign_type == obs.sign_type, "file sense", lambda: f"{s}_{k}")
        ctx.state(*map(str, p))
        ctx.cover("compared")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SCENARIOS = [
    Scenario("graph", space_graph, run_graph, shards=8, need=CLASSES + MULTI,
             bound="every association graph of up to 3x3 eddies (4x4 with up to 6 links) with several scores, every score of a list for graphs of up to 2x2 (2x3)"),
    Scenario("files", space_files, run_files, shards=8, need=("compared",) + CLASSES + MULTI,
             bound="every couple of 8 (11) detections, contours, kind of score, in memory, through the tool and its files"),
]
