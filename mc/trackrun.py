# -*- coding: utf-8 -*-
"""Run real tracking on a scripted history and compare with the model"""
import os
import shutil

from numpy import isclose

from py_eddy_tracker.appli.eddies import track
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

from .core import Fail, scratch as new_dir
from .trackfix import FIELDS, T0, Registry, ScriptedObservations, detection, fname, tag_of
from .trackmodel import Model


class Script:
    """Give the associations planned, after check that candidates proposed are the expected ones"""

    def __init__(self, sizes, virtual, plan, start=0, reverse=False):
        self.model = Model(sizes, virtual)
        self.plan = plan
        self.reverse = reverse
        for pairs in plan[:start]:
            self.model.advance(pairs)

    def __call__(self, previous, current):
        m = self.model
        if m.step >= len(self.plan):
            raise Fail("too_many_steps", f"step {m.step}")
        want = {tag(c): c for c in m.candidates()}
        got = [tag_of(h) for h in previous.height_external_contour]
        if sorted(got) != sorted(want):
            raise Fail(
                "candidates",
                f"between files {m.step} and {m.step + 1}, eddies proposed to association "
                f"{sorted(got)} != expected {sorted(want)} (tag=step*8+i+1)",
            )
        cur = [tag_of(h) for h in current.height_external_contour]
        if cur != [tag((m.step + 1, i)) for i in range(m.sizes[m.step + 1])]:
            raise Fail("current", f"file {m.step + 1} proposed with {cur}")
        pairs = [(tuple(c), i) for c, i in self.plan[m.step]]
        m.advance(pairs)
        where = {t: i for i, t in enumerate(got)}
        out = sorted((where[tag(c)], i) for c, i in pairs)
        return out[::-1] if self.reverse else out


def tag(c):
    return c[0] * 8 + c[1] + 1


def install(sizes):
    Registry.files = {k: [detection(k, i) for i in range(n)] for k, n in enumerate(sizes)}


def signature(o, is_track):
    """Observables of an output"""
    rows = list()
    fields = o.fields
    for i in range(len(o)):
        row = {k: float(o[k][i]) for k in FIELDS}
        if is_track:
            row["track"] = int(o["track"][i])
            row["n"] = int(o["n"][i])
            row["virtual"] = int(o["virtual"][i]) if "virtual" in fields else 0
        rows.append(row)
    return rows


def same(a, b, keys=FIELDS):
    for k in keys:
        tol = dict(time=1e-5, amplitude=0.5e-4, radius_e=25.01, radius_s=25.01, speed_average=0.5e-4).get(k, 1e-5)
        if not isclose(a[k], b[k], rtol=1e-6, atol=tol):
            return False
    return True


def run_app(sizes, virtual, plan, l_min, d, reverse=False, c_in=None, c_out=None, nb_files=None, start=0, **kw):
    """Real application, all outputs are reloaded from files"""
    install(sizes)
    Registry.chooser = Script(sizes, virtual, plan, start=start, reverse=reverse)
    nb_files = len(sizes) if nb_files is None else nb_files
    track(
        [fname(d, k) for k in range(nb_files)],
        d,
        c_out or os.path.join(d, "c.nc"),
        nb_obs_min=l_min,
        raw=False,
        virtual=virtual,
        class_method=ScriptedObservations,
        previous_correspondance=c_in,
        **kw,
    )


def load_outputs(d):
    def load(name, cls):
        return cls.load_file(os.path.join(d, name))

    return dict(
        long=signature(load("Anticyclonic.nc", TrackEddiesObservations), True),
        short=signature(load("Anticyclonic_track_too_short.nc", TrackEddiesObservations), True),
        untracked=signature(load("Anticyclonic_untracked.nc", EddiesObservations), False),
    )


class scratch:
    def __enter__(self):
        self.d = new_dir()
        return self.d

    def __exit__(self, *args):
        shutil.rmtree(self.d, ignore_errors=True)


def blocks(rows, what):
    """Split in blocks of same identifier"""
    out, seen = list(), set()
    for row in rows:
        if not out or out[-1][0]["track"] != row["track"]:
            if row["track"] in seen:
                raise Fail("id_not_contiguous", f"{what}: rows of trajectory {row['track']} are not contiguous")
            seen.add(row["track"])
            out.append([])
        out[-1].append(row)
    return out


def check_conservation(outs, model):
    """C01"""
    count = dict()
    real = {
        tag((k, i)): detection(k, i) for k, n in enumerate(model.sizes[: model.step + 1]) for i in range(n)
    }
    for name, rows in outs.items():
        for row in rows:
            if row.get("virtual"):
                continue
            t = tag_of(row["height_external_contour"])
            if t not in real or not same(row, real[t]):
                raise Fail("altered", f"{name}: row {row} isn't a detected eddy ({real.get(t)})")
            count[t] = count.get(t, 0) + 1
            if count[t] > 1:
                raise Fail("duplicated", f"eddy {t} is found {count[t]} times in outputs (again in {name})")
    lost = set(real) - set(count)
    if lost:
        raise Fail("lost", f"eddies {sorted(lost)} are in none of the outputs")
    expected = sorted(sorted(tag(c) for c in t) for t in model.tracks)
    got = list()
    for name in ("long", "short"):
        by_id = dict()
        for row in outs[name]:
            if not row["virtual"]:
                by_id.setdefault(row["track"], []).append(tag_of(row["height_external_contour"]))
        got.extend(sorted(t) for t in by_id.values())
    if sorted(got) != expected:
        raise Fail("chains", f"trajectories {sorted(got)} != chains of associations {expected}")
    tracked = {t for tr in expected for t in tr}
    unt = sorted(tag_of(r["height_external_contour"]) for r in outs["untracked"])
    if unt != sorted(set(real) - tracked):
        raise Fail("untracked", f"untracked {unt} != {sorted(set(real) - tracked)}")


def check_series(outs, model, l_min):
    """C02"""
    expected = {tag(t[0]): model.rows(t) for t in model.tracks}
    seen = set()
    for name in ("long", "short"):
        for rows in blocks(outs[name], name):
            if rows[0]["virtual"] or rows[-1]["virtual"]:
                raise Fail("virtual_end", f"{name}: trajectory {rows[0]['track']} starts or ends with a virtual eddy")
            first = tag_of(rows[0]["height_external_contour"])
            if first not in expected or first in seen:
                raise Fail("unexpected", f"{name}: trajectory which starts with {first}")
            seen.add(first)
            want = expected[first]
            if len(want) != len(rows):
                raise Fail("length", f"{name}: trajectory {first} has {len(rows)} rows, expected {len(want)} {want}")
            if (len(rows) >= l_min) != (name == "long"):
                raise Fail("wrong_output", f"trajectory of {len(rows)} observations in {name} output, limit {l_min}")
            for j, (row, (step, i)) in enumerate(zip(rows, want)):
                if row["n"] != j:
                    raise Fail("n", f"{name}: observation number {row['n']} at position {j} of trajectory {first}")
                if abs(row["time"] - (T0 + step)) > 1e-5:
                    raise Fail("time", f"{name}: time {row['time']} != {T0 + step} in trajectory {first}")
                if bool(row["virtual"]) != (i is None):
                    raise Fail("flag", f"{name}: virtual flag {row['virtual']} at position {j} of {want}")
                if i is not None:
                    if not same(row, detection(step, i)):
                        raise Fail("real_row", f"{name}: {row} is not eddy {(step, i)}")
                else:
                    prev = [w for w in want[:j] if w[1] is not None][-1]
                    nxt = [w for w in want[j:] if w[1] is not None][0]
                    w = (step - prev[0]) / (nxt[0] - prev[0])
                    a, b = detection(*prev), detection(*nxt)
                    mid = {k: a[k] * (1 - w) + b[k] * w for k in a}
                    if not same(row, mid, ("time", "lon", "lat")):
                        raise Fail("interpolation", f"{name}: virtual row {row}, expected {mid}")
    if seen != set(expected):
        raise Fail("missing", f"trajectories {sorted(set(expected) - seen)} are missing")
