# -*- coding: utf-8 -*-
"""Scripted tracking: detections are held in memory and associations are chosen by the explorer"""
from numpy import arange, array, ma, zeros

from py_eddy_tracker.observations.observation import EddiesObservations

FIELDS = (
    "time",
    "lon",
    "lat",
    "amplitude",
    "radius_e",
    "radius_s",
    "speed_average",
    "height_external_contour",
)
T0 = 20000


class Registry:
    files = dict()
    # function(previous tags, nb current, ...) -> pairs
    chooser = None


def fname(d, step):
    return f"{d}/det_{20050101 + step:d}.nc"


def step_of(filename):
    if isinstance(filename, bytes):
        filename = filename.decode()
    return int(str(filename).split("_")[-1].split(".")[0]) - 20050101


class ScriptedObservations(EddiesObservations):
    __slots__ = ()

    @classmethod
    def load_file(cls, filename, raw_data=False, include_vars=None, **kwargs):
        if not isinstance(filename, (str, bytes)):
            # open handle (load in memory of files)
            filename = filename.name
        return make_obs(cls, step_of(filename), Registry.files[step_of(filename)])

    def tracking(self, other):
        pairs = Registry.chooser(self, other)
        i = array([p[0] for p in pairs], dtype="i8")
        j = array([p[1] for p in pairs], dtype="i8")
        cost = ma.array([0.001 * (1 + k) for k in range(len(pairs))], dtype="f4")
        return i, j, cost


def make_obs(cls, step, eddies):
    """eddies: list of dict"""
    e = cls(size=len(eddies), only_variables=FIELDS)
    e.sign_type = 1
    for k in FIELDS:
        e.obs[k][:] = [i[k] for i in eddies] if len(eddies) else []
    return e


def detection(step, i, time=None):
    """Each detected eddy has a unique amplitude, exactly stored in files"""
    tag = step * 8 + i + 1
    return dict(
        time=T0 + step if time is None else time,
        lon=10 + i * 5 + step * 0.25,
        lat=30 + i * 3 + step * 0.125,
        amplitude=tag * 0.0001 * 10,
        radius_e=50.0 * (tag + 100),
        radius_s=50.0 * (tag + 50),
        speed_average=0.0001 * 100 * tag,
        height_external_contour=tag / 8.0,
    )


def tag_of(height):
    return int(round(float(height) * 8))
