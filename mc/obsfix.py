# -*- coding: utf-8 -*-
"""Sets of observations where every cell of every field is recognisable, and their comparison"""
import numpy as np

from py_eddy_tracker import VAR_DESCR
from py_eddy_tracker.observations.network import NetworkObservations
from py_eddy_tracker.observations.observation import EddiesObservations
from py_eddy_tracker.observations.tracking import TrackEddiesObservations

CLASSES = dict(eddies=EddiesObservations, track=TrackEddiesObservations, network=NetworkObservations)
NETWORK_FIELDS = ["track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost"]
CONTOURS = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
ARRAYS = CONTOURS + ["uavg_profile"]

# physical range which must be storable for fields which are packed: low, high, resolution
RANGES = dict(
    time=(0.0, 49000.0, 1 / 86400.0),
    distance_next=(0.0, 3.2e6, 50.0),
    amplitude=(0.0, 6.55, 1e-4),
    speed_average=(0.0, 6.55, 1e-4),
    uavg_profile=(0.0, 6.55, 1e-4),
    radius_e=(0.0, 3.2e6, 50.0),
    radius_s=(0.0, 3.2e6, 50.0),
    contour_lon_e=(-180.0, 720.0, 1e-2),
    contour_lon_s=(-180.0, 720.0, 1e-2),
    contour_lat_e=(-90.0, 90.0, 1e-2),
    contour_lat_s=(-90.0, 90.0, 1e-2),
    shape_error_e=(0.0, 127.5, 0.5),
    shape_error_s=(0.0, 127.5, 0.5),
    score=(0.0, 100.0, 0.4),
)
LON = ("lon", "lon_max")
PERIODIC = ("contour_lon_e", "contour_lon_s")


def is_array(name):
    return name in ARRAYS


def values(name, size, nb_sample, salt=0):
    """Deterministic values, all different when the type allows it"""
    shape = (size, nb_sample) if is_array(name) else (size,)
    n = int(np.prod(shape))
    k = np.arange(n) + salt + sum(name.encode()) % 7
    dtype = np.dtype(VAR_DESCR[name].get("compute_type", VAR_DESCR[name]["nc_type"]))
    if name == "time":
        # dates to the second
        v = 20000 + k + ((k * 4321) % 86400) / 86400.0
    elif name == "virtual":
        v = k % 2
    elif name == "type_cyc":
        v = k * 0 + 1
    elif name in PERIODIC:
        # a contour stays around its center
        row = k // max(nb_sample, 1)
        v = 10.0 + 37.0 * (row % 9) + 0.37 * (k % max(nb_sample, 1))
    elif name in RANGES:
        low, high, step = RANGES[name]
        # on a step and at a quarter of the next one
        v = low + (7 + 11 * k % 101) * step + (k % 2) * step * 0.25
    elif dtype.kind == "u":
        v = (3 + 13 * k) % min(60000, np.iinfo(dtype).max)
    elif dtype.kind == "i":
        v = (5 + 7 * k) % min(30000, np.iinfo(dtype).max) - (k % 2)
    elif name == "lat":
        v = -60 + 1.25 * k
    elif name in LON:
        v = 5 + 3.3 * k
    else:
        v = 1.5 + 0.3 * k
    return np.asarray(v).reshape(shape).astype(dtype)


def make(kind, size, extra=(), arrays=(), nb_sample=4, sign=1, salt=0, only=None, set_values=True):
    cls = CLASSES[kind]
    extra = list(extra)
    if kind == "network":
        extra = NETWORK_FIELDS + [e for e in extra if e not in NETWORK_FIELDS]
    obs = cls(
        size=size,
        track_extra_variables=extra,
        track_array_variables=nb_sample if len(arrays) else 0,
        array_variables=list(arrays),
        only_variables=only,
    )
    obs.sign_type = sign
    if set_values:
        for name in obs.fields:
            obs.obs[name] = values(name, size, nb_sample, salt)
    return obs


def table(obs, names=None):
    """dict of copies of each field"""
    return {k: np.array(obs.obs[k]) for k in (obs.fields if names is None else names)}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return bool(np.array_equal(a.astype("f8"), b.astype("f8"), equal_nan=True))
    return bool(np.array_equal(a, b))


def tolerance(name):
    """Half of the resolution of storage, plus rounding of the type in memory"""
    scale = VAR_DESCR[name].get("scale_factor", None)
    return 0.0 if scale is None else scale / 2.0


def stored_error(name, before, after):
    """
    :return: None if `after` is what is expected from `before` once stored, else the indice of the first wrong value
    """
    before, after = np.asarray(before), np.asarray(after)
    if before.shape != after.shape:
        return f"shape {before.shape} -> {after.shape}"
    if np.ma.isMaskedArray(after) and np.ma.getmaskarray(after).any():
        return "masked"
    if name in RANGES:
        b, a = before.astype("f8"), after.astype("f8")
        tol = tolerance(name)
        # rounding of the type used in memory
        dtype = np.dtype(VAR_DESCR[name].get("compute_type", VAR_DESCR[name]["nc_type"]))
        eps = np.abs(b) * np.finfo(dtype).eps * 2 + tol * 1e-3
        d = np.abs(b - a)
        if name in PERIODIC:
            # whole contour could be shifted
            turn = np.round((a - b) / 360.0)
            if turn.size and (turn != turn[:, :1]).any():
                return "contour cut by a shift"
            inside = ((b > -147.6) & (b < 507.6)).all(axis=1)
            if (turn[inside] != 0).any():
                return "contour shifted"
            d = np.abs(b + 360 * turn - a)
            eps = eps + 360 * np.finfo("f4").eps * 2
        bad = ~(d <= tol + eps)
    else:
        dtype = np.dtype(VAR_DESCR[name]["output_type"])
        bad = before.astype(dtype) != after.astype(dtype)
        if before.dtype.kind == "f":
            bad &= ~(np.isnan(before.astype("f8")) & np.isnan(after.astype("f8")))
    if bad.any():
        i = tuple(int(j[0]) for j in np.nonzero(bad))
        return f"{name}{list(i)} {before[i]!r} -> {after[i]!r}"
    return None
