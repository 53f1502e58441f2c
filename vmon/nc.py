"""NetCDF workloads for the command-line programs, and reading back what they wrote."""
import os

import numpy as np
import pandas as pd
import xarray as xr

from . import gen, ref
from .gen import pick

ORDERS = {"grid": [("lat", "lon", "time"), ("time", "lat", "lon")],
          "divisions": [("division", "time"), ("time", "division")],
          "timeseries": [("time",)]}
CANON = {"grid": ("lat", "lon", "time"), "divisions": ("division", "time"), "timeseries": ("time",)}


class Data:
    """One data set: coordinates, and arrays by name in the canonical dimension order."""

    def __init__(self, layout, periodicity, start, nsteps, cells, lat, lon, times):
        self.layout, self.periodicity, self.start = layout, periodicity, start
        self.n, self.cells, self.lat, self.lon, self.times = nsteps, cells, lat, lon, times
        self.ids = None
        self.vars = {}

    @property
    def shape(self):
        return tuple(self.cells) + (self.n,)


def series(rng, n, per, hard=True, magnitude=None):
    x, tags = gen.precip(rng, n, per, zeros=pick(rng, ["none", "none", "some"]) if hard else "none",
                         missing=pick(rng, ["none", "none", "some", "lead", "tail"]) if hard else "none",
                         negatives=False, magnitude=magnitude or 10 ** rng.uniform(0.5, 2.5))
    return x


def make(rng, layout=None, periodicity="monthly", years=None, start=None, cells=None, hard=True, empty=True,
         partial=True, dtype=None, negative=None, mean=None, calendars=True, sparse=0.1):
    layout = layout or pick(rng, ["grid", "grid", "grid", "divisions", "timeseries"])
    if start is None:
        # instrumental records, reanalyses of earlier centuries, projections
        k = rng.random()
        start = int(rng.integers(1895, 2005)) if k < 0.75 else int(rng.integers(1700, 1895)) if k < 0.85 else int(rng.integers(2005, 2190))
        if periodicity == "daily" and rng.random() < 0.35:
            start = int(pick(rng, [1796, 1797, 1896, 1898, 1900, 1996, 2096, 2098, 2100]))
    if periodicity == "daily":
        years = years or int(rng.integers(5, 8))
        n = (pd.Timestamp(start + years, 1, 1) - pd.Timestamp(start, 1, 1)).days
        times = pd.date_range(f"{start}-01-01", periods=n, freq="D")
    else:
        years = years or int(pick(rng, [rng.integers(10, 18)] * 8 + [rng.integers(18, 41), rng.integers(41, 61)]))
        n = years * 12
        if partial and rng.random() < 0.25:
            n -= int(rng.integers(1, 12))
        times = pd.date_range(f"{start}-01-01", periods=n, freq="MS")
        if rng.random() < 0.3:
            times = times + pd.Timedelta(days=int(rng.integers(1, 27)))
        if calendars and rng.random() < 0.1:
            # of a climate model
            times = xr.cftime_range(f"{start:04d}-01-01", periods=n, freq="MS", calendar=pick(rng, ["noleap", "360_day"]))
    if cells is None:
        if layout == "grid":
            cells = (int(rng.integers(1, 6)), int(rng.integers(1, 5))) if periodicity == "monthly" else \
                (int(rng.integers(1, 4)), int(rng.integers(1, 3)))
        elif layout == "divisions":
            cells = (int(rng.integers(1, 10)),)
        else:
            cells = ()
    nlat = cells[0] if cells else 1
    a, b = sorted(rng.uniform(-75, 80, 2))
    lat = np.linspace(a, max(b, a + 1.0), nlat)
    k = rng.random()
    if k < 0.08:
        lat = np.linspace(-90.0, 90.0, nlat) if nlat > 1 else np.array([float(pick(rng, [-90.0, 0.0, 90.0]))])
    elif k < 0.16:
        lat = (np.arange(nlat) - nlat // 2) * 2.5        # across the equator
    if rng.random() < 0.5:
        lat = lat[::-1].copy()
    nlon = cells[1] if layout == "grid" else 1
    lon = rng.uniform(-179, 90) + np.arange(nlon) * rng.uniform(0.1, 8)
    if rng.random() < 0.2:
        lon = lon % 360.0 if np.all(np.diff(lon % 360.0) > 0) else lon + 180.0
    if rng.random() < 0.2:
        lon = lon[::-1].copy()
    d = Data(layout, periodicity, start, n, cells, lat, lon, times)
    d.years = years
    if layout == "divisions":
        d.ids = rng.choice(np.arange(101, 9999), cells[0], replace=False)
        d.lat = rng.uniform(-75, 80, cells[0])
    per = 12 if periodicity == "monthly" else 366
    # one climate everywhere (all desert, all polar, ...), or another one at every location
    region = rng.random() < 0.4 or mean is not None
    mean = mean if mean is not None else float(rng.choice([-30.0, -12.0, -2.0, 4.0, 12.0, 20.0, 30.0])) if region else None
    mag = {n: (10 ** rng.uniform(-0.5, 3.0) if region else None) for n in ("prcp", "pet")}
    for name in ("prcp", "tavg", "pet"):
        arr = np.empty(d.shape)
        for ix in np.ndindex(*cells):
            if name == "tavg":
                s, _ = gen.temperature(rng, n, 12, missing=None if hard else "none", mean=mean)
                s = np.minimum(s, 38.0)
            else:
                s = series(rng, n, per, hard, mag[name])
            arr[ix] = s
        if hard and rng.random() < (0.0 if name == "tavg" else negative if negative is not None else 0.35 if name == "pet" else 0.12):
            # condensation, deaccumulation artefacts: a few values below zero, at some of the locations
            where = (rng.random(d.shape) < 0.02) & (rng.random(tuple(cells) + (1,)) < 0.6)
            arr = np.where(where, -np.abs(arr) * rng.uniform(0.05, 1.0), arr)
        d.vars[name] = arr
    if empty and cells and np.prod(cells) > 1 and rng.random() < 0.5:
        # a location outside the mask has no data at all
        ix = tuple(int(rng.integers(c)) for c in cells)
        for name in d.vars:
            d.vars[name][ix] = np.nan
    if hard and cells and rng.random() < sparse:
        # a station with hardly any observations
        ix = tuple(int(rng.integers(c)) for c in cells)
        kind = pick(rng, ["month", "month", "few", "few", "first", "last"])
        keep = np.zeros(n, dtype=bool)
        if kind == "month":
            keep[int(rng.integers(per))::per] = True
        elif kind == "few":
            keep[rng.choice(n, int(rng.integers(1, 12)), replace=False)] = True
        elif kind == "first":
            keep[:int(rng.integers(1, 3 * per))] = True
        else:
            keep[-int(rng.integers(1, 3 * per)):] = True
        for name in ("prcp", "pet"):
            d.vars[name][ix] = np.where(keep, d.vars[name][ix], np.nan)
    d.packed = False
    if dtype:
        for name in d.vars:
            d.vars[name] = d.vars[name].astype(dtype)
    elif rng.random() < 0.12:
        # stored as scaled integers with a fill value
        d.packed = True
        for name in d.vars:
            d.vars[name] = np.round(d.vars[name] * 100.0) * 0.01
    # how the file stores its time axis and its values
    d.time_encoding, d.zlib = None, False
    if periodicity == "monthly" and rng.random() < 0.25:
        d.time_encoding = {"units": pick(rng, ["days since 1800-01-01", "hours since 1850-01-01", "days since 2030-01-01"]),
                           "dtype": pick(rng, ["float64", "int64", "int32"])}
    if rng.random() < 0.15:
        d.zlib = True
    # what else is in the file
    d.company = set()
    if rng.random() < 0.25:
        d.company = {c for c in ("height", "bounds", "nv", "aux", "names", "crs", "mask") if rng.random() < 0.35}
    return d


UNITS = {"prcp": "mm", "pet": "mm", "tavg": "celsius"}


def company(d, dv, cc, names):
    """the further variables and coordinates found in files that follow the CF conventions"""
    if "height" in d.company:
        cc["height"] = 2.0
    if "nv" in d.company:
        cc["nv"] = [0, 1]
    if "bounds" in d.company:
        dv["time_bnds"] = (("time", "nv"), np.stack([np.arange(float(d.n)), np.arange(1.0, d.n + 1.0)], axis=1))
        if d.layout == "grid":
            dv["lat_bnds"] = (("lat", "nv"), np.stack([d.lat - 0.5, d.lat + 0.5], axis=1))
    if "crs" in d.company:
        dv["crs"] = ((), 0, {"grid_mapping_name": "latitude_longitude"})
        for n in names:
            dv[n][2]["grid_mapping"] = "crs"
    if "names" in d.company and d.layout != "timeseries":
        axis = "lat" if d.layout == "grid" else "division"
        cc["station"] = (axis, np.array([f"row {k}" for k in range(d.cells[0])], dtype=object))
    if d.layout == "grid":
        if "aux" in d.company:
            cc["area"] = (("lat", "lon"), np.arange(float(np.prod(d.cells))).reshape(d.cells))
        if "mask" in d.company:
            dv["mask"] = (("lon", "lat"), np.ones((d.cells[1], d.cells[0])))


def write(d, path, names, order=None, units=None, values=None, chunks=None, extra=False, rename=None, coords=None, drop_lat=False):
    """write variables of d (in the given dimension order) into a NetCDF file"""
    units, values, rename, coords = units or {}, values or {}, rename or {}, coords or {}
    canon = CANON[d.layout]
    order = order or canon
    cc = {"time": coords.get("time", d.times)}
    if d.layout == "grid":
        cc["lat"] = ("lat", coords.get("lat", d.lat), {"units": "degrees_north"})
        cc["lon"] = ("lon", coords.get("lon", d.lon), {"units": "degrees_east"})
    elif d.layout == "divisions":
        cc["division"] = coords.get("division", d.ids)
    dv, enc = {}, {}
    for name in names:
        u = units.get(name, UNITS.get(name, "1"))
        v = values.get(name, d.vars[name])
        da = xr.DataArray(v, dims=canon).transpose(*order)
        out = rename.get(name, name)
        dv[out] = (order, da.values, {"units": u, "long_name": name})
        if d.packed and name in UNITS and np.array_equal(np.round(v * 100.0) * 0.01, v, equal_nan=True):
            enc[out] = {"dtype": "int32", "scale_factor": 0.01, "add_offset": 0.0, "_FillValue": -2147483647}
        if d.zlib:
            enc.setdefault(out, {}).update({"zlib": True, "complevel": 1})
        if chunks:
            enc.setdefault(out, {}).update( {"chunksizes": tuple(min(chunks.get(k, 10 ** 9), da.sizes[k]) for k in order)})
    if d.layout == "divisions" and not drop_lat:
        dv["lat"] = (("division",), d.lat, {"units": "degrees_north"})
    if extra and d.layout == "grid":
        dv["elevation"] = (("lat", "lon"), np.arange(float(np.prod(d.cells))).reshape(d.cells), {"units": "m"})
    company(d, dv, cc, [rename.get(n, n) for n in names])
    ds = xr.Dataset(dv, coords=cc, attrs={"title": "synthetic"})
    if d.time_encoding and "time" not in coords:
        ds["time"].encoding.update(d.time_encoding)
    ds.to_netcdf(path, engine="h5netcdf", encoding=enc)
    return path


def read(path):
    """-> {variable: (dims, values, attrs)}, {coordinate: values}, encodings"""
    with xr.open_dataset(path) as ds:
        v = {k: (tuple(ds[k].dims), np.asarray(ds[k].values), dict(ds[k].attrs)) for k in ds.data_vars}
        c = {k: (tuple(ds[k].dims), np.asarray(ds[k].values)) for k in ds.coords}
        e = {k: dict(ds[k].encoding) for k in ds.data_vars}
    return v, c, e


def by_name(dims, values, canon):
    """values in the canonical order of dimensions, or None when the dimensions differ"""
    if sorted(dims) != sorted(canon):
        return None
    return np.transpose(values, [dims.index(k) for k in canon])
