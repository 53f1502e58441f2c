"""Monitors of the console programs: real runs (argv in, NetCDF files and exit status out)."""
import copy
import os
import shutil

import numpy as np
import pandas as pd

from climate_indices import __main__ as _m, __spi__ as _s  # noqa: F401  (imported once, runs are forks)
from climate_indices import compute, indices
from climate_indices.compute import Periodicity
from vmon import gen, nc, prog, ref
from vmon.core import Check, Skip, Violated, digest
from vmon.gen import pick

PER = {"monthly": Periodicity.monthly, "daily": Periodicity.daily}
DISTS = ("gamma", "pearson")


def dist_of(name):
    return indices.Distribution[name]


def along(d, fn, *arrays):
    """fn applied to the series of each location"""
    out = np.empty(d.shape)
    for ix in np.ndindex(*d.cells):
        out[ix] = fn(ix, *[np.array(a[ix], dtype=float) for a in arrays])
    return out


def in_366(d, fn):
    """fn works in 366-day years, the data are Gregorian days"""
    if d.periodicity == "monthly":
        return fn

    def g(ix, *xs):
        z = fn(ix, *[ref.to_366(x, d.start, d.years) for x in xs])
        return ref.to_gregorian(z, d.start)
    return g


def lib_spi(d, p, scale, dist, c0, c1, params=None):
    f = in_366(d, lambda ix, x: indices.spi(x, scale, dist_of(dist), d.start, c0, c1, PER[d.periodicity],
                                            **({} if params is None else {"fitting_params": params(ix)})))
    return along(d, f, p)


def lib_spei(d, p, e, scale, dist, c0, c1):
    f = in_366(d, lambda ix, x, y: indices.spei(x, y, scale, dist_of(dist), PER[d.periodicity], d.start, c0, c1))
    return along(d, f, p, e)


def lib_pnp(d, p, scale, c0, c1):
    return along(d, in_366(d, lambda ix, x: indices.percentage_of_normal(x, scale, d.start, c0, c1, PER[d.periodicity])), p)


def lib_pet(d, t, lat=None):
    lat = d.lat if lat is None else lat
    return along(d, lambda ix, x: indices.pet(x, float(lat[ix[0]]), d.start), t)


def expected(d, index, scales, c0, c1, source="pet", lat=None):
    """{file suffix: (variable, values)}; raises ValueError when the library refuses a series"""
    out = {}
    p = d.vars["prcp"]
    if index in ("spi", "scaled"):
        for s in scales:
            for k in DISTS:
                v = f"spi_{k}_{s:02d}"
                out[v] = lib_spi(d, p, s, k, c0, c1)
    e = d.vars["pet"]
    if index == "pet" or (index in ("spei", "scaled") and source == "temp"):
        out["pet_thornthwaite"] = e = lib_pet(d, d.vars["tavg"], lat)
    if index in ("spei", "scaled"):
        for s in scales:
            for k in DISTS:
                out[f"spei_{k}_{s:02d}"] = lib_spei(d, p, e, s, k, c0, c1)
    if index in ("pnp", "scaled"):
        for s in scales:
            out[f"pnp_{s:02d}"] = lib_pnp(d, p, s, c0, c1)
    return out


def scales_for(rng, d, most=2):
    if d.periodicity == "daily":
        opts = [1, 7, 30, 90]
    else:
        opts = [1, 2, 3, 5, 6, 9, 12, 18, 24, 36, 48]
    k = int(rng.integers(1, most + 1))
    if most > 1 and rng.random() < 0.15:
        k += 1
    return [int(s) for s in rng.choice(opts, k, replace=False)]


def calib(rng, d, inside=True):
    """a calibration period inside the record (long enough to be fitted), or around it"""
    full = d.n // 12 if d.periodicity == "monthly" else d.years
    need = min(full, int(gen.pick(rng, [6, 8, 8, 10])) if d.periodicity == "monthly" else 5)
    a = int(rng.integers(0, full - need + 1))
    b = int(rng.integers(a + need - 1, full))
    k = rng.random()
    if k < 0.25:
        # the final years (the normals of today)
        a, b = full - need, full - 1
    elif k < (0.4 if full <= 30 else 0.6):
        a, b = 0, full - 1
    elif k < 0.55 and not inside:
        a, b = (a - int(rng.integers(1, 6)), b) if rng.random() < 0.5 else (a, b + full)
    return d.start + a, d.start + b


class Job:
    """one run of process_climate_indices: what is written where, and the argument vector"""

    def __init__(self, rng, d, scratch, index=None, source=None, simple=False, tag="", shared=None, order=None):
        self.d, self.scratch = d, scratch
        opts = {"grid": ["spi", "pnp", "pet", "spei", "spei", "scaled"],
                "divisions": ["spi", "pnp", "pet", "spei", "spei", "scaled"],
                "timeseries": ["spi", "pnp"]}[d.layout]
        if d.periodicity == "daily":
            opts = ["spi", "pnp", "spei"] if d.layout == "grid" else ["spi", "pnp"]
        self.index = index or pick(rng, opts)
        self.source = source or ("pet" if d.periodicity == "daily" else pick(rng, ["pet", "temp"]))
        self.scales = scales_for(rng, d, 1 if self.index == "scaled" or d.periodicity == "daily" else 2)
        self.c0, self.c1 = calib(rng, d, self.index not in ("spi", "spei"))
        self.out = scratch("out", f"res{tag}")
        self.files = {}
        names = []
        if self.index != "pet":
            names.append("prcp")
        if self.index == "pet":
            names.append("tavg")
        elif self.index in ("spei", "scaled"):
            names.append("pet" if self.source == "pet" else "tavg")
        self.names = names
        orders = nc.ORDERS[d.layout]
        rename = {n: pick(rng, [n, n, n + "_v"]) for n in names}
        self.rename = rename
        self.order = {}
        self.lat = None
        shared = len(names) > 1 and (rng.random() < 0.3 if shared is None else shared)
        self.same_names = len(names) > 1 and not shared and rng.random() < 0.2
        if self.same_names:
            # every file calls its variable alike
            rename.update({n: "data" for n in names})
        chunked = rng.random() < 0.3
        ch = {"lat": 2, "lon": 2, "time": 24, "division": 2} if chunked else None
        if shared:
            o = orders[0] if simple else (None if isinstance(order, dict) else order) or pick(rng, orders)
            path = scratch("in", f"all{tag}.nc")
            nc.write(d, path, names, order=o, rename=rename, chunks=ch)
            for n in names:
                self.files[n], self.order[n] = path, o
        else:
            for n in names:
                o = orders[0] if simple else (order.get(n, order.get("other")) if isinstance(order, dict) else order) or pick(rng, orders)
                path = scratch("in", f"{n}{tag}.nc")
                co = {}
                if n != "prcp" and "prcp" in names and d.layout == "grid" and rng.random() < 0.25:
                    # the same grid, up to rounding
                    co = {"lat": d.lat.astype(np.float32).astype(float) if d.cells[0] > 1 else d.lat,
                          "lon": d.lon.astype(np.float32).astype(float) if d.cells[1] > 1 else d.lon}
                if n == "tavg":
                    self.lat = co.get("lat")
                nc.write(d, path, [n], order=o, rename=rename, chunks=ch, coords=co, extra=(n == "prcp" and rng.random() < 0.3))
                self.files[n], self.order[n] = path, o
        # (whatever the order of the draws above)
        self.chunksizes = "input" if chunked and rng.random() < 0.5 else "none"
        self.mode = pick(rng, ["single", "all_but_one", "all"])
        self.cpus = int(rng.integers(1, 9))

    def argv(self, mode=None, out=None):
        a = ["--index", self.index, "--periodicity", self.d.periodicity, "--output_file_base", out or self.out,
             "--multiprocessing", mode or self.mode, "--chunksizes", self.chunksizes]
        if self.index != "pet":
            a += ["--scales"] + [str(s) for s in self.scales]
            a += ["--calibration_start_year", str(self.c0), "--calibration_end_year", str(self.c1)]
        for n, opt in (("prcp", "precip"), ("tavg", "temp"), ("pet", "pet")):
            if n in self.files:
                a += [f"--netcdf_{opt}", self.files[n], f"--var_name_{opt}", self.rename[n]]
        return a

    def expected(self):
        return expected(self.d, self.index, self.scales, self.c0, self.c1, self.source, self.lat)

    def describe(self):
        return {"index": self.index, "layout": self.d.layout, "periodicity": self.d.periodicity, "shape": list(self.d.shape),
                "start": self.d.start, "scales": self.scales, "calibration": [self.c0, self.c1], "source": self.source,
                "order": {k: list(v) for k, v in self.order.items()}, "mode": self.mode, "cpus": self.cpus,
                "chunksizes": self.chunksizes, "names": sorted(self.rename.values()), "shared_file": len(set(self.files.values())) < len(self.files)}


def finished(ctx, r, what):
    ctx.check(r.code == 0, f"{what} failed with status {r.code}: {r.message}", output=r.output[-2500:])


def compare(ctx, d, base, want, atol=1e-9, ignore=None):
    """every expected file is there, and holds the expected values at every location and time"""
    canon = nc.CANON[d.layout]
    for name, values in want.items():
        path = f"{base}_{name}.nc"
        ctx.check(os.path.exists(path), f"{os.path.basename(path)} was not written")
        v, c, e = nc.read(path)
        ctx.check(name in v, f"{os.path.basename(path)} has no variable {name}, but {sorted(v)}")
        got = nc.by_name(v[name][0], v[name][1], canon)
        ctx.check(got is not None, f"{name} has dimensions {v[name][0]}")
        ctx.same(got, values, name, atol=atol, rtol=1e-9, ignore=None if ignore is None else ignore[name])
        ctx.count("files_compared")
        ctx.count("locations_compared", max(1, int(np.prod(d.cells))))


def usable(fn):
    """the library's answer; a series it refuses is not what the property is about"""
    try:
        return fn()
    except ValueError:
        raise Skip("the library refuses a series of this data set")


def schedule_evidence(ctx, r):
    ctx.count("worker_events", len(r.events))
    ctx.count("worker_processes", len({e[0] for e in r.events}))
    if r.events:
        first = {}
        order = tuple(first.setdefault(e[0], len(first)) for e in sorted(r.events, key=lambda e: e[3]))
        ctx.distinct("completion orders of the workers", order, [e[1] for e in r.events])
        ctx.count("schedules_recorded")


class Program(Check):
    level = "exploration"
    quick_budget = 300
    thorough_budget = 780

    def case(self, ctx, rng, i, s):
        raise NotImplementedError

    def run(self, ctx, rng, i):
        with prog.Scratch() as s:
            self.case(ctx, rng, i, s)


class PerCell(Program):
    pid = "C19"
    quick, thorough = 112, 900
    rule = ("runs of process_climate_indices on grids (1..5 x 1..4), climate divisions (1..9) and single time series, monthly and "
            "daily, in every documented dimension order, ascending and descending coordinates, empty locations, gaps, 32 and 64 "
            "bit data, one or several files, unrelated variables, 1..8 CPUs x 3 multiprocessing options; every value of every "
            "output compared with the library's answer for that location's series; distinct by data and argument digest")
    must_observe = ("files_compared",)

    def case(self, ctx, rng, i, s):
        per = "daily" if i % 8 == 3 else "monthly"
        layout = None if per == "monthly" else pick(rng, ["grid", "timeseries"])
        d = nc.make(rng, layout=layout, periodicity=per, dtype=np.float32 if rng.random() < 0.15 else None)
        j = Job(rng, d, s)
        ctx.note(**j.describe())
        want = usable(j.expected)
        r = prog.run("process_climate_indices", j.argv(), s, cpus=j.cpus, jitter=0.0)
        finished(ctx, r, "process_climate_indices")
        schedule_evidence(ctx, r)
        # the leap day of other years is interpolated in the type of the data
        compare(ctx, d, j.out, want, atol=1e-4 if per == "daily" and d.vars["prcp"].dtype == np.float32 else 1e-9)
        ctx.state(d.vars["prcp"], d.vars["tavg"], j.argv()[:-1])
        ctx.count("layout " + d.layout)
        ctx.count("index " + j.index)
        ctx.count("same_names", bool(j.same_names))
        ctx.sample(**j.describe())


class Schedules(Program):
    pid = "C20"
    quick, thorough = 96, 480
    rule = ("each data set is processed under several worker schedules (1..9 CPUs, the three multiprocessing options, random "
            "delays of 0..30 ms around every per-location computation) by both programs, and all outputs must be the same; "
            "recorded: worker processes and distinct completion orders")
    must_observe = ("schedule_pairs", "many_rows", "splits")

    # every number of workers with up to four times as many rows, in a fixed scattered order
    SPLITS = [(c, r) for c in range(1, 10) for r in range(1, 4 * c + 1)]

    def splits(self, ctx, rng, i, s):
        """rows are shared out between the workers: each one is computed, once, and lands where it belongs"""
        todo = np.random.default_rng(20).permutation(len(self.SPLITS))
        spi = i % 4 == 1
        for k in range(3):
            cpus, rows = self.SPLITS[int(todo[(3 * (i // 8 * 5 + i % 8 - 3) + k) % len(todo)])]
            layout = "divisions" if rng.random() < 0.4 and not spi else "grid"
            d = nc.make(rng, layout=layout, cells=(rows,) if layout == "divisions" else (rows, 1), years=6 if spi else 2, hard=False,
                        empty=False, partial=False)
            if spi:
                j = SpiJob(rng, d, s, tag=str(k), scales=[1], c=(d.start, d.start + 5))
            else:
                j = Job(rng, d, s, index="pnp", tag=str(k))
                j.scales, j.c0, j.c1 = [1], d.start, d.start + 1
            ctx.note(split=[cpus, rows], **j.describe())
            want = usable(j.expected)
            r = prog.run("spi" if spi else "process_climate_indices", j.argv(mode="all"), s, cpus=cpus, jitter=0.0)
            finished(ctx, r, f"the run of {rows} rows on {cpus} CPUs")
            schedule_evidence(ctx, r)
            compare(ctx, d, j.out, want, atol=1e-8)
            ctx.distinct("rows and workers", cpus, rows)
            ctx.count("splits")
        ctx.state("splits", i)

    def case(self, ctx, rng, i, s):
        if i % 8 > 2:
            return self.splits(ctx, rng, i, s)
        i = i // 8 * 3 + i % 8
        spi = i % 3 == 2
        neg = float(pick(rng, [0.0, 0.5, 1.0]))
        d = nc.make(rng, layout="grid" if spi else None, negative=neg)
        if d.layout == "grid" and rng.random() < 0.7:
            cells = (int(rng.integers(2, 9)), int(rng.integers(1, 4)))
            if rng.random() < 0.45:
                # every way rows may be shared between workers
                cells = (int(rng.integers(9, 40)), 1)
                ctx.count("many_rows")
            d = nc.make(rng, layout="grid", cells=cells, years=10, negative=neg)
        if spi:
            j = SpiJob(rng, d, s)
        elif d.layout == "timeseries":
            j = Job(rng, d, s)
        else:
            # every index in turn
            index, source = [("spei", "pet"), ("scaled", "temp"), ("spei", "temp"), ("pnp", None), ("scaled", "pet"), ("pet", None),
                             ("spei", "pet"), ("spi", None)][(i - i // 3) % 8]
            j = Job(rng, d, s, index=index, source=source)
        program = "spi" if spi else "process_climate_indices"
        ctx.note(program=program, **j.describe())
        want = usable(j.expected)
        ks = 3 if ctx_tier(self) == "quick" else 6
        base = None
        for k in range(ks):
            if k == 0:
                mode, cpus, jitter = "single", 4, None
            else:
                mode, cpus, jitter = pick(rng, ["all", "all", "all_but_one"]), int(rng.integers(1, 10)), 0.03
                if k == 1:
                    cpus = max(2, cpus)
            out = s("out", f"s{k}")
            r = prog.run(program, j.argv(mode=mode, out=out), s, cpus=cpus, jitter=jitter, seed=int(rng.integers(1 << 30)))
            ctx.note(schedule=[mode, cpus, jitter])
            finished(ctx, r, f"the run with {mode}, {cpus} CPUs")
            schedule_evidence(ctx, r)
            res = {}
            for name in want:
                path = f"{out}_{name}.nc"
                ctx.check(os.path.exists(path), f"{os.path.basename(path)} was not written with {mode}, {cpus} CPUs")
                v, c, _ = nc.read(path)
                res[name] = (v, c)
            # nor does any schedule change what belongs at a location
            compare(ctx, d, out, want, atol=1e-8)
            if base is None:
                base = res
                continue
            for name in want:
                (v0, c0), (v1, c1) = base[name], res[name]
                ctx.check(sorted(v0) == sorted(v1), f"{name}: variables {sorted(v1)}, with one worker {sorted(v0)}")
                ctx.check(v0[name][0] == v1[name][0], f"{name}: dimensions {v1[name][0]}, with one worker {v0[name][0]}")
                ctx.same(v1[name][1], v0[name][1], f"{name} with {mode}, {cpus} CPUs (against one worker)", atol=1e-11, rtol=1e-11)
                for q in c0:
                    ctx.check(q in c1 and np.array_equal(c0[q][1], c1[q][1]), f"{name}: coordinate {q} depends on the workers")
                ctx.count("schedule_pairs")
        ctx.state(d.vars["prcp"], j.argv()[:2])
        ctx.sample(**j.describe())


def ctx_tier(check):
    return getattr(check, "tier", "quick")


class SpiJob:
    def __init__(self, rng, d, scratch, tag="", scales=None, c=None, order=None):
        self.d, self.scratch = d, scratch
        self.index = "spi"
        self.scales = scales or scales_for(rng, d, 1 if d.periodicity == "daily" else 2)
        self.c0, self.c1 = c or calib(rng, d, False)
        self.out = scratch("out", f"res{tag}")
        self.order = order or pick(rng, nc.ORDERS["grid"])
        self.name = pick(rng, ["prcp", "prcp", "rain"])
        self.file = nc.write(d, scratch("in", f"precip{tag}.nc"), ["prcp"], order=self.order, rename={"prcp": self.name})
        self.mode = pick(rng, ["single", "all_but_one", "all"])
        self.cpus = int(rng.integers(1, 9))
        self.unit = "month" if d.periodicity == "monthly" else "day"

    def argv(self, mode=None, out=None, more=()):
        return ["--periodicity", self.d.periodicity, "--scales"] + [str(k) for k in self.scales] + [
            "--calibration_start_year", str(self.c0), "--calibration_end_year", str(self.c1),
            "--netcdf_precip", self.file, "--var_name_precip", self.name, "--output_file_base", out or self.out,
            "--multiprocessing", mode or self.mode] + list(more)

    def name_of(self, dist, scale):
        return f"spi_{dist}_{scale}_{self.unit}"

    def expected(self, params=None):
        out = {}
        for k in self.scales:
            for dist in DISTS:
                f = None if params is None else (lambda ix, k=k, dist=dist: params(ix, dist, k))
                out[self.name_of(dist, k)] = lib_spi(self.d, self.d.vars["prcp"], k, dist, self.c0, self.c1, f)
        return out

    def describe(self):
        return {"shape": list(self.d.shape), "periodicity": self.d.periodicity, "start": self.d.start, "scales": self.scales,
                "calibration": [self.c0, self.c1], "order": list(self.order), "mode": self.mode, "cpus": self.cpus}


FIT = {"gamma": ("alpha", "beta"), "pearson": ("prob_zero", "loc", "scale", "skew")}


class SpiProgram(Program):
    pid = "C21"
    quick, thorough = 56, 400
    rule = ("runs of the spi program on monthly and daily grids: indices and saved fitting parameters of every location compared "
            "with the library's; the saved parameters, loaded for the same data, a subset of the scales, or a longer record "
            "of the same grid, must standardise exactly as the library does with those parameters")
    must_observe = ("files_compared", "parameters_compared", "loaded_runs")

    def case(self, ctx, rng, i, s):
        per = "daily" if i % 8 == 5 else "monthly"
        d = nc.make(rng, layout="grid", periodicity=per, sparse=0.5)
        if per == "daily":
            d = nc.make(rng, layout="grid", periodicity=per, years=5, cells=(int(rng.integers(1, 3)), int(rng.integers(1, 3))), sparse=0.3)
        j = SpiJob(rng, d, s, scales=[1] if i % 3 == 1 else None)
        ctx.note(**j.describe())
        want = usable(j.expected)
        par = s("out", "fit.nc")
        r = prog.run("spi", j.argv(more=["--save_params", par]), s, cpus=j.cpus, jitter=0.0)
        finished(ctx, r, "spi")
        compare(ctx, d, j.out, want, atol=1e-8)
        ctx.check(os.path.exists(par), "the fitting parameters were not saved")
        v, c, _ = nc.read(par)
        canon = ("lat", "lon", j.unit)
        steps = 12 if per == "monthly" else 366
        store = {}
        for k in j.scales:
            for q in FIT["gamma"] + FIT["pearson"]:
                name = f"{q}_{k}_{j.unit}"
                ctx.check(name in v, f"{name} was not saved")
                a = nc.by_name(v[name][0], v[name][1], canon)
                ctx.check(a is not None and a.shape == tuple(d.cells) + (steps,), f"{name}: dimensions {v[name][0]}")
                store[name] = a
        for ax, vals in (("lat", d.lat), ("lon", d.lon)):
            ctx.check(ax in c and np.allclose(c[ax][1], vals, atol=1e-9), f"{ax} of the saved parameters differ from the data's")
        for ix in np.ndindex(*d.cells):
            x = d.vars["prcp"][ix].astype(float)
            if per == "daily":
                x = ref.to_366(x, d.start, d.years)
            if np.all(np.isnan(x)):
                continue
            for k in j.scales:
                y = compute.scale_values(x.copy(), k, PER[per])
                g = compute.gamma_parameters(y, d.start, j.c0, j.c1, PER[per])
                p = compute.pearson_parameters(y, d.start, j.c0, j.c1, PER[per])
                for q, arr in zip(FIT["gamma"] + FIT["pearson"], tuple(g) + tuple(p)):
                    ctx.same(store[f"{q}_{k}_{j.unit}"][ix], arr, f"saved {q} of {k}-{j.unit} at {ix}", atol=1e-8, rtol=1e-8)
                    ctx.count("parameters_compared", steps)

        # load them again
        kind = pick(rng, ["same", "same", "subset", "longer"]) if per == "monthly" else "same"
        j2 = SpiJob(rng, d, s, tag="2", scales=j.scales, c=(j.c0, j.c1))
        if kind == "subset":
            j2.scales = j.scales[-1:]
        elif kind == "longer":
            e = nc.make(rng, layout="grid", cells=d.cells, start=d.start, years=d.years + 2, empty=False)
            e.lat, e.lon = d.lat, d.lon
            j2 = SpiJob(rng, e, s, tag="2", scales=j.scales, c=(j.c0, j.c1))
        ctx.note(load=kind, **j2.describe())

        def params(ix, dist, k):
            return {q: store[f"{q}_{k}_{j.unit}"][ix].copy() for q in FIT[dist]}
        want2 = usable(lambda: j2.expected(params))
        r = prog.run("spi", j2.argv(more=["--load_params", par]), s, cpus=j2.cpus, jitter=0.0)
        finished(ctx, r, "spi with loaded parameters")
        compare(ctx, j2.d, j2.out, want2, atol=1e-8)
        if kind in ("same", "subset"):
            compare(ctx, d, j2.out, {n: want[n] for n in want2}, atol=1e-6)
        ctx.count("loaded_runs")
        ctx.count("load " + kind)
        ctx.state(d.vars["prcp"], j.argv()[:6])
        ctx.sample(**j.describe())


PSPELL = ["mm", "millimeters", "millimeter", "mm/dy", "MM", "Millimeters"]
ISPELL = ["inches", "inch", "Inches"]
CSPELL = ["celsius", "c", "degrees_celsius", "degree_celsius", "C", "Celsius"]
FSPELL = ["f", "fahrenheit", "degrees_fahrenheit", "degree_fahrenheit", "F"]
KSPELL = ["k", "kelvin", "K"]


class Units(Program):
    pid = "C22"
    quick, thorough = 144, 900
    rule = ("the same data expressed in every documented unit spelling (mm/inches, C/F/K), for grids and divisions, both programs; "
            "outputs compared with the library's answer for the values in mm and degrees C; unknown units must be refused")
    must_observe = ("files_compared", "converted", "refusals for prcp", "refusals for pet", "refusals for tavg", "spellings of prcp", "spellings of pet", "spellings of tavg")

    def case(self, ctx, rng, i, s):
        bad = i % 6 == 5
        refuse = ["prcp", "pet", "tavg"][i // 6 % 3] if bad else None
        program = pick(rng, ["spi", "pci", "pci", "pci"]) if refuse in (None, "prcp") else "pci"
        d = nc.make(rng, layout="grid" if program == "spi" else pick(rng, ["grid", "divisions"]),
                    cells=None, years=10, mean=pick(rng, [None, None, -20.0, 5.0, 15.0, 25.0]))
        if program == "spi":
            j = SpiJob(rng, d, s)
            files = {"prcp": j.file}
            names = {"prcp": j.name}
            orders = {"prcp": j.order}
        else:
            index, source = pick(rng, {"pet": [("spei", "pet")], "prcp": [("spi", None), ("spei", "temp"), ("spei", "pet"), ("scaled", "temp")],
                                       "tavg": [("pet", None), ("spei", "temp"), ("scaled", "temp")],
                                       None: [(None, None), ("pet", None), ("spei", "temp"), ("scaled", "temp"), ("spei", "pet")]}[refuse])
            j = Job(rng, d, s, index=index, source=source)
            files, names, orders = j.files, j.rename, j.order
            j.lat = None      # (the files are written anew below)
        want = usable(j.expected)
        units, values = {}, {}
        for n in files:
            turn = i + int(rng.integers(2))
            if n == "tavg":
                u = (CSPELL + FSPELL + KSPELL)[turn % len(CSPELL + FSPELL + KSPELL)]
                k = "c" if u in CSPELL else "f" if u in FSPELL else "k"
                x = d.vars[n]
                values[n] = {"c": x, "f": x * 1.8 + 32.0, "k": x + 273.15}[k]
                ctx.count("converted", k != "c")
            else:
                us = ISPELL + (PSPELL if n == "prcp" else PSPELL[:3] + ["MM", "Millimeter"])
                u = us[turn % len(us)]
                inches = u in ISPELL
                values[n] = d.vars[n] / 25.4 if inches else d.vars[n]
                ctx.count("converted", inches)
            units[n] = u
            ctx.count("spellings of " + n)
        if bad:
            n = refuse
            ctx.count("refusals for " + n)
            units[n] = pick(rng, ["furlong", "kg", "rankine", "m", "cm", "mm/day2", ""])
        groups = {}
        for n, f in files.items():
            groups.setdefault(f, []).append(n)
        for f, ns in groups.items():
            os.remove(f)
            nc.write(d, f, ns, order=orders[ns[0]], rename=names, units=units, values=values)
        ctx.note(units=units, **j.describe())
        before = prog.listing(s("out"))
        par = s("out", "fit.nc")
        r = prog.run("spi" if program == "spi" else "process_climate_indices", j.argv(more=["--save_params", par]) if program == "spi" else j.argv(),
                     s, cpus=j.cpus, jitter=0.0)
        if bad:
            ctx.check(r.code != 0, f"units {units} were accepted")
            # (unless an index that does not need this input came first)
            ctx.check(j.index in ("spei", "scaled") or prog.listing(s("out")) == before, "outputs were written although the units are unknown")
            ctx.count("refusals")
            return
        finished(ctx, r, f"the run with units {units}")
        # conversions round: values that hang on the last digits of the input (fits of nearly equal totals) are not judged
        near = copy.copy(d)
        vague = {n: np.zeros(np.shape(w), dtype=bool) for n, w in want.items()}
        for _ in range(3):
            near.vars = {n: v + np.where(v == 0.0, 0.0, 1e-12 * (1.0 + np.abs(v)) * rng.uniform(-1, 1, v.shape)) for n, v in d.vars.items()}
            j.d = near
            other = usable(j.expected)
            j.d = d
            for n in want:
                vague[n] |= ~(np.abs(other[n] - want[n]) <= 2e-7) & ~(np.isnan(other[n]) & np.isnan(want[n]))
        ctx.count("values_ambiguous", int(sum(v.sum() for v in vague.values())))
        compare(ctx, d, j.out, want, atol=2e-6, ignore=vague)
        if program == "spi":
            # (the standardised values hardly depend on the unit, the parameters do)
            v, c, _ = nc.read(par)
            for ix in np.ndindex(*d.cells):
                for k in j.scales:
                    fits = []
                    for x in (d.vars["prcp"][ix].astype(float), near.vars["prcp"][ix].astype(float)):
                        y = compute.scale_values(x.copy(), k, PER["monthly"])
                        if np.all(np.isnan(y)):
                            break
                        fits.append(tuple(compute.gamma_parameters(y, d.start, j.c0, j.c1, PER["monthly"]))
                                    + tuple(compute.pearson_parameters(y, d.start, j.c0, j.c1, PER["monthly"])))
                    if len(fits) < 2:
                        continue
                    for q, a, b in zip(FIT["gamma"] + FIT["pearson"], *fits):
                        name = f"{q}_{k}_{j.unit}"
                        ctx.check(name in v, f"{name} was not saved")
                        got = nc.by_name(v[name][0], v[name][1], ("lat", "lon", j.unit))[ix]
                        sure = np.abs(a - b) <= 1e-7 * (1e-3 + np.abs(a))
                        ctx.same(np.where(sure, got, 0.0), np.where(sure, a, 0.0), f"{q} of {k}-{j.unit} at {ix}, fitted to the values in mm", atol=1e-6, rtol=1e-5)
                        ctx.count("parameters_compared", int(sure.sum()))
        ctx.state(d.vars["prcp"], sorted(units.items()))
        ctx.sample(units=units, **j.describe())


class Mismatches(Program):
    pid = "C23"
    quick, thorough = 164, 1300
    rule = ("invalid invocations of both programs: inputs whose latitudes, longitudes, divisions or times differ, missing or wrong "
            "variables, files and options, dimension orders that are not documented, conflicting options; each must end with a "
            "non-zero status, leave the files of an earlier run as they were and write nothing; distinct by kind and data")
    must_observe = ("refusals",)

    KINDS = ["lat", "lat-flip", "lon", "time-shift", "time-length", "time-same-length", "time-middle", "division-ids", "division-order",
             "var-precip", "var-second", "file-precip", "file-second", "no-precip", "no-second", "no-scales", "negative-scale",
             "both", "pet-daily", "layout", "dims", "spei-temp-daily",
             "spi-both", "spi-exists", "spi-load-absent", "spi-load-scale", "spi-var", "spi-dims", "spi-negative", "spi-no-file",
             "spi-load-variable", "grid-size", "no-var-second"]
    # the comparisons of the two inputs are made separately for PET and temperature
    PAIRED = ["lat", "lat-flip", "lon", "time-shift", "time-length", "time-same-length", "time-middle", "grid-size"]

    def case(self, ctx, rng, i, s):
        kinds = self.KINDS + self.PAIRED
        kind = kinds[i % len(kinds)] if i < 3 * len(kinds) else pick(rng, kinds)
        self.turn = i // len(kinds) + (i % len(kinds) >= len(self.KINDS))
        ctx.note(kind=kind)
        # an earlier run's results are in the output folder
        for n in ("spi_gamma_01", "spi_pearson_01", "spei_gamma_01", "pet_thornthwaite", "pnp_01", "spi_gamma_1_month"):
            with open(s("out", f"res_{n}.nc"), "wb") as f:
                f.write(b"earlier " + n.encode())
        argv, program = self.spi_case(kind, rng, s) if kind.startswith("spi-") else self.pci_case(kind, rng, s)
        before = prog.listing(s("out")), prog.listing(s("in"))
        r = prog.run(program, argv, s, cpus=3)
        ctx.note(argv=argv)
        ctx.check(r.code != 0, f"{program} accepted an invalid invocation ({kind})", output=r.output[-1500:])
        after = prog.listing(s("out")), prog.listing(s("in"))
        ctx.check(after[0] == before[0], f"{kind}: a refused invocation wrote {sorted(set(after[0].items()) ^ set(before[0].items()))[:4]}")
        ctx.check(after[1] == before[1], f"{kind}: a refused invocation changed its inputs")
        ctx.count("refusals")
        ctx.count("refused " + kind)
        ctx.state(kind, i)
        ctx.sample(kind=kind, message=r.message[:120])

    def pci_case(self, kind, rng, s):
        layout = {"division-ids": "divisions", "division-order": "divisions"}.get(kind, "grid")
        if kind in ("time-shift", "time-length", "time-same-length", "time-middle", "no-second", "file-second") and rng.random() < 0.3:
            layout = "divisions"
        if kind in ("var-precip", "no-precip", "no-scales", "negative-scale") and rng.random() < 0.3:
            layout = "timeseries"
        cells = {"grid": (3, 3), "divisions": (4,), "timeseries": ()}[layout]
        d = nc.make(rng, layout=layout, cells=cells, years=10, empty=False, partial=False, calendars=False)
        if layout == "grid" and rng.random() < 0.7:
            # much finer along one axis than along the other
            f = float(rng.choice([0.02, 0.1]))
            if rng.random() < 0.5:
                step = max(0.05, f * abs(d.lon[1] - d.lon[0]))
                d.lat = d.lat[0] + (d.lat - d.lat[0]) * step / abs(d.lat[1] - d.lat[0])
            else:
                step = max(0.05, f * abs(d.lat[1] - d.lat[0]))
                d.lon = d.lon[0] + (d.lon - d.lon[0]) * step / abs(d.lon[1] - d.lon[0])
        src = ["pet", "temp"][self.turn % 2]
        index = pick(rng, ["spei", "spei", "scaled"])
        if layout == "timeseries":
            index = pick(rng, ["spi", "pnp"])
        if kind in ("no-precip", "var-precip", "file-precip", "no-scales", "negative-scale", "dims") and rng.random() < 0.5:
            index = pick(rng, ["spi", "pnp"])
        per = "monthly"
        if kind in ("pet-daily", "spei-temp-daily") and rng.random() < 0.6:
            # (nothing but the option to tell that the temperatures are daily ones)
            d = e = nc.make(rng, layout="grid", cells=(2, 2), periodicity="daily", years=5, empty=False)
        if kind == "pet-daily":
            index, per, src = "pet", "daily", "temp"
        if kind == "spei-temp-daily":
            per, src = "daily", "temp"
        second = "pet" if src == "pet" else "tavg"
        order = nc.ORDERS[layout][0 if rng.random() < 0.7 else -1]
        pf, sf = s("in", "p.nc"), s("in", "s.nc")
        coords = {}
        e = d
        if kind == "lat":
            coords["lat"] = d.lat + float(rng.choice([-1.0, 1.0])) * rng.uniform(0.3, 2.0) * abs(d.lat[1] - d.lat[0])
        elif kind == "lat-flip":
            coords["lat"] = d.lat[::-1].copy()
        elif kind == "lon":
            k = int(rng.integers(3))
            coords["lon"] = d.lon.copy()
            coords["lon"][k:] += rng.uniform(0.3, 2.0) * abs(d.lon[1] - d.lon[0])
        elif kind == "time-shift":
            coords["time"] = d.times + pd.DateOffset(months=int(rng.choice([-12, -1, 1, 12, 120])))
        elif kind == "time-same-length":
            t = np.array(d.times.values)
            k = int(rng.integers(len(t)))
            t[k:] = t[k:] + np.timedelta64(1, "D")
            coords["time"] = t
        elif kind == "time-middle":
            # the first and last time steps agree
            t = np.array(d.times.values)
            k = int(rng.integers(1, len(t) - 1))
            t[k:k + 1 + int(rng.integers(0, len(t) - 1 - k))] += np.timedelta64(int(rng.integers(1, 3)), "D")
            coords["time"] = t
        elif kind == "time-length":
            e = nc.make(rng, layout=layout, cells=cells, years=10 + int(rng.choice([-1, 1])), start=d.start, empty=False, partial=False, calendars=False)
            e.lat, e.lon, e.ids = d.lat, d.lon, d.ids
        elif kind == "grid-size":
            cells2 = (3, 4) if rng.random() < 0.5 else (2, 3)
            e = nc.make(rng, layout=layout, cells=cells2, years=10, start=d.start, empty=False, partial=False, calendars=False)
            e.times = d.times
        elif kind == "division-ids":
            coords["division"] = d.ids.copy()
            coords["division"][int(rng.integers(4))] += 1 + int(rng.integers(5)) * 10000
        elif kind == "division-order":
            coords["division"] = np.roll(d.ids, 1)
        elif kind == "layout":
            e = nc.make(rng, layout=pick(rng, ["divisions", "timeseries"]), cells=None, years=10, start=d.start, empty=False, partial=False, calendars=False)
            if e.layout == "divisions":
                e = nc.make(rng, layout="divisions", cells=(3,), years=10, start=d.start, empty=False, partial=False, calendars=False)
            e.times = d.times
        porder = order
        sorder = order if e.layout == d.layout else nc.CANON[e.layout]
        if kind == "dims":
            porder = pick(rng, [("lon", "lat", "time"), ("time", "lon", "lat"), ("lat", "time", "lon"), ("lon", "time", "lat")])
            if index in ("spei", "scaled") and rng.random() < 0.5:
                porder, sorder = order, porder
        nc.write(d, pf, ["prcp"], order=porder)
        nc.write(e, sf, [second], order=sorder, coords=coords)
        if kind == "file-precip":
            os.remove(pf)
        if kind == "file-second":
            os.remove(sf)
        scales = ["--scales", "1", "3"]
        if kind == "no-scales":
            scales = []
        if kind == "negative-scale":
            scales = ["--scales", "1", "-3"]
        a = ["--index", index, "--periodicity", per, "--output_file_base", s("out", "res"), "--multiprocessing",
             pick(rng, ["single", "all"])] + scales + ["--calibration_start_year", d.start, "--calibration_end_year", d.start + 9]
        if index != "pet" and kind != "no-precip":
            a += ["--netcdf_precip", pf, "--var_name_precip", "nonesuch" if kind == "var-precip" else "prcp"]
        if index in ("pet", "spei", "scaled") and kind != "no-second":
            o = "pet" if src == "pet" else "temp"
            a += [f"--netcdf_{o}", sf]
            if kind != "no-var-second":
                a += [f"--var_name_{o}", "nonesuch" if kind == "var-second" else second]
            if kind == "both":
                third = "tavg" if src == "pet" else "pet"
                o = "temp" if src == "pet" else "pet"
                nc.write(d, s("in", "t.nc"), [third], order=order)
                a += [f"--netcdf_{o}", s("in", "t.nc"), f"--var_name_{o}", third]
        return [str(x) for x in a], "process_climate_indices"

    def spi_case(self, kind, rng, s):
        d = nc.make(rng, layout="grid", cells=(2, 2), years=10, empty=False, partial=False, calendars=False)
        pf = s("in", "p.nc")
        order = pick(rng, nc.ORDERS["grid"])
        if kind == "spi-dims":
            order = pick(rng, [("lon", "lat", "time"), ("time", "lon", "lat"), ("lat", "time", "lon")])
        nc.write(d, pf, ["prcp"], order=order)
        scales = ["1", "3"]
        if kind == "spi-negative":
            scales = ["1", "-3"]
        a = ["--periodicity", "monthly", "--scales"] + scales + [
            "--calibration_start_year", d.start, "--calibration_end_year", d.start + 9,
            "--netcdf_precip", s("in", "absent.nc") if kind == "spi-no-file" else pf,
            "--var_name_precip", "nonesuch" if kind == "spi-var" else "prcp", "--output_file_base", s("out", "res"),
            "--multiprocessing", "single"]
        if kind == "spi-load-absent":
            a += ["--load_params", s("in", "absent.nc")]
        if kind == "spi-exists":
            with open(s("out", "fit.nc"), "wb") as f:
                f.write(b"parameters of somebody else")
            a += ["--save_params", s("out", "fit.nc")]
        if kind in ("spi-load-scale", "spi-load-variable", "spi-both"):
            import xarray as xr
            dv = {}
            have = ["1"] if kind == "spi-load-scale" else ["1", "3"]
            for q in FIT["gamma"] + FIT["pearson"]:
                for k in have:
                    dv[f"{q}_{k}_month"] = (("lat", "lon", "month"), np.full((2, 2, 12), 1.0))
            if kind == "spi-load-variable":
                dv.pop(pick(rng, sorted(dv)))
            xr.Dataset(dv, coords={"lat": d.lat, "lon": d.lon, "month": np.arange(12)}).to_netcdf(s("in", "fit.nc"), engine="h5netcdf")
            a += ["--load_params", s("in", "fit.nc")]
            if kind == "spi-both":
                a += ["--save_params", s("out", "newfit.nc")] + (["--overwrite"] if rng.random() < 0.5 else [])
        return [str(x) for x in a], "spi"


class Faults(Program):
    pid = "C24"
    quick, thorough = 72, 500
    rule = ("runs in which the computation of one location fails in a worker (a series no distribution can be fitted to, a latitude "
            "outside the globe, an injected MemoryError/ValueError at a random call), or the output folder is missing: the program "
            "must end with a non-zero status, the failed index must have no output file, files it had already completed must be "
            "right and earlier files of other runs untouched")
    must_observe = ("faults",)

    KINDS = ["constant", "constant", "spi-constant", "latitude", "folder", "inject", "inject", "spi-inject"]

    def case(self, ctx, rng, i, s):
        kind = self.KINDS[i % len(self.KINDS)]
        with open(s("out", "unrelated.nc"), "wb") as f:
            f.write(b"unrelated")
        spi = kind.startswith("spi-")
        layout = "grid" if spi or kind in ("latitude",) else pick(rng, ["grid", "divisions"])
        cells = (int(rng.integers(2, 7)), int(rng.integers(1, 4))) if layout == "grid" else (int(rng.integers(2, 8)),)
        d = nc.make(rng, layout=layout, cells=cells, years=10, hard=False, empty=False, partial=False)
        bad = tuple(int(rng.integers(k)) for k in cells)
        index = None
        if kind == "latitude":
            index = "pet"
            d.lat = d.lat.copy()
            d.lat[bad[0]] = float(rng.choice([-1, 1])) * rng.uniform(90.5, 180)
        prepare = None
        if kind.endswith("constant"):
            index = "spi"
            d.vars["prcp"][bad] = 25.0
        if kind == "inject":
            index = pick(rng, ["spi", "spei", "pnp", "pet"])
        j = SpiJob(rng, d, s) if spi else Job(rng, d, s, index=index)
        if kind == "folder":
            j.out = s("out", "nonesuch", "res")
        program = "spi" if spi else "process_climate_indices"
        ctx.note(kind=kind, bad=list(bad), **j.describe())
        hit = s("log", "hit")
        if kind.endswith("inject"):
            name = {"pnp": "percentage_of_normal"}.get(j.index, j.index)
            exc = [MemoryError, ValueError, FloatingPointError][int(rng.integers(3))]
            nth = int(rng.integers(max(1, int(np.prod(cells)) // 2)))
            prepare = self.injector(name, exc, nth, hit)
        good = {}
        if kind.endswith("constant"):
            for k in j.scales:
                if lib_refuses(d, bad, k, j):
                    break
            else:
                raise Skip("the library does not refuse the constant series")
        r = prog.run(program, j.argv(), s, cpus=j.cpus, jitter=0.005, prepare=prepare, seed=i)
        if kind.endswith("inject") and not os.path.exists(hit):
            raise Skip("the fault was not reached")
        ctx.check(r.code != 0, f"{program} reported success although {kind} made a computation fail", output=r.output[-2000:])
        ctx.check(open(s("out", "unrelated.nc"), "rb").read() == b"unrelated", "a failed run touched an unrelated file")
        left = sorted(f for f in prog.listing(s("out")) if f != "unrelated.nc")
        ctx.note(left=left)
        if kind in ("latitude", "folder"):
            ctx.check(not left, f"a run that could not compute anything left {left}")
        if kind.endswith("constant"):
            ctx.check(not any("_pearson_" in f for f in left),
                      f"an output file was left for an index whose computation failed: {left}")
        if kind.endswith("inject"):
            # only PET comes before the index whose computation fails
            ctx.check(not left or (j.index == "spei" and [f.split("_", 1)[1] for f in left] == ["pet_thornthwaite.nc"]), f"an output file was left for an index whose computation failed: {left}")
        for f in left:
            # whatever was completed before the failure is complete and right everywhere
            name = f[len(os.path.basename(j.out)) + 1:-3]
            if name == "pet_thornthwaite":
                want = lib_pet(d, d.vars["tavg"], j.lat)
            else:
                want = lib_spi(d, d.vars["prcp"], int(name.split("_")[2]), "gamma", j.c0, j.c1)
            v, c, _ = nc.read(s("out", f))
            got = nc.by_name(v[name][0], v[name][1], nc.CANON[d.layout])
            ctx.same(got, want, f"{name}, completed before the failure,", atol=1e-8)
            ctx.count("completed_files_checked")
        ctx.count("faults")
        ctx.count("fault " + kind)
        ctx.state(kind, i, d.vars["prcp"])
        ctx.sample(kind=kind, message=r.message[:120], left=left)

    @staticmethod
    def injector(name, exc, nth, hit):
        def prepare():
            real = getattr(indices, name)
            state = {"n": 0, "pid": None}

            def faulty(*a, **kw):
                if state["pid"] != os.getpid():
                    state["pid"], state["n"] = os.getpid(), 0
                state["n"] += 1
                # the n-th location of whichever worker gets that far first (the first one always does)
                if state["n"] == nth + 1 or (state["n"] == 1 and nth == 0):
                    open(hit, "w").close()
                    raise exc("injected fault")
                return real(*a, **kw)
            setattr(indices, name, faulty)
        return prepare


def lib_refuses(d, ix, k, j):
    try:
        indices.spi(d.vars["prcp"][ix].copy(), k, dist_of("pearson"), d.start, j.c0, j.c1, Periodicity.monthly)
    except ValueError:
        return True
    return False


class Sequences(Program):
    pid = "C25"
    quick, thorough = 64, 400
    rule = ("two to four invocations one after the other in one process (both programs, data sets of other shapes, layouts and "
            "periodicities, failed invocations in between); every one must give what the library gives for its own data")
    must_observe = ("files_compared", "sequences", "twin_runs", "other_latitudes", "turned_shapes", "loaded_parameters")

    def case(self, ctx, rng, i, s):
        steps = []
        n = int(rng.integers(2, 4)) if self.tier == "quick" else int(rng.integers(2, 6))
        same = rng.random() < 0.5
        if not same and rng.random() < 0.3:
            return self.turned(ctx, rng, s)
        if i % 8 == 6:
            return self.loaded(ctx, rng, s)
        cells = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        if same:
            # the same program, shapes, names and options, only other values: whatever a run leaves behind would fit the next one
            d = nc.make(rng, layout=pick(rng, ["grid", "grid", "divisions", "timeseries"]), hard=False)
            e = copy.copy(d)
            e.vars = {k: (np.roll(v, int(rng.integers(1, v.shape[-1])), axis=-1) * rng.uniform(0.6, 1.7) if rng.random() < 0.8 else v.copy())
                      for k, v in d.vars.items()}
            of = SpiJob if d.layout == "grid" and i % 4 == 3 else Job
            kw = {}
            if of is Job and i % 4 != 0 and d.layout != "timeseries":
                # latitudes matter to what is computed from temperatures
                index, source = [("pet", None), ("spei", "temp"), ("scaled", "temp")][int(rng.integers(3))]
                kw = {"index": index, "source": source}
                if rng.random() < 0.6:
                    e.lat = d.lat * 0.5 + 5.0
                    ctx.count("other_latitudes")
            drawn = copy.deepcopy(rng)
            for k, (data, draw) in enumerate(((d, rng), (e, drawn))):
                steps.append(("spi" if of is SpiJob else "process_climate_indices", of(draw, data, s, tag=str(k), **kw)))
            if rng.random() < 0.3:
                steps.append(steps[0])
            ctx.count("twin_runs")
        for k in range(0 if same else n):
            if rng.random() < 0.15:
                steps.append(("bad", None))
                continue
            per = "daily" if rng.random() < 0.1 else "monthly"
            if rng.random() < 0.35:
                d = nc.make(rng, layout="grid", cells=cells if same else (int(rng.integers(1, 4)), int(rng.integers(1, 4))),
                            years=5 if per == "daily" else None, periodicity=per)
                steps.append(("spi", SpiJob(rng, d, s, tag=str(k))))
            else:
                layout = pick(rng, ["grid", "grid", "divisions", "timeseries"]) if per == "monthly" else pick(rng, ["grid", "timeseries"])
                c = cells if same and layout == "grid" else None
                d = nc.make(rng, layout=layout, cells=c, periodicity=per, years=5 if per == "daily" else None)
                steps.append(("process_climate_indices", Job(rng, d, s, tag=str(k))))
        self.play(ctx, rng, s, steps)

    def loaded(self, ctx, rng, s):
        """parameters saved by one run, loaded by a later one, with runs on other data of the same shape in between"""
        d = nc.make(rng, layout="grid", years=10, partial=False)
        e = copy.copy(d)
        e.vars = {k: np.roll(v, int(rng.integers(1, v.shape[-1])), axis=-1) * rng.uniform(0.3, 3.0) for k, v in d.vars.items()}
        j = SpiJob(rng, d, s, tag="0")
        steps = [("spi", j, ["--save_params", s("out", "fit0.nc")])]
        k = SpiJob(rng, e, s, tag="1", scales=j.scales, c=(j.c0, j.c1))
        steps.append(("spi", k, pick(rng, [[], ["--save_params", s("out", "fit1.nc")]])))
        steps.append(("spi", SpiJob(rng, d, s, tag="2", scales=j.scales, c=(j.c0, j.c1)), ["--load_params", s("out", "fit0.nc")]))
        if rng.random() < 0.5:
            # (nothing of the loaded ones remains)
            steps.append(("spi", SpiJob(rng, e, s, tag="3", scales=j.scales, c=(j.c0, j.c1)), []))
        ctx.count("loaded_parameters")
        self.play(ctx, rng, s, [(p, x) for p, x, more in steps], [more for p, x, more in steps], atol=1e-6)

    def turned(self, ctx, rng, s):
        """as many values, in another shape"""
        a, b = int(rng.integers(2, 5)), 1
        while b == 1 or b == a:
            b = int(rng.integers(1, 7))
        kind = pick(rng, ["turned", "years", "layout"])
        steps = []
        d = nc.make(rng, layout="grid", cells=(a, b), years=12, partial=False)
        if kind == "turned":
            e = nc.make(rng, layout="grid", cells=(b, a), years=12, partial=False)
        elif kind == "years":
            d = nc.make(rng, layout="grid", cells=(a, 2 * b), years=10, partial=False)
            e = nc.make(rng, layout="grid", cells=(a, b), years=20, partial=False)
        else:
            d = nc.make(rng, layout="divisions", cells=(a * b,), years=12, partial=False)
            e = nc.make(rng, layout="grid", cells=(a, b), years=12, partial=False)
        spi = kind != "layout" and rng.random() < 0.3
        for k, x in enumerate([d, e, d][:int(rng.integers(2, 4))]):
            if spi:
                steps.append(("spi", SpiJob(rng, x, s, tag=str(k))))
            else:
                steps.append(("process_climate_indices", Job(rng, x, s, tag=str(k))))
        ctx.count("turned_shapes")
        self.play(ctx, rng, s, steps)

    def play(self, ctx, rng, s, steps, more=None, atol=1e-8):
        ctx.note(steps=[(p, j.describe() if j else None) for p, j in steps])
        wants = [usable(j.expected) if j else None for p, j in steps]
        argvs = []
        for k, (p, j) in enumerate(steps):
            if j is None:
                argvs.append(("process_climate_indices", ["--index", "spi", "--periodicity", "monthly", "--output_file_base", s("out", "bad")]))
            else:
                argvs.append((p, j.argv(more=more[k]) if more else j.argv()))
        cpus = int(rng.integers(1, 7))
        rs = prog.runs(argvs, s, cpus=cpus, jitter=0.0)
        ctx.check(len(rs) == len(steps), f"the process died in run {len(rs)} of {len(steps)}: {rs[-1].message}", output=rs[-1].output[-2000:])
        for k, ((p, j), w, r) in enumerate(zip(steps, wants, rs)):
            if j is None:
                ctx.check(r.code != 0, "an invocation without an input file was accepted")
                continue
            ctx.note(run=k)
            finished(ctx, r, f"run {k + 1} of the process")
            compare(ctx, j.d, j.out, w, atol=atol)
        ctx.count("sequences")
        ctx.state(*[a for a in argvs])
        ctx.sample(steps=[p for p, j in steps])


def netcdf4_default():
    """files are written as NetCDF 4 by default, as on a machine with the netCDF4 package (NetCDF 3 has no chunks)"""
    import xarray.backends.api as api
    if hasattr(api, "_get_default_engine_netcdf"):
        api._get_default_engine_netcdf = lambda: "h5netcdf"


LONG = {"spi": "standardized precipitation index", "spei": "standardized precipitation evapotranspiration index",
        "pnp": "percentage of normal precipitation", "pet": "potential evapotranspiration"}


class Metadata(Program):
    pid = "C26"
    quick, thorough = 80, 500
    rule = ("every output file of both programs: one data variable named after index, distribution and scale, dimensions in the "
            "documented order, the input's coordinate values, descriptive attributes (index, distribution, scale, unit), values "
            "inside the declared valid range, and the input's chunk sizes when asked for")
    must_observe = ("files_inspected", "chunked", "daily pnp", "daily spi", "daily spei", "monthly pnp", "monthly spi", "monthly spei", "monthly pet")

    def case(self, ctx, rng, i, s):
        spi = i % 4 == 3
        if spi:
            per = "daily" if i % 16 == 7 else "monthly"
            d = nc.make(rng, layout="grid", periodicity=per, years=5 if per == "daily" else 10)
            j = SpiJob(rng, d, s)
        else:
            per = "daily" if i % 16 in (2, 9) else "monthly"
            d = nc.make(rng, layout="grid" if per == "daily" else None, periodicity=per, years=5 if per == "daily" else 10)
            # every index of the daily and of the monthly ones in turn
            index = None
            if per == "daily":
                index = ["pnp", "spi", "pnp", "spei"][i // 8 % 4]
            elif d.layout != "timeseries":
                index = ["spi", "pnp", "pet", "spei", "scaled"][i % 5]
            j = Job(rng, d, s, index=index)
            if i % 3 == 0 and d.layout != "timeseries":
                # chunked input in the canonical order: the output takes over the chunk sizes
                j.chunksizes, j.lat = "input", None
                want_chunks = {"lat": max(1, d.shape[0] - 1), "lon": 1, "time": 12, "division": max(1, d.shape[0] - 1)}
                groups, chunks_of = {}, {}
                for n, f in j.files.items():
                    groups.setdefault(f, []).append(n)
                for f, ns in groups.items():
                    os.remove(f)
                    # (those of the first input, when the inputs' differ)
                    ch = want_chunks if ns[0] == j.names[0] else {"lat": 1, "lon": 2, "time": 24, "division": 1}
                    chunks_of.update({n: ch for n in ns})
                    nc.write(d, f, ns, order=nc.CANON[d.layout], rename=j.rename, chunks=ch)
        ctx.note(**j.describe())
        want = usable(j.expected)
        prepare = netcdf4_default if not spi and j.chunksizes == "input" else None
        r = prog.run("spi" if spi else "process_climate_indices", j.argv(), s, cpus=j.cpus, prepare=prepare)
        finished(ctx, r, "the program")
        canon = nc.CANON[d.layout]
        for name in want:
            ctx.check(os.path.exists(f"{j.out}_{name}.nc"), f"{j.index} has no output file {name}.nc, but {sorted(prog.listing(s('out')))}")
            v, c, e = nc.read(f"{j.out}_{name}.nc")
            ctx.check(list(v) == [name], f"{name}: data variables {sorted(v)}")
            dims, values, attrs = v[name]
            ctx.check(dims == canon, f"{name}: dimensions {dims}, not {canon}")
            ctx.check(values.shape == d.shape, f"{name}: shape {values.shape}, the input has {d.shape}")
            coords = {"time": d.times.values}
            if d.layout == "grid":
                coords.update(lat=d.lat, lon=d.lon)
            if d.layout == "divisions":
                coords.update(division=d.ids)
            for q, w in coords.items():
                ctx.check(q in c, f"{name}: no coordinate {q}")
                g = c[q][1]
                ok = g.shape == w.shape and (np.array_equal(g, w) if q in ("time", "division") else np.allclose(g, w, atol=1e-5, rtol=0))
                ctx.check(ok, f"{name}: the values of {q} are not the input's")
            kind = name.split("_")[0]
            ln = str(attrs.get("long_name", ""))
            ctx.check(LONG[kind] in ln.lower(), f"{name}: long_name {ln!r}")
            if kind != "pet":
                k = int(name.split("_")[2 if kind != "pnp" else 1])
                unit = "day" if per == "daily" else "month"
                ctx.check(f"{k}-{unit}" in ln, f"{name}: long_name {ln!r} does not tell the {k}-{unit} scale")
            if kind in ("spi", "spei"):
                dist = name.split("_")[1]
                other = {"gamma": "pearson", "pearson": "gamma"}[dist]
                ctx.check(dist in ln.lower() and other not in ln.lower(), f"{name}: long_name {ln!r} does not tell the distribution")
            if kind == "pet":
                ctx.check(str(attrs.get("units", "")).lower() in ("millimeters", "millimeter", "mm"), f"{name}: units {attrs.get('units')!r}")
            else:
                ctx.check(str(attrs.get("units", "")).lower() in ("", "1", "dimensionless", "unitless", "percent", "fraction", "none"),
                          f"{name}: units {attrs.get('units')!r}")
            lo, hi = float(attrs.get("valid_min", np.nan)), float(attrs.get("valid_max", np.nan))
            lim = {"spi": (-3.09, 3.09), "spei": (-3.09, 3.09), "pnp": (-1000.0, 1000.0), "pet": (0.0, 10000.0)}[kind]
            ctx.check((lo, hi) == lim, f"{name}: valid range {lo}..{hi}, documented {lim}")
            if kind != "pnp" and np.any(~np.isnan(values)):
                ctx.check(np.nanmin(values) >= lo and np.nanmax(values) <= hi, f"{name}: values outside the valid range {lo}..{hi}")
            if not spi and i % 3 == 0 and d.layout != "timeseries" and j.chunksizes == "input":
                got = e[name].get("chunksizes")
                wc = chunks_of["tavg" if kind == "pet" else "prcp"]
                wc = tuple(min(wc[q], n) for q, n in zip(canon, d.shape))
                ctx.check(got is not None and tuple(got) == wc, f"{name}: chunk sizes {got}, the input's are {wc}")
                ctx.count("chunked")
            ctx.count("files_inspected")
            ctx.count(f"{per} {kind}")
        ctx.state(d.vars["prcp"], sorted(want))
        ctx.sample(files=sorted(want), **j.describe())


class Footprint(Program):
    pid = "C27"
    quick, thorough = 90, 500
    rule = ("runs of both programs with every index and input order, in folders holding other files: afterwards the input files and "
            "unrelated files are byte for byte as before, the new files are exactly the documented outputs, and the temporary "
            "folder and the working directory are as empty as before")
    must_observe = ("runs_observed", "reordered_inputs")

    def case(self, ctx, rng, i, s):
        spi = i % 4 == 3
        more = []
        if spi:
            d = nc.make(rng, layout="grid", years=10)
            j = SpiJob(rng, d, s)
            if rng.random() < 0.6:
                more = ["--save_params", s("out", "fit.nc")]
                if rng.random() < 0.5:
                    open(s("out", "fit.nc"), "wb").close()
                    more.append("--overwrite")
            order = [j.order]
        else:
            k = i - i // 4
            d = nc.make(rng, layout=["grid", "divisions", "grid", None, None][k % 5], years=10)
            kw = {}
            if d.layout != "timeseries" and k % 5 < 3:
                # every combination of index, one or several files, and prepared or not
                index, source = [("spei", "pet"), ("spei", "temp"), ("scaled", "pet"), ("pet", None), ("scaled", "temp"), ("spi", None),
                                 ("pnp", None)][(k // 5 * 3 + k % 5) % 7]
                kw = {"index": index, "source": source, "shared": bool(rng.random() < 0.5)}
                u, v = nc.ORDERS[d.layout]
                o = pick(rng, ["second", "both", "both", "first", "any"])
                if o != "any":
                    kw["order"] = v if o == "both" else {"prcp": u, "other": v} if o == "second" else {"prcp": v, "other": u}
                    ctx.count("reordered " + o)
            j = Job(rng, d, s, **kw)
            order = list(j.order.values())
        want = usable(j.expected)
        if any(o != nc.CANON[d.layout] for o in order):
            ctx.count("reordered_inputs")
        with open(s("out", "unrelated.nc"), "wb") as f:
            f.write(b"unrelated")
        with open(s("tmp", "other.nc"), "wb") as f:
            f.write(b"another program's")
        if rng.random() < 0.3 and not spi:
            # results of an earlier run are replaced
            n = sorted(want)[0]
            with open(f"{j.out}_{n}.nc", "wb") as f:
                f.write(b"old")
        ctx.note(more=more, **j.describe())
        fit = more[1] if more else None
        before = {k: prog.listing(s(k)) for k in ("in", "out", "tmp")}
        r = prog.run("spi" if spi else "process_climate_indices", j.argv(more=more) if spi else j.argv(), s, cpus=j.cpus)
        finished(ctx, r, "the program")
        after = {k: prog.listing(s(k)) for k in ("in", "out", "tmp")}
        ctx.check(after["in"] == before["in"], "the run changed its input files")
        docs = {f"{os.path.basename(j.out)}_{n}.nc" for n in want} | ({"fit.nc"} if fit else set())
        new = set(after["out"])
        ctx.check(new == docs | {"unrelated.nc"}, f"files after the run: {sorted(new)}, documented: {sorted(docs)}")
        ctx.check(after["out"]["unrelated.nc"] == before["out"]["unrelated.nc"], "an unrelated file was changed")
        left = {k: v for k, v in after["tmp"].items() if not k.startswith("pymp-")}
        ctx.check(left == before["tmp"], f"temporary files left behind: {sorted(set(left) - set(before['tmp']))}")
        for n in want:
            v, c, e = nc.read(f"{j.out}_{n}.nc")
            ctx.check(n in v, f"{n} cannot be read back")
        if fit:
            v, c, e = nc.read(fit)
            ctx.check(len(v) == 6 * len(j.scales), f"the saved parameters hold {sorted(v)}")
        ctx.count("runs_observed")
        ctx.state(d.vars["prcp"], j.argv())
        ctx.sample(new=sorted(new - {"unrelated.nc"}), **j.describe())
