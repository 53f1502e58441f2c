"""Monitors of masked input, refusals, concurrent calls and simultaneous runs."""
import calendar
import os
import random
import sys
import threading
import time

import numpy as np

from climate_indices import compute, eto, indices, lmoments, palmer, utils
from climate_indices.compute import Periodicity
from climate_indices.indices import Distribution
from vmon import gen, nc, palmer_ref, prog, ref
from vmon.core import Check, Skip, Violated, digest
from vmon.gen import pick

from .cli import Job, Program, SpiJob, compare, finished, schedule_evidence, usable
from .palmers import KEYS, Record
from .history import CallHistory, flatten, frozen, outcome

M, DY = Periodicity.monthly, Periodicity.daily


# ------------------------------------------------------------------------------------------------
def masked_twin(rng, x):
    """the same series as a masked array, with something plausible stored beneath the mask"""
    x = np.asarray(x, dtype=float)
    mask = np.isnan(x)
    how = pick(rng, ["-9999", "1e20", "0", "nan", "value"])
    under = {"-9999": -9999.0, "1e20": 1e20, "0": 0.0, "nan": np.nan, "value": float(np.nanmean(x)) if not mask.all() else 7.0}[how]
    m = np.ma.array(np.where(mask, under, x), mask=mask)
    if how == "value" and not mask.all():
        # every gap hides a value that looks like data
        d = m.data
        d[mask] = rng.choice(x[~mask], int(mask.sum()))
    if rng.random() < 0.3:
        # some gaps are masked, some are NaN
        d = m.data
        k = mask & (rng.random(x.shape) < 0.5)
        d[k] = np.nan
        m = np.ma.array(d, mask=mask & ~k)
        how += "+nan"
    if rng.random() < 0.3:
        m.set_fill_value(float(pick(rng, [0.0, -9999.0, 1e20])))
    if rng.random() < 0.2:
        m.harden_mask()
    return m, how


class MaskedValues(Check):
    pid = "C28"
    quick, thorough = 2500, 20000
    rule = ("series with gaps, as plain arrays with NaN and as numpy masked arrays hiding -9999, 1e20, 0, NaN or plausible values "
            "beneath the mask (also mixed, without any gap, all masked): every public computation must give the same for both, "
            "and leave data and mask of its argument alone; non-trivial when the mask hides something; distinct by input digest")
    must_observe = ("pairs", "hidden_values", "all_masked")

    def run(self, ctx, rng, i):
        name = ["spi", "spi", "spei", "spei", "pnp", "pet", "sums", "table", "gamma_fit", "pearson_fit", "gamma_z", "pearson_z",
                "hargreaves", "pci", "lmoments", "counts", "to366", "gregorian"][i % 18]
        years = int(rng.integers(6, 40))
        n = years * 12 - (int(rng.integers(1, 12)) if rng.random() < 0.2 and name not in ("gamma_fit", "pearson_fit", "gamma_z", "pearson_z") else 0)
        start = gen.start_year(rng)
        scale = int(rng.choice([1, 1, 2, 3, 6, 12]))
        dist = pick(rng, list(Distribution))
        c0, c1, _ = gen.calibration(rng, start, years)
        gaps = pick(rng, ["some", "some", "lead", "tail", "block", "step", "none"])
        x, _ = gen.precip(rng, n, 12, missing=gaps, zeros=pick(rng, ["none", "none", "some"]), negatives=rng.random() < 0.1)
        every = rng.random() < 0.06
        if every:
            x[:] = np.nan
        two = rng.random() < 0.25 and n % 12 == 0
        if name in ("gamma_fit", "pearson_fit", "gamma_z", "pearson_z"):
            x, two = np.abs(x), rng.random() < 0.5
        sh = (lambda a: a.reshape(-1, 12)) if two else (lambda a: a)
        other = np.abs(rng.normal(60, 25, n))
        fn = {"spi": indices.spi, "spei": indices.spei, "pnp": indices.percentage_of_normal, "pet": indices.pet, "sums": compute.sum_to_scale,
              "table": compute.scale_values, "gamma_fit": compute.gamma_parameters, "pearson_fit": compute.pearson_parameters,
              "gamma_z": compute.transform_fitted_gamma, "pearson_z": compute.transform_fitted_pearson, "hargreaves": eto.eto_hargreaves,
              "pci": indices.pci, "lmoments": lmoments.fit, "counts": utils.count_zeros_and_non_missings,
              "to366": utils.transform_to_366day, "gregorian": utils.transform_to_gregorian}[name]
        plain, masked = [], []

        def both(a, shape=sh):
            m, how = masked_twin(rng, a)
            plain.append(shape(np.array(a)))
            masked.append(shape(m))
            ctx.note(hidden=how)
            return bool(np.ma.getmaskarray(m).any())

        def one(a):
            plain.append(a)
            masked.append(a)
        hidden = False
        if name == "spi":
            hidden = both(x)
            [one(a) for a in (scale, dist, start, c0, c1, M)]
        elif name == "spei":
            which = pick(rng, "pee2") if not every else "p"
            y = other.copy()
            if which in "e2":
                y[rng.random(n) < 0.05] = np.nan
            hidden = both(x) if which in "p2" else (one(sh(x.copy())) or False)
            hidden = (both(y) if which in "e2" else (one(sh(y)) or False)) or hidden
            [one(a) for a in (scale, dist, M, start, c0, c1)]
        elif name == "pnp":
            hidden = both(x, lambda a: a)
            full = n // 12
            a = int(rng.integers(0, full))
            [one(v) for v in (scale, start, start + a, start + int(rng.integers(a, full)), M)]
        elif name == "pet":
            t, _ = gen.temperature(rng, n)
            hidden = both(t)
            [one(v) for v in (float(rng.uniform(-70, 70)), start)]
        elif name in ("sums", "table"):
            hidden = both(x, (lambda a: a) if name == "sums" else sh)
            one(scale)
            if name == "table":
                one(M)
        elif name in ("gamma_fit", "pearson_fit", "gamma_z", "pearson_z"):
            hidden = both(x)
            [one(v) for v in (start, c0, c1, M)]
        elif name == "hargreaves":
            d = int(rng.integers(20, 900))
            lo = rng.normal(6, 4, d)
            hi = lo + rng.uniform(0, 12, d)
            for a in (lo, hi, (lo + hi) / 2):
                a = a.copy()
                a[rng.random(d) < 0.04] = np.nan
                hidden = both(a, lambda v: v) or hidden
            one(float(rng.uniform(-60, 60)))
        elif name == "pci":
            d = rng.gamma(1.0, 5.0, int(pick(rng, [365, 366])))
            if rng.random() < 0.6:
                d[rng.choice(d.size, int(rng.integers(1, 5)), replace=False)] = np.nan
            hidden = both(d, lambda v: v)
        elif name in ("to366", "gregorian"):
            total = int(rng.integers(1, 6))
            ends = [366 if name == "gregorian" or calendar.isleap(start + y) else 365 for y in range(total)]
            d = rng.gamma(1.0, 5.0, sum(ends))
            d[rng.random(d.size) < float(pick(rng, [0.0, 0.02, 0.3]))] = np.nan
            if rng.random() < 0.5:
                # the days that are averaged into or dropped for February 29th
                d[np.cumsum([0] + ends[:-1]) + int(rng.integers(58, 61))] = np.nan
            hidden = both(d, lambda v: v)
            one(start)
            if name == "to366":
                one(total)
        else:
            s = x[int(rng.integers(12))::12]
            if name == "lmoments" and np.sum(~np.isnan(s)) < 5:
                raise Skip("too few values")
            hidden = both(s, lambda v: v)
        ctx.note(function=name, plain=plain)
        a = result(fn, plain)
        before = frozen(masked)
        b = result(fn, masked)
        ctx.check(frozen(masked) == before, f"{name} altered its masked argument")
        ctx.check(a[0] == b[0], f"{name} of a masked array: {b[0]} {b[1] if b[0] == 'raised' else ''}, of the same with NaN: {a[0]} {a[1] if a[0] == 'raised' else ''}")
        if a[0] == "value":
            u, v = flatten(a[1]), flatten(b[1])
            ctx.check(len(u) == len(v), f"{name}: results of different structure")
            for p, q in zip(u, v):
                # an all-missing input is handed back in its own shape
                ctx.same(q.reshape(p.shape) if q.size == p.size else q, p, f"{name} of the masked array", atol=1e-9, rtol=1e-9)
        ctx.count("pairs")
        ctx.count("hidden_values", hidden)
        ctx.count("all_masked", every)
        ctx.count("function " + name)
        if hidden:
            ctx.state(name, *[p for p in plain if isinstance(p, np.ndarray)], repr(plain[-3:]))
        if rng.random() < 0.02:
            # a gap-free masked array is as good as any
            yrs = int(rng.integers(6, 20))
            p, e = rng.gamma(2, 1.5, yrs * 12), rng.gamma(2, 1.2, yrs * 12)
            args = (5.0, start, start, start + yrs - 1)
            a = ctx.call("Palmer indices", palmer.pdsi, p, e, *args)
            b = ctx.call("Palmer indices of masked arrays", palmer.pdsi, np.ma.array(p), np.ma.array(e), *args)
            for u, v in zip(flatten(a), flatten(b)):
                ctx.same(v, u, "Palmer indices of masked arrays")
        ctx.sample(function=name, gaps=gaps, hidden=ctx.data.get("hidden"))


def result(fn, args):
    try:
        return ("value", fn(*args))
    except Exception as e:  # noqa
        return ("raised", type(e).__name__)


# ------------------------------------------------------------------------------------------------
class Refusals(Check):
    pid = "C29"
    quick, thorough = 1500, 10000
    rule = ("calls of every public computation with one argument that has no meaning (unknown distribution or periodicity, arrays "
            "of three dimensions or other row lengths, scales below one, latitudes off the globe or missing, arrays that do not "
            "belong together, too few values, incomplete parameters) among otherwise valid ones: refused with an error, "
            "arguments unaltered, and the valid call still answered afterwards; distinct by refused call and data")
    must_observe = ("refused", "valid_calls")

    def run(self, ctx, rng, i):
        years = int(rng.integers(5, 30))
        n = years * 12
        start = gen.start_year(rng)
        last = start + years - 1
        x, _ = gen.precip(rng, n, 12, zeros="none", missing=pick(rng, ["none", "some"]), negatives=False)
        pet = np.abs(rng.normal(60, 25, n))
        t, _ = gen.temperature(rng, n, missing="none")
        x3 = x.reshape(years, 12, 1) if rng.random() < 0.5 else x.reshape(1, years, 12)
        wrong = x.reshape(-1, int(pick(rng, [2, 3, 4, 6])))
        dist = pick(rng, list(Distribution))
        scale = int(rng.choice([1, 2, 3, 6]))
        low = int(pick(rng, [0, -1, -3]))
        per = pick(rng, [None, "monthly", "month", 12, 3])
        nodist = pick(rng, [None, "gamma", "pearson", "normal", 1, 0])
        lat = pick(rng, [90.5, -90.01, 180.0, -1e6, np.nan, np.inf, -np.inf, None])
        far = float(pick(rng, [90.5, -90.01, 180.0, -1e3]))
        d = int(rng.integers(2, 800))
        lo = rng.normal(5, 4, d)
        hi = lo + rng.uniform(0.1, 12, d)
        mean = (lo + hi) / 2
        short = lo[:-1] if d > 1 else lo
        table = np.abs(x.reshape(-1, 12))
        year = rng.gamma(1.0, 5.0, int(pick(rng, [1, 12, 100, 364, 367, 730])))
        gap = rng.gamma(1.0, 5.0, 366)
        gap[int(rng.integers(366))] = np.nan
        half = {"prob_zero": np.zeros(12), "loc": np.full(12, 50.0), "scale": np.full(12, 20.0), "skew": np.full(12, 0.6)}
        half[pick(rng, sorted(half))] = None
        I, C, E, U = indices, compute, eto, utils
        cases = [
            ("SPI of a 3-D array", I.spi, (x3, scale, dist, start, start, last, M)),
            ("SPI of rows that are not years", I.spi, (wrong[:, :] if rng.random() < 0.5 else x3, scale, dist, start, start, last, per)),
            (f"SPI with scale {low}", I.spi, (x, low, dist, start, start, last, M)),
            (f"SPI with distribution {nodist!r}", I.spi, (x, scale, nodist, start, start, last, M)),
            (f"SPI with periodicity {per!r}", I.spi, (x, scale, dist, start, start, last, per)),
            ("SPI with an incomplete Pearson fit", I.spi, (x, scale, Distribution.pearson, start, start, last, M, half)),
            ("SPEI of series of different lengths", I.spei, (x, pet[:-int(rng.integers(1, 13))], scale, dist, M, start, start, last)),
            ("SPEI of series of different lengths", I.spei, (x, np.append(pet, 1.0), scale, dist, M, start, start, last)),
            ("SPEI of tables of different years", I.spei, (table, pet.reshape(-1, 12)[:int(rng.integers(1, years))], scale, dist, M, start, start, last)),
            ("SPEI of a table and a year", I.spei, (table, pet[:12], scale, dist, M, start, start, last)),
            ("SPEI of a year and a table", I.spei, (table[0], pet.reshape(-1, 12), scale, dist, M, start, start, last)),
            ("SPEI of a series and one value", I.spei, (x, pet[:1], scale, dist, M, start, start, last)),
            (f"SPEI with scale {low}", I.spei, (x, pet, low, dist, M, start, start, last)),
            (f"SPEI with distribution {nodist!r}", I.spei, (x, pet, scale, nodist, M, start, start, last)),
            (f"SPEI with periodicity {per!r}", I.spei, (x, pet, scale, dist, per, start, start, last)),
            ("SPEI with an incomplete Pearson fit", I.spei, (x, pet, scale, Distribution.pearson, M, start, start, last, half)),
            (f"PNP with scale {low}", I.percentage_of_normal, (x, low, start, start, last, M)),
            (f"PNP with periodicity {per!r}", I.percentage_of_normal, (x, scale, start, start, last, per)),
            ("PNP calibrated before the record", I.percentage_of_normal, (x, scale, start, start - int(rng.integers(1, 9)), last, M)),
            ("PNP calibrated over more years than there are", I.percentage_of_normal, (x, scale, start, start, last + int(rng.integers(1, 9)), M)),
            (f"PET at latitude {lat!r}", I.pet, (t, lat, start)),
            (f"PET at the latitudes of a field {lat!r}", I.pet, (t, np.full(3, np.nan if lat is None else lat), start)),
            ("PET of a 3-D array", I.pet, (t.reshape(1, years, 12), 40.0, start)),
            ("PET of rows that are not years", I.pet, (t.reshape(-1, 6), 40.0, start)),
            (f"Thornthwaite PET at latitude {far}", E.eto_thornthwaite, (t, far, start)),
            (f"Hargreaves PET at latitude {far}", E.eto_hargreaves, (lo, hi, mean, far)),
            ("Hargreaves PET of fewer minima", E.eto_hargreaves, (short, hi, mean, 40.0)),
            ("Hargreaves PET of fewer maxima", E.eto_hargreaves, (lo, short, mean, 40.0)),
            ("Hargreaves PET of fewer means", E.eto_hargreaves, (lo, hi, short, 40.0)),
            (f"PCI of {year.size} days", I.pci, (year,)),
            ("PCI of a year with a gap", I.pci, (gap,)),
            ("sums of no steps", C.sum_to_scale, (x, low)),
            ("a table of a 3-D array", C.scale_values, (x3, scale, M)),
            (f"a table with periodicity {per!r}", C.scale_values, (x, scale, per)),
            ("a gamma fit of a 3-D array", C.gamma_parameters, (x3, start, start, last, M)),
            ("a gamma fit of rows that are not years", C.gamma_parameters, (wrong, start, start, last, M)),
            (f"a gamma fit with periodicity {per!r}", C.gamma_parameters, (x, start, start, last, per)),
            ("a Pearson fit of a 3-D array", C.pearson_parameters, (x3, start, start, last, M)),
            ("a Pearson fit of rows that are not years", C.pearson_parameters, (wrong, start, start, last, M)),
            (f"a Pearson fit with periodicity {per!r}", C.pearson_parameters, (x, start, start, last, per)),
            ("a gamma transform of rows that are not years", C.transform_fitted_gamma, (wrong, start, start, last, M)),
            ("a Pearson transform of rows that are not years", C.transform_fitted_pearson, (wrong, start, start, last, M)),
            (f"a gamma transform with periodicity {per!r}", C.transform_fitted_gamma, (x, start, start, last, per)),
            (f"a Pearson transform with periodicity {per!r}", C.transform_fitted_pearson, (x, start, start, last, per)),
            ("a Pearson transform with an incomplete fit", C.transform_fitted_pearson,
             (table, start, start, last, M, half["prob_zero"], half["loc"], half["scale"], half["skew"])),
            ("L-moments of three values", lmoments.fit, (np.abs(x[~np.isnan(x)][:int(rng.integers(1, 4))]),)),
            ("L-moments of equal values", lmoments.fit, (np.full(int(rng.integers(4, 40)), float(rng.integers(1, 99))),)),
            ("years of a 3-D array", U.reshape_to_2d, (x3, 12)),
            ("years of rows that are not years", U.reshape_to_2d, (wrong, 12)),
            (f"Gregorian days of {d} days", U.transform_to_gregorian, (rng.random(d + (d % 366 == 0)), start)),
            ("Gregorian days of a table", U.transform_to_gregorian, (rng.random((2, 366)), start)),
            ("Palmer indices of tables of different years", palmer.pdsi,
             (np.nan_to_num(table) + 0.1, pet.reshape(-1, 12)[:int(rng.integers(1, years))], 5.0, start, start, last)),
            ("Palmer indices of a table and a year", palmer.pdsi, (np.nan_to_num(table) + 0.1, pet[:12], 5.0, start, start, last)),
            ("Hargreaves PET of tables of different years", E.eto_hargreaves, (np.zeros((3, 366)), np.ones((int(pick(rng, [1, 2])), 366)), np.ones((3, 366)), 40.0)),
            ("Palmer indices of series of different lengths", palmer.pdsi, (np.abs(np.nan_to_num(x)) + 0.1, pet[:-12], 5.0, start, start, last)),
            ("an unknown periodicity", Periodicity.from_string, (pick(rng, ["weekly", "", "month", "Monthly", "annual"]),)),
            ("an unknown distribution", Distribution, (pick(rng, ["weibull", "", 7]),)),
        ]
        what, fn, args = cases[i % len(cases)]
        ctx.note(call=what, args=[a for a in args])
        before = frozen(args)
        try:
            got = fn(*args)
        except Exception as e:  # noqa
            ctx.observed += 1
            # an entry that is missing from a fit may be named by a KeyError
            kinds = (ValueError, KeyError) if "incomplete" in what else ValueError
            ctx.check(isinstance(e, kinds), f"{what}: refused with {type(e).__name__}: {e} and not a ValueError")
        else:
            ctx.check(False, f"{what}: answered, with {str(got)[:200]}")
        ctx.check(frozen(args) == before, f"{what}: the refused arguments were altered")
        ctx.count("refused")
        ctx.distinct("kinds of refusal", what.split(" with ")[0].split(" at ")[0])
        ctx.state(what, *[a for a in args if isinstance(a, np.ndarray)])
        # refusing is not all there is
        if i % 3 == 0:
            ctx.call("SPI", indices.spi, x, scale, dist, start, start, last, M)
            ctx.call("PET", indices.pet, t, float(pick(rng, [-90.0, 90.0, 0.0, 45.0])), start)
            ctx.call("PNP", indices.percentage_of_normal, x, scale, start, start, last, M)
            ctx.call("Hargreaves PET", eto.eto_hargreaves, lo, hi, mean, float(pick(rng, [-60.0, 0.0, 45.0])))
            ctx.call("PCI", indices.pci, rng.gamma(1.0, 5.0, int(pick(rng, [365, 366]))))
            ctx.call("the periodicity", Periodicity.from_string, pick(rng, ["monthly", "daily"]))
            ctx.count("valid_calls", 6)
        ctx.sample(call=what)


# ------------------------------------------------------------------------------------------------
class Baton:
    """One thread runs at a time; at random lines of the package's code it hands over to another.

    A thread that waits for a lock held by one that waits for the baton would block both: whoever does not get the
    baton back within a while goes on without it (the schedule is then not the planned one, the verdict stays valid)."""

    def __init__(self, k, seed, p):
        self.sem = [threading.Semaphore(0) for _ in range(k)]
        self.alive = set(range(k))
        self.rnd = random.Random(seed)
        self.p = p
        self.trace = []
        self.free = False
        self.lock = threading.Lock()

    def wait(self, me):
        if not self.free and not self.sem[me].acquire(timeout=5.0):
            self.release_all()

    def release_all(self):
        self.free = True
        for s in self.sem:
            s.release()

    def hand_over(self, me, code):
        if self.free:
            return
        with self.lock:
            if self.rnd.random() >= self.p:
                return
            nxt = self.rnd.choice(sorted(self.alive))
        if nxt == me:
            return
        if len(self.trace) < 4000:
            self.trace.append((me, nxt, code))
        self.sem[nxt].release()
        self.wait(me)

    def done(self, me):
        with self.lock:
            self.alive.discard(me)
            nxt = self.rnd.choice(sorted(self.alive)) if self.alive else None
        if nxt is not None:
            self.sem[nxt].release()


class ConcurrentCalls(Check):
    pid = "C30"
    quick, thorough = 240, 3000
    quick_budget = 100
    rule = ("2-4 threads make 1-2 calls each of public functions (mostly the same function on data of the same shape, some "
            "refused), switched at random lines of the package's code by a scheduler that lets one thread run at a time; every "
            "outcome must be the one of the same call made alone, arguments unaltered; distinct interleavings counted")
    must_observe = ("calls_compared", "switches")

    def pool(self, rng, years, start):
        n = years * 12
        x, _ = gen.precip(rng, n, 12, negatives=rng.random() < 0.3, magnitude=80)
        t, _ = gen.temperature(rng, n)
        pet = np.abs(rng.normal(60, 30, n))
        dx, _ = gen.precip(rng, 366 * 2, 366, magnitude=8)
        p = {"x": x, "t": t, "pet": pet, "dx": dx, "year": np.abs(np.nan_to_num(dx[:366])) + 0.01,
             "greg": rng.random(365 * 4 + 1), "tmin": rng.normal(3, 2, 732),
             "px": np.abs(np.nan_to_num(x)) / 25 + 0.01, "ppet": pet / 25}
        p["tmax"] = p["tmin"] + rng.uniform(0, 9, 732)
        p["tmean"] = (p["tmin"] + p["tmax"]) / 2
        return p

    def run(self, ctx, rng, i):
        k = int(rng.integers(2, 5))
        years = int(rng.integers(6, 12))
        start = gen.start_year(rng)
        maker = CallHistory()
        same = rng.random() < 0.75
        first = None
        work = []
        for j in range(k):
            mine = []
            for _ in range(int(rng.integers(1, 3))):
                for _ in range(400):
                    p = self.pool(rng, years, start + (j if rng.random() < 0.5 else 0)) if _ % 20 == 0 else p
                    r = maker.request(rng, p, start, years) if rng.random() < 0.95 else maker.failing(rng, p, start)
                    if r[0] == "spi" and r[1][-1] is DY:
                        continue
                    if not same or first is None or r[0] == first:
                        break
                first = first or r[0]
                mine.append(r)
            work.append(mine)
        ctx.note(calls=[[r[0] for r in m] for m in work])
        alone = [[outcome(*r) for r in m] for m in work]
        before = frozen([[list(r[1]) for r in m] for m in work])
        per_line = float(pick(rng, [0.002, 0.01, 0.05, 0.2]))
        baton = Baton(k, int(rng.integers(1 << 30)), per_line)
        got = [[None] * len(m) for m in work]

        def tracer_for(me):
            def local(frame, event, arg):
                if event == "line":
                    baton.hand_over(me, (frame.f_code.co_name, frame.f_lineno))
                return local

            def tracer(frame, event, arg):
                return local if os.sep + "climate_indices" + os.sep in frame.f_code.co_filename else None
            return tracer

        def body(me):
            baton.wait(me)
            sys.settrace(tracer_for(me))
            try:
                with np.errstate(all="ignore"):
                    for c, r in enumerate(work[me]):
                        got[me][c] = outcome(*r)
            finally:
                sys.settrace(None)
                baton.done(me)
        ts = [threading.Thread(target=body, args=(me,), daemon=True) for me in range(k)]
        for t in ts:
            t.start()
        baton.sem[baton.rnd.randrange(k)].release()
        end = time.time() + 60
        for t in ts:
            t.join(max(0.1, end - time.time()))
        ctx.check(not any(t.is_alive() for t in ts), "concurrent calls did not finish within a minute")
        for me, m in enumerate(work):
            for c, r in enumerate(m):
                a, g = alone[me][c], got[me][c]
                what = f"{r[0]} in thread {me} of {ctx.data['calls']}"
                ctx.check(g is not None and g[0] == a[0] and (a[0] != "raised" or a[1] == g[1]),
                          f"{what}: {g and g[0]} {g[1] if g and g[0] == 'raised' else ''}, alone: {a[0]} {a[1] if a[0] == 'raised' else ''}")
                if a[0] == "value":
                    u, v = flatten(a[1]), flatten(g[1])
                    ctx.check(len(u) == len(v), f"{what}: another structure than alone")
                    for p, q in zip(u, v):
                        ctx.same(q, p, f"{what}, compared with the call made alone", atol=1e-12, rtol=1e-12)
                ctx.count("calls_compared")
                ctx.count("function " + r[0])
        ctx.check(frozen([[list(r[1]) for r in m] for m in work]) == before, "concurrent calls altered an argument")
        ctx.count("switches", len(baton.trace))
        ctx.count("schedules_left_to_the_system", baton.free)
        if baton.trace:
            ctx.distinct("interleavings", tuple(baton.trace))
            ctx.state(tuple(baton.trace), ctx.data["calls"])
        ctx.sample(calls=ctx.data["calls"], switches=len(baton.trace), per_line=per_line)


# ------------------------------------------------------------------------------------------------
class Simultaneous(Program):
    pid = "C31"
    quick, thorough = 48, 300
    rule = ("2-4 runs of both programs at the same time, sharing input files, the temporary folder and the working directory, "
            "started up to 0.4 s apart; every run must give what the library gives for its own arguments, all inputs stay as they "
            "were, no temporary file is left; distinct by arguments")
    must_observe = ("runs_compared", "overlapping_runs", "reordered_inputs")

    def case(self, ctx, rng, i, s):
        d = nc.make(rng, layout="grid" if i % 3 else None, years=int(rng.integers(9, 13)), partial=False)
        k = int(rng.integers(2, 5))
        jobs = []
        order = nc.ORDERS[d.layout][-1] if rng.random() < 0.8 else None
        for j in range(k):
            if jobs and rng.random() < 0.6:
                # the same input files
                a = jobs[int(rng.integers(len(jobs)))]
                b = type(a).__new__(type(a))
                b.__dict__.update(a.__dict__)
                b.scales = [int(v) for v in rng.choice([1, 2, 3, 6, 12], len(a.scales), replace=False)]
                b.mode = pick(rng, ["single", "all"])
                b.out = s("out", f"run{j}")
            elif d.layout == "grid" and rng.random() < 0.4:
                b = SpiJob(rng, d, s, tag=str(j), order=order)
            else:
                b = Job(rng, d, s, tag=str(j), order=order)
            jobs.append(b)
        folders = []
        if rng.random() < 0.4:
            # output files of the same names, in a folder for each run
            for q, j in enumerate(jobs):
                folders.append(s("out", f"folder{q}"))
                j.out = s("out", f"folder{q}", "run")
            ctx.count("same_names")
        ctx.note(jobs=[j.describe() for j in jobs])
        wants = [usable(j.expected) for j in jobs]
        if any((j.order if isinstance(j, SpiJob) else list(j.order.values())[0]) != nc.CANON[d.layout] for j in jobs):
            ctx.count("reordered_inputs")
        before = prog.listing(s("in"))
        argvs = [("spi" if isinstance(j, SpiJob) else "process_climate_indices", j.argv()) for j in jobs]
        rs = prog.together(argvs, s, cpus=int(rng.integers(1, 4)), delays=[0.0] + list(rng.uniform(0, 0.4, k - 1)), seed=i, folders=folders)
        for q, (j, w, r) in enumerate(zip(jobs, wants, rs)):
            ctx.note(run=q)
            finished(ctx, r, f"run {q + 1} of {k} at the same time")
            compare(ctx, d, j.out, w, atol=1e-8)
            ctx.count("runs_compared")
        spans = sorted(r.span for r in rs)
        ctx.count("overlapping_runs", sum(1 for a, b in zip(spans, spans[1:]) if b[0] < a[1]))
        ctx.check(prog.listing(s("in")) == before, "simultaneous runs changed their input files")
        left = [f for f in prog.listing(s("tmp")) if not f.startswith("pymp-")]
        ctx.check(not left, f"temporary files left behind: {left}")
        docs = {f"{os.path.relpath(j.out, s('out'))}_{n}.nc" for j, w in zip(jobs, wants) for n in w}
        new = set(prog.listing(s("out")))
        ctx.check(new == docs, f"files after the runs: {sorted(new)}, documented: {sorted(docs)}")
        ctx.state(*argvs)
        ctx.sample(runs=[p for p, _ in argvs], shared=len({str(j.__dict__.get('files', j.__dict__.get('file'))) for j in jobs}) < k)


# ------------------------------------------------------------------------------------------------
class PalmerGaps(Check):
    pid = "C32"
    quick, thorough = 700, 8000
    quick_budget = 120
    rule = ("monthly records (random, arid, alternating and steered spells) with one or more months of precipitation, PET or both "
            "missing before, within or after the calibration years, as NaN or masked, whole or partial last year, calibrated or "
            "with given coefficients; which months have values is derived from the gaps, values before the gap come from the "
            "same record without it; non-trivial when values before the gap were compared; distinct by input digest")
    must_observe = ("gap_after_calibration", "gap_in_calibration", "missing_confirmed", "values_before_gap")

    def run(self, ctx, rng, i):
        r = Record(rng)
        n = r.n - (int(rng.integers(1, 12)) if rng.random() < 0.3 and r.b < r.years - 1 else 0)
        c0, c1 = r.a * 12, (r.b + 1) * 12
        where = pick(rng, ["after", "after", "in", "before"])
        if where == "after" and c1 >= n or where == "before" and c0 == 0:
            where = "in"
        lo, hi = {"after": (c1, n), "in": (c0, min(c1, n)), "before": (0, c0)}[where]
        g = int(rng.integers(lo, hi))
        if rng.random() < 0.3:
            g = int(pick(rng, [lo, hi - 1]))
        gap = np.zeros(n, dtype=bool)
        gap[g:min(hi, g + int(pick(rng, [1, 1, 2, 12, 40])))] = True
        if rng.random() < 0.3:
            gap[lo + int(rng.integers(hi - lo))] = True
        p, e = r.x[:n].copy(), r.pet[:n].copy()
        which = pick(rng, ["p", "e", "both"])
        x, y = p.copy(), e.copy()
        if which != "e":
            x[gap] = np.nan
        if which != "p":
            y[gap] = np.nan
        if np.isnan(x).all():
            raise Skip("nothing but gaps")
        given = {k: rng.uniform(0.1, 1.0, 12) for k in KEYS} if rng.random() < 0.2 else None
        ctx.note(x=x, pet=y, given=given, gap=np.flatnonzero(gap), **r.note())
        kw = {} if given is None else {"fitting_params": dict(given)}
        a, b = x, y
        if rng.random() < 0.3:
            a, b = masked_twin(rng, x)[0], masked_twin(rng, y)[0]
        before = frozen([a, b])
        out = ctx.call("Palmer indices of a record with a gap", palmer.pdsi, a, b, *r.args(), **kw)
        ctx.check(frozen([a, b]) == before, "the Palmer indices altered their arguments")
        got = [np.asarray(v) for v in out[:4]]
        for v in got:
            ctx.check(v.shape == (n,), f"series of shape {v.shape} for {n} months")
        names = ("PDSI", "PHDI", "PMDI", "Z index")
        first = int(np.flatnonzero(gap)[0])
        gone = np.zeros(n, dtype=bool)
        gone[first:] = True
        if where == "in":
            gone[:] = True
            ctx.count("gap_in_calibration")
        ctx.check(np.isnan(got[3][gap]).all(), f"Z index of months without data: {got[3][gap]}")
        if where == "in":
            ctx.check(np.isnan(got[3]).all(), "Z index although there is a gap in the calibration years")
        for k in range(3):
            ctx.check(np.isnan(got[k][np.isnan(got[3])]).all(), f"{names[k]} where there is no Z index")
        ctx.count("missing_confirmed", int(4 * (gone if where == "in" else gap).sum()))
        if where != "after":
            return
        ctx.count("gap_after_calibration")
        full = ctx.call("Palmer indices of the record without the gap", palmer.pdsi, p, e, *r.args(), **kw)
        for k in KEYS:
            ctx.same(out[4][k], full[4][k], f"coefficient {k}", rtol=1e-12, atol=0)
        early = ~gone
        ctx.same(got[3], full[3], "Z index before the gap", rtol=1e-12, atol=1e-12, ignore=gone)
        # months that are decided by what comes after the gap
        clip = ref.clip_neg(r.x[:n].tolist())
        cal = palmer_ref.Calibrated(clip, e.tolist(), r.awc, r.a, r.b, None if given is None else [given[k] for k in KEYS])
        if cal.vague:
            raise Skip("ill-conditioned calibration")
        z = palmer_ref.zindex(clip, e.tolist(), cal)
        open_ = gone.copy()
        for sp in (palmer_ref.Spells(z), palmer_ref.Spells(z[:first])):
            open_[[m for m in list(sp.final) + list(sp.pending) if m is not None]] = True
            if sp.vague is not None:
                open_[max(0, sp.vague - 60):] = True
        for k in range(3):
            ctx.same(got[k], full[k], f"{names[k]} before the gap", rtol=1e-12, atol=1e-12, ignore=open_)
        ctx.count("values_before_gap", int((~open_).sum() * 3))
        if (~open_).any():
            ctx.state(x, y, r.args())
        ctx.sample(where=where, which=which, months=n, first_gap=first, judged=int((~open_).sum()))
