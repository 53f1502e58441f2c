"""Monitors of PNP, PCI, evapotranspiration and the calendar conversions."""
import datetime

import numpy as np

from climate_indices import compute, eto, indices, utils
from climate_indices.compute import Periodicity
from vmon import gen, ref
from vmon.core import Check, Skip

P = {12: Periodicity.monthly, 366: Periodicity.daily}


class PercentOfNormal(Check):
    pid = "C11"
    quick, thorough = 5000, 25000
    rule = ("monthly and daily records (gaps, dry steps, negatives, partial last years) x scales x calibration windows inside "
            "the record; every value compared with total/normal recomputed from the definition, and the values of the "
            "calibration years must average to one per calendar step; refusals probed; non-trivial when >=12 values are "
            "present; distinct by input digest")
    must_observe = ("values_judged", "normalised_steps", "refusals", "partial_final_years")

    def run(self, ctx, rng, i):
        per = 366 if rng.random() < 0.12 else 12
        years = int(rng.integers(2, 8)) if per == 366 else int(rng.integers(2, 60))
        n = years * per
        if rng.random() < 0.2:
            n -= int(rng.integers(1, per))
        x, tags = gen.precip(rng, n, per)
        start = gen.start_year(rng)
        scale = gen.scale(rng, per)
        full = n // per
        a = int(rng.integers(0, full)) if rng.random() < 0.7 else 0
        b = int(rng.integers(a, full)) if rng.random() < 0.6 else full - 1
        if n % per and a > 0 and rng.random() < 0.6:
            # up to the year that has only begun
            b = full
            ctx.count("partial_final_years")
        c0, c1 = start + a, start + b
        arr, tag = x.copy(), "plain"
        if rng.random() < 0.3:
            arr, tag = gen.layout(rng, x, 10 ** 9, allow_int=True)
        given = np.asarray(arr, dtype=float).copy()
        ctx.note(x=given, scale=scale, start=start, calibration=[c0, c1], periodicity=per, layout=tag)
        got = ctx.call("PNP", indices.percentage_of_normal, arr, scale, start, c0, c1, P[per])
        got = np.asarray(got, dtype=float)
        want = ref.pnp(given, scale, start, c0, c1, per)
        # a normal of (nearly) zero made of cancelling signs is not judged
        s = np.array(ref.window_sums(ref.flat(given), scale))
        mag = np.nanmax(np.abs(given)) * scale if np.any(~np.isnan(given)) else 0.0
        vague = np.zeros(n, dtype=bool)
        for j in range(per):
            v = s[a * per:(b + 1) * per][j::per]
            v = v[~np.isnan(v)]
            if v.size and abs(v.mean()) < 1e-9 * mag and np.any(v != 0.0):
                vague[j::per] = True
        ctx.same(got, want, "percent of normal", rtol=2e-4 if tag == "f32" else 1e-8, atol=1e-9, ignore=vague)
        ctx.count("values_judged", n)
        if np.sum(~np.isnan(want)) >= 12:
            ctx.state(given, scale, start, c0, c1)
        # over the calibration years each calendar step averages to exactly its normal
        cal = got[a * per:(b + 1) * per]
        for j in range(per):
            v = cal[j::per]
            if np.all(np.isnan(v)) or vague[j]:
                continue
            ctx.observed += 1
            m = np.nanmean(v)
            if not abs(m - 1.0) < (1e-3 if tag == "f32" else 1e-7):
                ctx.check(False, f"values of calendar step {j} average to {m!r} over the calibration period, not to one")
            ctx.count("normalised_steps")
        # values outside the calibration period do not move the others
        if rng.random() < 0.4 and n > (b + 1) * per:
            y = given.copy()
            y[(b + 1) * per:] *= rng.uniform(2, 5)
            g = np.asarray(ctx.call("PNP", indices.percentage_of_normal, y, scale, start, c0, c1, P[per]), dtype=float)
            if tag != "f32":
                ctx.same(g[:(b + 1) * per], got[:(b + 1) * per], "PNP up to the end of the calibration period", rtol=1e-9, atol=1e-9,
                         ignore=vague[:(b + 1) * per])
        if i % 5 == 0:
            k = int(rng.integers(1, 4))
            ctx.refused("PNP with a calibration period that starts before the record", indices.percentage_of_normal,
                        given.copy(), scale, start, start - k, c1, P[per])
            ctx.refused("PNP with a calibration period longer than the record", indices.percentage_of_normal,
                        given.copy(), scale, start, start, start + full + k - 1 + (1 if n % per else 0), P[per])
            for bad in (0, -1, None):
                ctx.refused(f"PNP with scale {bad}", indices.percentage_of_normal, given.copy(), bad, start, c0, c1, P[per])
            ctx.refused("PNP without a periodicity", indices.percentage_of_normal, given.copy(), scale, start, c0, c1, None)
            ctx.count("refusals", 6)
        ctx.sample(n=n, scale=scale, tags=tags, window=[c0 - start, c1 - start], periodicity=per)


class ConcentrationIndex(Check):
    pid = "C12"
    quick, thorough = 8000, 40000
    rule = ("years of 365 and 366 daily totals: random, concentrated on single days next to month boundaries, uniform, dry, "
            "gappy, wrong lengths; PCI compared with 100*sum(monthly^2)/(annual)^2, bounds and scaling invariance checked; "
            "refusals for gaps and wrong lengths; non-trivial when the annual total is positive; distinct by input digest")
    must_observe = ("values_judged", "refusals", "boundary_days", "dry_years")

    def run(self, ctx, rng, i):
        n = 366 if rng.random() < 0.5 else 365
        ends = np.cumsum(ref.month_lengths(n == 366))
        kind = gen.pick(rng, ["gamma", "uniform", "days", "days", "months", "sparse"])
        if kind == "gamma":
            x = rng.gamma(0.6, 8.0, n)
        elif kind == "uniform":
            x = np.full(n, float(rng.uniform(0.1, 20)))
        elif kind == "days":
            # rain on the first/last days of months only
            x = np.zeros(n)
            for e in rng.choice(ends, int(rng.integers(1, 8))):
                x[int(e) - 1 if rng.random() < 0.5 else int(e) % n] += rng.uniform(1, 90)
            ctx.count("boundary_days")
        elif kind == "months":
            x = np.zeros(n)
            m = int(rng.integers(12))
            x[(ends[m - 1] if m else 0):ends[m]] = rng.uniform(0.1, 9, ref.month_lengths(n == 366)[m])
        else:
            x = np.where(rng.random(n) < 0.03, rng.gamma(1.0, 30.0, n), 0.0)
        if not x.sum() > 0:
            x[int(rng.integers(n))] = 1.0
        arr = x.copy()
        if rng.random() < 0.2:
            b = np.zeros(2 * n)
            b[::2] = x
            arr = b[::2]
        elif rng.random() < 0.2:
            arr.setflags(write=False)
        ctx.note(x=x, kind=kind)
        got = np.asarray(ctx.call("PCI", indices.pci, arr), dtype=float).ravel()
        ctx.check(got.shape == (1,), f"PCI of a year is a single value, got shape {got.shape}")
        ctx.same(got, [ref.pci(x)], "PCI", rtol=1e-9)
        ctx.check(100.0 / 12 - 1e-6 <= got[0] <= 100.0 + 1e-6, f"PCI {got[0]!r} is within [8.33, 100]")
        ctx.count("values_judged")
        ctx.state(x)
        if kind == "months":
            ctx.check(abs(got[0] - 100.0) < 1e-6, f"PCI of rain within a single month is 100, got {got[0]!r}")
        k = float(gen.pick(rng, [25.4, 0.1, 2.0, 1 / 25.4, 1e-3, 1e-9, 1e6]))
        ctx.same(np.ravel(ctx.call("PCI", indices.pci, x * k)), got, "PCI in other units", rtol=1e-9)
        # the order of days within a month does not matter
        y = x.copy()
        m = int(rng.integers(12))
        lo = int(ends[m - 1]) if m else 0
        y[lo:ends[m]] = rng.permutation(y[lo:ends[m]])
        ctx.same(np.ravel(ctx.call("PCI", indices.pci, y)), got, f"PCI with the days of month {m + 1} permuted", rtol=1e-9)
        if i % 3 == 1:
            with np.errstate(all="ignore"):
                g = np.asarray(ctx.call("PCI of a dry year", indices.pci, np.zeros(n)), dtype=float)
            ctx.check(not np.any(np.isfinite(g)), f"a year without any rain has no concentration, got {g!r}")
            ctx.count("dry_years")
        if i % 3 == 0:
            y = x.copy()
            y[int(rng.integers(n))] = np.nan
            ctx.refused("PCI of a year with a missing day", indices.pci, y)
            for m in (364, 367, 12, 360, 730, int(rng.integers(1, 365))):
                ctx.refused(f"PCI of {m} days", indices.pci, np.ones(m))
            g = ctx.call("PCI of an all-missing year", indices.pci, np.full(n, np.nan))
            ctx.check(bool(np.all(np.isnan(np.asarray(g, dtype=float)))), "PCI of an all-missing year is missing")
            ctx.count("refusals", 7)
        ctx.sample(kind=kind, days=n)


LATS = [-90.0, -89.9, -66.5, -66.0, -45.0, -23.4, -0.0, 0.0, 1e-9, 23.4, 35.0, 45.0, 60.0, 66.5, 66.6, 80.0, 89.9, 90.0]


def latitude(rng):
    return float(rng.choice(LATS)) if rng.random() < 0.5 else float(rng.uniform(-90, 90))


class Thornthwaite(Check):
    pid = "C13"
    quick, thorough = 5000, 25000
    rule = ("monthly temperature records (arctic to tropical, gaps, partial last years, exact zeros, whole months missing, 1-D, "
            "2-D, read-only, strided) x latitudes incl. both poles and 0 x start years incl. century years; every PET value "
            "compared with the Thornthwaite equation recomputed per month; refusals of invalid latitudes; non-trivial when "
            "some PET is positive; distinct by input digest")
    must_observe = ("values_judged", "positive_values", "leap_februaries", "refusals")

    def run(self, ctx, rng, i):
        years = int(rng.integers(1, 45)) if rng.random() < 0.93 else int(rng.integers(45, 180))
        n = years * 12 - (int(rng.integers(1, 12)) if rng.random() < 0.25 else 0)
        t, tags = gen.temperature(rng, n)
        if rng.random() < 0.06:
            t[int(rng.integers(12))::12] = np.nan
        if rng.random() < 0.05:
            t = -np.abs(t) - 0.5
        start = gen.start_year(rng)
        lat = latitude(rng)
        arr, tag = gen.layout(rng, t, 12)
        given = np.asarray(arr, dtype=float).ravel().copy()
        ctx.note(t=given, latitude=lat, start=start, layout=tag)
        want = ref.thornthwaite(given, lat, start)
        tol = dict(rtol=2e-4 if tag == "f32" else 1e-9, atol=1e-3 if tag == "f32" else 1e-8)
        if not np.all(np.isnan(given)):
            got = ctx.call("PET", indices.pet, arr, self.latform(rng, lat, arr), start)
            ctx.same(got, want, f"Thornthwaite PET at latitude {lat!r} from {start}", **tol)
            g = np.asarray(got)
            ctx.check(bool(np.all(np.isnan(g) | (g >= 0))), "PET is never negative")
        else:
            got = ctx.call("PET of an all-missing record", indices.pet, arr, lat, start)
            ctx.check(bool(np.all(np.isnan(np.asarray(got, dtype=float)))), "PET of an all-missing record is missing")
        g2 = ctx.call("Thornthwaite", eto.eto_thornthwaite, arr, lat, start)
        ctx.same(g2, want, f"Thornthwaite evapotranspiration at latitude {lat!r} from {start}", **tol)
        ctx.check(np.ndim(g2) == 1, "the result is one-dimensional")
        ctx.count("values_judged", n)
        pos = int(np.sum(want > 0))
        ctx.count("positive_values", pos)
        ctx.count("leap_februaries", sum(1 for k in range(1, n, 12) if ref.is_leap(start + k // 12) and want[k] > 0))
        if pos:
            ctx.state(given, lat, start)
        # below freezing is the same as freezing
        if np.any(given < 0) and tag != "f32":
            y = np.where(given < 0, np.where(rng.random(n) < 0.5, 0.0, -rng.uniform(0, 60)), given)
            ctx.same(ctx.call("Thornthwaite", eto.eto_thornthwaite, y, lat, start), g2, "PET when sub-zero temperatures are replaced by others", rtol=1e-9, atol=1e-9)
        if i % 3 == 0:
            for bad in (90.0001, -90.0001, 91, -91, 180.0, float("nan"), None, 1e6):
                ctx.refused(f"PET at latitude {bad}", indices.pet, np.full(24, 12.5), bad, start)
            ctx.refused("PET at latitude 95", eto.eto_thornthwaite, np.full(24, 12.5), 95.0, start)
            ctx.refused("PET of a wrong 2-D shape", eto.eto_thornthwaite, np.full((3, 11), 12.5), 45.0, start)
            ctx.count("refusals", 10)
        ctx.sample(n=n, latitude=lat, start=start, tags=tags, layout=tag)

    @staticmethod
    def latform(rng, lat, arr):
        k = rng.random()
        if k < 0.6:
            return lat
        if k < 0.8:
            return np.float64(lat)
        if k < 0.9:
            return np.full(np.shape(arr), lat)      # the documented array form: its first value counts
        many = np.clip(lat + rng.uniform(-20, 20, int(rng.integers(2, 5))), -90, 90)
        many[0] = lat
        return many


class Hargreaves(Check):
    pid = "C14"
    quick, thorough = 2500, 12000
    rule = ("daily tmin/tmax/tmean records (1..6 years of 366 days, partial last year, gaps, equal and inverted ranges) in 1-D "
            "and 2-D x latitudes incl. poles; every value compared with the Hargreaves equation at its calendar day; refusals "
            "of mismatched sizes; non-trivial when >=100 values are present; distinct by input digest")
    must_observe = ("values_judged", "refusals")

    def run(self, ctx, rng, i):
        years = int(rng.integers(1, 7)) if rng.random() < 0.97 else int(rng.integers(7, 60))
        n = years * 366 - (int(rng.integers(1, 365)) if rng.random() < 0.35 else 0)
        mean, _ = gen.temperature(rng, n, 366)
        spread = rng.uniform(0.0, 14.0, n)
        if rng.random() < 0.3:
            spread[rng.random(n) < 0.05] = 0.0
        if rng.random() < 0.15:
            spread[rng.random(n) < 0.01] *= -1.0
        lo, hi = mean - spread * rng.uniform(0.3, 0.7), None
        hi = lo + spread
        if rng.random() < 0.3:
            lo[rng.random(n) < 0.02] = np.nan
            hi[rng.random(n) < 0.02] = np.nan
        lat = latitude(rng)
        if n % 366 == 0 and rng.random() < 0.4:
            arr = [v.reshape(-1, 366).copy() for v in (lo, hi, mean)]
            tag = "2d"
        else:
            arr = [v.copy() for v in (lo, hi, mean)]
            tag = "1d"
        if rng.random() < 0.2:
            for v in arr:
                v.setflags(write=False)
        ctx.note(tmin=lo, tmax=hi, tmean=mean, latitude=lat, layout=tag)
        got = ctx.call("Hargreaves", eto.eto_hargreaves, *arr, lat)
        want = ref.hargreaves(lo, hi, mean, lat)
        ctx.same(got, want, f"Hargreaves evapotranspiration at latitude {lat!r}", rtol=1e-9, atol=1e-9)
        ctx.check(np.ndim(got) == 1, "the result is one-dimensional")
        ctx.count("values_judged", n)
        if np.sum(~np.isnan(want)) >= 100:
            ctx.state(lo, hi, mean, lat)
        if i % 4 == 0:
            for k in range(3):
                bad = [v.ravel().copy() for v in arr]
                bad[k] = bad[k][:-1]
                ctx.refused("Hargreaves with arrays of different sizes", eto.eto_hargreaves, *bad, lat)
            ctx.refused("Hargreaves at latitude 91", eto.eto_hargreaves, *arr, 91.0)
            ctx.count("refusals", 4)
        ctx.sample(n=n, latitude=lat, layout=tag)


class CalendarConversion(Check):
    pid = "C15"
    quick, thorough = 5000, 20000
    rule = ("spans of 1..12 full years over start years incl. 1896-1904, 1996-2004, 2096-2104, 1600, 1700; every element of the "
            "366-day form is traced to its calendar day (unique marker values), Feb 29 of non-leap years is the mean of its "
            "neighbours, and the round trip is the identity incl. gaps; refusals of other shapes; non-trivial always; distinct "
            "by (start, years, gap pattern)")
    must_observe = ("days_judged", "round_trips", "faux_days", "refusals", "lengths_judged")

    def run(self, ctx, rng, i):
        years = int(rng.integers(1, 13)) if rng.random() < 0.95 else int(rng.integers(13, 150))
        start = gen.start_year(rng)
        n = sum(ref.year_days(start + k) for k in range(years))
        x = rng.permutation(n).astype(float) + 1.0
        if rng.random() < 0.4:
            x[rng.random(n) < rng.uniform(0.001, 0.2)] = np.nan
            if rng.random() < 0.5:
                x[58 if rng.random() < 0.5 else 59] = np.nan
        arr = x.copy()
        if rng.random() < 0.3:
            arr.setflags(write=False)
        ctx.note(x=x, start=start, years=years)
        got = np.asarray(ctx.call("366-day form", utils.transform_to_366day, arr, start, years), dtype=float)
        want = ref.to_366(x, start, years)
        ctx.same(got, want, f"366-day form of {start}-{start + years - 1}", atol=1e-9, rtol=1e-12)
        back = np.asarray(ctx.call("Gregorian form", utils.transform_to_gregorian, got, start), dtype=float)
        ctx.same(back, x, f"round trip of {start}-{start + years - 1}", atol=0, rtol=0)
        ctx.count("days_judged", n)
        ctx.count("faux_days", sum(1 for k in range(years) if not ref.is_leap(start + k)))
        ctx.count("round_trips")
        ctx.state(start, years, np.isnan(x))
        # any 366-day record: only the faux days are dropped, all else is kept in order
        y = rng.permutation(years * 366).astype(float)
        if rng.random() < 0.3:
            y[rng.random(y.size) < 0.05] = np.nan
        g = ctx.call("Gregorian form", utils.transform_to_gregorian, y.copy(), start)
        ctx.same(g, ref.to_gregorian(y, start), f"Gregorian form of {years} 366-day years from {start}", atol=0, rtol=0)
        m = ctx.call("length of the 366-day form", utils.gregorian_length_as_366day, n, start)
        ctx.check(m == years * 366, f"{n} days from {start} are {years} years of 366 days, got {m}")
        ctx.count("lengths_judged")
        if i % 4 == 0:
            ctx.refused("2-D values", utils.transform_to_366day, np.zeros((2, 365)), start, 2)
            ctx.refused("2-D values", utils.transform_to_gregorian, np.zeros((2, 366)), start)
            ctx.refused("values of incomplete years", utils.transform_to_gregorian, np.zeros(366 * years - 1 - int(rng.integers(300))), start)
            ctx.count("refusals", 3)
        ctx.sample(start=start, years=years)


class TimeAxis(Check):
    pid = "C16"
    quick, thorough = 8000, 40000
    rule = ("(initial year, month, number of months, reference year) tuples: each returned day count must be the number of days "
            "between the two dates in the proleptic Gregorian calendar, independently computed; series are also folded into "
            "year tables and back; counts, signs, validity and RMSE checked against their definitions on gappy arrays; "
            "non-trivial when >=2 months; distinct by arguments")
    must_observe = ("months_judged", "tables_judged", "helpers_judged", "refusals")

    def run(self, ctx, rng, i):
        y0 = gen.start_year(rng)
        units = int(rng.choice([1800, 1900, 1600, 1582, y0])) if rng.random() < 0.7 else int(rng.integers(1500, 2001))
        m0 = int(rng.integers(1, 13))
        n = int(rng.integers(1, 300))
        kw = {}
        if rng.random() < 0.3:
            m0 = 1
        else:
            kw["initial_month"] = m0
        if rng.random() < 0.3:
            units = 1800
        else:
            kw["units_start_year"] = units
        ctx.note(initial_year=y0, months=n, **kw)
        got = ctx.call("days of monthly time steps", utils.compute_days, y0, n, **kw)
        want = []
        for k in range(n):
            y, m = divmod(m0 - 1 + k, 12)
            want.append(ref.day_number(y0 + y, m + 1, 1) - ref.day_number(units, 1, 1))
        ctx.same(got, want, f"days since {units} of {n} months from {y0}-{m0}", atol=0, rtol=0)
        ctx.check(np.issubdtype(np.asarray(got).dtype, np.integer), "day counts are integers")
        d = datetime.date(units, 1, 1).toordinal() + int(np.asarray(got)[-1])
        ctx.check(datetime.date.fromordinal(d).day == 1, "the last time step is the first of a month")
        ctx.count("months_judged", n)
        if n > 1:
            ctx.state(y0, m0, n, units)
        # folding into years
        per = int(gen.pick(rng, [12, 366, 12, 5]))
        size = int(rng.integers(1, 5 * per))
        x = rng.permutation(size).astype(float if rng.random() < 0.8 else int)
        arr = x.copy()
        arr.setflags(write=False)
        tab = np.asarray(ctx.call("table of years", utils.reshape_to_2d, arr, per), dtype=float)
        years = -(-size // per)
        ctx.check(tab.shape == (years, per), f"{size} values fold into {years}x{per}, got {tab.shape}")
        ctx.same(tab.ravel()[:size], x, "values of the table in order", atol=0, rtol=0)
        ctx.check(bool(np.all(np.isnan(tab.ravel()[size:]))), "the rest of the last year is missing")
        again = ctx.call("table of years", utils.reshape_to_2d, tab, per)
        ctx.same(again, tab, "a table is left as it is", atol=0, rtol=0)
        ctx.count("tables_judged")
        if i % 3 == 0:
            ctx.refused("wrong second dimension", utils.reshape_to_2d, np.zeros((3, per + 1)), per)
            ctx.refused("3-D values", utils.reshape_to_2d, np.zeros((2, 2, per)), per)
            ctx.refused("sign changes of arrays of different sizes", utils.sign_change, np.zeros(size + 1), np.zeros(size))
            ctx.count("refusals", 3)
        # helpers on gappy arrays
        v = np.where(rng.random(size) < 0.3, 0.0, rng.normal(0, 3, size))
        v[rng.random(size) < rng.choice([0.0, 0.2, 1.0])] = np.nan
        z, k = ctx.call("counts", utils.count_zeros_and_non_missings, v.copy())
        ctx.check((int(z), int(k)) == (sum(1 for a in v if a == 0.0), sum(1 for a in v if a == a)),
                  f"counts of zeros and present values, got {(z, k)}", v=v)
        ok = ctx.call("validity", utils.is_data_valid, v.copy())
        ctx.check(bool(ok) == any(a == a for a in v), f"validity of an array with {int(k)} present values is {ok}", v=v)
        mk = np.ma.masked_array(np.nan_to_num(v), mask=np.isnan(v))
        ok = ctx.call("validity", utils.is_data_valid, mk)
        ctx.check(bool(ok) == any(a == a for a in v), f"validity of a masked array with {int(k)} present values is {ok}", v=v)
        ctx.check(not utils.is_data_valid([1.0, 2.0]), "a list is not valid data")
        a, b = np.round(rng.normal(0, 2, size)), np.round(rng.normal(0, 2, size))
        sgn = lambda u: int(u > 0) - int(u < 0)  # noqa
        s = ctx.call("sign changes", utils.sign_change, a.copy(), b.copy())
        ctx.check(bool(np.all(np.asarray(s) == np.array([sgn(p) != sgn(q) for p, q in zip(a, b)]))), "sign changes", a=a, b=b)
        if size % 2 == 0:
            s2 = np.asarray(utils.sign_change(a.reshape(2, -1), b.reshape(2, -1)))
            ctx.check(s2.shape == (2, size // 2) and bool(np.all(s2.ravel() == np.asarray(s))), "sign changes keep the shape")
        # tolerance for comparing coordinates: a tenth of the smallest spacing, whatever the direction and regularity of the axis
        g = np.cumsum(np.round(rng.uniform(0.05, 20.0, int(rng.integers(2, 12))), 3)) - 90.0
        if rng.random() < 0.4:
            g = np.linspace(-60.0, 60.0, g.size)
        want = min(abs(q - p) for p, q in zip(g[:-1], g[1:])) / 10
        for coords in (g, g[::-1].copy(), -g):
            got = float(ctx.call("tolerance", utils.get_tolerance, coords))
            ctx.check(abs(got - want) <= 1e-9 * want, f"tolerance {got!r} of coordinates with smallest spacing {10 * want!r}", coords=coords)
        ctx.check(float(ctx.call("tolerance", utils.get_tolerance, g[:1])) > 0, "the tolerance of a single coordinate is positive")
        r = float(ctx.call("RMSE", utils.rmse, a, b))
        w = (sum((p - q) ** 2 for p, q in zip(a, b)) / size) ** 0.5
        ctx.check(abs(r - w) <= 1e-9 * max(1.0, w), f"RMSE {r!r}, expected {w!r}", a=a, b=b)
        c = np.linspace(-120 + rng.uniform(0, 50), -60, max(2, size)) if rng.random() < 0.7 else np.array([45.0])
        tol = float(ctx.call("coordinate tolerance", utils.get_tolerance, c))
        step = float(np.abs(np.diff(c)).min()) if c.size > 1 else None
        ctx.check(tol > 0 and (step is None or tol < step), f"coordinate tolerance {tol!r} is positive and below the spacing {step!r}")
        ctx.count("helpers_judged", 6)
        # three-dimensional tables of divisions
        nd = int(rng.integers(1, 6))
        w = rng.normal(0, 1, (nd, 12))
        t3 = ctx.call("tables of divisions", utils.reshape_to_divs_years_months, w.copy())
        ctx.check(np.shape(t3) == (nd, 1, 12) and np.array_equal(np.asarray(t3).reshape(nd, 12), w), "one year of each division")
        ctx.sample(initial_year=y0, months=n, month=m0, units=units, per=per, size=size)
