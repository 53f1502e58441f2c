"""Monitors of the standardized indices: sliding sums, SPI, SPEI and their fits."""
import math

import numpy as np

from climate_indices import compute, indices, lmoments
from climate_indices.compute import Periodicity
from climate_indices.indices import Distribution
from vmon import gen, ref
from vmon.core import Check, Skip, digest

P = {12: Periodicity.monthly, 366: Periodicity.daily}
D = {"gamma": Distribution.gamma, "pearson": Distribution.pearson}


def spi(x, scale, dist, start, c0, c1, per, params=None):
    kw = {} if params is None else {"fitting_params": params}
    return indices.spi(x, scale, D[dist], start, c0, c1, P[per], **kw)


def spei(p, e, scale, dist, start, c0, c1, per, params=None):
    kw = {} if params is None else {"fitting_params": params}
    return indices.spei(p, e, scale, D[dist], P[per], start, c0, c1, **kw)


class Case:
    """one workload of the SPI family"""

    def __init__(self, rng, dist=None, daily=0.12, years=None, **kw):
        self.per = 366 if rng.random() < daily else 12
        self.dist = dist or ("gamma" if rng.random() < 0.5 else "pearson")
        if years is None:
            # mostly short for speed, sometimes as long as the instrumental record
            long = rng.random() < 0.05
            if self.per == 366:
                years = int(rng.integers(28, 45)) if long else int(rng.integers(5, 12))
            else:
                years = int(rng.integers(70, 180)) if long else int(rng.integers(4, 70))
        self.years = years
        self.n = years * self.per
        self.partial = rng.random() < 0.2 and "full" not in kw
        kw.pop("full", None)
        if self.partial:
            self.n -= int(rng.integers(1, self.per))
        self.x, self.tags = gen.precip(rng, self.n, self.per, **kw)
        self.start = gen.start_year(rng)
        self.c0, self.c1, self.ctag = gen.calibration(rng, self.start, years)
        self.scale = gen.scale(rng, self.per)
        self.note = dict(periodicity=self.per, distribution=self.dist, years=years, n=self.n, start=self.start,
                         calibration=[self.c0, self.c1, self.ctag], scale=self.scale, tags=self.tags)

    def args(self):
        return self.scale, self.dist, self.start, self.c0, self.c1, self.per

    def values(self, rng, allow_int=False):
        arr, tag = gen.layout(rng, self.x, self.per, allow_int)
        self.note["layout"] = tag
        # what the caller handed over, as plain floats
        return arr, np.asarray(arr, dtype=float).ravel().copy(), tag


def judge(ctx, got, fit, what, loose=1.0, zero_known=None):
    """compare observed index values with the model; gamma zeros are reported as known finding"""
    got = np.asarray(got, dtype=float)
    ctx.check(got.ndim == 1 and got.shape == fit.z.shape, f"{what}: result shape {got.shape}, expected {fit.z.shape}")
    ignore = fit.skip.copy()
    if zero_known is not None:
        ignore |= fit.zero
    tol = fit.tol * loose
    ctx.count("values_judged", int((~ignore).sum()))
    ctx.count("values_ambiguous", int(fit.skip.sum()))
    ctx.same(got, fit.z, what, atol=tol, rtol=0.0, ignore=ignore)


def judge_raw(ctx, z, fit, what):
    """the transform itself, before the index is clipped: compared where the tail probability is well conditioned"""
    z = np.asarray(z, dtype=float).ravel()[:fit.raw.size]
    with np.errstate(invalid="ignore"):
        look = np.isfinite(fit.raw) & (np.abs(fit.raw) < 4.0) & ~fit.skip & ~fit.zero
    ctx.same(z, fit.raw, f"{what}, before limits", atol=np.maximum(50.0 * fit.tol, 1e-4), rtol=0.0, ignore=~look)
    with np.errstate(invalid="ignore"):
        ctx.count("tail_values", int((look & (np.abs(fit.raw) > 3.09)).sum()))


def attempt(ctx, fit, what, fn, *a):
    """call; a ValueError is acceptable only when the model says the distribution is degenerate"""
    ctx.count("calls")
    try:
        return fn(*a)
    except ValueError as e:
        if fit.refuse:
            ctx.count("refused_degenerate")
            return None
        return ctx.call(what, _reraise, e)
    except Exception as e:
        return ctx.call(what, _reraise, e)


def _reraise(e):
    raise e


# ------------------------------------------------------------------------------------------------
class SlidingSums(Check):
    pid = "C01"
    quick, thorough = 2400, 30000
    rule = ("random series (NaN gaps, zeros, negatives, huge/small magnitudes, sizes 1..45000, int and float layouts) and "
            "scales 1..size+3; one evaluation = one series/scale pair; non-trivial when at least one complete window "
            "was compared with the exactly rounded sum of its own members; distinct by (size, scale, gap pattern)")

    def run(self, ctx, rng, i):
        per = 366 if rng.random() < 0.1 else 12
        n = int(rng.integers(1, 40)) if rng.random() < 0.3 else int(rng.integers(2, 900))
        k = int(rng.integers(1, min(n, 75) + 4)) if rng.random() < 0.8 else int(rng.choice([1, 2, n, n + 1, max(1, n - 1)]))
        k = max(1, k)
        if i % 60 == 7:
            # decades of days
            per, n = 366, int(rng.integers(9000, 45000))
            k = int(gen.pick(rng, [1, 2, 7, 30, 90, 180]))
            ctx.count("long_records")
        x, tags = gen.precip(rng, n, per)
        if rng.random() < 0.2:
            x = x - np.nanmean(x)
            tags.append("signed")
        if rng.random() < 0.1:
            x = x * 10.0 ** rng.integers(-8, 9)
        if rng.random() < 0.35:
            # a sensor error, overflow value or unmasked fill value among ordinary ones
            for j in rng.integers(0, max(1, n // 2), int(rng.integers(1, 3))):
                x[j] = float(rng.choice([-1.0, 1.0])) * 10.0 ** float(rng.uniform(5, 30))
            ctx.count("extremes")
        arr, tag = x.copy(), "plain"
        if rng.random() < 0.3:
            arr, tag = gen.layout(rng, x, 10 ** 9, allow_int=True)
        ctx.note(x=x, scale=k, layout=tag)
        given = np.asarray(arr, dtype=float).copy()
        got = np.asarray(ctx.call("sum_to_scale", compute.sum_to_scale, arr, k), dtype=float)
        want = np.array(ref.window_sums(ref.flat(given), k))

        def tol(a):
            # rounding within the window only: nothing outside may leave a trace in the total
            w = np.array(ref.window_sums(ref.flat(np.abs(a)), k))
            return np.where(np.isnan(w), 0.0, w) * max(k, 4) * (1e-7 if tag == "f32" else 4e-16) + 1e-300

        ctx.same(got, want, f"sliding sums of {n} values over {k}", atol=tol(given), rtol=0.0)
        ctx.count("windows", int((~np.isnan(want)).sum()))
        if np.any(~np.isnan(want)):
            ctx.state(n, k, np.isnan(x))
        # the year-by-year table of the scaled values, negatives counted as zero
        if rng.random() < 0.5 and np.any(~np.isnan(x)):
            tab = np.asarray(ctx.call("scale_values", compute.scale_values, x.copy(), k, P[per]), dtype=float)
            w = ref.window_sums(ref.clip_neg(ref.flat(x)), k)
            years = -(-n // per)
            w = np.array(w + [ref.NAN] * (years * per - n)).reshape(years, per)
            t = np.full(years * per, 1e-300)
            t[:n] = tol(ref.clip_neg(ref.flat(x)))
            ctx.same(tab, w, "table of scaled values", atol=t.reshape(years, per), rtol=0.0)
            ctx.count("tables")
        # exact zero totals stay exactly zero (they select the zero-probability branch of the fits)
        z = np.asarray(ctx.call("sum_to_scale", compute.sum_to_scale, np.where(np.isnan(x), x, 0.0), k), dtype=float)
        ctx.check(bool(np.all((z == 0.0) | np.isnan(z))), "totals of zeros are exactly zero")
        ctx.sample(n=n, scale=k, tags=tags, layout=tag)


class GammaReference(Check):
    pid = "C02"
    quick, thorough = 4000, 20000
    rule = ("SPI/gamma workloads over start years, record lengths, scales, calibration windows in/at/out of the record, "
            "zeros, gaps, negatives, memory layouts; every returned value is compared with a reference model; "
            "non-trivial when >=12 values are judged and at least one is inside (-3.09, 3.09); distinct by input digest")
    assumptions = ["frequency of zero totals is taken over all years of the record (pinned by the repository's fixtures)",
                   "calendar steps whose calibration values are (nearly) all equal are not judged"]
    must_observe = ("values_judged", "params_judged")

    def run(self, ctx, rng, i):
        c = Case(rng, "gamma")
        arr, given, tag = c.values(rng, allow_int=True)
        ctx.note(x=given, **c.note)
        sums = ref.window_sums(ref.clip_neg(ref.flat(given)), c.scale)
        fit = ref.gamma_index(sums, c.per, c.start, c.c0, c.c1)
        got = ctx.call("SPI", spi, arr, *c.args())
        judge(ctx, got, fit, "SPI (gamma)", 300.0 if tag == "f32" else 1.0, zero_known=True)
        if (~fit.skip & (np.abs(fit.z) < 3.09)).sum() >= 12:
            ctx.state(given, c.args())
        # the fitted parameters themselves
        if not all(s != s for s in sums):
            table = np.array(sums + [ref.NAN] * (-len(sums) % c.per)).reshape(-1, c.per)
            a, b = ctx.call("gamma_parameters", compute.gamma_parameters, table.copy() if i % 2 else table.ravel().copy(),
                            c.start, c.c0, c.c1, P[c.per])
            ra, rb = fit.params
            ok = ~(np.isnan(ra)) & (ra < 1e5)
            ctx.same(np.where(ok, a, 0), np.where(ok, ra, 0), "gamma shape parameter", rtol=1e-6)
            ctx.same(np.where(ok, b, 0), np.where(ok, rb, 0), "gamma scale parameter", rtol=1e-6)
            empty = np.isnan(ra) & np.array([not any(v == v and v != 0 for v in col[ref.calibration(c.start, len(col), c.c0, c.c1)[0]:ref.calibration(c.start, len(col), c.c0, c.c1)[1]])
                                             for col in ref.columns(sums, c.per)[0]])
            ctx.check(bool(np.all(np.isnan(np.asarray(a)[empty]))), "a step without calibration values has no parameters")
            z = ctx.call("transform_fitted_gamma", compute.transform_fitted_gamma, table.copy(), c.start, c.c0, c.c1, P[c.per])
            judge_raw(ctx, z, fit, "gamma transform")
            z = np.clip(np.asarray(z, dtype=float), -3.09, 3.09).ravel()[:len(sums)]
            judge(ctx, z, fit, "gamma transform", zero_known=True)
            ctx.count("params_judged", int(ok.sum()))
        ctx.sample(**c.note)


class PearsonReference(Check):
    pid = "C03"
    quick, thorough = 3000, 20000
    rule = ("SPI/Pearson workloads as for gamma plus negatively skewed and symmetric series; every value compared with a "
            "reference (definition-level L-moments, Hosking's approximation, incomplete gamma function); non-trivial when "
            ">=12 values are judged inside (-3.09, 3.09); distinct by input digest")
    assumptions = ["values below the trace amount 0.0005 and beyond the bound of the fitted distribution follow the documented floors"]
    must_observe = ("values_judged", "params_judged", "lmoment_fits")

    def run(self, ctx, rng, i):
        c = Case(rng, "pearson", daily=0.06)
        if rng.random() < 0.15:
            # symmetric within each calendar step: (effectively) zero skewness
            base = rng.uniform(20, 90, c.per)
            dev = np.linspace(-1, 1, c.years) * rng.uniform(3, 15)
            c.x = (base[None, :] + rng.permuted(np.tile(dev, (c.per, 1)), axis=1).T).ravel()[:c.n]
            c.scale, c.c0, c.c1 = 1, c.start, c.start + c.years - 1
            c.note.update(scale=1, tags=["symmetric"], calibration=[c.c0, c.c1, "full"])
        arr, given, tag = c.values(rng, allow_int=True)
        ctx.note(x=given, **c.note)
        sums = ref.window_sums(ref.clip_neg(ref.flat(given)), c.scale)
        fit = ref.pearson_index(sums, c.per, c.start, c.c0, c.c1)
        got = attempt(ctx, fit, "SPI", spi, arr, *c.args())
        if got is not None:
            judge(ctx, got, fit, "SPI (Pearson)", 2000.0 if tag == "f32" else 1.0)
            if (~fit.skip & (np.abs(fit.z) < 3.09)).sum() >= 12:
                ctx.state(given, c.args())
        if not all(s != s for s in sums):
            table = np.array(sums + [ref.NAN] * (-len(sums) % c.per)).reshape(-1, c.per)
            p = attempt(ctx, fit, "pearson_parameters", compute.pearson_parameters,
                        table.copy() if i % 2 else table.ravel().copy(), c.start, c.c0, c.c1, P[c.per])
            if p is not None and not fit.refuse:
                # steps whose fit is ill-conditioned (nearly symmetric or nearly equal samples) are judged loosely
                loose = np.array([max(float(t) for t in fit.tol[j::c.per]) for j in range(c.per)]) > 1e-5
                vague = np.array([bool(np.all(fit.skip[j::c.per] | np.isnan(np.array(sums[j::c.per])))) and
                                  not bool(np.all(np.isnan(np.array(sums[j::c.per])))) for j in range(c.per)])
                for name, g, w in zip(("probability of zero", "loc", "scale", "skew"), p, fit.params):
                    g = np.asarray(g, dtype=float)
                    ctx.same(g, w, f"Pearson {name}", rtol=np.where(loose, 5e-3, 1e-6),
                             atol=np.where(loose, 5e-3, 1e-5) if name == "skew" else 1e-9, ignore=vague)
                ctx.count("params_judged", int((~vague).sum()))
            z = attempt(ctx, fit, "transform_fitted_pearson", compute.transform_fitted_pearson, table.copy(), c.start, c.c0, c.c1, P[c.per])
            if z is not None:
                judge_raw(ctx, z, fit, "Pearson transform")
                judge(ctx, np.clip(np.asarray(z, dtype=float), -3.09, 3.09).ravel()[:len(sums)], fit, "Pearson transform")
        # direct fits of arbitrary samples
        m = int(rng.integers(4, 60))
        s = rng.gamma(rng.uniform(0.2, 6), 10 ** rng.uniform(-2, 3), m) * (-1 if rng.random() < 0.3 else 1) + rng.uniform(-50, 50)
        if rng.random() < 0.3:
            s = np.append(s, [np.nan] * int(rng.integers(1, 5)))
            s = rng.permutation(s)
        l1, l2, l3 = ref.lmoments3([v for v in s.tolist() if v == v])
        w = ref.pe3_from_lmoments(l1, l2, l3)
        t3 = abs(l3 / l2)
        if w is not None and abs(t3 - 1 / 3) > 1e-8 and 1e-4 < t3 < 0.999:
            g = ctx.call("L-moments fit", lmoments.fit, s.copy())
            for name, k in (("loc", 0), ("scale", 1), ("skew", 2)):
                ctx.same([g[name]], [w[k]], f"L-moments fit {name}", rtol=1e-6, atol=1e-9 * max(1, abs(l1)))
            ctx.count("lmoment_fits")
        ctx.refused("L-moments fit of 3 values", lmoments.fit, np.array([1.0, 2.0, 5.0]))
        ctx.refused("L-moments fit of equal values", lmoments.fit, np.full(8, float(rng.integers(1, 50))))
        ctx.sample(**c.note)


class SpeiReference(Check):
    pid = "C04"
    quick, thorough = 3000, 15000
    rule = ("precipitation/PET pairs (PET constant, seasonal, missing, negative net balance, negatives in P clipped), both "
            "distributions; every SPEI value compared with the reference standardization of P-PET; plus pairs sharing the "
            "same difference; non-trivial when >=12 values are judged inside the limits; distinct by input digest")
    must_observe = ("values_judged", "difference_pairs", "refusals")

    def run(self, ctx, rng, i):
        c = Case(rng, daily=0.08)
        # realistic net balances: totals stay well inside the documented +1000 offset
        c.x = np.minimum(np.abs(c.x), 600) * np.where(c.x < 0, -1, 1)
        pet = np.abs(60 + 50 * np.sin(np.arange(c.n) * 2 * np.pi / c.per) + rng.normal(0, 12, c.n))
        k = gen.pick(rng, ["season", "zero", "const", "nan", "large"])
        if k == "zero":
            pet[:] = 0.0
        elif k == "const":
            pet[:] = float(rng.integers(1, 200))
        elif k == "nan":
            pet[rng.random(c.n) < 0.05] = np.nan
        elif k == "large":
            pet *= 3.0
        c.note["pet_kind"] = k
        arr, given, tag = c.values(rng)
        parr = pet.reshape(np.shape(arr)).copy() if rng.random() < 0.7 else pet.copy()
        if tag == "f32":
            arr, given = c.x.copy(), c.x
        ctx.note(x=given, pet=pet, **c.note)
        fit = ref.spei(given, pet, *c.args())
        got = attempt(ctx, fit, "SPEI", spei, arr, parr, *c.args())
        if got is None:
            return
        judge(ctx, got, fit, f"SPEI ({c.dist})")
        if (~fit.skip & (np.abs(fit.z) < 3.09)).sum() >= 12:
            ctx.state(given, pet, c.args())
        # SPEI depends on the inputs only through the difference (non-negative precipitation)
        if not fit.refuse and rng.random() < 0.6:
            base = np.where(given < 0, 0.0, given)
            add = rng.uniform(0, 120, c.n) if rng.random() < 0.5 else float(rng.integers(1, 90))
            other = ctx.call("SPEI", spei, base + add, pet + add, *c.args())
            ctx.same(other, got, "SPEI of the same P-PET differences", atol=1e-5, ignore=fit.skip | (fit.tol > 1e-5))
            ctx.count("difference_pairs")
        if i % 7 == 0:
            ctx.refused("SPEI of arrays of different sizes", spei, base_ones(c.n), base_ones(c.n - 1), *c.args())
            ctx.refused("SPEI of arrays of different sizes", spei, base_ones(c.n), base_ones(c.n + c.per), *c.args())
            ctx.count("refusals")
        ctx.sample(**c.note)


def base_ones(n):
    return np.arange(1.0, n + 1)


class RangeAndMissing(Check):
    pid = "C05"
    quick, thorough = 4000, 20000
    rule = ("both indices, both distributions, every gap pattern, partial last years, all-missing and masked inputs; each "
            "output position is classified (outside the record / incomplete or gappy window / calendar step without a fit / "
            "value due) from the input alone; non-trivial when missing and present values both occur; distinct by input digest")
    must_observe = ("values_due", "missing_due", "all_missing_inputs")

    def run(self, ctx, rng, i):
        c = Case(rng, daily=0.1)
        is_spei = rng.random() < 0.35
        x = c.x
        if rng.random() < 0.12:
            self.all_missing(ctx, rng, c)
        if is_spei:
            x = np.minimum(np.abs(x), 500.0)
            pet = rng.uniform(0, 150, c.n)
            if rng.random() < 0.4:
                pet[rng.random(c.n) < 0.03] = np.nan
            sums = ref.window_sums([a - b + 1000.0 for a, b in zip(ref.flat(x), ref.flat(pet))], c.scale)
            ctx.note(x=x, pet=pet, **c.note)
        else:
            sums = ref.window_sums(ref.clip_neg(ref.flat(x)), c.scale)
            ctx.note(x=x, **c.note)
        cols, years = ref.columns(sums, c.per)
        a, b = ref.calibration(c.start, years, c.c0, c.c1)
        fit = ref.index(c.dist, sums, c.per, c.start, c.c0, c.c1)
        if is_spei:
            got = attempt(ctx, fit, "SPEI", spei, x.copy(), pet.copy(), *c.args())
        else:
            arr, given, tag = c.values(rng)
            got = attempt(ctx, fit, "SPI", spi, arr, *c.args())
        if got is None:
            return
        got = np.asarray(got, dtype=float)
        ctx.check(got.shape == (c.n,), f"result has shape {got.shape}, the record has {c.n} time steps")
        bad = ~(np.isnan(got) | (np.abs(got) <= 3.09 + 1e-12))
        ctx.check(not bad.any(), f"values outside [-3.09, 3.09]: {got[bad][:4]}")
        due = missing = 0
        for t, s in enumerate(sums):
            j = t % c.per
            if s != s:
                missing += 1
                if got[t] == got[t]:
                    ctx.check(False, f"time step {t} has an incomplete window but the value {got[t]!r}")
                continue
            cal = [v for v in cols[j][a:b] if v == v and v != 0.0]
            usable = len(cal) >= 4 and max(cal) > min(cal) * (1 + 1e-4)
            if not usable:
                continue
            due += 1
            if got[t] != got[t]:
                if c.dist == "gamma" and s == 0.0:
                    ctx.finding("gamma-zero-total", f"gamma SPI of a zero total at time step {t} is missing")
                else:
                    ctx.check(False, f"time step {t} has a complete window (total {s!r}) and a fitted calendar step but no value")
        ctx.observed += due + missing
        ctx.count("values_due", due)
        ctx.count("missing_due", missing)
        if due and missing:
            ctx.state(x, c.args(), is_spei)
        ctx.sample(spei=is_spei, **c.note)

    def all_missing(self, ctx, rng, c):
        n = c.years * c.per
        for x in (np.full(n, np.nan), np.ma.masked_all(n)):
            g = ctx.call("SPI of an all-missing record", spi, x, *c.args())
            ctx.check(np.shape(g) == (n,) and _missing(g), "SPI of an all-missing record is missing throughout")
            g = ctx.call("SPEI of an all-missing record", spei, x, np.full(n, 50.0), *c.args())
            ctx.check(np.shape(g) == (n,) and _missing(g), "SPEI of an all-missing record is missing throughout")
        g = ctx.call("SPEI with an all-missing PET", spei, np.full(n, 3.0), np.full(n, np.nan), *c.args())
        ctx.check(np.shape(g) == (n,) and _missing(g), "SPEI with an all-missing PET is missing throughout")
        k = c.per + int(rng.integers(1, 4))
        g = ctx.call("SPI over more time steps than the record", indices.spi, np.full(c.per, 5.0) + rng.random(c.per), k,
                     D[c.dist], c.start, c.c0, c.c1, P[c.per])
        ctx.check(np.shape(g) == (c.per,) and _missing(g), "SPI over more time steps than the record is missing throughout")
        ctx.count("all_missing_inputs", 6)


def _missing(g):
    return bool(np.all(np.isnan(np.ma.filled(np.ma.asarray(g, dtype=float), np.nan))))


class Monotone(Check):
    pid = "C06"
    quick, thorough = 4000, 20000
    rule = ("records with ties, zeros and extremes; within each calendar step all pairs of (scaled total, index) are ordered: "
            "a larger total never has a smaller index and equal totals have equal indices; non-trivial when >=1 step has "
            ">=4 distinct totals with values; distinct by input digest")
    assumptions = ["the documented 0.0005 probability floor/ceiling of the Pearson transform is allowed as slack"]
    must_observe = ("pairs_ordered", "tied_pairs")

    def run(self, ctx, rng, i):
        c = Case(rng, daily=0.06, missing=gen.pick(rng, ["none", "some"]))
        if rng.random() < 0.5:
            c.x = np.round(c.x / max(1e-9, np.nanmean(np.abs(c.x))) * 8) / 4.0     # many exact ties
            c.note["tags"] = c.tags + ["ties"]
            if not np.any(c.x > 0):
                raise Skip("degenerate")
        if rng.random() < 0.3:
            k = rng.integers(0, c.n, 3)
            c.x[k] = np.nanmax(c.x) * rng.uniform(1, 40, 3)                        # record-breaking totals
        is_spei = rng.random() < 0.3
        if is_spei:
            x = np.minimum(np.abs(c.x), 500)
            pet = np.round(rng.uniform(0, 100, c.n))
            sums = ref.window_sums([a - b + 1000.0 for a, b in zip(ref.flat(x), ref.flat(pet))], c.scale)
            ctx.note(x=x, pet=pet, **c.note)
        else:
            sums = ref.window_sums(ref.clip_neg(ref.flat(c.x)), c.scale)
            ctx.note(x=c.x, **c.note)
        fit = ref.index(c.dist, sums, c.per, c.start, c.c0, c.c1)
        got = attempt(ctx, fit, "SPEI", spei, x.copy(), pet.copy(), *c.args()) if is_spei else \
            attempt(ctx, fit, "SPI", spi, c.x.copy(), *c.args())
        if got is None:
            return
        got = ref.flat(got)
        ctx.check(len(got) == len(sums), "one value per time step")
        slack = 0.00051 if c.dist == "pearson" else 1e-9
        best = 0
        for j in range(c.per):
            pts = sorted((sums[t], got[t], t) for t in range(j, len(sums), c.per) if sums[t] == sums[t] and got[t] == got[t])
            hi = None
            for k, (s, z, t) in enumerate(pts):
                if k and s - pts[k - 1][0] <= 1e-9 * abs(s):
                    ctx.observed += 1
                    ctx.count("tied_pairs")
                    pz = phi(z) - phi(pts[k - 1][1])
                    if abs(z - pts[k - 1][1]) > 1e-6 and abs(pz) > slack:
                        ctx.check(False, f"step {j}: equal totals {s!r} have indices {pts[k-1][1]!r} and {z!r}")
                elif hi is not None:
                    ctx.observed += 1
                    ctx.count("pairs_ordered")
                    if z < hi[1] - 1e-7 and phi(hi[1]) - phi(z) > slack:
                        ctx.check(False, f"step {j}: total {s!r} at {t} has index {z!r}, below {hi[1]!r} of the smaller total {hi[0]!r} at {hi[2]}")
                if hi is None or z > hi[1]:
                    hi = (s, z, t)
            best = max(best, len(set(p[0] for p in pts)))
        if best >= 4:
            ctx.state(c.x, c.args(), is_spei)
        ctx.sample(spei=is_spei, **c.note)


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


class CalibrationIsolation(Check):
    pid = "C07"
    quick, thorough = 800, 8000
    rule = ("pairs of records that agree in the calibration years (and in which steps are zero) but differ elsewhere: index "
            "values of all unchanged windows and the fitted parameters must agree; pairs of calibration windows where one "
            "leaves the record must equal the full record; the last/first record years are probed on both sides; "
            "non-trivial when the perturbed totals really changed; distinct by input digest")
    must_observe = ("unchanged_values_compared", "fallback_pairs", "inside_pairs")

    def run(self, ctx, rng, i):
        c = Case(rng, daily=0.05, years=int(rng.integers(9, 45)), full=True)
        if c.per == 366:
            c.scale = min(c.scale, 90)
        which = gen.pick(rng, ["spi", "spi", "spei"])
        if which == "spei":
            c.x = np.minimum(np.abs(c.x), 500)
        pet = rng.uniform(0, 120, c.n)
        last = c.start + c.years - 1

        def fitted(x, c0, c1):
            sums = ref.window_sums(ref.clip_neg(ref.flat(x)), c.scale) if which == "spi" else \
                ref.window_sums([a - b + 1000.0 for a, b in zip(ref.flat(x), ref.flat(pet))], c.scale)
            f = ref.index(c.dist, sums, c.per, c.start, c0, c1)
            g = attempt(ctx, f, which, spi, x.copy(), c.scale, c.dist, c.start, c0, c1, c.per) if which == "spi" else \
                attempt(ctx, f, which, spei, x.copy(), pet.copy(), c.scale, c.dist, c.start, c0, c1, c.per)
            return sums, f, g

        # (1) calibration period inside the record, at its edges
        a = int(rng.integers(0, c.years - 5))
        b = int(rng.integers(a + 4, c.years))
        edge = gen.pick(rng, ["mid", "head", "tail", "one-before-last"])
        if edge == "head":
            a = 0
        elif edge == "tail":
            b = c.years - 1
        elif edge == "one-before-last":
            a, b = 1, c.years - 2
        c0, c1 = c.start + a, c.start + b
        if b - a < 4:
            raise Skip("calibration period too short")
        ctx.note(x=c.x, which=which, window=[c0, c1], **c.note)
        s1, f1, g1 = fitted(c.x, c0, c1)
        lo, hi = a * c.per, (b + 1) * c.per          # time steps whose totals are calibrated
        x2 = c.x.copy()
        # values that enter no calibration total: before lo-(scale-1), from hi on
        out = np.ones(c.n, dtype=bool)
        out[max(0, lo - c.scale + 1):hi] = False
        if rng.random() < 0.5:
            # minimal distance: only the time steps adjacent to the window
            near = np.zeros(c.n, dtype=bool)
            near[max(0, lo - c.scale + 1 - c.per):max(0, lo - c.scale + 1)] = True
            near[hi:hi + c.per] = True
            out &= near
        alter = out & ~np.isnan(x2) & (x2 > 0)
        x2[alter] = x2[alter] * rng.uniform(1.5, 4.0, int(alter.sum()))
        s2, f2, g2 = fitted(x2, c0, c1)
        if g1 is not None and g2 is not None and not f1.refuse and not f2.refuse:
            g1, g2 = np.asarray(g1), np.asarray(g2)
            keep = np.array([u == v or (u != u and v != v) for u, v in zip(s1, s2)])
            ctx.same(np.where(keep, g1, 0), np.where(keep, g2, 0),
                     f"{which} of unchanged windows when only years outside the calibration period change", atol=1e-9, rtol=0)
            ctx.count("unchanged_values_compared", int(keep.sum()))
            ctx.count("inside_pairs")
            changed = ~keep & ~np.isnan(g1) & ~np.isnan(g2) & ~(f1.skip | f2.skip)
            if changed.any():
                ctx.state(c.x, c0, c1, which, edge)
                # wetter totals outside the period are reported as wetter
                ctx.check(bool(np.all(g2[changed] >= g1[changed] - 1e-6 - (0.01 if c.dist == "pearson" else 0))),
                          "larger totals outside the calibration period must not lower the index")
        # (2) a value inside the calibration period does matter (the period is really used)
        if g1 is not None and rng.random() < 0.5 and not f1.refuse:
            for y in (a, b):
                x3 = c.x.copy()
                seg = x3[y * c.per:(y + 1) * c.per]
                seg[~np.isnan(seg) & (seg > 0)] *= 3.0
                _, f3, g3 = fitted(x3, c0, c1)
                if g3 is None or f3.refuse:
                    continue
                ctx.count("edge_years_probed")
                far = np.ones(c.n, dtype=bool)
                far[y * c.per:(y + 1) * c.per + c.scale] = False
                expect = far & (np.abs(f3.z - f1.z) > 1e-3) & ~(f1.skip | f3.skip)
                if expect.any():
                    moved = np.abs(np.asarray(g3) - np.asarray(g1))[expect]
                    ctx.check(bool(np.all(moved > 1e-4)), f"calibration year {c.start + y} takes no part in the calibration")
        # (3) out of the record -> full record
        gf = fitted(c.x, c.start, last)
        if gf[2] is not None and not gf[1].refuse:
            for w in ((c.start - 1, c1), (c0, last + 1), (c.start - int(rng.integers(1, 60)), last + int(rng.integers(0, 60))),
                      (last + 1, last + 10), (c.start - 10, c.start - 1)):
                go = fitted(c.x, *w)[2]
                ctx.same(go, gf[2], f"{which} with the calibration period {w} beyond the record {c.start}-{last}", atol=1e-12, rtol=0)
                ctx.count("fallback_pairs")
        ctx.sample(which=which, edge=edge, **c.note)


class Precomputed(Check):
    pid = "C08"
    quick, thorough = 1800, 12000
    rule = ("fit then reuse: parameters from the public fitting functions are fed back (current and deprecated keys, list/array "
            "containers, other calibration years and extended records alongside); results must be those of the direct fit; "
            "arbitrary valid parameters must give the closed-form value; partial sets refused; distinct by input digest")
    must_observe = ("round_trips", "closed_form", "partial_refused")

    def run(self, ctx, rng, i):
        c = Case(rng, daily=0.06)
        ctx.note(x=c.x, **c.note)
        sums = ref.window_sums(ref.clip_neg(ref.flat(c.x)), c.scale)
        if all(s != s for s in sums):
            raise Skip("no complete window")
        fit = ref.index(c.dist, sums, c.per, c.start, c.c0, c.c1)
        if fit.refuse:
            raise Skip("degenerate distribution")
        direct = ctx.call("SPI", spi, c.x.copy(), *c.args())
        table = ctx.call("scale_values", compute.scale_values, c.x.copy(), c.scale, P[c.per])
        if c.dist == "gamma":
            p = ctx.call("gamma_parameters", compute.gamma_parameters, table, c.start, c.c0, c.c1, P[c.per])
            keys, old = ("alpha", "beta"), ("alphas", "betas")
        else:
            p = ctx.call("pearson_parameters", compute.pearson_parameters, table, c.start, c.c0, c.c1, P[c.per])
            keys, old = ("prob_zero", "loc", "scale", "skew"), ("probabilities_of_zero", "locs", "scales", "skews")
        params = dict(zip(keys, [np.array(v, dtype=float) for v in p]))
        again = ctx.call("SPI with fitted parameters", spi, c.x.copy(), *c.args(), dict(params))
        ctx.same(again, direct, "SPI with the parameters of its own fit", atol=1e-9, rtol=0)
        ctx.count("round_trips")
        ctx.state(c.x, c.args())
        # with the parameters given, calibration years are irrelevant
        w = gen.calibration(rng, c.start, c.years)
        g = ctx.call("SPI with fitted parameters", spi, c.x.copy(), c.scale, c.dist, c.start, w[0], w[1], c.per, dict(params))
        ctx.same(g, direct, f"SPI with given parameters and another calibration period {w}", atol=1e-9, rtol=0)
        # other keys in the dictionary do not matter
        extra = dict(params)
        extra.update({"unrelated": np.zeros(c.per)})
        if c.dist == "gamma":
            extra.update(prob_zero=np.full(c.per, 0.5), loc=np.ones(c.per), scale=np.ones(c.per), skew=np.ones(c.per))
        else:
            extra.update(alpha=np.ones(c.per), beta=np.ones(c.per))
        g = ctx.call("SPI with fitted parameters", spi, c.x.copy(), *c.args(), extra)
        ctx.same(g, direct, "SPI with parameters of both distributions present", atol=1e-9, rtol=0)
        # an extended record: old years keep their values (gamma mixes in the record's zero frequency)
        if not (c.dist == "gamma" and any(s == 0.0 for s in sums)) and not c.partial:
            add = rng.choice(c.x[~np.isnan(c.x)], c.per * int(rng.integers(1, 4)))
            add = np.where(add > 0, add, 0.37 * np.nanmax(np.abs(c.x)) + 0.01)
            g = ctx.call("SPI of an extended record", spi, np.concatenate([c.x, add]), *c.args(), dict(params))
            ctx.same(np.asarray(g)[:c.n], direct, "SPI of the old years when the record is extended, parameters given", atol=1e-9, rtol=0)
            ctx.count("extended_records")
        # SPEI takes current and deprecated names alike, and the same closed form
        pe = np.minimum(np.abs(c.x), 400)
        pet = rng.uniform(0, 150, c.n)
        mine = self.random_params(rng, c)
        fspi = ref.spi(c.x, *c.args(), params=[mine[k] for k in keys])
        g = ctx.call("SPI with given parameters", spi, c.x.copy(), *c.args(), dict(mine))
        judge(ctx, g, fspi, "SPI with given parameters", zero_known=True if c.dist == "gamma" else None)
        big = self.random_params(rng, c, centre=1000.0 * c.scale)
        fspei = ref.spei(pe, pet, *c.args(), params=[big[k] for k in keys])
        g1 = ctx.call("SPEI with given parameters", spei, pe.copy(), pet.copy(), *c.args(), dict(big))
        judge(ctx, g1, fspei, "SPEI with given parameters")
        ctx.count("closed_form", 2)
        mixed = {}
        for k, o in zip(keys, old):
            mixed[o if rng.random() < 0.7 else k] = big[k]
        g2 = ctx.call("SPEI with deprecated parameter names", spei, pe.copy(), pet.copy(), *c.args(), mixed)
        ctx.same(g2, g1, "SPEI with deprecated parameter names", atol=1e-12, rtol=0)
        both = {o: np.full(c.per, 0.123) for o in old}
        both.update(big)
        g2 = ctx.call("SPEI with both parameter names", spei, pe.copy(), pet.copy(), *c.args(), both)
        ctx.same(g2, g1, "SPEI with current and deprecated names (current ones win)", atol=1e-12, rtol=0)
        # incomplete Pearson parameters are refused
        if c.dist == "pearson":
            order = ["prob_zero", "loc", "scale", "skew"]
            drop = [k for k in order if rng.random() < 0.5] or [order[i % 4]]
            if len(drop) < 4:
                args = [None if k in drop else params[k] for k in order]
                ctx.refused(f"Pearson transform without {drop}", compute.transform_fitted_pearson, np.array(table),
                            c.start, c.c0, c.c1, P[c.per], *args)
                bad = {k: (None if k in drop else params[k]) for k in order}
                ctx.refused(f"SPI (Pearson) with {drop} missing", spi, c.x.copy(), *c.args(), bad)
                ctx.count("partial_refused")
        else:
            # half a gamma parameter set cannot be used: the fit is made from the data
            g = ctx.call("gamma transform", compute.transform_fitted_gamma, np.array(table), c.start, c.c0, c.c1, P[c.per], params["alpha"], None)
            g = np.clip(np.asarray(g, dtype=float), -3.09, 3.09).ravel()[:c.n]
            ctx.same(g, direct, "gamma transform given only the shape parameters", atol=1e-9, rtol=0)
        ctx.sample(**c.note)

    @staticmethod
    def random_params(rng, c, centre=None):
        m = centre if centre is not None else max(0.01, float(np.nanmean(np.abs(c.x))) * c.scale)
        if c.dist == "gamma":
            a = rng.uniform(0.5, 30, c.per) if centre is None else rng.uniform(50, 400, c.per)
            return {"alpha": a, "beta": m / a * rng.uniform(0.8, 1.2, c.per)}
        return {"prob_zero": np.where(rng.random(c.per) < 0.5, 0.0, rng.uniform(0, 0.5, c.per)),
                "loc": m * rng.uniform(0.8, 1.2, c.per), "scale": m * rng.uniform(0.05, 0.5, c.per),
                "skew": rng.uniform(-1.5, 2.5, c.per)}


class UnitInvariance(Check):
    pid = "C10"
    quick, thorough = 3000, 20000
    rule = ("records in two units (inches/mm, cm/mm, random factors 2^-5..2^6): SPI and PNP must agree, precipitation-only "
            "indices; totals stay above the documented trace amount; non-trivial when >=12 values are present; distinct by digest")
    must_observe = ("spi_pairs", "pnp_pairs", "pnp_pairs_far")

    def run(self, ctx, rng, i):
        c = Case(rng, daily=0.05, magnitude=10 ** rng.uniform(1.0, 2.5))
        c.x = np.where(np.abs(c.x) < 0.5, 0.0, c.x)
        if not np.any(c.x > 0):
            raise Skip("all zero")
        k = float(gen.pick(rng, [25.4, 1 / 25.4, 10.0, 0.1, 2.0, 0.5, 2.0 ** rng.integers(-4, 7), rng.uniform(0.05, 40),
                               10 ** rng.uniform(-2.69, 4.0), 0.0025]))
        ctx.note(x=c.x, factor=k, **c.note)
        fit = ref.spi(c.x, *c.args())
        g1 = attempt(ctx, fit, "SPI", spi, c.x.copy(), *c.args())
        g2 = attempt(ctx, fit, "SPI", spi, c.x * k, *c.args())
        if g1 is not None and g2 is not None and not fit.refuse:
            ctx.same(g2, g1, f"SPI ({c.dist}) of the record times {k!r}", atol=1e-6, rtol=0, ignore=fit.skip | (fit.tol > 1e-5))
            ctx.count("spi_pairs")
            if np.sum(~np.isnan(np.asarray(g1, dtype=float))) >= 12:
                ctx.state(c.x, k, c.args())
        years = c.n // c.per
        a = int(rng.integers(0, years))
        b = int(rng.integers(a, years))
        h1 = ctx.call("PNP", indices.percentage_of_normal, c.x.copy(), c.scale, c.start, c.start + a, c.start + b, P[c.per])
        h2 = ctx.call("PNP", indices.percentage_of_normal, c.x * k, c.scale, c.start, c.start + a, c.start + b, P[c.per])
        s = ref.window_sums(ref.flat(c.x), c.scale)
        with_neg = bool(np.any(c.x < 0))
        if not with_neg:
            ctx.same(h2, h1, f"PNP of the record times {k!r}", atol=1e-9, rtol=1e-9)
            ctx.count("pnp_pairs")
            # a ratio has no smallest meaningful amount: metres, desert normals
            j = float(10.0 ** rng.uniform(-9, 6))
            h3 = ctx.call("PNP", indices.percentage_of_normal, c.x * j, c.scale, c.start, c.start + a, c.start + b, P[c.per])
            ctx.same(h3, h1, f"PNP of the record times {j!r}", atol=1e-9, rtol=1e-9)
            ctx.count("pnp_pairs_far")
        ctx.sample(factor=k, **c.note)
