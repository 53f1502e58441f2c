"""Monitors of the Palmer indices."""
import numpy as np

from climate_indices import palmer
from vmon import gen, palmer_ref, ref
from vmon.core import Check, Skip

KEYS = ("alpha", "beta", "gamma", "delta")


class Record:
    """a workload: precipitation and PET in inches, AWC, calibration years inside the record"""

    def __init__(self, rng):
        self.years = int(rng.integers(6, 55))
        n = self.years * 12
        self.n = n
        m = np.arange(n)
        wet = float(rng.choice([0.4, 1.5, 3.0, 6.0]))
        self.kind = gen.pick(rng, ["gamma", "gamma", "arid", "spells", "steered", "steered", "steered"])
        if self.kind == "steered":
            wet = 10.0
        shape = float(rng.choice([0.6, 1.5, 4.0]))
        x = rng.gamma(shape, wet / shape, n) * (1 + rng.uniform(0, 0.7) * np.sin(2 * np.pi * m / 12 + rng.uniform(0, 6.3)))
        if self.kind == "arid":
            x[rng.random(n) < 0.5] = 0.0
        if self.kind == "spells":
            k = 0
            while k < n:
                w = int(rng.integers(3, 40))
                x[k:k + w] *= rng.choice([0.15, 0.6, 1.0, 1.6, 3.0])
                k += w
        pet = np.maximum(0.0, wet * rng.uniform(0.3, 1.2) * (1 + 0.9 * np.sin(2 * np.pi * m / 12 + rng.uniform(0, 6.3)))
                         + rng.normal(0, 0.2, n))
        if rng.random() < 0.2:
            pet[m % 12 < int(rng.integers(1, 4))] = 0.0
        self.awc = float(rng.choice([0.5, 1.0, 1.7, 3.2, 5.0, 8.5, 14.0]))
        self.start = gen.start_year(rng)
        a = int(rng.integers(0, self.years - 4))
        b = int(rng.integers(a + 3, self.years))
        if rng.random() < 0.3:
            a, b = 0, self.years - 1
        self.targets = None
        if self.kind == "steered":
            a, b = 0, int(rng.integers(4, max(5, min(self.years - 1, 12))))
            b = min(b, self.years - 2)
            self.targets = targets(rng, n - (b + 1) * 12)
            x = np.array(palmer_ref.steer(x.tolist(), pet.tolist(), self.awc, a, b, self.targets, (b + 1) * 12))
        if rng.random() < 0.15:
            k = rng.random(n) < 0.03
            x = np.where(k, -np.abs(x), x)
        self.x, self.pet, self.a, self.b = x, pet, a, b

    def args(self):
        return self.awc, self.start, self.start + self.a, self.start + self.b

    def note(self):
        return dict(kind=self.kind, years=self.years, awc=self.awc, start=self.start, calibration=[self.a, self.b])


def targets(rng, n):
    """sequences of Z values that exercise the onset, abatement and backtracking of spells"""
    out = []
    while len(out) < n:
        k = gen.pick(rng, ["noise", "drought", "wet", "limbo", "limbo", "limbo-wet", "flip", "zero", "weak"])
        m = int(rng.integers(3, 30))
        if k == "noise":
            out += list(rng.normal(0, 1.5, m))
        elif k == "drought":
            out += list(rng.uniform(-6, -1, m))
        elif k == "wet":
            out += list(rng.uniform(1, 6, m))
        elif k == "limbo":
            out += [-6.0] * 6 + [7.5] + list(rng.uniform(-0.30, -0.26, int(rng.integers(5, 60))))
        elif k == "limbo-wet":
            out += [6.0] * 6 + [-7.5] + list(rng.uniform(0.26, 0.30, int(rng.integers(5, 60))))
        elif k == "flip":
            out += [s * rng.uniform(0.5, 3) for s in np.resize([1, -1], m)]
        elif k == "zero":
            out += list(rng.uniform(-0.14, 0.14, m))
        else:
            out += list(rng.uniform(-0.5, 0.5, m))
    return out[:n]


class PalmerReference(Check):
    pid = "C17"
    quick, thorough = 1200, 15000
    quick_budget = 120
    rule = ("gap-free monthly records (random, arid, alternating spells, closed-loop records steering Z through onsets, "
            "abatements and undetermined stretches longer than 40 months) x soil capacities x calibration years; PDSI, PHDI, "
            "PMDI, Z and coefficients compared with a reference model; non-trivial when >=1 backtracking decision was "
            "judged; distinct by input digest")
    assumptions = ["the last undetermined stretch keeps preliminary values (pinned by the NCEI fixture)",
                   "months after a decision within 1e-8 of its threshold are not judged"]
    must_observe = ("z_judged", "severity_judged", "backtracks", "long_undetermined", "coefficients_judged")

    def run(self, ctx, rng, i):
        r = Record(rng)
        layout = gen.pick(rng, ["1d", "1d", "2d", "ro"])
        x, e = r.x.copy(), r.pet.copy()
        if layout == "2d":
            x, e = x.reshape(-1, 12), e.reshape(-1, 12)
        if layout == "ro":
            x.setflags(write=False)
            e.setflags(write=False)
        given = None
        if rng.random() < 0.2:
            given = {k: rng.uniform(0.1, 1.0, 12) for k in KEYS}
        ctx.note(x=r.x, pet=r.pet, layout=layout, given=given, **r.note())
        sp, z, coef, cal = palmer_ref.palmer(ref.clip_neg(r.x.tolist()), r.pet.tolist(), r.awc, r.a, r.b,
                                             None if given is None else [given[k] for k in KEYS])
        if sp is None:
            raise Skip("ill-conditioned calibration")
        kw = {} if given is None else {"fitting_params": dict(given)}
        out = ctx.call("Palmer indices", palmer.pdsi, x, e, *r.args(), **kw)
        ctx.check(isinstance(out, tuple) and len(out) == 5, "four series and the coefficients are returned")
        for k, c in zip(KEYS, coef):
            ctx.same(out[4][k], c, f"coefficient {k}", rtol=1e-7, atol=1e-9)
        ctx.count("coefficients_judged", 48)
        scale = max(1.0, max(abs(v) for v in z))
        ctx.same(out[3], z, "Z index", rtol=1e-7, atol=1e-8 * scale)
        ctx.count("z_judged", r.n)
        vague = np.zeros(r.n, dtype=bool)
        if sp.vague is not None:
            # decisions from there on may settle pending months before it: judge only months settled earlier
            ctx.count("ambiguous_records")
            vague[max(0, sp.vague - 60):] = True
            vague[[m for m in sp.final]] = True
        for name, g, w in (("PDSI", out[0], sp.pdsi), ("PHDI", out[1], sp.phdi), ("PMDI", out[2], sp.wplm)):
            ctx.same(g, w, f"{name}", rtol=1e-6, atol=1e-6 * scale, ignore=vague)
        ctx.count("severity_judged", int(3 * (~vague).sum()))
        if sp.vague is None:
            ctx.count("backtracks", sp.backtracks)
            ctx.count("long_undetermined", int(sp.longest >= 40))
            ctx.count("undetermined_at_least_12", int(sp.longest >= 12))
            if sp.backtracks:
                ctx.state(r.x, r.pet, r.args())
        ctx.sample(longest_undetermined=sp.longest, backtracks=sp.backtracks, **r.note())


class PalmerReuse(Check):
    pid = "C18"
    quick, thorough = 300, 5000
    rule = ("pairs of Palmer runs: own coefficients fed back (arrays, lists, tuples), incomplete coefficients, negatives vs "
            "zeros, 1-D vs 2-D, records extended past the calibration years, all-missing records, mismatched sizes; "
            "non-trivial when the fed-back run was compared; distinct by input digest")
    must_observe = ("fed_back", "recalibrated", "extended", "refusals", "alien_fed")

    def run(self, ctx, rng, i):
        r = Record(rng)
        cal = palmer_ref.Calibrated(ref.clip_neg(r.x.tolist()), r.pet.tolist(), r.awc, r.a, r.b)
        if cal.vague:
            raise Skip("ill-conditioned calibration")
        ctx.note(x=r.x, pet=r.pet, **r.note())

        def run(x, e, params=None, years=None):
            a = list(r.args())
            kw = {} if params is None else {"fitting_params": params}
            return ctx.call("Palmer indices", palmer.pdsi, x, e, *a, **kw)

        def same(o, what, upto=None, which=(0, 1, 2, 3)):
            for k in which:
                ctx.same(np.asarray(o[k])[:upto], np.asarray(base[k])[:upto], f"{('PDSI', 'PHDI', 'PMDI', 'Z')[k]} {what}", atol=1e-9, rtol=1e-9)

        base = run(r.x.copy(), r.pet.copy())
        params = {k: np.array(base[4][k], dtype=float) for k in KEYS}
        form = gen.pick(rng, [np.array, list, tuple])
        o = run(r.x.copy(), r.pet.copy(), {k: form(v) for k, v in params.items()})
        same(o, "with the coefficients of its own calibration")
        for k in KEYS:
            ctx.same(o[4][k], params[k], f"coefficient {k} as given", atol=0, rtol=0)
        ctx.count("fed_back")
        ctx.state(r.x, r.pet, r.args())
        # another calibration's coefficients are used as they are, whatever their values
        alien = {}
        for k in KEYS:
            v = params[k] * rng.uniform(0.7, 1.3, 12) if rng.random() < 0.6 else rng.uniform(0.0, 1.0, 12)
            if rng.random() < 0.5:
                v[rng.random(12) < rng.choice([0.1, 0.5, 1.0])] = float(gen.pick(rng, [0.0, 0.0, 1.0]))
            alien[k] = v
        given = palmer_ref.Calibrated(ref.clip_neg(r.x.tolist()), r.pet.tolist(), r.awc, r.a, r.b, given=[alien[k].tolist() for k in KEYS])
        o = run(r.x.copy(), r.pet.copy(), {k: form(v) for k, v in alien.items()})
        for k in KEYS:
            ctx.same(o[4][k], alien[k], f"coefficient {k} of another calibration", atol=0, rtol=0)
        if not given.vague:
            zs = palmer_ref.zindex(ref.clip_neg(r.x.tolist()), r.pet.tolist(), given)
            ctx.same(o[3], zs, "Z with the coefficients of another calibration", rtol=1e-7, atol=1e-8 * max(1.0, max(abs(v) for v in zs)))
            ctx.count("alien_fed")
        # coefficients that cannot be used are calibrated instead
        bad = {k: rng.uniform(0.1, 1, 12) for k in KEYS}
        k = KEYS[i % 4]
        how = gen.pick(rng, ["absent", "short", "scalar", "none"])
        if how == "absent":
            del bad[k]
        else:
            bad[k] = {"short": np.ones(11), "scalar": 0.5, "none": None}[how]
        o = run(r.x.copy(), r.pet.copy(), bad)
        same(o, f"with unusable coefficients ({k} {how})")
        for q in KEYS:
            ctx.same(o[4][q], params[q], f"coefficient {q} calibrated when {k} is {how}", atol=1e-12)
        ctx.count("recalibrated")
        # negatives are zero
        if np.any(r.x < 0):
            same(run(np.where(r.x < 0, 0.0, r.x), r.pet.copy()), "with negatives replaced by zero")
        same(run(r.x.reshape(-1, 12).copy(), r.pet.reshape(-1, 12).copy()), "of the 2-D record")
        # an extended record changes no moisture anomaly of the past
        m = 12 * int(rng.integers(1, 6))
        if r.b < r.years:
            x2 = np.concatenate([r.x, np.abs(rng.choice(r.x, m))])
            e2 = np.concatenate([r.pet, rng.choice(r.pet, m)])
            o = run(x2, e2)
            same(o, "when the record is extended", r.n, which=(3,))
            for q in KEYS:
                ctx.same(o[4][q], params[q], f"coefficient {q} when the record is extended", atol=1e-12)
            ctx.check(all(np.shape(v) == (r.n + m,) for v in o[:4]), "one value per month")
            ctx.count("extended")
        if i % 3 == 0:
            ctx.refused("precipitation and PET of different sizes", palmer.pdsi, r.x.copy(), r.pet[:-12].copy(), *r.args())
            ctx.refused("precipitation and PET of different sizes", palmer.pdsi, r.x.copy(), np.append(r.pet, 1.0), *r.args())
            ctx.count("refusals", 2)
            o = ctx.call("Palmer indices of an all-missing record", palmer.pdsi, np.full(r.n, np.nan), r.pet.copy(), *r.args())
            ctx.check(len(o) == 5 and all(np.shape(v) == (r.n,) and bool(np.all(np.isnan(v))) for v in o[:4]),
                      "all-missing precipitation gives all-missing indices")
        ctx.sample(unusable=how, **r.note())
