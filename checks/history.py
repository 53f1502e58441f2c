"""Monitor of call histories: no call may alter its arguments, an earlier result, or a later call."""
import copy
import os
import pickle
import select
import signal
import struct

import numpy as np

from climate_indices import compute, eto, indices, lmoments, palmer, utils
from climate_indices.compute import Periodicity
from climate_indices.indices import Distribution
from vmon import gen
from vmon.core import Check, Inconclusive, Violated

M, DY = Periodicity.monthly, Periodicity.daily
FUN = {
    "spi": indices.spi, "spei": indices.spei, "pnp": indices.percentage_of_normal, "pci": indices.pci, "pet": indices.pet,
    "thornthwaite": eto.eto_thornthwaite, "hargreaves": eto.eto_hargreaves, "palmer": palmer.pdsi, "sums": compute.sum_to_scale,
    "table": compute.scale_values, "gamma_fit": compute.gamma_parameters, "pearson_fit": compute.pearson_parameters,
    "gamma_z": compute.transform_fitted_gamma, "pearson_z": compute.transform_fitted_pearson, "lmoments": lmoments.fit,
    "to366": utils.transform_to_366day, "toGreg": utils.transform_to_gregorian, "days": utils.compute_days,
    "fold": utils.reshape_to_2d, "counts": utils.count_zeros_and_non_missings, "sign": utils.sign_change,
    "valid": utils.is_data_valid, "rmse": utils.rmse, "tolerance": utils.get_tolerance,
}


def outcome(name, args, kwargs):
    try:
        return ("value", FUN[name](*args, **kwargs))
    except Exception as e:
        return ("raised", type(e).__name__)


class Zygote:
    """a process forked before any call was made; every request is served by a fresh fork of it"""

    def __init__(self):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    @staticmethod
    def read(fd, n, timeout=None):
        b = b""
        while len(b) < n:
            if timeout is not None and not select.select([fd], [], [], timeout)[0]:
                return None
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return b

    def serve(self, r, w):
        while True:
            h = self.read(r, 8)
            if h is None:
                return
            body = self.read(r, struct.unpack("<Q", h)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    out = pickle.dumps(outcome(*pickle.loads(body)))
                    out = struct.pack("<Q", len(out)) + out
                    while out:
                        out = out[os.write(w, out):]
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                return

    def ask(self, req):
        b = pickle.dumps(req)
        b = struct.pack("<Q", len(b)) + b
        while b:
            b = b[os.write(self.w, b):]
        h = self.read(self.r, 8, 60)
        if h is None:
            os.kill(self.pid, signal.SIGKILL)
            raise Inconclusive("the pristine process did not answer")
        return pickle.loads(self.read(self.r, struct.unpack("<Q", h)[0]))


def flatten(v):
    if isinstance(v, np.ma.MaskedArray):
        return [np.ma.filled(v.astype(float), np.nan)]
    if isinstance(v, dict):
        out = []
        for k in sorted(v):
            out += flatten(v[k])
        return out
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flatten(x)
        return out
    if v is None:
        return []
    return [np.asarray(v, dtype=float)]


def frozen(v):
    """bytes of everything a caller could see in an argument or result"""
    if isinstance(v, np.ma.MaskedArray):
        return ("ma", v.dtype.str, v.shape, np.ascontiguousarray(v.data).tobytes(), np.ascontiguousarray(np.ma.getmaskarray(v)).tobytes())
    if isinstance(v, np.ndarray):
        return ("nd", v.dtype.str, v.shape, v.flags.writeable, np.ascontiguousarray(v).tobytes())
    if isinstance(v, dict):
        return tuple((k, frozen(v[k])) for k in sorted(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(frozen(x) for x in v)
    return repr(v)


class CallHistory(Check):
    pid = "C09"
    quick, thorough = 240, 4000
    quick_budget = 120
    rule = ("sessions of 10-24 calls over all public functions on related inputs: repeats, one argument changed (start year, "
            "calibration, scale, latitude, distribution, capacity), arrays altered in place between calls, shared, read-only, "
            "2-D and strided arrays, failing calls in between; each outcome is compared with the same call made first in a "
            "pristine process, arguments and all earlier results are compared bytewise afterwards; distinct by call")
    must_observe = ("calls_compared", "nudged_calls", "arguments_compared", "results_kept", "failing_calls", "in_place_edits")

    zygote = None
    owner = None

    def run(self, ctx, rng, i):
        if self.owner != os.getpid():
            self.zygote = Zygote()
            self.owner = os.getpid()
        years = int(rng.integers(6, 30))
        n = years * 12
        start = gen.start_year(rng)
        x, _ = gen.precip(rng, n, 12, negatives=rng.random() < 0.4, magnitude=80)
        if rng.random() < 0.5:
            x[0::12][: years - 2] = 0.0
        t, _ = gen.temperature(rng, n)
        pet = np.abs(rng.normal(60, 30, n))
        dx, _ = gen.precip(rng, 366 * 5, 366, magnitude=8)
        pool = {"x": x, "t": t, "pet": pet, "dx": dx, "year": np.abs(np.nan_to_num(dx[:366])) + 0.01,
                "greg": np.arange(365.0 * 4 + 1) % 37, "tmin": rng.normal(3, 2, 732), "px": np.abs(np.nan_to_num(x)) / 25 + 0.01,
                "ppet": pet / 25}
        pool["tmax"] = pool["tmin"] + rng.uniform(0, 9, 732)
        pool["tmean"] = (pool["tmin"] + pool["tmax"]) / 2
        for k in list(pool):
            if rng.random() < 0.15:
                pool[k].setflags(write=False)
            elif rng.random() < 0.1:
                b = np.zeros(2 * pool[k].size)
                b[::2] = pool[k]
                pool[k] = b[::2]
        kept = []
        ctx.note(start=start, years=years)
        last = None
        history = []
        for step in range(int(rng.integers(10, 25))):
            how = gen.pick(rng, ["new", "new", "nudge", "nudge", "repeat", "edit", "fail"]) if last else "new"
            if how == "new":
                req = self.request(rng, pool, start, years)
            elif how == "repeat":
                req = last
            elif how == "nudge":
                # nearly the same call: whatever a call leaves behind has to be told apart by every argument
                req = self.nudged(rng, last)
                if req is None:
                    continue
                ctx.count("nudged_calls")
            elif how == "edit":
                # the caller reuses its array for other values
                req = last
                done = False
                for a in list(req[1]):
                    if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype == float and a.size:
                        k = rng.integers(0, a.size, 1 + a.size // 9)
                        v = a.reshape(-1) if a.flags.c_contiguous else a
                        v[k % v.shape[0]] = v[(k + 1) % v.shape[0]] * 1.5
                        done = True
                if not done:
                    continue
                # results that share memory with the caller's arrays follow them
                kept = [(n_, r_, frozen(r_)) for n_, r_, _ in kept]
                ctx.count("in_place_edits")
            else:
                req = self.failing(rng, pool, start)
                ctx.count("failing_calls")
            last = req if how != "fail" else last
            name, args, kw = req
            history.append(name if how == "new" else f"{name}:{how}")
            before = frozen(args), frozen(kw)
            clean = self.zygote.ask(copy.deepcopy((name, args, kw)))
            env = (os.getcwd(), repr(np.geterr()), repr(np.random.get_state()[1][:4]), np.random.get_state()[2])
            got = outcome(name, args, kw)
            ctx.count("calls")
            ctx.note(call=name, kind=how, history=list(history))
            ctx.check(got[0] == clean[0] and (got[0] != "raised" or got[1] == clean[1]),
                      f"call {step} ({name}) of the session {history}: {got[0]} {got[1] if got[0] == 'raised' else ''}, in a pristine process {clean[0]} {clean[1] if clean[0] == 'raised' else ''}")
            if got[0] == "value":
                a, b = flatten(got[1]), flatten(clean[1])
                ctx.check(len(a) == len(b), f"call {step} ({name}): a result of another structure than in a pristine process")
                for u, v in zip(a, b):
                    ctx.same(u, v, f"call {step} ({name}) of the session {history} against a pristine process", atol=1e-12, rtol=1e-12)
            ctx.count("calls_compared")
            ctx.check((frozen(args), frozen(kw)) == before, f"call {step} ({name}) altered its arguments")
            ctx.count("arguments_compared")
            after = (os.getcwd(), repr(np.geterr()), repr(np.random.get_state()[1][:4]), np.random.get_state()[2])
            ctx.check(env == after, f"call {step} ({name}) altered the working directory, error state or random state")
            for n_, r_, f_ in kept:
                if frozen(r_) != f_:
                    raise Violated(f"call {step} ({name}) altered the result of an earlier call ({n_}) of the session {history}")
                ctx.count("results_kept")
            if got[0] == "value":
                kept.append((name, got[1], frozen(got[1])))
            ctx.state(name, how, before)
        ctx.sample(history=history)

    def request(self, rng, p, start, years):
        name = gen.pick(rng, ["spi"] * 4 + ["spei"] * 3 + ["pet"] * 2 + ["pnp"] * 2 + ["palmer"] * 2 + [k for k in FUN])
        c0 = start + int(rng.integers(-1, 3))
        c1 = start + years - 1 - int(rng.integers(-1, 3))
        dist = gen.pick(rng, list(Distribution))
        scale = int(rng.choice([1, 2, 3, 6, 12]))
        lat = float(rng.choice([-60.0, 0.0, 35.0, 35.5, 71.0]))
        two = rng.random() < 0.2

        def sh(a, per=12):
            return a.reshape(-1, per) if two else a

        if name == "spi":
            if rng.random() < 0.2:
                return name, (sh(p["dx"], 366), scale, dist, start, start, start + 4, DY), {}
            return name, (sh(p["x"]), scale, dist, start, c0, c1, M), {}
        if name == "spei":
            kw = {}
            if rng.random() < 0.3:
                kw = {"fitting_params": {"alphas": np.full(12, 90.0), "betas": np.full(12, 11.0 * scale)} if dist is Distribution.gamma else
                      {"prob_zero": np.zeros(12), "locs": np.full(12, 1000.0 * scale), "scale": np.full(12, 60.0), "skews": np.full(12, 0.5)}}
            return name, (sh(p["x"]), sh(p["pet"]), scale, dist, M, start, c0, c1), kw
        if name == "pnp":
            return name, (p["x"], scale, start, max(c0, start), min(c1, start + years - 1), M), {}
        if name == "pci":
            return name, (p["year"],), {}
        if name in ("pet", "thornthwaite"):
            return name, (sh(p["t"]), lat, start + int(rng.integers(0, 5))), {}
        if name == "hargreaves":
            return name, (sh(p["tmin"], 366), sh(p["tmax"], 366), sh(p["tmean"], 366), lat), {}
        if name == "palmer":
            kw = {}
            if rng.random() < 0.4:
                kw = {"fitting_params": {k: np.linspace(0.2, 0.9, 12) for k in ("alpha", "beta", "gamma", "delta")}}
            return name, (sh(p["px"]), sh(p["ppet"]), float(rng.choice([1.0, 4.0, 6.0])), start, start, start + years - 2), kw
        if name == "sums":
            return name, (gen.pick(rng, [p["x"], p["dx"]]), scale), {}
        if name == "table":
            return name, (p["x"], scale, M), {}
        if name in ("gamma_fit", "pearson_fit"):
            return name, (sh(np.abs(p["x"])), start, c0, c1, M), {}
        if name == "gamma_z":
            a = (np.full(12, 2.0), np.full(12, 30.0)) if rng.random() < 0.5 else ()
            return name, (sh(np.abs(p["x"])), start, c0, c1, M) + a, {}
        if name == "pearson_z":
            a = (np.zeros(12), np.full(12, 50.0), np.full(12, 30.0), np.full(12, 0.7)) if rng.random() < 0.5 else ()
            return name, (sh(np.abs(p["x"])), start, c0, c1, M) + a, {}
        if name == "lmoments":
            return name, (p["year"][:int(rng.integers(5, 60))],), {}
        if name == "to366":
            return name, (p["greg"], 2001, 4), {}
        if name == "toGreg":
            return name, (p["dx"], start), {}
        if name == "days":
            return name, (start, int(rng.integers(1, 60))), {}
        if name == "fold":
            return name, (p["x"][:int(rng.integers(1, 70))], 12), {}
        if name in ("sign", "rmse"):
            return name, (p["x"], p["pet"]), {}
        if name == "tolerance":
            return name, (np.linspace(-10.0, 10.0, int(rng.integers(2, 9))),), {}
        return name, (p["x"],), {}

    @staticmethod
    def nudged(rng, req):
        name, args, kw = req
        args = list(args)
        able = [k for k, a in enumerate(args) if isinstance(a, (float, int, np.ndarray)) and not isinstance(a, bool)
                and (not isinstance(a, np.ndarray) or a.size > 1)]
        if not able:
            return None
        k = gen.pick(rng, able)
        a = args[k]
        if isinstance(a, np.ndarray):
            b = np.array(a, copy=True)
            v = b.reshape(-1)
            how = gen.pick(rng, ["one", "last", "swap", "swap", "rotate"])
            j = int(rng.integers(0, v.size))
            if how == "one":
                v[j] = 1.25 * np.nan_to_num(v[j]) + 0.5
            elif how == "last":
                v[-1] = 1.25 * np.nan_to_num(v[-1]) + 0.5
            elif how == "swap":
                # the same values, hence the same sums and moments, in another order
                v[j], v[j - 1] = v[j - 1].copy(), v[j].copy()
            else:
                v[:] = np.roll(v, 1)
            args[k] = b
        elif isinstance(a, float):
            args[k] = a + float(rng.choice([-1, 1])) * float(rng.choice([1e-3, 0.01, 0.1, 0.2]))
        else:
            args[k] = max(1, a + int(rng.choice([-4, -1, 1, 1, 4])))
        return name, tuple(args), kw

    @staticmethod
    def failing(rng, p, start):
        return gen.pick(rng, [
            ("spi", (np.zeros((3, 11)), 1, Distribution.gamma, start, start, start + 3, M), {}),
            ("spi", (p["x"], 1, Distribution.gamma, start, start, start + 3, None), {}),
            ("spei", (p["x"], p["pet"][:-1], 1, Distribution.gamma, M, start, start, start + 3), {}),
            ("pnp", (p["x"], 0, start, start, start + 2, M), {}),
            ("pnp", (p["x"], 3, start, start - 5, start + 2, M), {}),
            ("pet", (p["t"], 99.0, start), {}),
            ("pci", (p["year"][:100],), {}),
            ("palmer", (p["px"], p["ppet"][:-12], 4.0, start, start, start + 3), {}),
            ("toGreg", (p["dx"][:-1], start), {}),
            ("lmoments", (np.full(6, 3.0),), {}),
        ])

    def teardown(self):
        if self.owner == os.getpid():
            os.kill(self.zygote.pid, signal.SIGKILL)
            os.waitpid(self.zygote.pid, 0)
