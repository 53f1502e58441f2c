"""Workloads: realistic and hostile climate series, deterministic in the generator passed in."""
import numpy as np

START_YEARS = [1895, 1896, 1899, 1900, 1901, 1903, 1904, 1950, 1951, 1979, 1980, 1996, 1999, 2000, 2001, 2004,
               2096, 2099, 2100, 2101, 1600, 1700, 1800, 1883]


def start_year(rng):
    return int(rng.choice(START_YEARS)) if rng.random() < 0.7 else int(rng.integers(1850, 2090))


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def precip(rng, n, per, zeros=None, missing=None, negatives=None, magnitude=None):
    """-> (series, tags)"""
    season = rng.uniform(0.3, 1.0) * (1.0 + rng.uniform(0, 0.9) * np.sin(np.arange(per) * 2 * np.pi / per + rng.uniform(0, 6.3)))
    shape = float(rng.choice([0.4, 0.8, 1.5, 3.0, 8.0, 40.0, 1000.0, 2e4]))
    mag = float(magnitude if magnitude is not None else 10 ** rng.uniform(-0.3, 3.2))
    kind = pick(rng, ["gamma", "gamma", "lognormal", "uniform", "negskew", "discrete"])
    if kind == "gamma":
        x = rng.gamma(shape, 1.0 / shape, n)
    elif kind == "lognormal":
        x = np.exp(rng.normal(0, float(rng.choice([0.005, 0.03, 0.1, 0.4, 0.8, 1.2])), n))
    elif kind == "uniform":
        x = rng.uniform(0.05, 1.0, n)
    elif kind == "negskew":
        x = np.maximum(0.02, 3.0 - rng.gamma(2.0, 0.4, n))
    else:
        x = rng.integers(1, 12, n) / 4.0
    x = x * season[np.arange(n) % per] * mag
    tags = [kind]
    z = zeros if zeros is not None else pick(rng, ["none", "none", "some", "many", "steps", "run"])
    if z == "some":
        x[rng.random(n) < rng.uniform(0.01, 0.25)] = 0.0
    elif z == "many":
        x[rng.random(n) < rng.uniform(0.4, 0.85)] = 0.0
    elif z == "steps":
        for j in rng.choice(per, max(1, per // 6), replace=False):
            x[j::per] = np.where(rng.random(len(x[j::per])) < rng.choice([0.5, 0.9, 1.0]), 0.0, x[j::per])
    elif z == "run":
        a = int(rng.integers(n))
        x[a:a + int(rng.integers(1, max(2, n // 3)))] = 0.0
    tags.append("zeros:" + z)
    m = missing if missing is not None else pick(rng, ["none", "none", "some", "lead", "tail", "block", "step"])
    if m == "some":
        x[rng.random(n) < rng.uniform(0.002, 0.1)] = np.nan
    elif m == "lead":
        x[:int(rng.integers(1, max(2, n // 4)))] = np.nan
    elif m == "tail":
        x[n - int(rng.integers(1, max(2, min(n // 4, per)))):] = np.nan
    elif m == "block":
        a = int(rng.integers(n))
        x[a:a + int(rng.integers(1, max(2, n // 5)))] = np.nan
    elif m == "step":
        j = int(rng.integers(per))
        x[j::per] = np.where(rng.random(len(x[j::per])) < rng.choice([0.5, 0.9, 1.0]), np.nan, x[j::per])
    tags.append("missing:" + m)
    neg = negatives if negatives is not None else rng.random() < 0.2
    if neg:
        k = rng.random(n) < rng.uniform(0.01, 0.1)
        x[k] = -x[k]
        tags.append("negatives")
    if not np.any(~np.isnan(x)):
        x[0] = mag
    return x, tags


def temperature(rng, n, per=12, missing=None, mean=None):
    mean = float(rng.choice([-35.0, -8.0, 0.0, 6.0, 14.0, 22.0, 29.0])) if mean is None else mean + rng.normal(0, 1.5)
    amp = rng.uniform(0, 18)
    t = mean + amp * np.sin(2 * np.pi * np.arange(n) / per + rng.uniform(0, 6.3)) + rng.normal(0, rng.uniform(0.1, 5), n)
    tags = [f"tmean{mean:g}"]
    m = missing if missing is not None else pick(rng, ["none", "none", "some", "block", "lead", "tail"])
    if m == "some":
        t[rng.random(n) < 0.05] = np.nan
    elif m == "block":
        a = int(rng.integers(n))
        t[a:a + int(rng.integers(1, max(2, n // 5)))] = np.nan
    elif m == "lead":
        t[:int(rng.integers(1, max(2, n // 5)))] = np.nan
    elif m == "tail":
        t[n - int(rng.integers(1, max(2, n // 5))):] = np.nan
    tags.append("missing:" + m)
    if rng.random() < 0.15:
        t[rng.random(n) < 0.1] = 0.0
        tags.append("exact-zero")
    return t, tags


def layout(rng, x, per, allow_int=False):
    """the same values in another memory layout, shape or type -> (array, tag, loose)"""
    full = len(x) % per == 0
    opts = ["plain"] * 4 + ["strided", "readonly", "f32"]
    if full:
        opts += ["2d", "2d-fortran", "2d-view"]
    if allow_int and not np.isnan(x).any():
        opts += ["int"]
    o = pick(rng, opts)
    if o == "plain":
        return x.copy(), o
    if o == "strided":
        b = np.full(2 * len(x), -7.0)
        b[::2] = x
        return b[::2], o
    if o == "readonly":
        y = x.copy()
        y.setflags(write=False)
        return y, o
    if o == "f32":
        return x.astype(np.float32), o
    if o == "2d":
        return x.reshape(-1, per).copy(), o
    if o == "2d-fortran":
        return np.asfortranarray(x.reshape(-1, per)), o
    if o == "2d-view":
        b = np.full((len(x) // per + 2, per), np.nan)
        b[1:-1] = x.reshape(-1, per)
        return b[1:-1], o
    return np.round(x).astype(int), o


def calibration(rng, start, years):
    """-> (c0, c1, tag), inside, at the edges of, or beyond the record"""
    last = start + years - 1
    k = pick(rng, ["full", "inside", "inside", "head", "tail", "before", "after", "both", "single", "touch-after", "touch-before"])
    if k == "full":
        return start, last, k
    if k == "inside":
        a = int(rng.integers(0, max(1, years - 5)))
        b = int(rng.integers(min(years - 1, a + 4), years))
        return start + a, start + b, k
    if k == "head":
        return start, start + int(rng.integers(min(years - 1, 4), years)), k
    if k == "tail":
        return start + int(rng.integers(0, max(1, years - 4))), last, k
    if k == "before":
        return start - int(rng.integers(2, 30)), last - int(rng.integers(0, max(1, years // 2))), k
    if k == "after":
        return start + int(rng.integers(0, max(1, years // 2))), last + int(rng.integers(2, 30)), k
    if k == "both":
        return start - int(rng.integers(1, 9)), last + int(rng.integers(1, 9)), k
    if k == "touch-after":
        return start + int(rng.integers(0, max(1, years // 2))), last + 1, k
    if k == "touch-before":
        return start - 1, last - int(rng.integers(0, max(1, years // 3))), k
    a = int(rng.integers(years))
    return start + a, start + a, k


def scale(rng, per):
    if per == 12:
        return int(rng.choice([1, 1, 2, 3, 3, 6, 9, 12, 18, 24, 36, 48, 60, 72])) if rng.random() < 0.85 else int(rng.integers(1, 73))
    return int(rng.choice([1, 1, 5, 7, 14, 30, 60, 90, 180, 365, 366]))
