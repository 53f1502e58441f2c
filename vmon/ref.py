"""Reference models, written from the published definitions and the documented conventions.

Pure Python over floats (plus the incomplete gamma function and the normal quantile); nothing here
is imported from, or shaped after, the package under test.
"""
import math

import numpy as np
from scipy.special import gammainc, gammaincc, ndtri

NAN = float("nan")
LIMIT = 3.09
PER = {"monthly": 12, "daily": 366}


def flat(x):
    return [float(v) for v in np.asarray(x, dtype=float).ravel().tolist()]


def clip_neg(x):
    return [0.0 if v < 0.0 else v for v in x]


def window_sums(x, k):
    """sum of the k values ending at each position; NaN when incomplete or when any is missing"""
    out = []
    for i in range(len(x)):
        if i < k - 1:
            out.append(NAN)
        else:
            w = x[i - k + 1:i + 1]
            out.append(NAN if any(v != v for v in w) else math.fsum(w))
    return out


def columns(x, per):
    """per calendar step: the list over years (the last, incomplete year is missing)"""
    years = -(-len(x) // per)
    x = list(x) + [NAN] * (years * per - len(x))
    return [x[j::per] for j in range(per)], years


def calibration(start, years, c0, c1):
    """index range [a, b) of the calibration years, the full record when not inside the record"""
    if c0 < start or c1 > start + years - 1:
        return 0, years
    return c0 - start, c1 - start + 1


# ---------------------------------------------------------------- gamma
def gamma_fit(col):
    """Thom (1958) estimator over the non-zero, non-missing values -> (alpha, beta, A)"""
    v = [c for c in col if c == c and c != 0.0]
    if not v:
        return NAN, NAN, NAN
    mean = math.fsum(v) / len(v)
    a = math.log(mean) - math.fsum(math.log(c) for c in v) / len(v)
    if a <= 0.0:
        return NAN, NAN, a
    alpha = (1.0 + math.sqrt(1.0 + 4.0 * a / 3.0)) / (4.0 * a)
    return alpha, mean / alpha, a


class Fit:
    """values and, elementwise, whether the oracle may judge them (tol is the tolerance)"""

    def __init__(self, n):
        self.z = np.full(n, np.nan)
        self.tol = np.full(n, 1e-6)
        self.skip = np.zeros(n, dtype=bool)
        self.zero = np.zeros(n, dtype=bool)
        self.raw = np.full(n, np.nan)      # before the limits of the index are applied
        self.refuse = False      # the code may refuse (degenerate distribution)
        self.params = None


def gamma_index(sums, per, start, c0, c1, params=None, weak=1e-6):
    """documented convention: zero totals are excluded from the fit, and the frequency of zeros
    (over the years of the record) is mixed into the probability"""
    n = len(sums)
    cols, years = columns(sums, per)
    a, b = calibration(start, years, c0, c1)
    f = Fit(n)
    al, be = [], []
    for j, col in enumerate(cols):
        p0 = sum(1 for c in col if c == 0.0) / years
        if params is None:
            alpha, beta, A = gamma_fit(col[a:b])
        else:
            alpha, beta, A = float(params[0][j]), float(params[1][j]), 1.0
        al.append(alpha)
        be.append(beta)
        bad = not (A == A and A > weak)
        for y, c in enumerate(col):
            t = y * per + j
            if t >= n:
                continue
            if c == 0.0:
                f.zero[t] = True
                continue
            if c != c:
                continue
            if bad or alpha != alpha:
                f.skip[t] = True
                continue
            pr = p0 + (1.0 - p0) * float(gammainc(alpha, c / beta))
            f.z[t] = clip_z(pr)
            f.raw[t] = float(ndtri(min(1.0, max(0.0, pr))))
    f.params = (np.array(al), np.array(be))
    return f


def clip_z(p):
    if p != p:
        return NAN
    p = min(1.0, max(0.0, p))
    return min(LIMIT, max(-LIMIT, float(ndtri(p))))


# ---------------------------------------------------------------- Pearson III by L-moments
def lmoments3(v):
    """first three sample L-moments from the definition (unbiased probability weighted moments)"""
    x = sorted(v)
    n = len(x)
    b0 = math.fsum(x) / n
    b1 = math.fsum(x[i] * i for i in range(n)) / (n * (n - 1))
    b2 = math.fsum(x[i] * i * (i - 1) for i in range(n)) / (n * (n - 1) * (n - 2))
    return b0, 2 * b1 - b0, 6 * b2 - 6 * b1 + b0


def pe3_from_lmoments(l1, l2, l3):
    """Hosking's PELPE3: (mean, standard deviation, skew) or None when invalid"""
    if not l2 > 0.0:
        return None
    t3 = l3 / l2
    t = abs(t3)
    if t >= 1.0:
        return None
    if t <= 1e-6:
        return l1, l2 * math.sqrt(math.pi), 0.0
    if t >= 1.0 / 3.0:
        u = 1.0 - t
        alpha = u * (0.36067 + u * (-0.59567 + u * 0.25361)) / (1.0 + u * (-2.78861 + u * (2.56096 + u * -0.77045)))
    else:
        u = 3.0 * math.pi * t * t
        alpha = (1.0 + 0.2906 * u) / (u * (1.0 + u * (0.1882 + u * 0.0442)))
    ratio = math.exp(math.lgamma(alpha) - math.lgamma(alpha + 0.5))
    return l1, math.sqrt(math.pi * alpha) * l2 * ratio, math.copysign(2.0 / math.sqrt(alpha), t3)


def pearson_fit(col):
    """-> (p0, loc, scale, skew) and (l2, t3), or params None when the L-moments are invalid"""
    v = [c for c in col if c == c]
    zeros = sum(1 for c in v if c == 0.0)
    if len(v) - zeros < 4:
        return (0.0, 0.0, 0.0, 0.0), None
    l1, l2, l3 = lmoments3(v)
    p0 = zeros / len(v)
    fit = pe3_from_lmoments(l1, l2, l3)
    t3 = l3 / l2 if l2 else NAN
    return (None if fit is None else (p0,) + fit), (l1, l2, t3)


def pe3_cdf(x, loc, scale, skew):
    if scale <= 0.0 or scale != scale:
        return NAN
    if abs(skew) < 2e-5:
        return 0.5 * math.erfc(-(x - loc) / scale / math.sqrt(2.0))
    a = 4.0 / (skew * skew)
    u = a + 2.0 * (x - loc) / (scale * skew)
    if u <= 0.0:
        return 0.0 if skew > 0 else 1.0
    return float(gammainc(a, u)) if skew > 0 else float(gammaincc(a, u))


TRACE = 0.0005


def pearson_value(c, p0, loc, scale, skew):
    """-> (z, ambiguous, z before the limits are applied)"""
    amb = abs(c - TRACE) < 1e-12
    if c < TRACE:
        q = 0.0 if p0 > 0.0 else TRACE
    else:
        q = pe3_cdf(c, loc, scale, skew)
    if skew != 0.0:
        bound = loc - 2.0 * scale / skew
        if scale > 0.0 and abs(c - bound) <= 1e-9 * max(abs(c), abs(bound), scale):
            amb = True
        if skew > 0 and c <= bound:
            q = TRACE
        if skew < 0 and c >= bound:
            q = 1.0 - TRACE
    p = p0 + (1.0 - p0) * q
    return clip_z(p), amb, float(ndtri(min(1.0, max(0.0, p)))) if p == p else NAN


def pearson_index(sums, per, start, c0, c1, params=None):
    n = len(sums)
    cols, years = columns(sums, per)
    a, b = calibration(start, years, c0, c1)
    f = Fit(n)
    out = []
    for j, col in enumerate(cols):
        tol = 1e-6
        skip = False
        if params is None:
            p, lm = pearson_fit(col[a:b])
            if lm is not None:
                l1, l2, t3 = lm
                if p is None or l2 <= 1e-9 * abs(l1) or abs(t3) > 1 - 1e-9:
                    f.refuse = True
                    skip = True
                    p = p or (0.0, 0.0, 0.0, 0.0)
                elif abs(abs(t3) - 1.0 / 3.0) < 1e-8:
                    skip = True
                elif abs(t3) < 1e-3 or l2 < 1e-5 * abs(l1):
                    tol = 1e-3
        else:
            p = tuple(float(q[j]) for q in params)
        out.append(p)
        p0, loc, scale, skew = p
        for y, c in enumerate(col):
            t = y * per + j
            if t >= n:
                continue
            f.tol[t] = tol
            if c == 0.0:
                f.zero[t] = True
            if c != c:
                continue
            if skip:
                f.skip[t] = True
                continue
            f.z[t], amb, f.raw[t] = pearson_value(c, p0, loc, scale, skew)
            f.skip[t] |= amb
    f.params = tuple(np.array([p[k] for p in out]) for k in range(4))
    return f


def index(dist, sums, per, start, c0, c1, params=None):
    return (gamma_index if dist == "gamma" else pearson_index)(sums, per, start, c0, c1, params)


def spi(x, scale, dist, start, c0, c1, per, params=None):
    return index(dist, window_sums(clip_neg(flat(x)), scale), per, start, c0, c1, params)


def spei(p, pet, scale, dist, start, c0, c1, per, params=None):
    d = [a - b + 1000.0 for a, b in zip(clip_neg(flat(p)), flat(pet))]
    return index(dist, window_sums(d, scale), per, start, c0, c1, params)


# ---------------------------------------------------------------- PNP, PCI
def pnp(x, scale, start, c0, c1, per):
    s = window_sums(flat(x), scale)
    a, b = (c0 - start) * per, (c1 - start + 1) * per
    norm = []
    for j in range(per):
        v = [c for c in s[a:b][j::per] if c == c]
        norm.append(math.fsum(v) / len(v) if v else NAN)
    return np.array([c / norm[t % per] if norm[t % per] > 0.0 else NAN for t, c in enumerate(s)])


MONTHS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_lengths(leap):
    return [m + (1 if leap and k == 1 else 0) for k, m in enumerate(MONTHS)]


def pci(x):
    x = flat(x)
    tot, i = [], 0
    for m in month_lengths(len(x) == 366):
        tot.append(math.fsum(x[i:i + m]))
        i += m
    s = math.fsum(tot)
    return 100.0 * math.fsum(t * t for t in tot) / (s * s) if s else NAN


# ---------------------------------------------------------------- evapotranspiration
def declination(day):
    return 0.409 * math.sin(2.0 * math.pi * day / 365.0 - 1.39)


def sunset_angle(lat, dec):
    return math.acos(min(1.0, max(-1.0, -math.tan(lat) * math.tan(dec))))


def daylight(lat_deg, leap):
    """mean daylight hours of each calendar month"""
    lat = math.radians(lat_deg)
    out, day = [], 1
    for m in month_lengths(leap):
        h = []
        for _ in range(m):
            h.append(24.0 / math.pi * sunset_angle(lat, declination(day)))
            day += 1
        out.append(math.fsum(h) / m)
    return out


def thornthwaite(t, lat, start):
    t = [0.0 if v < 0.0 else v for v in flat(t)]
    cols, years = columns(t, 12)
    means = []
    for col in cols:
        v = [c for c in col if c == c]
        means.append(math.fsum(v) / len(v) if v else NAN)
    heat = math.fsum((m / 5.0) ** 1.514 for m in means)
    out = []
    if heat == heat:
        a = 6.75e-7 * heat ** 3 - 7.71e-5 * heat ** 2 + 1.792e-2 * heat + 0.49239
    light = {k: daylight(lat, k) for k in (False, True)}
    for i, v in enumerate(t):
        leap = is_leap(start + i // 12)
        m = i % 12
        if v != v or heat != heat:
            out.append(NAN)
        elif v == 0.0 or heat == 0.0:
            out.append(0.0)
        else:
            out.append(16.0 * light[leap][m] / 12.0 * month_lengths(leap)[m] / 30.0 * (10.0 * v / heat) ** a)
    return np.array(out)


def hargreaves(tmin, tmax, tmean, lat_deg):
    lat = math.radians(lat_deg)
    ra = []
    for day in range(1, 367):
        d = declination(day)
        w = sunset_angle(lat, d)
        dr = 1.0 + 0.033 * math.cos(2.0 * math.pi / 365.0 * day)
        ra.append(24.0 * 60.0 / math.pi * 0.0820 * dr
                  * (w * math.sin(lat) * math.sin(d) + math.cos(lat) * math.cos(d) * math.sin(w)))
    out = []
    for i, (a, b, m) in enumerate(zip(flat(tmin), flat(tmax), flat(tmean))):
        if a != a or b != b or m != m or b < a:
            out.append(NAN)
        else:
            out.append(0.0023 * (m + 17.8) * math.sqrt(b - a) * 0.408 * ra[i % 366])
    return np.array(out)


# ---------------------------------------------------------------- calendars
def year_days(y):
    return 366 if is_leap(y) else 365


def to_366(x, start, years):
    """full years of Gregorian days -> 366-day years (Feb 29 of other years: mean of its neighbours)"""
    x = flat(x)
    out, i = [], 0
    for y in range(start, start + years):
        n = year_days(y)
        d = x[i:i + n]
        if n == 365:
            d = d[:59] + [(d[58] + d[59]) / 2.0] + d[59:]
        out += d
        i += n
    return np.array(out)


def to_gregorian(x, start):
    x = flat(x)
    out = []
    for k in range(len(x) // 366):
        d = x[k * 366:(k + 1) * 366]
        if not is_leap(start + k):
            d = d[:59] + d[60:]
        out += d
    return np.array(out)


def day_number(y, m, d):
    """days since 0000-03-01 in the proleptic Gregorian calendar (Hinnant)"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy
