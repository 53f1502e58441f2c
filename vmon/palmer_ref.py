"""Reference model of the Palmer indices for gap-free monthly records (inches), whole years.

Two-layer bucket water balance, CAFEC coefficients, Z index and the X1/X2/X3 bookkeeping with
backtracking, written from Palmer (1965) and NCEI's description.  Every decision that hinges on a
comparison closer than EPS is reported: from that month on the severity values are not judged.
"""
import math

EPS = 1e-8
TOP = 1.0


def balance_step(p, e, s, u, awc):
    """one month of the bucket -> (quantities, surface, under)"""
    cap = max(awc - TOP, 0.0)
    storage = s + u
    pot_recharge = cap + TOP - storage
    if s >= e:
        pot_loss = e
    else:
        pot_loss = min(storage, (e - s) * u / (cap + TOP) + s)
    excess = p - e
    if excess >= 0.0:
        into_s = min(excess, TOP - s)
        rest = excess - into_s
        into_u = min(rest, cap - u)
        runoff = rest - into_u
        q = (e, 0.0, into_s + into_u, runoff)
        s, u = s + into_s, u + into_u
    else:
        need = -excess
        from_s = min(s, need)
        from_u = min(u, (need - from_s) * u / awc) if need > s else 0.0
        q = (p + from_s + from_u, from_s + from_u, 0.0, 0.0)
        s, u = s - from_s, u - from_u
    et, loss, recharge, runoff = q
    return dict(sp=storage, pr=pot_recharge, pl=pot_loss, et=et, tl=loss, r=recharge, ro=runoff), s, u


class Calibrated:
    """coefficients and weighting factors of a calibration period"""

    def __init__(self, p, e, awc, first, last, given=None):
        self.awc = awc
        self.vague = False
        s, u = TOP, max(awc - TOP, 0.0)
        rows = []
        sums = [dict.fromkeys(("p", "e", "sp", "pl", "pr", "r", "tl", "et", "ro"), 0.0) for _ in range(12)]
        for t in range(len(p)):
            q, s, u = balance_step(p[t], e[t], s, u, awc)
            rows.append(q)
            if first * 12 <= t < (last + 1) * 12:
                b = sums[t % 12]
                b["p"] += p[t]
                b["e"] += e[t]
                for k in q:
                    b[k] += q[k]
        self.rows = rows
        if given is None:
            self.coef = [[], [], [], []]
            for b in sums:
                self.coef[0].append(self.ratio(b["et"], b["e"], True))
                self.coef[1].append(self.ratio(b["r"], b["pr"], True))
                self.coef[2].append(self.ratio(b["ro"], b["sp"], True))
                self.coef[3].append(self.ratio(b["tl"], b["pl"], False))
        else:
            self.coef = [list(map(float, g)) for g in given]
        n = last - first + 1
        self.ak = [math.nan] * 12
        dep = [0.0] * 12
        for t in range(first * 12, (last + 1) * 12):
            dep[t % 12] += abs(p[t] - self.expected(t % 12, e[t], rows[t]))
        hat = []
        for j, b in enumerate(sums):
            den = b["p"] + b["tl"]
            dep[j] /= n
            if den <= 1e-9 or dep[j] <= 1e-9:
                self.vague = True
                return
            hat.append(1.5 * math.log10(((b["e"] + b["r"] + b["ro"]) / den + 2.8) / dep[j]) + 0.5)
        tot = math.fsum(d * h for d, h in zip(dep, hat))
        if abs(tot) < 1e-6:
            self.vague = True
            return
        self.ak = [17.67 * h / tot for h in hat]

    def ratio(self, a, b, one):
        if b != 0.0 and abs(b) < 1e-9:
            self.vague = True
        if b != 0.0:
            return a / b
        return 1.0 if one and a == 0.0 else 0.0

    def expected(self, j, e, q):
        a, b, g, d = (c[j] for c in self.coef)
        return a * e + b * q["pr"] + g * q["sp"] - d * q["pl"]


def zindex(p, e, cal):
    return [cal.ak[t % 12] * (p[t] - cal.expected(t % 12, e[t], cal.rows[t])) for t in range(len(p))]


def select(prob, x1, x2, x3):
    if x3 == 0.0:
        return x1 if abs(x1) > abs(x2) else x2
    if prob <= 0.0 or prob >= 100.0:
        return x3
    f = prob / 100.0
    return (1.0 - f) * x3 + f * (x1 if x3 <= 0.0 else x2)


class Spells:
    """severity bookkeeping; .first_vague is the first month whose decisions hinge on rounding"""

    def __init__(self, z):
        n = len(z)
        self.n = n
        self.z = z
        self.x1, self.x2, self.x3 = [0.0] * n, [0.0] * n, [0.0] * n
        self.prob, self.x = [0.0] * n, [0.0] * n
        self.pdsi = [math.nan] * n
        self.wplm = [math.nan] * n
        self.vague = None
        self.longest = 0
        self.backtracks = 0
        pend = []            # months without a determined value
        slots = []           # month last seen at each pending position (positions are reused)
        last_pending = 0
        v = prob = x1 = x2 = x3 = 0.0
        for t in range(n):
            zt = z[t]
            grow3 = 0.897 * x3 + zt / 3.0
            while len(slots) <= len(pend):
                slots.append(None)
            slots[len(pend)] = t
            settled = None
            pv = 0.0
            idle = prob == 0.0 or prob == 100.0
            decided3 = False
            if idle and self.le(t, abs(x3), 0.5):
                cont = "start"
            else:
                wet = x3 > 0.0
                if idle and (self.ge(t, zt, 0.15) if wet else self.le(t, zt, -0.15)):
                    cont = "holds"
                else:
                    pv = (zt - 0.15 + min(v, 0.0)) if wet else (zt + 0.15 + max(v, 0.0))
                    if self.ge(t, pv, 0.0) if wet else self.le(t, pv, 0.0):
                        cont = "holds"
                    else:
                        cont = "abates"
            if cont == "holds":
                pv = 0.0
                self.x3[t] = grow3
                self.x[t] = grow3
                settled = 3
            else:
                if cont == "abates":
                    ze = -2.691 * x3 + (1.5 if x3 > 0.0 else -1.5)
                    q = ze if prob == 100.0 else ze + v
                    pr = pv / q * 100.0
                    if self.ge(t, pr, 100.0):
                        self.prob[t], self.x3[t] = 100.0, 0.0
                    else:
                        self.prob[t], self.x3[t] = pr, grow3
                none = self.x3[t] == 0.0
                y1, y2 = 0.897 * x1 + zt / 3.0, 0.897 * x2 + zt / 3.0
                self.near(t, y1, 0.0)
                self.x1[t] = max(0.0, y1)
                if none and self.ge(t, y1, 1.0):
                    self.x[t] = self.x3[t] = y1
                    self.x1[t] = 0.0
                    settled = 1
                else:
                    self.near(t, y2, 0.0)
                    self.x2[t] = min(0.0, y2)
                    if none and self.le(t, y2, -1.0):
                        self.x[t] = self.x3[t] = y2
                        self.x2[t] = 0.0
                        settled = 2
                    elif none and self.x1[t] == 0.0:
                        self.x[t] = self.x2[t]
                        settled = 2
                    elif none and self.x2[t] == 0.0:
                        self.x[t] = self.x1[t]
                        settled = 1
            if settled is None:
                self.x[t] = self.x3[t]
                pend.append(t)
                last_pending = len(pend)
                self.longest = max(self.longest, len(pend))
            else:
                if pend:
                    self.backtracks += 1
                use = settled
                for m in reversed(pend):
                    if settled == 3:
                        self.pdsi[m] = self.x3[m]
                        continue
                    here = self.x1[m] if use == 1 else self.x2[m]
                    if here == 0.0:
                        use = 3 - use
                        here = self.x1[m] if use == 1 else self.x2[m]
                    self.pdsi[m] = here
                self.pdsi[t] = self.x[t]
                for m in pend + [t]:
                    self.wplm[m] = self.choose(m, m)
                pend = []
            v, prob = pv, self.prob[t]
            x1, x2, x3 = self.x1[t], self.x2[t], self.x3[t]
        self.phdi = [a if a != 0.0 else b for a, b in zip(self.x3, self.pdsi)]
        self.pending = list(pend)
        # the months of the last undetermined stretch keep their preliminary value
        self.final = [m for m in slots[:last_pending]]
        for m in self.final:
            self.pdsi[m] = self.x[m]
            self.phdi[m] = self.x3[m] if self.x3[m] != 0.0 else self.x[m]
            self.wplm[m] = self.choose(n - 1, m)

    def choose(self, t, at):
        if self.x3[t] == 0.0:
            self.near(at, abs(self.x1[t]), abs(self.x2[t]), both=self.x1[t] != 0.0 and self.x2[t] != 0.0)
        return select(self.prob[t], self.x1[t], self.x2[t], self.x3[t])

    def near(self, t, a, b, both=True):
        if both and abs(a - b) < EPS and (self.vague is None or t < self.vague):
            self.vague = t

    def ge(self, t, a, b):
        self.near(t, a, b)
        return a >= b

    def le(self, t, a, b):
        self.near(t, a, b)
        return a <= b


def palmer(p, e, awc, first, last, given=None):
    """-> (spells or None, z or None, coefficients, calibrated)"""
    cal = Calibrated(p, e, awc, first, last, given)
    if cal.vague:
        return None, None, cal.coef, cal
    z = zindex(p, e, cal)
    return Spells(z), z, cal.coef, cal


def steer(p, e, awc, first, last, targets, start):
    """overwrite p from month `start` on (after the calibration period) so that Z follows targets"""
    cal = Calibrated(p, e, awc, first, last)
    if cal.vague:
        return p
    p = list(p)
    s, u = TOP, max(awc - TOP, 0.0)
    for t in range(len(p)):
        if t >= start and t - start < len(targets):
            q, _, _ = balance_step(0.0, e[t], s, u, awc)
            p[t] = max(0.0, cal.expected(t % 12, e[t], q) + targets[t - start] / cal.ak[t % 12])
        _, s, u = balance_step(p[t], e[t], s, u, awc)
    return p
