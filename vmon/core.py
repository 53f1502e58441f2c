"""Monitoring harness core: case generation, sharding, three-valued verdicts, evidence.

A check is an object with

    pid, level, rule             identification and the rule behind the coverage numbers
    cases(tier)                  number of cases of the tier
    run(ctx, rng, i)             drives the real code for case i and observes it

`run` reports every observation through ``ctx`` (ctx.check / ctx.same / ...).  The first
failed observation of a case raises Violated, which carries the witness.  Anything that the code
under test raises on an input for which the property promises a result must be converted into a
violation by the check (ctx.call does so).  Everything is deterministic in (VERIF_SEED, tier, i).
"""

import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")


class Violated(Exception):
    """The oracle observed an execution that contradicts the property."""


class Known(Exception):
    """The oracle observed a violation that the known-findings file lists (by mechanism)."""


class Inconclusive(Exception):
    """A watchdog fired or the monitor could not observe what it needs."""


class Skip(Exception):
    """The case is outside what the property promises (counted, never silently)."""


def brief(x, n=12):
    """Short, JSON-safe rendering of a value for samples and witnesses."""
    if isinstance(x, np.ndarray):
        flat = x.ravel()
        return {"shape": list(x.shape), "dtype": str(x.dtype),
                "head": [brief(v) for v in flat[:n].tolist()]}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return brief(x.item())
    if isinstance(x, float):
        return repr(x) if x != x or abs(x) == float("inf") else x
    if isinstance(x, dict):
        return {str(k): brief(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [brief(v, n) for v in x[:64]]
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return str(x)


def digest(*parts):
    h = hashlib.sha1()
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str(p.shape).encode())
            h.update(np.ascontiguousarray(p).tobytes())
        else:
            h.update(repr(p).encode())
    return h.hexdigest()[:16]


class Ctx:
    """Observation log of one case (and, summed up, of a shard)."""

    def __init__(self, known=()):
        self.counts = {}
        self.states = set()
        self.seen = {}
        self.samples = []
        self.known_ids = dict(known)
        self.known_seen = {}
        self.data = {}
        self.observed = 0

    def begin(self):
        self.data = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        """One evaluation of the oracle on a distinct, non-trivial situation."""
        self.count("evaluations_nontrivial")
        self.states.add(digest(*key))

    def distinct(self, what, *key):
        """Something else of which the distinct instances are counted (schedules, paths taken)."""
        self.seen.setdefault(what, set()).add(digest(*key))

    def note(self, **kw):
        self.data.update(kw)

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(brief(kw))

    def finding(self, fid, what):
        if fid in self.known_ids:
            self.known_seen[fid] = self.known_seen.get(fid, 0) + 1
            return
        raise Violated(what)

    # --- observations
    def check(self, cond, msg, **kw):
        self.observed += 1
        if not cond:
            self.data.update(kw)
            raise Violated(msg)

    def same(self, got, want, what, atol=1e-9, rtol=1e-9, ignore=None):
        """got equals want elementwise (NaN equals NaN) where not ignored."""
        got = np.asarray(got, dtype=float) if not isinstance(got, np.ma.MaskedArray) \
            else np.ma.filled(got.astype(float), np.nan)
        want = np.asarray(want, dtype=float)
        self.observed += max(1, want.size)
        if got.shape != want.shape:
            self.data.update(got=got, want=want)
            raise Violated(f"{what}: shape {got.shape}, expected {want.shape}")
        gn, wn = np.isnan(got), np.isnan(want)
        gi, wi = np.isinf(got), np.isinf(want)
        bad = gn != wn
        with np.errstate(invalid="ignore"):
            fin = ~(gn | wn | gi | wi)
            diff = np.where(fin, np.abs(np.where(fin, got, 0) - np.where(fin, want, 0)), 0.0)
            bad |= diff > atol + rtol * np.abs(np.where(fin, want, 0))
            bad |= (gi | wi) & ~(gn | wn) & (got != want)
        if ignore is not None:
            bad &= ~np.broadcast_to(ignore, bad.shape)
        if bad.any():
            ix = np.argwhere(bad)[:5]
            wit = [(tuple(int(v) for v in j), repr(float(got[tuple(j)])), repr(float(want[tuple(j)]))) for j in ix]
            self.data.update(got=got, want=want)
            raise Violated(f"{what}: {int(bad.sum())} of {bad.size} values differ, first (index, got, expected): {wit}")

    def call(self, what, fn, *a, **kw):
        """Call into the code under test where the property promises a result."""
        self.count("calls")
        try:
            return fn(*a, **kw)
        except (Violated, Inconclusive, Known, Skip):
            raise
        except Exception as e:  # noqa
            self.observed += 1
            raise Violated(f"{what} raised {type(e).__name__}: {e}")

    def refused(self, what, fn, *a, **kw):
        """Call into the code under test where the property promises a ValueError."""
        self.count("calls")
        self.observed += 1
        try:
            r = fn(*a, **kw)
        except ValueError:
            return
        except Exception as e:  # noqa
            raise Violated(f"{what}: raised {type(e).__name__}: {e} and not a ValueError")
        raise Violated(f"{what}: not refused, returned {brief(r, 4)}")

    def merge(self, other):
        for k, v in other["counts"].items():
            self.count(k, v)
        self.states |= other["states"]
        for k, v in other["seen"].items():
            self.seen.setdefault(k, set()).update(v)
        self.observed += other["observed"]
        for s in other["samples"]:
            if len(self.samples) < 4:
                self.samples.append(s)
        for k, v in other["known"].items():
            self.known_seen[k] = self.known_seen.get(k, 0) + v

    def dump(self):
        return {"counts": self.counts, "states": self.states, "seen": self.seen, "observed": self.observed,
                "samples": self.samples, "known": self.known_seen}


def case_rng(pid, seed, i):
    return np.random.default_rng([zlib.crc32(pid.encode()), int(seed) & 0xFFFFFFFF, int(i)])


def load_known(pid):
    """known_findings.txt: 'known: property=<id> finding=<fid> <what fails>' suppresses finding fid,
    'fixed: property=<id> <commit> <what failed>' suppresses nothing."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                f = line.split(None, 3)
                if f[1] == f"property={pid}":
                    out[f[2].split("=", 1)[1]] = f[3]
    return out


def run_one(check, ctx, seed, tier, i):
    """-> None or (kind, message, witness data)"""
    ctx.begin()
    rng = case_rng(check.pid, seed, i)
    try:
        check.tier = tier
        check.run(ctx, rng, i)
        ctx.count("cases_completed")
        return None
    except Skip as e:
        ctx.count("skipped: " + (str(e) or "out of scope"))
        return None
    except Violated as e:
        return ("violated", str(e), ctx.data)
    except Inconclusive as e:
        return ("inconclusive", str(e), ctx.data)
    except Exception as e:
        # inputs are valid unless a check says otherwise: what escapes from the package is an observation
        inside = [f for f in traceback.extract_tb(e.__traceback__) if os.sep + "climate_indices" + os.sep in f.filename]
        if inside:
            f = inside[-1]
            return ("violated", f"unexpected {type(e).__name__} from {os.path.basename(f.filename)}:{f.lineno}: {e}", ctx.data)
        return ("error", traceback.format_exc(), ctx.data)


def shard_main(check, seed, tier, indices, deadline, wfd):
    ctx = Ctx(load_known(check.pid))
    fails = []
    done = 0
    for i in indices:
        if time.time() > deadline:
            ctx.count("cases_not_started_deadline", 1)
            continue
        r = run_one(check, ctx, seed, tier, i)
        done += 1
        if r is not None:
            kind, msg, data = r
            try:
                blob = pickle.dumps(data)
            except Exception:
                blob = pickle.dumps(brief(data))
            fails.append((i, kind, msg, blob))
            if kind == "violated" or len(fails) > 3:
                break
    payload = pickle.dumps((ctx.dump(), fails, done))
    with os.fdopen(wfd, "wb") as f:
        f.write(payload)


def run_sharded(check, seed, tier, n, nproc, budget):
    start = time.time()
    deadline = start + budget
    procs = {}
    for s in range(nproc):
        ind = list(range(s, n, nproc))
        if not ind:
            continue
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                shard_main(check, seed, tier, ind, deadline, w)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        os.close(w)
        procs[r] = [pid, b"", ind]
    ctx = Ctx(load_known(check.pid))
    fails = []
    done = 0
    hard = deadline + 200
    live = dict(procs)
    while live:
        left = hard - time.time()
        if left <= 0:
            break
        rd, _, _ = select.select(list(live), [], [], min(left, 5))
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][1] += b
            else:
                pid, buf, ind = live.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                if not buf:
                    fails.append((ind[0], "error", "a shard died without reporting", b""))
                    continue
                dump, f, d = pickle.loads(buf)
                ctx.merge(dump)
                fails += f
                done += d
    for fd, (pid, buf, ind) in live.items():
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        fails.append((ind[0], "inconclusive", "a shard exceeded its watchdog", b""))
    return ctx, sorted(fails, key=lambda f: f[0]), done


def write_replay(check, seed, tier, i, msg, blob):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check.pid}-s{seed}-{tier}-{i}.json")
    try:
        data = brief(pickle.loads(blob), 4000) if blob else {}
    except Exception:
        data = {}
    with open(path, "w") as f:
        json.dump({"property": check.pid, "seed": seed, "tier": tier, "case": i, "message": msg,
                   "replay_cmd": f"bash run.sh {check.pid} --replay {os.path.relpath(path, ROOT)}",
                   "witness": data}, f, indent=1)
    return os.path.relpath(path, ROOT)


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    start = time.time()
    known = load_known(check.pid)
    check.setup()
    if "--replay" in argv:
        rec = json.load(open(os.path.join(ROOT, argv[argv.index("--replay") + 1])))
        ctx = Ctx(known)
        r = run_one(check, ctx, rec["seed"], rec["tier"], rec["case"])
        check.teardown()
        print(r[:2] if r else "held on this case")
        return 1 if r and r[0] == "violated" else 0
    n = check.cases(tier)
    nproc = min(check.nproc, n)
    budget = check.budget(tier)
    ctx, fails, done = run_sharded(check, seed, tier, n, nproc, budget)
    violations = [f for f in fails if f[1] == "violated"]
    others = [f for f in fails if f[1] != "violated"]
    code = 0
    for fid, k in sorted(ctx.known_seen.items()):
        print(f"KNOWN-FINDING: property={check.pid} {known[fid]} (observed {k} times)")
    for i, kind, msg, blob in violations[:1]:
        path = write_replay(check, seed, tier, i, msg, blob)
        print(f"case {i}: {msg[:1500]}")
        print(f"VIOLATION property={check.pid} replay={path}")
        code = 1
    if code == 0:
        for i, kind, msg, blob in others[:3]:
            print(f"{kind.upper()} property={check.pid} case={i}: {msg[-3000:]}")
            code = 2
        if code == 0:
            missing = [c for c in check.must_observe if not ctx.counts.get(c)]
            if missing or ctx.observed == 0 or done == 0:
                print(f"INCONCLUSIVE property={check.pid}: never observed {missing or 'anything'}")
                code = 2
    wall = time.time() - start
    evals = max(int(done), ctx.counts.pop("evaluations_nontrivial", 0))
    cov = {"evaluations": evals, "observations": int(ctx.observed), "distinct_nontrivial": len(ctx.states), "rule": check.rule,
           "samples": ctx.samples[:4], "cases": int(done), "cases_planned": int(n),
           "events": {k: v for k, v in sorted(ctx.counts.items())}}
    for k, v in sorted(ctx.seen.items()):
        cov["distinct " + k] = len(v)
    if ctx.known_seen:
        cov["known_findings_observed"] = ctx.known_seen
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {"property": check.pid, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": len(violations)}
    tmp = os.path.join(EVIDENCE, f".{check.pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{check.pid}.json"))
    check.teardown()
    if code == 0:
        print(f"HELD property={check.pid} tier={tier} seed={seed} cases={done} observations={ctx.observed} "
              f"distinct={len(ctx.states)} wall={wall:.1f}s")
    return code


class Check:
    pid = "C00"
    level = "exploration"
    rule = ""
    assumptions = []
    quick = 100
    thorough = 2000
    quick_budget = 100
    thorough_budget = 600
    nproc = 8
    must_observe = ("cases_completed",)

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def budget(self, tier):
        return self.quick_budget if tier == "quick" else self.thorough_budget

    def setup(self):
        pass

    def teardown(self):
        pass

    def run(self, ctx, rng, i):
        raise NotImplementedError
