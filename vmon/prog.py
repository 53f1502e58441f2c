"""Runs the console programs the way a user does (argv in, files and exit status out), one forked process per run.

The programs are imported once and every run is a fork of that pristine state.  The child works in
scratch directories only, is told how many CPUs the machine has, and may have random delays
injected around the per-location computations, so that workers finish in different orders; the
delay wrappers also record (process, function, start, end) events for the evidence.
"""
import hashlib
import json
import logging
import multiprocessing
import multiprocessing.util
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .core import Violated

SCRATCH = "/tmp/vmon"


class Scratch:
    def __init__(self):
        os.makedirs(SCRATCH, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix=f"c{os.getpid()}_", dir=SCRATCH)
        for k in ("in", "out", "tmp", "log"):
            os.mkdir(os.path.join(self.path, k))

    def __call__(self, *parts):
        return os.path.join(self.path, *parts)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def listing(path):
    """{relative path: (size, digest)} of every file below path"""
    out = {}
    for base, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                b = fh.read()
            out[os.path.relpath(p, path)] = (len(b), hashlib.sha1(b).hexdigest())
    return out


class Result:
    def __init__(self, code, message, events, seconds, output):
        self.code, self.message, self.events, self.seconds, self.output = code, message, events, seconds, output


HOOKED = ("spi", "spei", "pet", "percentage_of_normal")


def _wrap(module, name, fd, jitter, seed):
    fn = getattr(module, name, None)
    if fn is None:
        return
    state = {"pid": None, "rng": None}

    def wrapper(*a, **kw):
        if state["pid"] != os.getpid():
            state["pid"] = os.getpid()
            state["rng"] = random.Random(seed * 7919 + os.getpid())
        t0 = time.monotonic()
        if jitter:
            time.sleep(state["rng"].random() * jitter)
        try:
            return fn(*a, **kw)
        finally:
            os.write(fd, f"{os.getpid()} {name} {t0:.6f} {time.monotonic():.6f}\n".encode())
    setattr(module, name, wrapper)


def _stagger(jitter, seed):
    """delays before a worker starts on a piece of work, so that one begins when another is half way or done"""
    import functools
    import multiprocessing.pool as mp

    for name in ("mapstar", "starmapstar"):
        fn = getattr(mp, name, None)
        if fn is None:
            continue

        def wrapper(*a, _fn=fn, **kw):
            r = random.Random(f"{seed} {os.getpid()} {time.monotonic_ns()}")
            if r.random() < 0.6:
                time.sleep(r.random() * 5 * jitter)
            return _fn(*a, **kw)
        setattr(mp, name, functools.update_wrapper(wrapper, fn))


def _child(program, argvs, scratch, cpus, jitter, seed, prepare):
    os.setpgid(0, 0)
    signal.alarm(0)
    log = os.open(scratch("log", "output"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.chdir(scratch("out"))
    os.environ["TMPDIR"] = scratch("tmp")
    tempfile.tempdir = None
    if cpus:
        multiprocessing.cpu_count = lambda: cpus
        multiprocessing.context.BaseContext.cpu_count = lambda self: cpus
        os.cpu_count = lambda: cpus
        if hasattr(os, "sched_getaffinity"):
            os.sched_getaffinity = lambda pid: set(range(cpus))
    from climate_indices import indices
    fd = os.open(scratch("log", "events"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    if jitter is not None:
        for name in HOOKED:
            _wrap(indices, name, fd, jitter, seed)
        if jitter:
            _stagger(jitter, seed)
    if prepare is not None:
        prepare()
    status = []
    code = 0
    for k, (prog, argv) in enumerate(argvs):
        if prog == "spi":
            from climate_indices import __spi__ as module
        else:
            from climate_indices import __main__ as module
        sys.argv = [prog] + [str(a) for a in argv]
        code, message = 0, ""
        try:
            r = module.main()
            # a console script exits with what main() returns
            code = 0 if r is None else (r if isinstance(r, int) else 1)
        except SystemExit as e:
            code = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
            message = f"SystemExit: {e.code}"
        except BaseException as e:  # noqa
            code, message = 1, f"{type(e).__name__}: {e}"
            traceback.print_exc()
        status.append((code, message))
    with open(scratch("log", "status.tmp"), "w") as f:
        json.dump(status, f)
    os.rename(scratch("log", "status.tmp"), scratch("log", "status"))
    try:
        multiprocessing.util._exit_function()
    except BaseException:  # noqa
        pass
    logging.shutdown()
    os._exit(0)


def _once(program, argvs, scratch, cpus, jitter, seed, prepare, timeout):
    for f in ("output", "events", "status", "status.tmp"):
        if os.path.exists(scratch("log", f)):
            os.remove(scratch("log", f))
    t0 = time.time()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            _child(program, argvs, scratch, cpus, jitter, seed, prepare)
        except BaseException:  # noqa
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(97)
    done = False
    while time.time() - t0 < timeout:
        w, st = os.waitpid(pid, os.WNOHANG)
        if w:
            done = True
            break
        time.sleep(0.01)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if not done:
        os.waitpid(pid, 0)
        return None
    return st, time.time() - t0


def runs(argvs, scratch, cpus=4, jitter=None, seed=0, prepare=None, timeout=45):
    """run programs one after the other in one process -> [Result]

    A run that does not come back is given a second, longer chance (on a fresh fork); when that does not come
    back either it is reported as a hang."""
    kept = [scratch("out"), scratch("in")]
    for d in kept:
        shutil.copytree(d, d + ".before")
    r = _once(None, argvs, scratch, cpus, jitter, seed, prepare, timeout)
    if r is None:
        for d in kept:
            shutil.rmtree(d)
            shutil.copytree(d + ".before", d)
        r = _once(None, argvs, scratch, cpus, jitter, seed, prepare, 2.7 * timeout)
        if r is None:
            raise Violated(f"the program did not finish within {2.7 * timeout} s, twice: {argvs}")
    for d in kept:
        shutil.rmtree(d + ".before")
    st, seconds = r
    output = ""
    if os.path.exists(scratch("log", "output")):
        with open(scratch("log", "output"), errors="replace") as f:
            output = f.read()
    events = []
    if os.path.exists(scratch("log", "events")):
        with open(scratch("log", "events")) as f:
            for line in f:
                p = line.split()
                events.append((int(p[0]), p[1], float(p[2]), float(p[3])))
    if os.path.exists(scratch("log", "status")):
        with open(scratch("log", "status")) as f:
            status = json.load(f)
    else:
        if not os.WIFSIGNALED(st) and os.WEXITSTATUS(st) == 97:
            raise RuntimeError("the harness failed: " + output[-3000:])
        status = [(128 + os.WTERMSIG(st) if os.WIFSIGNALED(st) else 98, "the program's process died")]
    return [Result(c, m, events, seconds, output) for c, m in status]


class View:
    """a scratch folder shared with others, with a log folder of its own"""

    def __init__(self, scratch, k):
        self.scratch, self.log = scratch, f"log{k}"

    def __call__(self, *parts):
        return self.scratch(*((self.log,) + parts[1:] if parts[0] == "log" else parts))


def together(argvs, scratch, cpus=4, delays=None, seed=0, timeout=130, folders=()):
    """run programs at the same time, each in a process of its own, in the same folders -> [Result]"""
    for attempt in (1, 2):
        views, pids, t0 = [], [], time.time()
        for d in ("out", "tmp"):
            for f in os.listdir(scratch(d)):
                p = scratch(d, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        for d in folders:
            os.makedirs(d, exist_ok=True)
        sys.stdout.flush()
        sys.stderr.flush()
        for k, (prog, argv) in enumerate(argvs):
            v = View(scratch, k)
            shutil.rmtree(v("log"), ignore_errors=True)
            os.makedirs(v("log"))
            wait = delays[k] if delays else 0.0
            pid = os.fork()
            if pid == 0:
                try:
                    _child(None, [(prog, argv)], v, cpus, None, seed + k, lambda: time.sleep(wait))
                except BaseException:  # noqa
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(97)
            views.append(v)
            pids.append(pid)
        ends = {}
        while len(ends) < len(pids) and time.time() - t0 < timeout:
            for pid in pids:
                if pid not in ends and os.waitpid(pid, os.WNOHANG)[0]:
                    ends[pid] = time.time()
            time.sleep(0.005)
        for pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if pid not in ends:
                os.waitpid(pid, 0)
        if len(ends) == len(pids):
            break
        if attempt == 2:
            raise Violated(f"simultaneous runs did not finish within {timeout} s, twice: {argvs}")
    out = []
    for k, (v, pid) in enumerate(zip(views, pids)):
        output = ""
        if os.path.exists(v("log", "output")):
            with open(v("log", "output"), errors="replace") as f:
                output = f.read()
        if os.path.exists(v("log", "status")):
            with open(v("log", "status")) as f:
                c, m = json.load(f)[0]
        else:
            c, m = 98, "the program's process died"
        r = Result(c, m, [], ends[pid] - t0, output)
        r.span = (delays[k] if delays else 0.0, ends[pid] - t0)
        out.append(r)
    return out


def run(program, argv, scratch, **kw):
    return runs([(program, argv)], scratch, **kw)[0]
