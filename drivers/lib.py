"""
Recording side of the conformance checks.

A driver module defines
    cases(tier, seed, gen) -> iterable of (case_id, params)   params: plain Python data
    run(rec, params)                                          exercises the real code, records events
and ends with  lib.main(cases, run).

Every case is one trace: a list of events.  Cases run in worker processes, because the code under test
contains native code which can stop the whole process; a case whose process dies, hangs or raises where the
driver did not expect it ends with the event {"ev": "fail", ...}, which every trace specification rejects.
"""
import argparse
import contextlib
import json
import math
import os
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "120"))


def q(x):
    """A number of the implementation as an exact rational string; 'nan' if it is not a finite real number."""
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag != 0:
            return "nan"
        x = x.real
    try:
        f = float(x)
    except Exception:
        return "nan"
    if not math.isfinite(f):
        return "nan"
    return str(Fraction(f))


def qa(a):
    """An array (anything numpy can read) as nested lists of rational strings."""
    try:
        a = np.asarray(a)
    except Exception:
        return "nan"
    if a.ndim == 0:
        return q(a.item() if a.dtype != object else a)
    return _nest(a)


def _nest(a):
    if a.ndim == 1:
        return [q(x) for x in a.tolist()]
    return [_nest(b) for b in a]


class Recorder:
    def __init__(self):
        self.events = []

    def ev(self, name, **kw):
        self.events.append(dict(ev=name, **kw))

    def call(self, fn, *a, **k):
        """('ok', value) or ('exc', type name, message)"""
        try:
            return ("ok", fn(*a, **k))
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return ("exc", type(e).__name__, str(e)[:300])

    @contextlib.contextmanager
    def guard(self, label):
        """A failure of the code under test inside the block becomes an event, and the case goes on."""
        try:
            yield
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            self.ev("fail", label=label, kind=type(e).__name__, msg=str(e)[:300], where=traceback.format_exc(limit=-3)[-600:])

    def outcome(self, fn, *a, **k):
        r = self.call(fn, *a, **k)
        return r[0]


def _work(run, todo, path, prog, verbose):
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    if not verbose:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    scratch = tempfile.mkdtemp(prefix="vbcase")
    os.chdir(scratch)
    try:
        with open(path, "a") as out:
            for k, cid, params in todo:
                with open(prog, "w") as f:
                    f.write("%d %f" % (k, time.time()))
                rec = Recorder()
                try:
                    np.random.seed(12345)
                    run(rec, params)
                except BaseException as e:  # noqa
                    rec.ev("fail", kind=type(e).__name__, msg=str(e)[:300], where=traceback.format_exc(limit=-3)[-600:])
                out.write(json.dumps({"id": cid, "k": k, "params": params, "events": rec.events}) + "\n")
                out.flush()
        with open(prog, "w") as f:
            f.write("done 0")
    finally:
        os.chdir("/")
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)


def main(cases, run):
    import multiprocessing as mp

    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--gen", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.replay:
        r = json.load(open(args.replay))
        todo = [(0, r["id"], r["params"])]
    else:
        gen = None
        if args.gen:
            gen = [json.loads(x) for x in open(args.gen)]
        todo = [(k, cid, json.loads(json.dumps(p))) for k, (cid, p) in enumerate(cases(args.tier, args.seed, gen))]
        if args.only:
            todo = [t for t in todo if args.only in t[1]]
    jobs = max(1, min(args.jobs, len(todo)))
    tmp = tempfile.mkdtemp(prefix="vbdrv")
    results = []
    ctx = mp.get_context("fork")
    pending = [todo[i::jobs] for i in range(jobs)]
    procs = {}
    serial = 0

    def start(i):
        nonlocal serial
        serial += 1
        path = os.path.join(tmp, "o%d_%d" % (i, serial))
        prog = os.path.join(tmp, "p%d_%d" % (i, serial))
        p = ctx.Process(target=_work, args=(run, pending[i], path, prog, args.v))
        p.start()
        procs[i] = (p, path, prog, time.time())

    def collect(i):
        p, path, prog, t0 = procs.pop(i)
        got = set()
        if os.path.exists(path):
            for line in open(path):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                results.append(r)
                got.add(r["k"])
        rest = [t for t in pending[i] if t[0] not in got]
        return rest, p.exitcode

    for i in range(jobs):
        start(i)
    while procs:
        time.sleep(0.02)
        for i in list(procs):
            p, path, prog, t0 = procs[i]
            why = None
            if p.is_alive():
                try:
                    k, t = open(prog).read().split()
                    if k != "done" and time.time() - float(t) > CASE_TIMEOUT:
                        why = "timeout"
                        p.kill()
                        p.join()
                except (OSError, ValueError):
                    pass
                if why is None:
                    continue
            p.join()
            rest, code = collect(i)
            if rest:
                k, cid, params = rest[0]
                results.append({"id": cid, "k": k, "params": params, "events": [{"ev": "fail", "kind": why or "process-died", "msg": "exit code %s" % code, "where": ""}]})
                pending[i] = rest[1:]
                if pending[i]:
                    start(i)
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    results.sort(key=lambda r: r["k"])
    with open(args.out, "w") as f:
        for r in results:
            f.write(json.dumps(r) + "\n")
    print("traces %d events %d" % (len(results), sum(len(r["events"]) for r in results)))


def rng(seed, *tags):
    import zlib

    return np.random.RandomState((seed * 1000003 + zlib.crc32(repr(tags).encode())) % (2**32))


def dyadic(r, shape, lo=-4, hi=4, den=8):
    """Random multiples of 1/den: sums and products of a few of them are exact in floating point."""
    return r.randint(lo * den, hi * den + 1, size=shape) / float(den)
