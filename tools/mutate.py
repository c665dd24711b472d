#!/usr/bin/env python3
"""
Mutation testing of the checks (development tool; no registered check uses it).

  mutate.py cov                 line coverage of every driver -> /tmp/mut/cov.json
  mutate.py run [-w N] [FILE..] first-order mutants of VolterraBasis, each judged by the drivers that reach its line
                                -> /tmp/mut/result.ndjson (status killed/survived, by which check)

  mutate.py try FILE [ID..]     hand written changes of a seeds file, each judged by the check of its property

Every mutant lives in a copy of /repo under /tmp/mut; the drivers run against it through PYTHONPATH, and the
recorded traces are validated by the same TLC trace specifications as in the checks.
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import check  # noqa
from registry import PROPS  # noqa

W = "/tmp/mut"
PY = check.VENV
SKIP = {"gfpe_instance.py", "pos_gle_fem.py", "_version.py"}


def files():
    out = []
    for d in ("", "basis/"):
        for f in sorted(os.listdir("/repo/VolterraBasis/" + d)):
            if f.endswith(".py") and f not in SKIP:
                out.append(d + f)
    return out


def gens():
    for pid, p in PROPS.items():
        if p.get("gen"):
            g = "%s/gen-%s.ndjson" % (W, pid)
            if not os.path.exists(g):
                cov = {"states": 0, "transitions": 0}
                d = W + "/g"
                os.makedirs(d, exist_ok=True)
                path, n = check.generate(p, d, cov)
                shutil.move(path, g)


def drive(pid, copydir, wd, env=None, jobs=2, timeout=600):
    p = PROPS[pid]
    trace = os.path.join(wd, "trace.ndjson")
    if os.path.exists(trace):
        os.unlink(trace)
    cmd = [PY, os.path.join(ROOT, "drivers", p["driver"]), "--out", trace, "--tier", "quick", "--seed", os.environ.get("VERIF_SEED", "1"), "--jobs", str(jobs)]
    if p.get("gen"):
        cmd += ["--gen", "%s/gen-%s.ndjson" % (W, pid)]
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_CASE_TIMEOUT="60")
    e["PYTHONPATH"] = copydir + ":" + os.path.join(ROOT, "drivers")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "driver timeout"
    if r.returncode != 0 or not os.path.exists(trace):
        return None, "driver failed: " + r.stdout[-300:]
    return trace, ""


def judge(pid, copydir, wd, jobs=2, workers=2):
    """None if quiet, else the reason."""
    p = dict(PROPS[pid], workers=workers)
    trace, why = drive(pid, copydir, wd, jobs=jobs)
    if trace is None:
        return why
    lines = [json.loads(x) for x in open(trace)]
    kf = check.known_findings(pid)
    for t in lines:  # cheap: a failure event is rejected by every trace specification
        for e in t["events"]:
            if e["ev"] == "fail" and not any(f["case"] == t["id"] for f in kf):
                return "%s: fail %s %s" % (t["id"], e.get("kind"), e.get("msg", "")[:80])
    try:
        bad, _ = check.validate(p, trace, wd)
    except check.Machinery as e:
        return "MACHINERY %s" % e
    for ti, ei, clause in bad:
        t = lines[ti]
        if not any(f["case"] == t["id"] and f["clause"] == clause for f in kf):
            return "%s: %s" % (t["id"], clause)
    return None


# ------------------------------------------------------------------ mutants
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.MatMult: [], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Mult]}


def mutants(src):
    """yield (line, description, new source)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                doc.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            for m in ast.walk(n):
                doc.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "warn":
            for m in ast.walk(n):
                doc.add(id(m))
        if isinstance(n, ast.Assert):
            for m in ast.walk(n):
                doc.add(id(m))

    def build(i, f):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        f(n, t)
        ast.fix_missing_locations(t)
        return ast.unparse(t)

    def setattr_(name, val):
        return lambda n, t: setattr(n, name, val)

    for i, n in enumerate(nodes):
        if id(n) in doc:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield ln, "cmp %s->%s in %s" % (type(n.ops[0]).__name__, o.__name__, ast.unparse(n)[:60]), build(i, setattr_("ops", [o()]))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                yield ln, "bin %s->%s in %s" % (type(n.op).__name__, o.__name__, ast.unparse(n)[:60]), build(i, setattr_("op", o()))
        elif isinstance(n, ast.AugAssign):
            for o in BIN.get(type(n.op), []):
                yield ln, "aug %s->%s in %s" % (type(n.op).__name__, o.__name__, ast.unparse(n)[:60]), build(i, setattr_("op", o()))
        elif isinstance(n, ast.BoolOp):
            o = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield ln, "bool %s" % ast.unparse(n)[:60], build(i, setattr_("op", o()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield ln, "neg %s" % ast.unparse(n)[:60], build(i, setattr_("op", ast.UAdd()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):

            def unnot(m, t):
                m.op = ast.Not()
                m.operand = ast.UnaryOp(ast.Not(), m.operand)

            yield ln, "not %s" % ast.unparse(n)[:60], build(i, unnot)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield ln, "const %r flip" % n.value, build(i, setattr_("value", not n.value))
            elif isinstance(n.value, (int, float)):
                yield ln, "const %r +1" % n.value, build(i, setattr_("value", n.value + 1))
                if n.value == 1:
                    yield ln, "const 1 -> 0", build(i, setattr_("value", 0))
                elif n.value == 2:
                    yield ln, "const 2 -> 1", build(i, setattr_("value", 1))
            elif isinstance(n.value, str) and n.value and not n.value.isspace():
                yield ln, "str %r" % n.value[:30], build(i, setattr_("value", n.value + "_x"))
            elif n.value is None:
                pass
        elif isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                yield ln, "if(%s) -> %s" % (ast.unparse(n.test)[:50], v), build(i, setattr_("test", ast.Constant(v)))
        if hasattr(n, "body") and isinstance(n.body, list):
            for fld in ("body", "orelse"):
                for j, s in enumerate(getattr(n, fld, [])):
                    if id(s) in doc or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Raise, ast.Assert, ast.If, ast.For, ast.With, ast.Return)):
                        continue

                    def rm(m, t, j=j, fld=fld):
                        getattr(m, fld)[j] = ast.Pass()

                    yield s.lineno, "drop %s" % ast.unparse(s)[:70].replace("\n", " "), build(i, rm)
        # index shifts of slices, swapped call arguments
        if isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            yield ln, "swap %s" % ast.unparse(n)[:60], build(i, lambda m, t: m.args.reverse())
        if isinstance(n, ast.Call) and n.keywords:
            for j, k in enumerate(n.keywords):
                if k.arg in (None, "description"):
                    continue

                    # dropping a keyword: the default is used
                def dk(m, t, j=j):
                    m.keywords.pop(j)

                yield ln, "dropkw %s of %s" % (k.arg, ast.unparse(n.func)[:40]), build(i, dk)
        if isinstance(n, ast.Slice):
            for part in ("lower", "upper", "step"):
                if getattr(n, part) is not None:
                    yield ln, "slice drop %s of %s" % (part, ast.unparse(n)), build(i, setattr_(part, None))


def cov_main():
    os.makedirs(W, exist_ok=True)
    gens()
    res = {}
    for pid in sorted(PROPS):
        wd = W + "/covwd"
        os.makedirs(wd, exist_ok=True)
        f = W + "/cov-" + pid
        if os.path.exists(f):
            os.unlink(f)
        t0 = time.time()
        e = {"VB_COV": f}
        os.environ["PYTHONPATH"] = ""
        tr, why = drive(pid, ROOT + "/tools/cov:/repo", wd, env=e, jobs=8, timeout=1500)
        dt = time.time() - t0
        t0 = time.time()
        drive(pid, "/repo", wd, jobs=8)
        d2 = time.time() - t0
        t0 = time.time()
        check.validate(PROPS[pid], wd + "/trace.ndjson", wd)
        d3 = time.time() - t0
        lines = sorted(set(open(f).read().split())) if os.path.exists(f) else []
        res[pid] = {"lines": lines, "cost": d2 + d3, "cov": dt}
        print(pid, len(lines), "cov %.1f driver %.1f tlc %.1f" % (dt, d2, d3), why, flush=True)
        json.dump(res, open(W + "/cov.json", "w"))


def worker(k, todo, lock):
    cdir = "%s/w%d" % (W, k)
    shutil.rmtree(cdir, ignore_errors=True)
    shutil.copytree("/repo", cdir, symlinks=True, ignore=shutil.ignore_patterns(".git", "doc", "examples", "tests"))
    wd = "%s/wd%d" % (W, k)
    os.makedirs(wd, exist_ok=True)
    for fn, ln, desc, src, pids in todo:
        orig = open("/repo/VolterraBasis/" + fn).read()
        with open(cdir + "/VolterraBasis/" + fn, "w") as f:
            f.write(src)
        st, by, why = "survived", "", ""
        t0 = time.time()
        for pid in pids:
            r = judge(pid, cdir, wd)
            if r:
                st, by, why = "killed", pid, r
                break
        with open(cdir + "/VolterraBasis/" + fn, "w") as f:
            f.write(orig)
        with lock:
            with open(W + "/result.ndjson", "a") as f:
                f.write(json.dumps({"file": fn, "line": ln, "desc": desc, "status": st, "by": by, "why": why, "checks": pids, "t": round(time.time() - t0, 1)}) + "\n")


def run_main(args):
    nw = 6
    if "-w" in args:
        nw = int(args[args.index("-w") + 1])
        args = [a for a in args if a not in ("-w", str(nw))]
    args = [a for a in args if a != "-n"]
    gens()
    cov = json.load(open(W + "/cov.json"))
    done = set()
    if os.path.exists(W + "/result.ndjson"):
        done = {(r["file"], r["line"], r["desc"]) for r in map(json.loads, open(W + "/result.ndjson"))}
    todo = []
    for fn in args or files():
        src = open("/repo/VolterraBasis/" + fn).read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        lines = {p: set(cov[p]["lines"]) for p in cov}
        defs = sorted((n for n in ast.walk(ast.parse(src)) if isinstance(n, ast.FunctionDef)), key=lambda n: n.lineno)
        ends = {}
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.With, ast.While)):
                for l in range(n.lineno, n.end_lineno + 1):
                    ends[l] = n.lineno
        main = [n for n in ast.parse(src).body if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test)]
        for ln, desc, new in mutants(src):
            if any(n.lineno <= ln <= n.end_lineno for n in main):
                continue
            if new in seen or (fn, ln, desc) in done:
                continue
            seen.add(new)
            first = ends.get(ln, ln)
            hit = {"%s:%d" % (fn, first), "%s:%d" % (fn, ln)}
            pids = [p for p in cov if hit & lines[p]]
            if len(pids) == len(cov):  # executed by the import: default arguments, decorators; checks reaching the body
                inner = [d for d in defs if d.lineno - 3 <= ln <= d.body[0].lineno]
                if inner:
                    hit = {"%s:%d" % (fn, l) for d in inner[-1:] for l in range(d.body[0].lineno, d.end_lineno + 1)}
                    pids = [p for p in cov if hit & lines[p]]
            pids.sort(key=lambda p: cov[p]["cost"])
            if pids or "-n" in sys.argv:
                todo.append((fn, ln, desc, new, pids))
    random.Random(5).shuffle(todo)
    todo = [t for t in todo if not t[2].startswith("str")]
    todo = todo[:int(os.environ.get("MUT_MAX", "100000"))]
    print("mutants", len(todo), "not covered", sum(1 for t in todo if not t[4]))
    if "-n" in sys.argv:
        from collections import Counter

        print(Counter(t[0] for t in todo), Counter(len(t[4]) for t in todo))
        for t in todo:
            if not t[4]:
                print("uncovered", t[0], t[1], t[2])
        return
    lock = mp.Lock()
    ps = [mp.Process(target=worker, args=(k, todo[k::nw], lock)) for k in range(nw)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


def try_one(args):
    k, s = args
    cdir, wd = "%s/t%d" % (W, os.getpid()), "%s/td%d" % (W, os.getpid())
    shutil.rmtree(cdir, ignore_errors=True)
    shutil.copytree("/repo", cdir, symlinks=True, ignore=shutil.ignore_patterns(".git", "doc", "examples", "tests"))
    os.makedirs(wd, exist_ok=True)
    f90 = False
    for fn, old, new in s["edits"]:
        p = os.path.join(cdir, fn)
        src = open(p).read()
        if src.count(old) < 1:
            return s["id"], "EDIT NOT FOUND: " + old[:60], ""
        open(p, "w").write(src.replace(old, new, s.get("count", 1)))
        f90 |= fn.endswith("f90")
    if f90:
        for f in os.listdir(cdir + "/VolterraBasis"):
            if f.startswith("fkernel") and f.endswith(".so"):
                os.unlink(cdir + "/VolterraBasis/" + f)
        r = subprocess.run([PY, "-m", "numpy.f2py", "-c", "fkernel.f90", "-m", "fkernel", "-llapack"], cwd=cdir + "/VolterraBasis", env=dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not any(f.startswith("fkernel") and f.endswith(".so") for f in os.listdir(cdir + "/VolterraBasis")):
            return s["id"], "BUILD FAILED", r.stdout[-500:]
    pids = s["property"] if isinstance(s["property"], list) else [s["property"]]
    res = []
    for pid in pids:
        res.append("%s=%s" % (pid, judge(pid, cdir, wd, jobs=2, workers=2)))
    shutil.rmtree(cdir, ignore_errors=True)
    return s["id"], "caught" if not any(r.endswith("=None") for r in res) else "MISSED", " | ".join(res)


def try_main(args):
    """hand written changes: files with SEEDS = [dict(id, property, edits=[(file, old, new)])]"""
    gens()
    todo, only = [], set(a for a in args if not a.endswith(".py"))
    for a in args:
        if a.endswith(".py"):
            ns = {}
            exec(open(a).read(), ns)
            todo += [s for s in ns["SEEDS"] if not only or s["id"] in only]
    with mp.Pool(4, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(try_one, list(enumerate(todo))):
            print(*r, flush=True)


if __name__ == "__main__":
    {"cov": lambda a: cov_main(), "try": try_main, "run": run_main}[sys.argv[1]](sys.argv[2:])
