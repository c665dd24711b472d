#!/usr/bin/env python3
"""
One check: decides property <id> on /repo's current working tree.

  check.py <id> [--replay FILE]

1. builds what /repo needs (the Fortran extension) from the working tree
2. exhaustive TLC runs of the property's models (spec/ + models/)
3. optionally lets TLC generate behaviours to replay into the implementation
4. runs the driver, which exercises the real code and records traces
5. TLC validates every recorded event against the specification; each rejected event names its clause
6. corrupts recorded values and shows that the trace specification rejects them (binding)
7. writes evidence/<id>.json
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from registry import PROPS  # noqa

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
VENV = "/opt/venv/bin/python"
CP = ":".join([os.path.join(ROOT, "build/classes"), "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])


class Machinery(Exception):
    pass


def ensure_classes():
    cls = os.path.join(ROOT, "build/classes/Rat.class")
    src = os.path.join(ROOT, "spec/java/Rat.java")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        subprocess.run(["bash", os.path.join(ROOT, "bin/setup.sh")], check=True)


def build():
    r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        raise Machinery("build of /repo failed")


def tlc(module, cfg, workdir, env=None, workers=8, timeout=800, extra=(), heap="6g"):
    """Run TLC; returns dict(out, states, distinct, ok, lines)."""
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + os.path.join(ROOT, "spec") + ":" + os.path.join(ROOT, "models"), "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock", *extra, "-config", cfg, module]
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    res = {"out": out, "rc": r.returncode, "generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0, "left": int(m[-1][2]) if m else -1}
    res["ok"] = r.returncode == 0 and "No error has been found" in out
    return res


def run_models(prop, cov):
    """Exhaustive checks of the specification itself: they do not depend on /repo, so a failure is machinery."""
    tot = {"states": 0, "transitions": 0, "models": {}}
    for ent in prop.get("mc", ()):
        if ent.get("tier", "quick") == "thorough" and TIER != "thorough":
            continue
        mod = ent["module"]
        cfg = ent.get("cfg_thorough" if TIER == "thorough" and "cfg_thorough" in ent else "cfg", mod + ".cfg")
        r = tlc(os.path.join(ROOT, "models", mod + ".tla"), os.path.join(ROOT, "models", cfg), os.path.join(ROOT, "models"), timeout=850 if TIER == "quick" else 7200)
        if not r["ok"]:
            print(r["out"][-4000:])
            raise Machinery("model %s/%s: TLC did not accept the specification" % (mod, cfg))
        tot["states"] += r["distinct"]
        tot["transitions"] += r["generated"]
        tot["models"][cfg] = {"distinct_states": r["distinct"], "states_generated": r["generated"]}
    cov.update(tot)


def generate(prop, wd, cov):
    """Behaviours enumerated by TLC, one JSON object per line printed as GEN <json>."""
    ents = prop.get("gen", ())
    if not ents:
        return None, 0
    path = os.path.join(wd, "gen.ndjson")
    n = 0
    with open(path, "w") as f:
        for ent in ents:
            mod = ent["module"]
            cfg = ent.get("cfg_thorough" if TIER == "thorough" and "cfg_thorough" in ent else "cfg", mod + ".cfg")
            extra = ent.get("extra_thorough" if TIER == "thorough" and "extra_thorough" in ent else "extra", ())
            extra = [str(x).replace("$SEED", str(SEED)) for x in extra]
            r = tlc(os.path.join(ROOT, "models", mod + ".tla"), os.path.join(ROOT, "models", cfg), os.path.join(ROOT, "models"), workers=1, extra=extra)
            if not r["ok"] and "-simulate" not in extra:
                print(r["out"][-4000:])
                raise Machinery("generator %s failed" % mod)
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
            cov.setdefault("models", {})[cfg] = {"distinct_states": r["distinct"], "states_generated": r["generated"]}
            seen = set()
            for line in r["out"].splitlines():
                if line.startswith('"GEN '):
                    s = json.loads(line)[4:]
                    if s not in seen:
                        seen.add(s)
                        f.write(s + "\n")
                        n += 1
    if n == 0:
        raise Machinery("generator produced nothing")
    return path, n


def validate(prop, trace_path, wd):
    """TLC over the recorded traces -> list of (trace index, event index, clause)."""
    mod = prop["trace"]
    lines = [json.loads(x) for x in open(trace_path)]
    expect = sum(len(t["events"]) + 1 for t in lines)
    slim = os.path.join(wd, "slim.ndjson")
    dropped = {}
    while True:
        with open(slim, "w") as f:
            for t in lines:
                f.write(json.dumps({"id": t["id"], "events": t["events"]}) + "\n")
        r = tlc(os.path.join(ROOT, "spec", mod + ".tla"), os.path.join(ROOT, "spec", prop.get("trace_cfg", "Trace.cfg")), wd, env={"TRACE_FILE": slim}, heap="12g", timeout=850 if TIER == "quick" else 7200, workers=prop.get("workers", 8))
        bad = []
        for line in r["out"].splitlines():
            m = re.match(r'"BAD (\d+) (\d+) (.*)"$', line)
            if m:
                bad.append((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3)))
        if r["ok"] and r["distinct"] == expect:
            break
        if r["ok"]:
            raise Machinery("trace validation covered %d of %d states" % (r["distinct"], expect))
        # an event outside the domain on which the specification can be evaluated: TLC shows the state
        m = re.findall(r"/\\ tid = (\d+)", r["out"])
        k = re.findall(r"/\\ l = (\d+)", r["out"])
        if not m or not k or len(dropped) > 20:
            print(r["out"][-4000:])
            raise Machinery("trace validation failed to run")
        ti, li = int(m[-1]) - 1, int(k[-1]) - 1
        if os.environ.get("VERIF_DEBUG"):
            print(r["out"][-3000:])
        t = lines[ti]
        if li >= len(t["events"]) or t["events"][li].get("ev") == "fail":
            print(r["out"][-4000:])
            raise Machinery("trace validation failed to run")
        dropped[(ti, li)] = True
        t["events"] = t["events"][:li] + [{"ev": "fail", "kind": "outside the specification's domain", "msg": "", "where": ""}]
        expect = sum(len(t["events"]) + 1 for t in lines)
    return bad, r


def mutate_value(s, rnd):
    from fractions import Fraction

    if s == "nan":
        return "12345"
    f = Fraction(s)
    return str(f + (Fraction(rnd.choice([1, -1, 2, 3]), rnd.choice([1, 2, 3])) * (1 + abs(f))))


def binding(prop, trace_path, wd, bad):
    """Corrupt one recorded output per sampled event: the trace specification must reject it."""
    outs = prop.get("outputs")
    if not outs:
        return {}
    rnd = random.Random(SEED)
    lines = [json.loads(x) for x in open(trace_path)]
    badset = {b[0] for b in bad}
    cand = []
    for ti, t in enumerate(lines):
        if ti in badset:
            continue
        for ei, e in enumerate(t["events"]):
            for f in outs.get(e["ev"], ()):
                if f in e:
                    cand.append((e["ev"] + "." + f, ti, ei, f))
    bykind = {}
    for c in cand:
        bykind.setdefault(c[0], []).append(c)
    picked = []
    for kind in sorted(bykind):
        picked += rnd.sample(bykind[kind], min(3, len(bykind[kind])))
    new, info = [], []
    for kind, ti, ei, f in picked:
        t = json.loads(json.dumps({"id": lines[ti]["id"], "events": lines[ti]["events"][: ei + 1]}))
        v = t["events"][ei][f]
        holder, key = t["events"][ei], f
        while isinstance(v, (list, dict)) and v:
            holder, key = v, (rnd.randrange(len(v)) if isinstance(v, list) else rnd.choice(sorted(v)))
            v = holder[key]
        if not isinstance(v, str) or v == "absent":
            continue
        try:
            holder[key] = mutate_value(v, rnd)
        except (ValueError, ZeroDivisionError):
            holder[key] = v + "-corrupted"
        new.append(t)
        info.append(kind)
    if not new:
        return {}
    p2 = os.path.join(wd, "corrupt.ndjson")
    with open(p2, "w") as f:
        for t in new:
            f.write(json.dumps(t) + "\n")
    b2, _ = validate(prop, p2, wd)
    caught = {x[0] for x in b2}
    missed = sorted({info[i] for i in range(len(new)) if i not in caught})
    return {"corrupted_traces": len(new), "corrupted_rejected": len(caught), "kinds": sorted(set(info)), "accepted_kinds": missed}


def known_findings(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)).get("findings", []) if e["property"] == pid]


def main():
    pid = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    prop = PROPS[pid]
    t0 = time.time()
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    ensure_classes()
    build()
    outdir = os.path.join(ROOT, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True) if not replay else None
    os.makedirs(outdir, exist_ok=True)
    wd = tempfile.mkdtemp(prefix="vb" + pid)
    cov = {"states": 0, "transitions": 0}
    viol = []
    try:
        t1 = time.time()
        if not replay:
            run_models(prop, cov)
        t2 = time.time()
        gen, ngen = (None, 0) if replay else generate(prop, wd, cov)
        t3 = time.time()
        trace = os.path.join(wd, "trace.ndjson")
        cmd = [VENV, os.path.join(ROOT, "drivers", prop["driver"]), "--out", trace, "--tier", TIER, "--seed", str(SEED)]
        if gen:
            cmd += ["--gen", gen]
        if replay:
            cmd += ["--replay", os.path.abspath(replay)]
        env = dict(os.environ)
        env["PYTHONPATH"] = "/repo:" + os.path.join(ROOT, "drivers")
        r = subprocess.run(cmd, cwd=wd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850 if TIER == "quick" else 7200)
        if r.returncode != 0 or not os.path.exists(trace):
            print(r.stdout[-4000:])
            raise Machinery("driver failed")
        t4 = time.time()
        bad, tr = validate(prop, trace, wd)
        t5 = time.time()
        lines = [json.loads(x) for x in open(trace)]
        kf = known_findings(pid)
        hit = {}
        for ti, ei, clause in bad:
            t = lines[ti]
            f = next((e for e in kf if e["case"] == t["id"] and e["clause"] == clause), None)
            if f is not None:
                hit[(f["case"], f["clause"])] = f
                continue
            viol.append((t, ei, clause))
        for f in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        bind = {} if (replay or viol) else binding(prop, trace, wd, bad)
        evs = {}
        for t in lines:
            for e in t["events"]:
                evs[e["ev"]] = evs.get(e["ev"], 0) + 1
        if not replay:
            samples = []
            for t in lines[:: max(1, len(lines) // 3)][:3]:
                samples.append({"case": t["id"], "params": json.loads(json.dumps(t.get("params")))if len(json.dumps(t.get("params"))) < 2000 else "...", "events": [e["ev"] for e in t["events"]][:20]})
            cov.update({
                "traces_validated_against_impl": len(lines),
                "events_validated": sum(evs.values()),
                "events_by_kind": evs,
                "trace_spec_states": tr["distinct"],
                "behaviours_generated_by_tlc": ngen,
                "rejected_events": len(bad),
                "binding_demonstration": bind,
                "samples": samples,
                "phase_s": {"build": round(t1 - t0, 1), "models": round(t2 - t1, 1), "generate": round(t3 - t2, 1), "driver": round(t4 - t3, 1), "validate": round(t5 - t4, 1)},
            })
            cov["states"] += tr["distinct"]
            cov["transitions"] += tr["generated"]
            ev = {"property": pid, "tier": TIER, "seed": SEED, "level": prop["level"], "coverage": cov, "assumptions": prop.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        if bind.get("accepted_kinds"):
            print("note: corruptions accepted for", bind["accepted_kinds"])
            if os.environ.get("VERIF_STRICT"):
                raise Machinery("binding")
        if viol:
            shown = set()
            n = 0
            for t, ei, clause in viol:
                if (t["id"], clause) in shown or n >= 12:
                    continue
                shown.add((t["id"], clause))
                rp = os.path.join(outdir, "replay-%d.json" % n) if not replay else os.path.abspath(replay)
                if not replay:
                    with open(rp, "w") as f:
                        json.dump({"property": pid, "id": t["id"], "clause": clause, "event_index": ei, "params": t.get("params"), "event": t["events"][ei] if ei < len(t["events"]) else None}, f)
                n += 1
                e = t["events"][ei] if ei < len(t["events"]) else {}
                print("case=%s event=%d (%s) clause=%s %s" % (t["id"], ei, e.get("ev"), clause, ("%s %s %s" % (e.get("kind"), e.get("msg"), e.get("where")))[:700] if e.get("ev") == "fail" else ""))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
            sys.exit(1)
        print("OK property=%s traces=%d events=%d models=%d wall=%.1fs" % (pid, len(lines), sum(evs.values()), len(cov.get("models", {})), time.time() - t0))
        sys.exit(0)
    except Machinery as e:
        print("ERROR (machinery):", e)
        sys.exit(2)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    main()
