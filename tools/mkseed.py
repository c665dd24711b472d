#!/usr/bin/env python3
"""mkseed.py ID PROP FILE OLD NEW DEMO.py NEEDS BREAKS : make a planted bug from a text replacement and confirm it in a scratch copy.
Reads a python file defining SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, shutil, subprocess, sys, tempfile, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for s in seeds:
    if only and s["id"] not in only:
        continue
    dst = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(dst, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="seedwt")
    shutil.rmtree(wt)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        open(os.path.join(dst, "patch.diff"), "w").write(d)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    # lines removed must be original lines
    orig = subprocess.run(["git", "-C", "/repo", "show", "b6b09dd:" + s["edits"][0][0]], stdout=subprocess.PIPE, text=True).stdout
    rem = [l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
    notorig = [l for l in rem if l.strip() and l not in orig.splitlines()]
    if len(notorig):
        print(s["id"], "WARNING lines not in the original:", notorig)
    open(os.path.join(dst, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(dst, "demo.sh"), "w").write('#!/bin/bash\nset -e\nhere="$(cd "$(dirname "$0")" && pwd)"\nscratch="$(mktemp -d)"\ntrap \'rm -rf "$scratch"\' EXIT\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\ncd "$scratch"\n/opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    # confirm: demo passes on the unchanged tree, fails with the patch, stable tests pass with the patch
    def demo():
        return subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)
    subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
    r0 = demo()
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(dst, "patch.diff")], check=True)
    try:
        b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r1 = demo()
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        o = json.load(open("/tmp/seedtest.json"))
        miss = set(base) - set(o["passed"])
        c = subprocess.run(["python3", os.path.join(ROOT, "bin/check.py"), s["property"]], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
        subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    caught = c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and not miss
    print(s["id"], "valid" if ok else "INVALID", "caught" if caught else "MISSED rc=%d" % c.returncode, sorted({l.split("clause=")[1].split()[0] for l in c.stdout.splitlines() if "clause=" in l})[:6])
    if not ok:
        print("  demo clean", r0.returncode, r0.stdout[-300:], "\n  demo patched", r1.returncode, r1.stdout[-300:], "\n  tests missing", miss)
    if not caught:
        print(c.stdout[-600:])
    sys.stdout.flush()
