"""Free energy, forces and mass from the histogram of one dimensional trajectories."""
import numpy as np
import lib
import gen
import VolterraBasis as vb
from VolterraBasis import compute_1d_fe
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    R = 1 if tier == "quick" else 6
    for k in (1, 2, 3):
        for bins in (6, 9, 13, 18, "sturges", "sqrt"):
            for gap in (False, True):
                for rep in range(R):
                    r = rng(seed, "c26", k, bins, gap, rep)
                    out.append(("fe-%d-%s-%s-%d" % (k, bins, gap, rep), dict(k=k, bins=bins, gap=gap, seed=int(r.randint(1 << 30)), kT=float(r.choice([1.0, 2.5, 0.5])))))
    for i, (k, bins) in enumerate([(1, 16), (2, "sqrt"), (3, 50)]):  # much data
        r = rng(seed, "c26h", i)
        out.append(("huge-%d" % i, dict(k=k, bins=bins, gap=False, seed=int(r.randint(1 << 30)), kT=1.0, N=[2100, 500, 120][i])))
    return out


def run(rec, p):
    r = rng(p["seed"])
    trajs = []
    for i in range(p["k"]):
        N = p.get("N") or int(r.choice([40, 55, 70]))
        t = gen.traj(r, N, 1, dt=0.25)
        if p["gap"]:  # two wells with nothing in between, samples on the edges
            x = np.where(gen.arr(t, "x") > 0, gen.arr(t, "x") * 0.75 + 1, gen.arr(t, "x") * 0.75 - 1)
            x[0], x[1], x[2] = -3.0, 3.0, -3.0
            t = vb.xframe(gen.rnd(x), t["time"].data, v=gen.arr(t, "v"), a=gen.arr(t, "a"))
        trajs.append(t)
    bins = p["bins"]
    x = np.concatenate([gen.arr(t, "x").ravel() for t in trajs])
    v = np.concatenate([gen.arr(t, "v").ravel() for t in trajs])
    a = np.concatenate([gen.arr(t, "a").ravel() for t in trajs])
    before = [{k: np.array(np.asarray(t[k].data)) for k in t.variables} for t in trajs]
    edges = np.linspace(x.min(), x.max(), bins) if isinstance(bins, int) else np.histogram_bin_edges(x, bins=bins)
    base = dict(x=qa(x), v=qa(v), a=qa(a), edges=qa(edges), number=isinstance(bins, int), bins=bins if isinstance(bins, int) else 0)
    xf, pf = compute_1d_fe(trajs, bins=bins, hist=True)
    rec.ev("hist", xf=qa(xf), p=qa(pf), **base)
    if np.count_nonzero(pf) < 4:  # no cubic spline
        return
    xf, fe, force, ma, ft, mass = compute_1d_fe(trajs, bins=bins, kT=p["kT"])
    rec.ev("fe", kT=q(p["kT"]), xf=qa(xf), fe=qa(fe), force=qa(force), ma=qa(ma), ft=qa(ft), mass=qa(mass), **base)
    # the default temperature, and the order of the trajectories
    ref = [qa(np.asarray(z)) for z in compute_1d_fe(trajs, bins=bins, kT=2.494)]
    rec.ev("same", what="default-temperature", a=ref, b=[qa(np.asarray(z)) for z in compute_1d_fe(trajs, bins=bins)], tol="0")
    rec.ev("same", what="order-of-trajectories", a=ref, b=[qa(np.asarray(z)) for z in compute_1d_fe(trajs[::-1], bins=bins)], tol="1/100000")
    for t, b in zip(trajs, before):
        rec.ev("same", what="data-unchanged", a=[qa(b[k]) for k in sorted(b)], b=[qa(np.asarray(t[k].data)) for k in sorted(t.variables)], tol="0")
    rec.ev("refused", what="bins which are no number and no rule", outcome=rec.outcome(compute_1d_fe, trajs, bins=7.5))
    rec.ev("refused", what="bins which are no number and no rule", outcome=rec.outcome(compute_1d_fe, trajs, bins=[0.0, 1.0]))


if __name__ == "__main__":
    lib.main(cases, run)
