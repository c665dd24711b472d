"""Conversion of the observable to the time derivative of the basis (generalised Fokker-Planck equation)."""
import numpy as np
import xarray as xr
import lib
import gen
import VolterraBasis as vb
from lib import q, qa, rng

from c09 import snap


def cases(tier, seed, gen_):
    out = []
    R = 1 if tier == "quick" else 5
    for rep in range(R):
        for i, (m, b, d) in enumerate(gen.combos()):
            r = rng(seed, "c27", i, rep)
            lens = [int(x) for x in r.choice([11, 13, 16], size=int(r.choice([1, 2, 3])))]
            if d == 3 or b["kind"] in ("bspline", "tensor"):
                lens = [x + 10 for x in lens]
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=lens, dt=float(r.choice([0.25, 1.0, 0.5])), tr=int(r.choice([3, 5])) if i % 5 else 60, name=["dE", "dE", "obs", "flux"][int(r.randint(4))], full=bool(i % 3 == 0), given=bool(r.randint(3) == 0))))
        for i, (m, b, d) in enumerate(gen.combos()):
            if i % 6 == rep % 6:  # longer ones
                r = rng(seed, "c27l", i, rep)
                out.append(("long-%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=[130, 71], dt=0.5, tr=3, name="dE", full=False, given=False)))
    for i, (m, b, d) in enumerate([("Pos_gle", dict(kind="poly", deg=2), 1), ("Pos_gle_no_vel_basis", dict(kind="linear"), 2), ("Pos_gle_overdamped", dict(kind="fourier", order=1), 1)]):
        r = rng(seed, "c27h", i)
        out.append(("huge-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=[[2600], [30, 1100], [1400]][i], dt=0.5, tr=3, name="dE", full=False, given=False)))
    return out


def run(rec, p):
    r = rng(p["seed"])
    d = p["d"]
    trajs = [gen.traj(r, N, d, dt=p["dt"]) for N in p["lens"]]
    before = snap(trajs)
    est = gen.estimator(trajs, p["model"], p["basis"], (p["tr"] - 0.5) * p["dt"])
    m = est.model
    raw = gen.raw(est, trajs)
    had = p["seed"] % 2
    if had:  # a force of the former observable
        est.compute_mean_force()
    if p["seed"] % 3:
        gen.aside(est, p["seed"] + 5)
    kw = {} if p["name"] == "dE" else dict(new_obs_name=p["name"])
    if p["given"]:
        kw["model"] = m
    if p["seed"] % 4 == 2:  # the trajectories carry something of that name already: it is replaced
        for k, t in enumerate(est.xva_list):
            est.xva_list[k] = t.assign({p["name"]: (["time", "dim_" + p["name"]], np.ones((t.sizes["time"], m.N_basis_elt_kernel)))})
    est.to_gfpe(**kw)
    now = est.xva_list
    unchanged = all(all(np.array_equal(a[k], np.asarray(b[k].data)) for k in a) and set(b.data_vars) == set(k for k in a if k in ("x", "v", "a")) | {p["name"]} and b.attrs["dt"] == p["dt"] for a, b in zip(before, now))
    rec.ev("gfpe", model=p["model"], trajs=raw, obsname=p["name"], out=[qa(gen.T(t[p["name"]], "time", t[p["name"]].dims[1])) for t in now], lobs=m.L_obs, dimobs=int(m.dim_obs), rank=bool(m.rank_projection), unchanged=bool(unchanged))
    if had:
        est.set_zero_force()
        zero = gen.T(m.force_coeff, "dim_basis", gen.odim(est))
        rec.ev("same", what="zero-force-of-the-new-observable", a=qa(np.zeros((m.N_basis_elt_force, m.dim_obs))), b=qa(zero), tol="0")
    if not p["full"] or p["model"] == "Pos_gle_hybrid":
        return
    # the estimation goes on with the new observable
    base = dict(model=p["model"], trajs=gen.raw(est, now))
    est.compute_mean_force()
    od = gen.odim(est)
    co = qa(gen.T(m.force_coeff, "dim_basis", od))
    rec.ev("force", coeff=co, gram=qa(gen.T(m.gram_force, "dim_basis'", "dim_basis")), **base)
    est.compute_corrs()
    rec.ev("corrs", coeff=co, P="absent", second=True, unchanged=True, trunc=min(p["tr"], min(p["lens"])), **base, **gen.corr_arrays(est))
    # a second conversion replaces the first
    est.set_zero_force()
    zero = gen.T(m.force_coeff, "dim_basis", gen.odim(est))
    rec.ev("same", what="zero-force-of-the-new-observable", a=qa(np.zeros((m.N_basis_elt_force, m.dim_obs))), b=qa(zero), tol="0")


if __name__ == "__main__":
    lib.main(cases, run)
