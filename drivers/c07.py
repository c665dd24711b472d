import numpy as np
import xarray as xr
import lib
import gen
import VolterraBasis as vb
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    comb = gen.combos()
    reps = 1 if tier == "quick" else 6
    for rep in range(reps):
        for i, (m, b, d) in enumerate(comb):
            if tier == "quick" and i % 2 == 1 and b["kind"] == "linear":
                continue
            r = rng(seed, "c07", i, rep)
            k = int(r.choice([2, 3, 4]))
            lens = [int(x) for x in r.choice([8, 12, 15, 24, 33], size=k)]
            if i % 7 == 3:  # many trajectories, one much longer than the others
                lens = [int(x) for x in r.choice([8, 9, 12], size=11)] + [90]
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=lens, dt=0.5, tr=4, jobs=bool(i % 12 == 0))))
    for i, (m, b, d) in enumerate([comb[0], comb[12], ("Pos_gle_overdamped", dict(kind="poly", deg=1), 1)]):  # very many trajectories
        r = rng(seed, "c07many", i)
        lens = [int(x) for x in r.choice([8, 9, 11, 14], size=26)]
        out.append(("many-%d" % i, dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=lens, dt=0.5, tr=4, jobs=i == 0)))
    for m, lens in [("Pos_gle_overdamped", [66000, 33000, 600])]:  # very long trajectories
        r = rng(seed, "c07huge", m)
        out.append(("huge-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind="linear", center=True), d=1, lens=lens, dt=0.5, tr=4, jobs=False)))
    return out


def static(est):
    m = est.model
    est.compute_gram_force()
    f = dict(gram_force=gen.T(m.gram_force, "dim_basis'", "dim_basis"), basis_mean=np.asarray(est.compute_basis_mean()))
    f["basis_mean_kernel"] = np.asarray(est.compute_basis_mean(basis_type="kernel"))
    if not m.rank_projection:
        est.compute_gram_kernel()
        f["gram_kernel"] = gen.T(m.gram_kernel, "dim_basis'", "dim_basis")
    return f


def corrs(est, coeff, second=True):
    m = est.model
    m.force_coeff = coeff
    m.rank_projection = False
    est.compute_corrs(second_order_method=second)
    if not second:
        od = gen.odim(est)
        return dict(bkbk=gen.T(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), bkdx=gen.T(est.bkdxcorrw, "dim_basis", od, "time_trunc"))
    od = gen.odim(est)
    return dict(bkbk=gen.T(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), dotbkbk=gen.T(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), bkdx=gen.T(est.bkdxcorrw, "dim_basis", od, "time_trunc"), dotbkdx=gen.T(est.dotbkdxcorrw, "dim_basis", od, "time_trunc"))


def solved(est):
    m = est.model
    est.compute_mean_force()
    est.compute_effective_mass()
    est.compute_pos_effective_mass()
    return dict(force_coeff=gen.T(m.force_coeff, "dim_basis", gen.odim(est)), eff_mass=np.asarray(m.eff_mass), pos_mass=gen.T(m.inv_mass_coeff, "dim_basis", "dim_x", "dim_x'"))


def fl(a):
    return [q(x) for x in np.asarray(a).ravel()]


def run(rec, p):
    r = rng(p["seed"])
    d, dt = p["d"], p["dt"]
    trajs = [gen.traj(r, N, d, dt=dt) for N in p["lens"]]
    bas = gen.basis(p["basis"])
    desc = np.concatenate([gen.arr(t, "x") for t in trajs])
    bas.fit(desc)  # the same basis for every subset of trajectories
    trunc = (p["tr"] - 0.5) * dt

    def mk(ts, **kw):
        from copy import deepcopy

        return vb.Estimator_gle(ts, getattr(vb, p["model"]), deepcopy(bas), trunc=trunc, saveall=False, verbose=False, **kw)

    est = mk(trajs)
    full = static(est)
    sol = solved(est)
    coeff = est.model.force_coeff
    cfull = corrs(est, coeff)
    singles, csingles = [], []
    for t in trajs:
        e1 = mk([t])
        singles.append(static(e1))
        csingles.append(corrs(e1, coeff))
    for name, val in full.items():
        rec.ev("pool", what=name, lens=[str(n) for n in p["lens"]], single=[fl(s[name]) for s in singles], out=fl(val))
    for name, val in cfull.items():
        rec.ev("pool", what=name, lens=[str(n) for n in p["lens"]], single=[fl(s[name]) for s in csingles], out=fl(val))
    everything = {**full, **sol, **cfull}

    def compare(clause, ts, names, second=True, **kw):
        with rec.guard(clause):
            e = mk(ts, **kw)
            got = static(e)
            got.update(solved(e))
            if any(n in cfull for n in names):
                got.update(corrs(e, coeff, second))
            for n in names:
                if n in everything and n in got:
                    rec.ev("same", clause=clause, what=n, a=fl(everything[n]), b=fl(got[n]))

    alln = list(everything)
    stat = list(full) + list(sol)
    perm = list(r.permutation(len(trajs)))
    compare("order", [trajs[i] for i in perm], alln)
    compare("iterable", tuple(trajs), alln)
    compare("first-order-only", trajs, list(cfull), second=False)
    compare("first-order-only", [trajs[i] for i in perm], list(cfull), second=False)
    # the same trajectories in pieces: the static averages do not change
    pieces = []
    for t in trajs:
        n = t["time"].shape[0]
        c = int(r.randint(4, n - 3))
        for sl in (slice(0, c), slice(c, None)):
            s = t.isel(time=sl)
            pieces.append(s.assign_coords(time=np.arange(s["time"].shape[0]) * dt))
    compare("pieces", pieces, stat)
    # down to single samples: the averages of the functions know no time
    singles = []
    for t in trajs[:2]:
        n = min(t["time"].shape[0], 40)
        c = int(r.randint(1, n - 3))
        for sl in (slice(0, c), slice(c, c + 1), slice(c + 1, c + 2), slice(c + 2, None)):
            s = t.isel(time=sl)
            singles.append(s.assign_coords(time=np.arange(s["time"].shape[0]) * dt))
    with rec.guard("single-samples"):
        got, ref = static(mk(singles)), static(mk(trajs[:2]))
        for n in got:
            rec.ev("same", clause="single-samples", what=n, a=fl(ref[n]), b=fl(got[n]))
    # a trajectory listed twice weighs twice: the same as every trajectory listed twice
    compare("duplicated", trajs + trajs, alln)
    if p["jobs"]:
        try:
            compare("n_jobs", trajs, alln, n_jobs=2)
            compare("more-jobs-than-trajectories", trajs, stat, n_jobs=len(trajs) + 1)
        finally:
            from joblib.externals.loky import get_reusable_executor

            get_reusable_executor().shutdown(wait=True, kill_workers=True)
    # a trajectory does not have to start at time zero
    if p["basis"]["kind"] != "tensor":
        ch = []
        for t in trajs:
            ch.append(t.chunk({"time": max(3, t["time"].shape[0] // 3)}))
        compare("dask", ch, alln)


if __name__ == "__main__":
    lib.main(cases, run)
