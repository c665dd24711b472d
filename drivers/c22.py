"""Evaluation of the coefficients of every model at points."""
import numpy as np
import xarray as xr
import lib
import gen
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    for i, (m, b, d) in enumerate(gen.combos()):
        for rep in range(1 if tier == "quick" else 5):
            r = rng(seed, "c22", i, rep)
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=int(r.choice([0, 1, 2])), N=30, dt=float(r.choice([0.25, 0.5])), L=int(r.choice([2, 4])))))
    for i, (b, d) in enumerate([(dict(kind="poly", deg=2, remove_const=False), 1), (dict(kind="fourier", order=1, remove_const=False), 1), (dict(kind="linear", remove_const=False), 2)]):
        r = rng(seed, "c22p", i)
        out.append(("projected-%d" % i, dict(seed=int(r.randint(1 << 30)), model="Pos_gle", basis=b, d=d, do=0, N=30, dt=0.25, L=3)))
    return out


def points(m, x):
    """the points as a piece of trajectory for the specification"""
    b = m.basis
    return dict(x=qa(x), v=qa(np.zeros_like(x)), a=qa(np.zeros_like(x)), obs=qa(np.zeros_like(x)), bk=qa(b.basis(x)), dbk=qa(b.deriv(x)), ddbk="absent")


def run(rec, p):
    r = rng(p["seed"])
    d, mod = p["d"], p["model"]
    do = p["do"] or None
    trajs = [gen.traj(r, n, d, dt=p["dt"], dobs=do) for n in (p["N"], p["N"] + 7)]
    kw = dict(L_obs="obs") if do else {}
    est = gen.estimator(trajs, mod, p["basis"], (p["L"] - 0.5) * p["dt"], **kw)
    m = est.model
    od = gen.odim(est)
    ndo = m.dim_obs
    inside = np.concatenate([np.asarray(t["x"].data) for t in trajs])
    lo, hi = inside.min(axis=0), inside.max(axis=0)
    x = gen.rnd(lo + (hi - lo) * (0.02 + 0.96 * r.rand(7, d)), 1024)
    if d == 1:
        x = np.sort(x, axis=0)
    for f in ("force_eval", "kernel_eval", "pmf_eval") + (("friction_force_eval",) if hasattr(m, "friction_force_eval") else ()):
        rec.ev("refused", what=f + " before estimation", outcome=rec.outcome(getattr(m, f), x))
    coeff = r.randint(-16, 17, size=(m.N_basis_elt_force, ndo)) / 8.0
    m.force_coeff = xr.DataArray(coeff, dims=("dim_basis", od))
    P = "absent"
    nk = m.N_basis_elt_kernel
    if m.rank_projection:
        est.compute_corrs()
        P = qa(gen.T(m.P_range, "dim_basis", "dim_basis_old"))
        nk = m.P_range.sizes["dim_basis"]
    K = r.randint(-16, 17, size=(p["L"], nk, ndo)) / 8.0
    kt = np.arange(p["L"]) * p["dt"]
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", od), coords={"time_kernel": kt})
    if p["seed"] % 3:
        gen.aside(est, p["seed"] + 5, skip=("compute_effective_mass", "compute_pos_effective_mass"))
    pts = points(m, x)
    ways = [x, x.tolist(), xr.Dataset({"x": (["time", "dim_x"], x)})]
    if d == 1:
        ways.append(x.ravel())
    else:
        ways.append(x.ravel().tolist())
    base = dict(model=mod, pts=pts, d=d)
    who = [m, est]
    for n, w in enumerate(ways):
        with rec.guard("force"):
            rec.ev("force", what="way%d" % n, coeff=qa(coeff), out=qa(who[n % 2].force_eval(w)), **base)
        with rec.guard("kernel"):
            ke = who[(n + 1) % 2].kernel_eval(w)
            rec.ev("kernel", what="way%d" % n, K=qa(K), P=P, out=qa(gen.T(ke, "time_kernel", "time", od, "dim_x'")), **base)
            rec.ev("same", what="kernel-times", a=qa(ke["time_kernel"].data), b=qa(kt), tol="0")
        if mod == "Pos_gle_with_friction":
            with rec.guard("friction"):
                rec.ev("friction", coeff=qa(coeff), out=qa(m.friction_force_eval(w)), **base)
    # many points, in no order, some of them twice
    with rec.guard("many"):
        xm = np.concatenate([x, gen.rnd(lo + (hi - lo) * (0.02 + 0.96 * r.rand(60, d)), 1024)])
        xm = np.concatenate([xm, xm[:9]])[r.permutation(len(xm) + 9)]
        o = dict(base, pts=points(m, xm))
        rec.ev("force", what="many", coeff=qa(coeff), out=qa(m.force_eval(xm)), **o)
        ke = gen.T(m.kernel_eval(xm), "time_kernel", "time", od, "dim_x'")
        pick = r.choice(len(xm), size=6, replace=False)
        rec.ev("kernel", what="many", K=qa(K), P=P, out=qa(ke[:, pick]), **dict(base, pts=points(m, xm[pick])))
    with rec.guard("very many"):
        xm = x[r.randint(len(x), size=3001)]
        pick = np.array([0, 1, 700, 1023, 1024, 1025, 2999, 3000])
        o = dict(base, pts=points(m, xm[pick]))
        rec.ev("force", what="very-many", coeff=qa(coeff), out=qa(np.asarray(m.force_eval(xm))[pick]), **o)
        ke = gen.T(m.kernel_eval(xm), "time_kernel", "time", od, "dim_x'")
        rec.ev("kernel", what="very-many", K=qa(K), P=P, out=qa(ke[:, pick]), **o)
    # one single point
    with rec.guard("single"):
        one = points(m, x[:1])
        o = dict(base, pts=one)
        rec.ev("force", what="single", coeff=qa(coeff), out=qa(m.force_eval(x[0])), **o)
        rec.ev("kernel", what="single", K=qa(K), P=P, out=qa(gen.T(m.kernel_eval(x[0]), "time_kernel", "time", od, "dim_x'")), **o)
    if mod != "Pos_gle_with_friction":
        with rec.guard("force"):
            c2 = r.randint(-16, 17, size=coeff.shape) / 8.0
            rec.ev("force", what="given", coeff=qa(c2), out=qa(m.force_eval(x, coeffs=xr.DataArray(c2, dims=("dim_basis", od)))), **base)
    if mod != "Pos_gle_hybrid":
        with rec.guard("kernel"):
            K2 = r.randint(-16, 17, size=(p["L"] + 2, nk, ndo)) / 8.0
            ke = m.kernel_eval(x, coeffs_ker=xr.DataArray(K2, dims=("time_kernel", "dim_basis", od)))
            rec.ev("kernel", what="given", K=qa(K2), P=P, out=qa(gen.T(ke, "time_kernel", "time", od, "dim_x'")), **base)
            bad = xr.DataArray(np.zeros((p["L"], nk, ndo + 1)), dims=("time_kernel", "dim_basis", od))
            rec.ev("refused", what="kernel coefficients of another observable", outcome=rec.outcome(m.kernel_eval, x, coeffs_ker=bad))
            bad = xr.DataArray(np.zeros((p["L"], nk + 1, ndo)), dims=("time_kernel", "dim_basis", od))
            rec.ev("refused", what="kernel coefficients of the wrong shape", outcome=rec.outcome(m.kernel_eval, x, coeffs_ker=bad))
    else:
        if d == 1:
            with rec.guard("const part"):
                rec.ev("same", what="constant-part-of-the-kernel", a=qa(np.asarray(m.get_const_kernel_part())), b=qa(K[:, 0, :]), tol="0")
    with rec.guard("evaluation leaves the coefficients"):
        rec.ev("same", what="coefficients-unchanged", a=qa(np.asarray(m.force_coeff)), b=qa(coeff), tol="0")
        rec.ev("same", what="coefficients-unchanged", a=qa(np.asarray(m.kernel)), b=qa(K), tol="0")
    if d == 1 and ndo == 1:
        anti = qa(m.basis.antiderivative(x))
        for stage in ("before", "after"):
            mass = "absent"
            if stage == "after":
                est.compute_effective_mass()
                mass = qa(gen.T(m.eff_mass, *m.eff_mass.dims))
            for kT, zero in [(1.0, True), (2.5, False), (0.5, True), (1.0, False), (4.0, True)]:
                with rec.guard("pmf"):
                    out = m.pmf_eval(x, kT=kT, set_zero=zero) if n else est.pmf_eval(x, kT=kT, set_zero=zero)
                    rec.ev("pmf", model=mod, anti=anti, coeff=qa(coeff), mass=mass, kT=q(kT), zero=zero, out=qa(out))
            with rec.guard("pmf"):
                rec.ev("pmf", model=mod, anti=anti, coeff=qa(coeff), mass=mass, kT="1", zero=True, out=qa(m.pmf_eval(x)))
                c2 = r.randint(-16, 17, size=(m.N_basis_elt, 1)) / 8.0
                rec.ev("pmf", model=mod, anti=anti, coeff=qa(c2), mass=mass, kT="1", zero=True, out=qa(m.pmf_eval(x, coeffs=xr.DataArray(c2, dims=("dim_basis", od)))))
    if mod != "Pos_gle_with_friction":
        with rec.guard("posmass"):
            rec.ev("refused", what="inverse mass before estimation", outcome=rec.outcome(m.inv_mass_eval, x))
            est.compute_pos_effective_mass()
            mc = gen.T(m.inv_mass_coeff, "dim_basis", "dim_x", "dim_x'")
            rec.ev("posmass", trajs=gen.raw(est, trajs), coeff=qa(mc))
            many = np.arange(2500) % len(x)
            pick = np.array([0, 3, 1024, 1026, 2498])
            rec.ev("invmass", bk=qa(np.asarray(m.basis.basis(x))[many[pick]]), coeff=qa(mc), out=qa(np.asarray(m.inv_mass_eval(x[many]))[pick]))
            for w in ways:
                rec.ev("invmass", bk=pts["bk"], coeff=qa(mc), out=qa(m.inv_mass_eval(w)))
            c2 = r.randint(-16, 17, size=mc.shape) / 8.0
            rec.ev("invmass", bk=pts["bk"], coeff=qa(c2), out=qa(m.inv_mass_eval(x, coeffs=xr.DataArray(c2, dims=("dim_basis", "dim_x", "dim_x'")))))
            rec.ev("refused", what="inverse mass coefficients of the wrong shape", outcome=rec.outcome(m.inv_mass_eval, x, coeffs=xr.DataArray(c2[:, :, 0], dims=("dim_basis", "dim_x"))))
            # numerical integration, with a mass which stays away from zero
            k = p["basis"]["kind"]
            if d == 1 and ndo == 1 and k != "linear":
                mc = np.zeros((m.N_basis_elt, 1, 1))
                if k == "bspline":
                    mc[:, 0, 0] = 2.0 + r.randint(0, 9, size=m.N_basis_elt) / 8.0
                else:
                    mc[0], mc[1] = 4.0, 0.25
                    if m.basis.const_removed:
                        mc[0], mc[1:] = 1.0, 0.0
                m.inv_mass_coeff = xr.DataArray(mc, dims=("dim_basis", "dim_x", "dim_x'"))
                xs = np.linspace(float(lo[0]) + 0.01, float(hi[0]) - 0.01, 9)
                for kT, zero in [(1.0, True), (2.0, False)]:
                    im = m.inv_mass_eval(xs)[:, 0, 0]
                    if np.min(np.abs(im)) < 0.05:
                        continue
                    xi = np.concatenate([xs[:4], xs[4:7:2], xs[7:] + 0.003])  # unequal intervals
                    fine = np.linspace(float(lo[0]) + 0.01, float(hi[0]) - 0.01, 83)  # a fine grid
                    for xv in (xs, xs[::-1].copy(), xi) + ((fine,) if zero else ()):
                        rec.ev("numpmf", x=qa(xv), bk=qa(m.basis.basis(xv.reshape(-1, 1))), coeff=qa(coeff), mcoeff=qa(mc), kT=q(kT), zero=zero, out=qa(m.pmf_num_int_eval(xv, kT=kT, set_zero=zero)))


if __name__ == "__main__":
    lib.main(cases, run)
