import numpy as np
import lib
import gen
from lib import q, qa, rng


def bases():
    out = []
    for deg in (1, 2, 3):
        for fam in ("Polynomial", "Legendre", "Chebyshev"):
            out.append((dict(kind="poly", deg=deg, family=fam), 1, deg))
    out += [(dict(kind="fourier", order=o), 1, 2 * o) for o in (1, 2)]
    out += [(dict(kind="bspline", n=n, k=k), 1, n - 1) for n, k in ((4, 2), (5, 3), (6, 3))]
    out += [(dict(kind="poly", deg=1), 2, 2), (dict(kind="poly", deg=2), 2, 4), (dict(kind="fourier", order=1), 2, 4)]
    out += [(dict(kind="tensor", b1=dict(kind="poly", deg=1)), 2, 3), (dict(kind="tensor", b1=dict(kind="poly", deg=1), b2=dict(kind="poly", deg=2)), 2, 5), (dict(kind="linear"), 2, 2), (dict(kind="linear"), 1, 1)]
    out += [(dict(kind="indicator", states=[[-0.5, 0.5]]), 1, 1), (dict(kind="indicator", states=[[-1.0, -0.5], [0.5, 1.0]]), 1, 2)]
    out += [(dict(kind="combine", parts=[dict(kind="linear"), dict(kind="poly", deg=2, remove_const=False)]), 1, 2)]
    return out


def cases(tier, seed, gen_):
    out = []
    for rep in range(2 if tier == "quick" else 10):
        for i, (b, d, rank) in enumerate(bases()):
            r = rng(seed, "c10", i, rep)
            lens = [int(x) for x in r.choice([30, 36, 41], size=int(r.choice([1, 2])))]
            out.append(("%s-d%d-%d-%d" % (b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), basis=b, d=d, rank=rank, lens=lens, dt=0.25, tr=5)))
    for i, (b, d, rank) in enumerate(bases()[1::7]):  # long trajectories
        r = rng(seed, "c10l", i)
        out.append(("long-%s-d%d-%d" % (b["kind"], d, i), dict(seed=int(r.randint(1 << 30)), basis=b, d=d, rank=rank, lens=[[1300], [1030, 300]][i % 2], dt=0.25, tr=3)))
    # data of a small amplitude: directions with small eigenvalues count as well
    for rep in range(1 if tier == "quick" else 4):
        for i, (deg, amp) in enumerate([(3, 1 / 512), (4, 1 / 64), (5, 1 / 16)]):
            r = rng(seed, "c10s", i, rep)
            out.append(("small-%d-%d" % (i, rep), dict(seed=int(r.randint(1 << 30)), basis=dict(kind="poly", deg=deg, family="Polynomial"), d=1, rank=deg, lens=[36], dt=0.25, tr=5, amp=amp)))
    return out


def run(rec, p):
    r = rng(p["seed"])
    d = p["d"]
    trajs = [gen.traj(r, N, d, dt=p["dt"]) for N in p["lens"]]
    if "amp" in p:
        for t in trajs:
            t["x"] = t["x"] * p["amp"]
            t["v"] = t["v"] * p["amp"]
            t["a"] = t["a"] * p["amp"]
    b = dict(p["basis"])
    b["remove_const"] = False
    models = ["Pos_gle", "Pos_gle_with_friction"]
    ker = {}
    pts = np.linspace(-1, 1, 5)[:, None] * np.ones((1, d)) + 0.125 * np.arange(d)
    for mname in models:
        with rec.guard(mname):
            est = gen.estimator(trajs, mname, b, (p["tr"] - 0.5) * p["dt"])
            m = est.model
            rec.ev("same", what="projects-when-constant-kept", a=["1"], b=[q(bool(m.rank_projection))], tol="0")
            est.set_zero_force()
            if p["seed"] % 3:
                gen.aside(est, p["seed"] + 5)
            est.compute_corrs()
            base = dict(model=mname, trajs=gen.raw(est, trajs))
            P = gen.T(m.P_range, "dim_basis", "dim_basis_old")
            E0 = [np.asarray(m.basis_vector(t)[1].transpose("time", "dim_basis")) for t in trajs]
            G = sum(e.T @ e for e in E0) / sum(len(e) for e in E0)
            w = np.sort(np.linalg.eigvalsh(G))[::-1]
            # an eigenvalue close to the rounding of the others has no settled side
            rec.ev("proj", P=qa(P), tol="absent", rank=p["rank"] if w[p["rank"] - 1] > 2e-14 * w[0] else -1, **base)
            rec.ev("corrs", opt="", coeff=qa(gen.T(m.force_coeff, "dim_basis", gen.odim(est))), P=qa(P), second=True, unchanged=True, trunc=p["tr"], **base, **gen.corr_arrays(est))
            if mname == "Pos_gle" and "amp" not in p:
                for meth in ("rectangular", "trapz", "second_kind_trapz"):
                    est.compute_kernel(method=meth)
                    ker[meth] = gen.T(m.kernel_eval(pts), "time_kernel", "time", "dim_x", "dim_x'")
            # a tolerance chosen by the user, between the eigenvalues of the equal-time correlation
            for cut in range(1, p["rank"]):
                if w[cut] < 1e-9 * w[0] or w[cut - 1] / w[cut] < 1.2:
                    continue
                tol = float(np.sqrt(w[cut - 1] * w[cut]))
                est.compute_corrs(rank_tol=tol)
                P = gen.T(m.P_range, "dim_basis", "dim_basis_old")
                rec.ev("proj", P=qa(P), tol=q(tol), rank=cut, **base)
                rec.ev("corrs", opt="", coeff=qa(gen.T(m.force_coeff, "dim_basis", gen.odim(est))), P=qa(P), second=True, unchanged=True, trunc=p["tr"], **base, **gen.corr_arrays(est))
            if p["seed"] % 3:
                gen.aside(est, p["seed"] + 6)
            # which is not remembered: without a tolerance the default holds again
            est.compute_corrs()
            P = gen.T(m.P_range, "dim_basis", "dim_basis_old")
            rec.ev("proj", P=qa(P), tol="absent", rank=p["rank"] if w[p["rank"] - 1] > 2e-14 * w[0] else -1, **base)
            rec.ev("corrs", opt="", coeff=qa(gen.T(m.force_coeff, "dim_basis", gen.odim(est))), P=qa(P), second=True, unchanged=True, trunc=p["tr"], **base, **gen.corr_arrays(est))
    with rec.guard("first order only"):
        est = gen.estimator(trajs, "Pos_gle", b, (p["tr"] - 0.5) * p["dt"])
        m = est.model
        est.set_zero_force()
        est.compute_corrs(second_order_method=False)
        P = gen.T(m.P_range, "dim_basis", "dim_basis_old")
        rec.ev("corrs", opt="", coeff=qa(gen.T(m.force_coeff, "dim_basis", gen.odim(est))), P=qa(P), second=False, unchanged=True, trunc=p["tr"], model="Pos_gle", trajs=gen.raw(est, trajs), **gen.corr_arrays(est))
    if "amp" in p:
        return
    # the kernel as a function of the position does not depend on how the constant is dealt with
    if p["basis"]["kind"] in ("poly", "fourier", "bspline"):
        with rec.guard("const-removed"):
            b2 = dict(p["basis"])
            b2["remove_const"] = True
            est = gen.estimator(trajs, "Pos_gle", b2, (p["tr"] - 0.5) * p["dt"])
            rec.ev("same", what="no-projection-when-constant-removed", a=["0"], b=[q(bool(est.model.rank_projection))], tol="0")
            est.set_zero_force()
            est.compute_corrs()
            if np.linalg.cond(gen.T(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")[:, :, 0]) < 1e4:
                for meth in ("rectangular", "trapz", "second_kind_trapz"):
                    est.compute_kernel(method=meth)
                    k2 = gen.T(est.model.kernel_eval(pts), "time_kernel", "time", "dim_x", "dim_x'")
                    rec.ev("same", what="kernel-function-independent-of-projection", a=qa(ker[meth]), b=qa(k2), tol=q(1e-5 * (1 + float(np.max(np.abs(k2))))))


if __name__ == "__main__":
    lib.main(cases, run)
