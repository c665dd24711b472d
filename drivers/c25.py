"""What an estimator takes from its trajectories: truncation, weights, description, refusal of incomplete data."""
import numpy as np
import scipy.stats
import xarray as xr
import lib
import gen
import VolterraBasis as vb
import VolterraBasis.basis as bf
from lib import q, qa, rng

REQ = {"Pos_gle": "xva", "Pos_gle_with_friction": "xva", "Pos_gle_no_vel_basis": "xv", "Pos_gle_const_kernel": "xva", "Pos_gle_hybrid": "xva", "Pos_gle_overdamped": "xv"}


def cases(tier, seed, gen_):
    out = []
    R = 1 if tier == "quick" else 5
    for m in gen.MODELS:
        for k in (1, 2, 4):
            for rep in range(2 * R):
                r = rng(seed, "c25", m, k, rep)
                out.append(("accept-%s-%d-%d" % (m, k, rep), dict(kind="accept", model=m, k=k, seed=int(r.randint(1 << 30)))))
        r = rng(seed, "c25r", m)
        out.append(("refuse-%s" % m, dict(kind="refuse", model=m, seed=int(r.randint(1 << 30)))))
    for k in (2, 3):
        r = rng(seed, "c25n", k)
        out.append(("describe-long-%d" % k, dict(kind="describe", k=k, d=1, N=[[1501, 777], [1001, 333, 1250]][k - 2], seed=int(r.randint(1 << 30)))))
    for k, N in enumerate([[200, 5], [3, 260, 4], [10400], [2700, 8300]]):  # very unequal, very long
        r = rng(seed, "c25u", k)
        out.append(("describe-unequal-%d" % k, dict(kind="describe", k=len(N), d=1, N=N, seed=int(r.randint(1 << 30)))))
    for k in (1, 2, 3, 5, 12):
        for d in (1, 2, 3):
            for rep in range(R):
                r = rng(seed, "c25d", k, d, rep)
                out.append(("describe-%d-d%d-%d" % (k, d, rep), dict(kind="describe", k=k, d=d, seed=int(r.randint(1 << 30)))))
    return out


def describe(rec, res, xs, stats="all", var=False):
    none = stats == "none"
    rec.ev("describe", nobs=q(res.nobs), dim=len(res.mean), lo="absent" if none else qa(res.minmax[0]), hi="absent" if none else qa(res.minmax[1]), mean="absent" if none else qa(res.mean), var=qa(res.variance) if var else "absent", skew=qa(res.skewness) if var else "absent", kurt=qa(res.kurtosis) if var else "absent", xs=[qa(x) for x in xs], stats=stats)


def run(rec, p):
    r = rng(p["seed"])
    if p["kind"] == "accept":
        m, k = p["model"], p["k"]
        for d in (1, 2):
            dt = float(r.choice([0.25, 0.5, 0.1, 1.0]))
            lens = [int(x) for x in r.choice([9, 12, 15, 21], size=k)]
            t0 = float(r.choice([0.0, 0.0, 0.0, 2.0, -0.5]))
            dobs = int(r.choice([0, 1, 2, 3]))
            trajs = [gen.traj(r, N, d, dt=dt, t0=t0, dobs=dobs or None) for N in lens]
            tmax = t0 + dt * (min(lens) - 1)
            for trunc in [float(trajs[0]["time"].data[4]), t0 + 3.5 * dt, tmax, tmax + 10, 1000.0]:
                kw = dict(L_obs="obs") if dobs else {}
                e = gen.estimator(trajs, m, dict(kind="linear"), trunc, **kw)
                lags = []
                if t0 == 0:
                    e.set_zero_force()
                    e.model.rank_projection = False
                    e.compute_corrs()
                    lags = [int(e.bkbkcorrw.sizes["time_trunc"]), int(e.bkdxcorrw.sizes["time_trunc"])]
                    e.compute_kernel(method="rect")
                    lags.append(int(e.model.kernel.sizes["time_kernel"]))
                rec.ev("accept", times=[qa(t["time"].data) for t in trajs], trunc=q(trunc), otrunc=int(e.trunc_ind), mtrunc=int(e.model.trunc_ind), weights=qa(e.weights), weightsum=q(e.weightsum), dt=q(float(trajs[0].attrs["dt"])), odt=q(e.dt), mdt=q(e.model.dt), d=d, dobs=dobs or d, dimx=int(e.model.dim_x), dimobs=int(e.model.dim_obs), lobs=str(e.model.L_obs), wantobs="obs" if dobs else ("a" if "a" in REQ[m] else "v"), lags=lags)
            if k > 1:
                # times which start anywhere: the trajectory which ends first need not have the fewest points
                late = [gen.traj(r, N, d, dt=dt, t0=dt * int(o), dobs=dobs or None) for N, o in zip(sorted(lens), range(6 * k, 0, -6))]
                for trunc in (1000.0, float(late[-1]["time"].data[-1]), float(late[0]["time"].data[-1]) + dt):
                    e = gen.estimator(late, m, dict(kind="linear"), trunc, **(dict(L_obs="obs") if dobs else {}))
                    rec.ev("accept", times=[qa(t["time"].data) for t in late], trunc=q(trunc), otrunc=int(e.trunc_ind), mtrunc=int(e.model.trunc_ind), weights=qa(e.weights), weightsum=q(e.weightsum), dt=q(float(late[0].attrs["dt"])), odt=q(e.dt), mdt=q(e.model.dt), d=d, dobs=dobs or d, dimx=int(e.model.dim_x), dimobs=int(e.model.dim_obs), lobs=str(e.model.L_obs), wantobs="obs" if dobs else ("a" if "a" in REQ[m] else "v"), lags=[])
            if d == 1:
                # without the trajectories' own default: the default truncation is one
                e = vb.Estimator_gle(trajs, getattr(vb, m), gen.basis(dict(kind="linear")), saveall=False, verbose=False)
                e2 = vb.Estimator_gle(trajs, getattr(vb, m), gen.basis(dict(kind="linear")), trunc=1.0, saveall=False, verbose=False)
                rec.ev("same", what="default-truncation", a=[str(e2.trunc_ind)], b=[str(e.trunc_ind)], tol="0")
                # talking about it changes nothing
                res = []
                for verbose in (False, True):
                    e = vb.Estimator_gle(trajs, getattr(vb, m), gen.basis(dict(kind="poly", deg=1)), trunc=t0 + 3.5 * dt, saveall=False, verbose=verbose)
                    e.compute_gram_force()
                    e.compute_mean_force()
                    e.compute_effective_mass()
                    o = [e.model.gram_force, e.model.force_coeff, e.model.eff_mass]
                    if t0 == 0:
                        e.compute_corrs(**({} if m == "Pos_gle_overdamped" else {}))
                        o += [e.bkbkcorrw, e.bkdxcorrw]
                        for meth in ("rect", "trapz", "second_kind_rect"):
                            e.compute_kernel(method=meth)
                            o.append(e.model.kernel)
                    res.append([qa(np.asarray(x)) for x in o])
                for a, b in zip(*res):
                    rec.ev("same", what="verbose", a=a, b=b, tol="0")
    elif p["kind"] == "refuse":
        m = p["model"]
        good = [gen.traj(r, N, 1, dt=0.5) for N in (12, 15)]

        def mk(ts, **kw):
            return rec.outcome(lambda: vb.Estimator_gle(ts, getattr(vb, m), gen.basis(dict(kind="linear")), trunc=1.0, saveall=False, verbose=False, **kw))

        rec.ev("accepted", what="complete trajectories", outcome=mk(good))
        rec.ev("accepted", what="a tuple of trajectories", outcome=mk(tuple(good)))
        rec.ev("accepted", what="one trajectory", outcome=mk(good[0]))
        for pos in (0, 1):
            def with_(bad):
                return [bad if i == pos else t for i, t in enumerate(good)]

            nodt = good[pos].copy()
            nodt.attrs = {}
            rec.ev("refused", what="a trajectory without time step", outcome=mk(with_(nodt)))
            rec.ev("refused", what="a trajectory without time", outcome=mk(with_(good[pos].rename({"time": "t"}))))
            for lobs in ("x", "v", "a"):
                for col in REQ[m]:
                    rec.ev("refused", what="a trajectory without %s, observable %s" % (col, lobs), outcome=mk(with_(good[pos].drop_vars(col)), L_obs=lobs))
            for col in REQ[m]:
                rec.ev("refused", what="a trajectory without " + col, outcome=mk(with_(good[pos].drop_vars(col))))
            if "a" not in REQ[m]:
                rec.ev("accepted", what="a trajectory without acceleration", outcome=mk(with_(good[pos].drop_vars("a"))))
            o = [t.assign(obs=t["x"] * t["x"]) for t in good]
            rec.ev("accepted", what="an observable of the trajectories", outcome=mk(o, L_obs="obs"))
            o[pos] = good[pos]
            rec.ev("refused", what="a missing observable", outcome=mk(o, L_obs="obs"))
        nodt = good[0].copy()
        nodt.attrs = {}
        rec.ev("refused", what="one trajectory without time step", outcome=mk(nodt))
    else:
        k, d = p["k"], p["d"]
        lens = [int(x) for x in r.choice([7, 9, 12, 15, 21], size=k)]
        lens = p.get("N", lens)
        trajs = [gen.traj(r, N, d, dt=0.5) for N in lens]
        if "N" in p:
            for n, t in enumerate(trajs):  # the extremes come last, and every trajectory has its own level
                t["x"] = t["x"] + n - 0.5
                t["x"][-1] = 7.5 + n if n % 2 else -7.5 - n
        xs = [gen.arr(t, "x") for t in trajs]
        e = gen.estimator(trajs, "Pos_gle", dict(kind="linear"), 1.0)
        res = e.describe_data()
        describe(rec, res, xs, var=True)
        # block by block, in any order and grouping
        parts = [scipy.stats.describe(xs[i]) for i in r.permutation(k)]
        while len(parts) > 1:
            i = int(r.randint(len(parts) - 1))
            parts[i : i + 2] = [bf.sum_describe(parts[i], parts[i + 1])]
        describe(rec, parts[0], xs, var=True)
        describe(rec, e.describe_data(), xs)
        acc = bf.minimal_describe(xs[0])
        describe(rec, acc, xs[:1])
        for i in range(1, k):
            acc = bf.sum_describe(acc, bf.minimal_describe(xs[i]))
            describe(rec, acc, xs[: i + 1])
        describe(rec, bf.quick_describe(xs[0]), xs[:1], stats="none")
        rec.ev("same", what="description-from-the-dimension", a=[str(d)], b=[str(len(bf.describe_from_dim(d).mean))], tol="0")
        # a basis fitted by the estimator is the basis fitted on all the data
        pts = gen.rnd(r.uniform(-1, 1, size=(6, d)))
        for b in [dict(kind="linear", center=True)] + ([dict(kind="bspline", n=5)] if d == 1 else []) + ([dict(kind="tensor", b1=dict(kind="bspline", n=4))] if d == 2 else []):
            e = gen.estimator(trajs, "Pos_gle", b, 1.0)
            own = gen.basis(b)
            own.fit(np.concatenate(xs))
            rec.ev("same", what="basis-fitted-on-all-data", a=qa(own.basis(pts)), b=qa(e.model.basis.basis(pts)), tol="1/1000000000")
            own = gen.basis(b)
            own.fit(bf.describe_from_dim(d))
            rec.ev("same", what="basis-fitted-on-the-dimension", a=[str(e.model.basis.n_output_features_)], b=[str(own.n_output_features_)], tol="0") if b["kind"] == "linear" else None


if __name__ == "__main__":
    lib.main(cases, run)
