import numpy as np
import lib
import gen
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    reps = 1 if tier == "quick" else 6
    for rep in range(reps):
        for i, (m, b, d) in enumerate(gen.combos()):
            r = rng(seed, "c09", i, rep)
            lens = [int(x) for x in r.choice([11, 13, 16, 19, 32], size=int(r.choice([1, 2, 3])))]
            if d == 3 or b["kind"] in ("bspline", "tensor"):
                lens = [x + 10 for x in lens]
            tr = int(r.choice([1, 3, 5, 8]))
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=lens, dt=float(r.choice([0.25, 1.0, 0.5])), tr=tr, obs=[None, None, "obs1", "obs2", "x"][int(r.randint(5))], dask=bool(i % 5 == 2) and b["kind"] != "tensor", force=["fit", "fit", "zero", "set"][int(r.randint(4))])))
    # correlations over the whole length of the shortest trajectory
    for i, m in enumerate(gen.MODELS):
        r = rng(seed, "c09full", i)
        out.append(("full-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind="poly", deg=1), d=1, lens=[9, 12], dt=0.5, tr=50, obs=None, dask=False, force="fit")))
    for i, m in enumerate(gen.MODELS):  # long trajectories
        r = rng(seed, "c09long", i)
        out.append(("long-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind="linear"), d=1, lens=[int(r.choice([521, 530, 601]))], dt=0.25, tr=2, obs=None, dask=False, force="fit")))
    for i, m in enumerate(gen.MODELS):  # very long ones
        if tier == "thorough" or i % 3 == seed % 3:
            r = rng(seed, "c09huge", i)
            out.append(("huge-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind="linear"), d=1, lens=[int(r.randint(4100, 5000))], dt=0.25, tr=2, obs=None, dask=False, force="set", opts=2)))
    for i, (b, d) in enumerate([(gen.TENS, 2), (dict(kind="tensor", b1=dict(kind="linear"), b2=dict(kind="poly", deg=2)), 2), (dict(kind="combine", parts=[dict(kind="linear"), dict(kind="fourier", order=1)]), 2), (gen.LIN, 3)]):
        r = rng(seed, "c09fr", i)  # combinations the estimation of a kernel is not regular on, but the correlations are
        out.append(("friction-%d" % i, dict(seed=int(r.randint(1 << 30)), model="Pos_gle_with_friction", basis=b, d=d, lens=[23, 31], dt=0.5, tr=4, obs=None, dask=False, force="zero" if i == 2 else "set0")))
    # a tensorial basis over dask arrays: see known-findings.json
    for m in ["Pos_gle_no_vel_basis"]:
        out.append(("dask-tensor-%s" % m, dict(seed=17, model=m, basis=gen.TENS, d=2, lens=[21, 24], dt=0.5, tr=3, obs=None, dask=True, force="fit")))
    return out


def snap(trajs):
    return [{k: np.array(np.asarray(ds[k].data)) for k in ds.variables} for ds in trajs]


def run(rec, p):
    r = rng(p["seed"])
    d = p["d"]
    dobs = {"obs1": 1, "obs2": 2}.get(p["obs"])
    trajs = [gen.traj(r, N, d, dt=p["dt"], dobs=dobs, dask=p["dask"]) for N in p["lens"]]
    lobs = "obs" if dobs else p["obs"]
    kw = {} if lobs is None else dict(L_obs=lobs)
    before = snap(trajs)
    # times 0, dt, ..: the correlations have the lags up to the truncation time, and at most the shortest trajectory
    trunc = min(p["tr"], min(p["lens"]))
    options = [dict(), dict(method="direct"), dict(method="fft", vectorize=True), dict(method="direct", vectorize=True), dict(second_order_method=False)]
    if r.randint(3) == 0:
        options.append(dict(large=True))
    if p["dask"]:
        options = [dict(), dict(method="direct"), dict(second_order_method=False)]
    options = options[: p.get("opts", len(options))]
    first = None
    for opt in options:
        with rec.guard(repr(opt)):
            est = gen.estimator(trajs, p["model"], p["basis"], (p["tr"] - 0.5) * p["dt"], **kw)
            m = est.model
            if p["force"] in ("zero", "set0"):
                est.set_zero_force()
            else:
                est.compute_mean_force()
            if p["force"] in ("set", "set0"):
                m.force_coeff = m.force_coeff * 0 + 0.5
            if first is None:
                first = dict(model=p["model"], trajs=gen.raw(est, trajs), trunc=trunc)
            if p["seed"] % 3:
                gen.aside(est, p["seed"] + 5)
            est.compute_corrs(**opt)
            P = qa(gen.T(m.P_range, "dim_basis", "dim_basis_old")) if m.rank_projection else "absent"
            now = snap(trajs)
            unchanged = all(set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a) for a, b in zip(before, now))
            rec.ev("corrs", opt=repr(opt), coeff=qa(gen.T(m.force_coeff, "dim_basis", gen.odim(est))), P=P, second=opt.get("second_order_method", True), unchanged=bool(unchanged), **first, **gen.corr_arrays(est))


if __name__ == "__main__":
    lib.main(cases, run)
