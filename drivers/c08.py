import numpy as np
import lib
import gen
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    reps = 1 if tier == "quick" else 6
    for rep in range(reps):
        for i, (m, b, d) in enumerate(gen.combos()):
            r = rng(seed, "c08", i, rep)
            lens = [int(x) for x in r.choice([16, 18, 21, 25, 30], size=int(r.choice([1, 2, 3])))]
            if d == 3 or b["kind"] in ("bspline", "tensor"):
                lens = [x + 14 for x in lens]
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=lens, dt=float(r.choice([0.25, 1.0, 0.5])), obs=[None, None, "obs1", "obs2", "x"][int(r.randint(5))], dask=bool(r.randint(4) == 0) and b["kind"] != "tensor")))
    for i, (m, b, d) in enumerate(gen.combos()):
        if i % 6 == 0 or tier == "thorough":  # longer trajectories
            r = rng(seed, "c08l", i)
            out.append(("long-%s-%s-d%d-%d" % (m, b["kind"], d, i), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=[120] if i % 4 else [64, 20, 85], dt=0.25, obs=None, dask=bool(i % 12 == 0) and b["kind"] != "tensor")))
    for i, (m, off) in enumerate([("Pos_gle", 24.0), ("Pos_gle_no_vel_basis", 48.0), ("Pos_gle_overdamped", 16.0), ("Pos_gle_hybrid", 24.0), ("Pos_gle_const_kernel", 12.0), ("Pos_gle_with_friction", 20.0)]):
        # far from the origin: nearly dependent functions
        r = rng(seed, "c08o", i)
        for deg in (1, 2):
            out.append(("offset-%s-%d" % (m, deg), dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind="poly", deg=deg, remove_const=m == "Pos_gle_with_friction"), d=1, lens=[40, 30], dt=0.5, obs=None, dask=False, offset=off / deg)))
    for i, (m, b, d) in enumerate([("Pos_gle", "linear", 1), ("Pos_gle_no_vel_basis", "linear", 2), ("Pos_gle_overdamped", "linear", 2), ("Pos_gle_hybrid", "linear", 1), ("Pos_gle_const_kernel", "linear", 3), ("Pos_gle_with_friction", "linear", 1)]):
        for scale in (2.0**-20, 2.0**10):  # nothing is granted to data of small or large magnitude
            r = rng(seed, "c08s", i)
            out.append(("scale-%s-%g" % (m, scale), dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind=b), d=d, lens=[30, 24], dt=0.5, obs=None, dask=False, scale=scale)))
            # functions of very different magnitude
            out.append(("graded-%s-%g" % (m, scale), dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind="poly", deg=1, remove_const=m == "Pos_gle_with_friction"), d=1, lens=[30, 24], dt=0.5, obs=None, dask=False, scale=scale)))
    for i, (m, b, d) in enumerate([("Pos_gle", dict(kind="poly", deg=2), 1), ("Pos_gle_no_vel_basis", dict(kind="fourier", order=1), 1), ("Pos_gle_overdamped", dict(kind="linear"), 2), ("Pos_gle_hybrid", dict(kind="linear"), 1), ("Pos_gle_const_kernel", dict(kind="bspline", n=5, k=3), 1), ("Pos_gle_with_friction", dict(kind="poly", deg=1, remove_const=True), 1)]):
        r = rng(seed, "c08h", i)
        out.append(("huge-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=[[2700], [1030, 1500], [40, 4100]][i % 3], dt=0.25, obs=None, dask=False)))
    for i, m in enumerate(gen.MODELS):
        r = rng(seed, "c08v", i)  # components of very different velocity
        out.append(("aniso-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind="linear"), d=2 + i % 2, lens=[30, 24], dt=0.5, obs=None, dask=False, aniso=True)))
    return out


def run(rec, p):
    r = rng(p["seed"])
    d = p["d"]
    dobs = {"obs1": 1, "obs2": 2}.get(p["obs"])
    trajs = [gen.traj(r, N, d, dt=p["dt"], dobs=dobs, dask=p["dask"]) for N in p["lens"]]
    if p.get("offset"):
        for t in trajs:
            t["x"] = t["x"] + p["offset"]
    for t in trajs:
        if p.get("scale"):
            for k in ("x", "v", "a"):
                t[k] = t[k] * p["scale"]
        if p.get("aniso"):
            t["v"] = t["v"] * np.array([1.0, 64.0, 1.0 / 32])[:d]
    lobs = "obs" if dobs else p["obs"]
    kw = {} if lobs is None else dict(L_obs=lobs)
    arg = trajs[0] if len(trajs) == 1 and r.randint(2) else trajs
    est = gen.estimator(arg, p["model"], p["basis"], 4 * p["dt"], **kw)
    m = est.model
    od = gen.odim(est)
    base = dict(model=p["model"], trajs=gen.raw(est, trajs))

    def gram():
        return qa(gen.T(m.gram_force, "dim_basis'", "dim_basis"))

    with rec.guard("gram"):
        est.compute_gram_force()
        rec.ev("force", coeff="absent", gram=gram(), **base)
    if p["seed"] % 3:
        gen.aside(est, p["seed"] + 5)
    with rec.guard("force"):
        ret = est.compute_mean_force()
        rec.ev("force", coeff=qa(gen.T(m.force_coeff, "dim_basis", od)), gram=gram(), **base)
    with rec.guard("mean"):
        mean = est.compute_basis_mean()
        rec.ev("mean", mean=qa(mean), **base)
    with rec.guard("mass"):
        est.compute_effective_mass()
        rec.ev("mass", mass=qa(m.eff_mass), **base)
    if p["seed"] % 3:
        gen.aside(est, p["seed"] + 6)
    with rec.guard("gram_kernel"):
        P = "absent"
        if m.rank_projection:
            est.compute_corrs()
            P = qa(gen.T(m.P_range, "dim_basis", "dim_basis_old"))
        est.compute_gram_kernel()
        rec.ev("gramkernel", gram=qa(gen.T(m.gram_kernel, "dim_basis'", "dim_basis")), P=P, **base)
    with rec.guard("anew"):  # the data have changed: nothing of the former results stays
        for t in trajs:
            t["x"] = t["x"] * 0.75
            t["v"] = t["v"] * 1.25 + 0.5 * (p.get("scale") or 1.0)
            t["a"] = -t["a"]
        base = dict(model=p["model"], trajs=gen.raw(est, trajs))
        if p["seed"] % 2:
            est.compute_effective_mass()
            rec.ev("mass", mass=qa(m.eff_mass), **base)
        est.compute_mean_force()
        rec.ev("force", coeff=qa(gen.T(m.force_coeff, "dim_basis", od)), gram=gram(), **base)
        rec.ev("mean", mean=qa(est.compute_basis_mean()), **base)
    with rec.guard("zero"):
        if p["seed"] % 2:  # whatever the force was
            m.force_coeff = m.force_coeff * np.nan
        est.set_zero_force()
        o = base["trajs"][0]
        rec.ev("zero", coeff=qa(gen.T(m.force_coeff, "dim_basis", od)), nf=int(m.N_basis_elt_force), dobs=len(o["obs"][0]))


if __name__ == "__main__":
    lib.main(cases, run)
