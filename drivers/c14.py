"""Noise decomposition: compute_noise on every model, for slices, truncations and rules."""
import numpy as np
import xarray as xr
import lib
import gen
from lib import q, qa, rng

RULES = ["rectangular", "rect", "second_kind_rect", "trapz", "second_kind_trapz", None]


def cases(tier, seed, gen_):
    out = []
    for i, (m, b, d) in enumerate(gen.combos()):
        for rep in range(1 if tier == "quick" else 5):
            r = rng(seed, "c14", i, rep)
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=int(r.choice([0, 1, 2])), N=int(r.choice([14, 19, 24])), t0=float(r.choice([0.0, 1.5, -2.0])), dt=float(r.choice([0.25, 0.5])), rank=False, L=int(r.choice([4, 6])))))
    for i, (m, b, d, N, L) in enumerate([("Pos_gle", dict(kind="poly", deg=1), 1, 150, 70), ("Pos_gle_const_kernel", dict(kind="linear"), 2, 60, 60), ("Pos_gle_hybrid", dict(kind="poly", deg=1), 1, 260, 9), ("Pos_gle_overdamped", dict(kind="poly", deg=2), 1, 90, 80), ("Pos_gle_no_vel_basis", dict(kind="linear"), 1, 310, 280)]):  # long memories, long trajectories
        r = rng(seed, "c14l", i)
        out.append(("long-%d" % i, dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=0, N=N, t0=0.0, dt=0.125, rank=False, L=L)))
    for i, (m, b, d) in enumerate([("Pos_gle", dict(kind="poly", deg=1), 1), ("Pos_gle_const_kernel", dict(kind="linear"), 2), ("Pos_gle_hybrid", dict(kind="linear"), 1)]):
        r = rng(seed, "c14h", i)
        out.append(("huge-%d" % i, dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=0, N=[2500, 1100, 1700][i], t0=0.0, dt=0.125, rank=False, L=3)))
    for i, (b, d) in enumerate([(dict(kind="poly", deg=2, remove_const=False), 1), (dict(kind="fourier", order=1, remove_const=False), 1), (dict(kind="linear", remove_const=False), 2)]):
        r = rng(seed, "c14p", i)
        out.append(("projected-%d" % i, dict(seed=int(r.randint(1 << 30)), model="Pos_gle", basis=b, d=d, do=1, N=20, t0=1.0, dt=0.25, rank=True, L=5)))
    return out


def setup(p, r, ntraj=1, lens=None):
    d, N, dt = p["d"], p["N"], p["dt"]
    do = p["do"] or None
    lens = lens or [N] * ntraj
    trajs = [gen.traj(r, n, d, dt=dt, t0=p["t0"], dobs=do) for n in lens]
    kw = dict(L_obs="obs") if do else {}
    est = gen.estimator(trajs, p["model"], p["basis"], p["t0"] + (p["L"] - 0.5) * dt, **kw)
    m = est.model
    od = gen.odim(est)
    ndo = m.dim_obs
    coeff = r.randint(-8, 9, size=(m.N_basis_elt_force, ndo)) / 8.0
    m.force_coeff = xr.DataArray(coeff, dims=("dim_basis", od))
    P = "absent"
    nk = m.N_basis_elt_kernel
    if m.rank_projection:
        est.compute_corrs()
        P = qa(gen.T(m.P_range, "dim_basis", "dim_basis_old"))
        nk = m.P_range.sizes["dim_basis"]
    K = r.randint(-8, 9, size=(p["L"], nk, ndo)) / 8.0
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", od), coords={"time_kernel": np.arange(p["L"]) * dt})
    if p["seed"] % 3:
        gen.aside(est, p["seed"] + 5)
    return est, m, trajs, od, coeff, K, P


def snapshot(t):
    return {k: np.array(t[k].data).tobytes() for k in t.data_vars}, t["time"].data.tobytes(), tuple(t.data_vars)


def run(rec, p):
    r = rng(p["seed"])
    import VolterraBasis as vb

    est0 = gen.estimator([gen.traj(r, 12, p["d"], dt=p["dt"])], p["model"], p["basis"], 1.0)
    rec.ev("refused", what="noise before the mean force", outcome=rec.outcome(est0.model.compute_noise, est0.xva_list[0]))
    est, m, trajs, od, coeff, K, P = setup(p, r)
    t = trajs[0]
    N = p["N"]
    before = snapshot(t)
    slices = [(0, None), (0, N - 3), (1, -3), (3, None), (2, N - 4), (-8, None), (-9, -2), (1, N + 5)]
    truncs = [None, 2, p["L"] + 3, 1]
    n = 0
    for rule in RULES:
        m.method = rule
        # every slice and truncation for two of the rules, one of them for the others
        combos = [(s, tk) for s in slices for tk in truncs]
        if N > 1000:
            combos = [((0, None), None), ((2, N - 4), 2)]
        pick = combos if N > 1000 or (rule in ("rect", "trapz") and p["N"] == 14) else [combos[i] for i in r.choice(len(combos), size=4, replace=False)]
        for (a, b), tk in pick:
            if tk == 1 and rule in ("trapz", "second_kind_trapz"):
                continue  # no interval to integrate over: left open
            kw = {}
            if tk is not None:
                kw["trunc_kernel"] = tk
            if (a, b) != (0, None):
                kw.update(start_point=a, end_point=b)
            f = est.compute_noise if n % 2 else m.compute_noise   # the estimator exposes the methods of its model
            n += 1
            with rec.guard("noise"):
                time, noise, obs, force, mem = f(t, **kw)
                g = lambda da: qa(np.asarray(da.transpose("time", od).data) if isinstance(da, xr.DataArray) else np.asarray(da))
                rec.ev("noise", model=p["model"], traj=gen.raw(est, [t])[0], time=qa(t["time"].data), start=slice(a, b).indices(N)[0], stop=slice(a, b).indices(N)[1], coeff=qa(coeff), K=qa(K), P=P, rule=rule or "rect", trunc=p["L"] if tk is None else tk, dt=q(p["dt"]), otime=qa(time), noise=g(noise), obs=g(obs), force=g(force), mem=g(mem), unchanged=snapshot(t) == before)
    for rule in ("midpoint", "midpoint_w_richardson", "unknown"):
        m.method = rule
        rec.ev("refused", what="noise with a kernel of method " + rule, outcome=rec.outcome(m.compute_noise, t))


if __name__ == "__main__":
    lib.main(cases, run)
