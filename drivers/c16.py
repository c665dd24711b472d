import numpy as np
import xarray as xr
import lib
import gen
import VolterraBasis as vb
import VolterraBasis.basis as bf
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    for nb in (1, 2, 3, 4):
        for L in (2, 3, 4, 6, 9, 15):
            for rep in range(1 if tier == "quick" else 6):
                r = rng(seed, "c16", nb, L, rep)
                out.append(("ide-%d-L%d-%d" % (nb, L, rep), dict(seed=int(r.randint(1 << 30)), nb=nb, L=L, no=int(r.choice([1, 2, 3])), T=int(r.choice([1, 2, 3, 5, 10, 14])), dt=float(r.choice([0.25, 0.125, 0.1, 0.3])))))
    for nb, L, T in [(1, 120, 140), (1, 270, 280), (2, 30, 70), (1, 5, 300), (3, 40, 25)]:
        r = rng(seed, "c16l", nb, L, T)
        out.append(("long-%d-L%d-T%d" % (nb, L, T), dict(seed=int(r.randint(1 << 30)), nb=nb, L=L, no=1, T=T, dt=0.03125)))
    return out


def model(nb, do, dt, L):
    return vb.Pos_gle_overdamped(bf.PolynomialFeatures(nb - 1, remove_const=False), dt, dim_x=1, dim_obs=do, trunc_ind=L)


def run(rec, p):
    r = rng(p["seed"])
    nb, L, no, dt = p["nb"], p["L"], p["no"], p["dt"]
    m = model(nb, nb, dt, L)
    K = r.randint(-16, 17, size=(L, nb, nb)) / 8.0
    f = r.randint(-16, 17, size=(nb, nb)) / 8.0
    m.force_coeff = xr.DataArray(f, dims=("dim_basis", "dim_dE"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_dE"), coords={"time_kernel": np.arange(L) * dt})
    for meth in ["rect", "trapz", "trapz_stab", "default"]:
        # the evolution takes the values one per function of the basis
        G0 = r.randint(0, 17, size=(nb, nb)) / 16.0 if meth == "trapz_stab" else r.randint(-16, 17, size=(nb, nb)) / 8.0
        if meth == "trapz_stab":
            G0 = G0 + 0.0625
            G0 /= G0.sum()
        for tr in [None, -1, 0, 1, 2, max(2, L // 2), L + 5]:
            kw = {} if meth == "default" else dict(method=meth)
            if tr is not None:
                kw["trunc_ind"] = tr
            t, E = m.evolve_volterra(G0, p["T"], **kw)
            tt = L if tr is None or tr <= 0 else min(tr, L)
            rec.ev("ide", method="trapz" if meth == "default" else meth, K=qa(K), f=qa(f), G0=qa(G0), dt=q(dt), T=p["T"], trunc=tt, otime=qa(t), out=qa(np.moveaxis(np.asarray(E), -1, 0)))
    # longer ones after shorter ones: the model is as it was
    rec.ev("ide", method="trapz", K=qa(K), f=qa(f), G0=qa(G0), dt=q(dt), T=p["T"] + L + 2, trunc=L, otime=qa((r2 := m.evolve_volterra(G0, p["T"] + L + 2))[0]), out=qa(np.moveaxis(np.asarray(r2[1]), -1, 0)))
    if nb > 1:
        m.force_coeff = xr.DataArray(f[:, :1], dims=("dim_basis", "dim_dE"))
        rec.ev("refused", what="evolution with a rectangular force matrix", outcome=rec.outcome(m.evolve_volterra, G0, 5))
        m.force_coeff = xr.DataArray(f, dims=("dim_basis", "dim_dE"))
        rec.ev("refused", what="evolution from a start of the wrong size", outcome=rec.outcome(m.evolve_volterra, G0[:1], 5))
        m.kernel = xr.DataArray(K[:, :, :1], dims=("time_kernel", "dim_basis", "dim_dE"))
        rec.ev("refused", what="evolution with a rectangular kernel", outcome=rec.outcome(m.evolve_volterra, G0, 5))
    base = vb.Pos_gle(bf.PolynomialFeatures(1), dt, dim_x=1, dim_obs=1, trunc_ind=L)
    rec.ev("refused", what="evolution of a model which is not closed", outcome=rec.outcome(base.evolve_volterra, np.eye(1), 5))


if __name__ == "__main__":
    lib.main(cases, run)
