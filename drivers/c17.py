import numpy as np
import xarray as xr
import lib
import gen
import volt
import c16
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    for nb, do in [(1, 1), (2, 1), (1, 2), (3, 2), (2, 2)]:
        for L in (2, 3, 4, 5, 7, 8, 11):
            for rep in range(1 if tier == "quick" else 6):
                r = rng(seed, "c17", nb, do, L, rep)
                out.append(("diag-%dx%d-L%d-%d" % (nb, do, L, rep), dict(kind="diag", seed=int(r.randint(1 << 30)), nb=nb, do=do, L=L, dt=float(r.choice([0.25, 0.125, 1.0])))))
    for nb, do, L, T in [(1, 1, 90, 120), (2, 2, 12, 60), (1, 2, 64, 50), (1, 1, 4, 700), (1, 1, 300, 20)]:
        r = rng(seed, "c17l", nb, do, L, T)
        out.append(("long-%dx%d-L%d" % (nb, do, L), dict(kind="diag", seed=int(r.randint(1 << 30)), nb=nb, do=do, L=L, T=T, dt=0.125)))
    for Tn, nb, do in [(70, 1, 1), (26, 2, 1)]:
        r = rng(seed, "c17m", Tn, nb, do)
        out.append(("long-check-%dx%d-T%d" % (nb, do, Tn), dict(kind="check", seed=int(r.randint(1 << 30)), nb=nb, do=do, T=Tn, dt=0.25)))
    for Tn in (5, 6, 8, 11):
        for nb, do in [(1, 1), (2, 1), (2, 3), (3, 2)]:
            r = rng(seed, "c17k", Tn, nb, do)
            out.append(("check-%dx%d-T%d" % (nb, do, Tn), dict(kind="check", seed=int(r.randint(1 << 30)), nb=nb, do=do, T=Tn, dt=float(r.choice([0.25, 0.5])))))
    return out


def run(rec, p):
    r = rng(p["seed"])
    nb, do, dt = p["nb"], p["do"], p["dt"]
    if p["kind"] == "check":
        est = volt.holder(r, do, p["T"], dt, nb=nb)
        rec.ev("refused", what="check before the kernel", outcome=rec.outcome(est.check_volterra_inversion))
        volt.inject(est, *volt.synth(r, nb, do, p["T"]))
        for meth in volt.METHODS_FIRST + volt.METHODS_SECOND:
            if meth in ("midpoint_w_richardson", "midpoint"):
                continue
            est.compute_kernel(method=meth)
            if p["seed"] % 3:
                gen.aside(est, p["seed"] + len(meth))
            c = volt.corr_tf(est)
            K = qa(gen.T(est.model.kernel, "time_kernel", "dim_basis", gen.odim(est)))
            for diff in (False, True):
                res = est.check_volterra_inversion(return_diff=diff)
                rec.ev("check", B=c["B"], D=c["D"], K=K, dt=q(dt), diff=diff, out=qa(np.moveaxis(np.asarray(res), -1, 0)))
            res = est.check_volterra_inversion()
            rec.ev("check", B=c["B"], D=c["D"], K=K, dt=q(dt), diff=False, out=qa(np.moveaxis(np.asarray(res), -1, 0)))
        return
    L = p["L"]
    m = c16.model(nb, do, dt, L)
    rec.ev("refused", what="Laplace transform before the kernel", outcome=rec.outcome(m.laplace_transform_kernel))
    K = r.randint(-16, 17, size=(L, nb, do)) / 8.0
    f = r.randint(-16, 17, size=(nb, do)) / 8.0
    m.force_coeff = xr.DataArray(f, dims=("dim_basis", "dim_o"))
    for stride in (1, 2):
        kt = np.arange(L) * dt * stride
        m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_o"), coords={"time_kernel": kt})
        for kw in [{}, dict(n_points=5), dict(s_start=0.5, s_end=2.0, n_points=4), dict(s_start=1.0, n_points=3), dict(s_end=0.75)]:
            if L > 20 and (stride == 2 or kw.get("n_points", L) > 4):
                continue
            s, lap = m.laplace_transform_kernel(**kw)
            rec.ev("laplace", K=qa(K), ktime=qa(kt), ns=kw.get("n_points", L), s0=q(kw.get("s_start", 0.0)), s1=q(kw.get("s_end", 1.0 / dt)), os=qa(s), out=qa(lap))
    if L < 20:  # a kernel shorter or longer than the truncation: as many values as the truncation has by default
        for L2 in (L - 1, L + 2):
            if L2 < 2:
                continue
            Ks = r.randint(-16, 17, size=(L2, nb, do)) / 8.0
            m.kernel = xr.DataArray(Ks, dims=("time_kernel", "dim_basis", "dim_o"), coords={"time_kernel": np.arange(L2) * dt})
            s, lap = m.laplace_transform_kernel()
            rec.ev("laplace", K=qa(Ks), ktime=qa(np.arange(L2) * dt), ns=int(m.trunc_ind), s0="0", s1=q(1.0 / dt), os=qa(s), out=qa(lap))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_o"), coords={"time_kernel": np.arange(L) * dt})
    Tn = p.get("T") or int(r.choice([1, 2, 4, 9, 13]))
    no = int(r.choice([1, 2, 3]))
    Bf = r.randint(-16, 17, size=(no, nb, Tn)) / 8.0
    Bk = r.randint(-16, 17, size=(no, nb, Tn)) / 8.0
    f2 = r.randint(-16, 17, size=(nb, do)) / 8.0
    K2 = r.randint(-16, 17, size=(max(2, L - 1), nb, do)) / 8.0
    K3 = r.randint(-16, 17, size=(L + 4, nb, do)) / 8.0  # longer than the truncation of the model
    Bs = r.randint(-16, 17, size=(no, nb, max(1, Tn - 1))) / 8.0  # times of its own
    Bl = r.randint(-16, 17, size=(no, nb, Tn + 2)) / 8.0
    mv = lambda a: qa(np.moveaxis(np.asarray(a), -1, 0))
    for meth in ["rect", "trapz", "simpson", "default"]:
        for kw in [{}, dict(corrs_kernel=Bk), dict(corrs_kernel=Bs), dict(corrs_kernel=Bl), dict(trunc_ind=2), dict(trunc_ind=1), dict(corrs_kernel=Bk, force_coeff=f2, kernel=K2), dict(trunc_ind=max(3, L // 2)), dict(kernel=K2, trunc_ind=L + 3)] + ([dict(kernel=K3), dict(kernel=K3, trunc_ind=L + 2)] if L < 20 else []):
            if kw == dict(trunc_ind=1) and meth != "rect":
                continue  # no interval to integrate over: left open
            k2 = dict(kw)
            if meth != "default":
                k2["method"] = meth
            with rec.guard("flux"):
                ft, mt = m.flux_from_volterra(Bf, **k2)
                rec.ev("flux", method="trapz" if meth == "default" else meth, Bf=mv(Bf), Bk=mv(kw.get("corrs_kernel", Bf)), f=qa(kw.get("force_coeff", f)), K=qa(kw.get("kernel", K)), trunc=int(kw.get("trunc_ind") or 10000), dt=q(dt), force=qa(ft), mem=qa(mt))


if __name__ == "__main__":
    lib.main(cases, run)
