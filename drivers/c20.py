"""Saving and loading models, and the files of an estimator."""
import os
import tempfile
import numpy as np
import xarray as xr
import lib
import gen
import VolterraBasis as vb
import c21
from lib import q, qa, rng

METHODS = ["rectangular", "rect", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]
ARR = ["force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"]
STEPS = ["nothing", "gram", "force", "zero", "corrs", "kernel", "full", "fullzero"]


def combos():
    return gen.combos() + [("Pos_gle", dict(kind="linear", remove_const=False), 2), ("Pos_gle_with_friction", dict(kind="poly", deg=2, remove_const=False), 1)]


def cases(tier, seed, gen_):
    out = []
    for i, (m, b, d) in enumerate(combos()):
        for rep in range(1 if tier == "quick" else 4):
            r = rng(seed, "c20", i, rep)
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=int(r.choice([0, 1, 2])), N=int(r.choice([40, 52])), dt=float(r.choice([0.25, 0.5])), L=int(r.choice([13, 15, 22])), steps=STEPS if tier != "quick" else ["full"] + [STEPS[int(k)] for k in r.choice(len(STEPS), size=3, replace=False)])))
    for i, m in enumerate(["Pos_gle", "Pos_gle_hybrid", "Pos_gle_overdamped"]):
        r = rng(seed, "c20f", i)
        out.append(("files-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=dict(kind="poly", deg=2), d=1, do=0, N=30, dt=0.25, L=8, steps=["files"])))
    for i, (m, b, d, do, proj) in enumerate(c21.COMB):
        mine = [g["path"] for g in gen_ if g["projects"] == proj]
        r = rng(seed, "c20w", i)
        per, reps = (8, 1) if tier == "quick" else (40, 6)
        for rep in range(reps):
            pick = [mine[k] for k in r.choice(len(mine), size=min(per, len(mine)), replace=False)]
            out.append(("walk-%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=do, projects=proj, walks=pick, more=5, steps=[])))
    return out


def walk(rec, p):
    """computations, saves and loads in the orders enumerated by TLC"""
    w = c21.World(p)
    r = rng(p["seed"], "walks")
    rec.ev("refs", refs={k: v for k, v in c21.refs(w).items() if k.split(":")[0] in ("force", "gram", "P", "kernel", "ktime", "gramk", "mass", "imass")})
    cls = getattr(vb, p["model"])

    class E:
        def __init__(self, model):
            self.model = model
            self.bkbkcorrw = self.bkdxcorrw = self.dotbkbkcorrw = self.dotbkdxcorrw = None

    def content(model):
        if model is None:
            return "absent"
        h = w.held(E(model))
        return dict(held={f: h[f] for f in ("force", "gram", "P", "kernel", "ktime", "gramk", "mass", "imass")}, method=str(model.method).lower(), projects=bool(model.rank_projection))

    for n, path in enumerate(p["walks"]):
        est = w.estimator()
        rec.ev("new", projects=p["projects"])
        saved = loaded = None
        todo = list(path) + [str(a) for a in r.choice(["mean_force", "zero_force", "corrs:second", "kernel:rect", "kernel:trapz", "gram_kernel", "pos_effective_mass", "save", "load"], size=p["more"])]
        for k, a in enumerate(todo):
            with rec.guard("walk " + a):
                out = "ok"
                if a == "save":
                    saved = est.model.save_model()
                    if (n + k) % 3 == 0:
                        saved.to_netcdf("w.nc")
                        with xr.open_dataset("w.nc") as f:
                            saved = f.load()
                elif a == "load":
                    out = "exc" if saved is None else "ok"
                    loaded = loaded if saved is None else cls.load_model(est.model.basis, saved)
                else:
                    out = rec.outcome(w.do, est, a)
                rec.ev("op", a=a, outcome=out, live=content(est.model), saved=content(None if saved is None else cls.load_model(est.model.basis, saved)), loaded=content(loaded))


def field(da):
    if da is None:
        return dict(there=False)
    dims = sorted(da.dims)
    return dict(there=True, dims=dims, v=qa(np.asarray(da.transpose(*dims).data)))


def state(m):
    s = {k: field(getattr(m, k)) for k in ARR}
    s["ktime"] = dict(there=False) if m.kernel is None else dict(there=True, dims=["t"], v=qa(m.kernel["time_kernel"].data))
    s.update(dt=q(m.dt), trunc_ind=q(m.trunc_ind), L_obs=str(m.L_obs), dim_x=q(m.dim_x), dim_obs=q(m.dim_obs), method=str(m.method), rank_projection=str(bool(m.rank_projection)), N_basis_elt_force=q(m.N_basis_elt_force), N_basis_elt_kernel=q(m.N_basis_elt_kernel))
    s["class"] = type(m).__name__
    return s


def big(a):
    a = np.abs(np.asarray(a))
    a = a[np.isfinite(a)]
    return float(np.max(a)) if a.size else 0.0


def fingerprint(ds):
    return {k: (tuple(v.dims), np.array(v.data).tobytes(), str(v.dtype)) for k, v in ds.variables.items()}, dict(ds.attrs), dict(ds.sizes)


def estimate(p, r, step):
    do = p["do"] or None
    trajs = [gen.traj(r, n, p["d"], dt=p["dt"], dobs=do) for n in (p["N"], p["N"] - 7)]
    kw = dict(L_obs="obs") if do else {}
    est = gen.estimator(trajs, p["model"], p["basis"], (p["L"] - 0.5) * p["dt"], **kw)
    singular = p["model"].startswith("Pos_gle_with_friction") and not est.model.basis.const_removed
    if step == "gram":
        est.compute_gram_force()
    if step == "force" and not singular:
        est.compute_mean_force()
    if step in ("zero", "fullzero") or (step in ("corrs", "kernel", "full") and singular):
        est.set_zero_force()
    elif step in ("corrs", "kernel", "full"):
        est.compute_mean_force()
    if step in ("corrs", "kernel", "full", "fullzero"):
        est.compute_corrs()
    if step in ("kernel", "full", "fullzero"):
        meth = METHODS[int(r.randint(len(METHODS)))]
        est.compute_kernel(method=meth)
    if step in ("full", "fullzero"):
        est.compute_gram_kernel()
        est.compute_effective_mass()
        try:
            est.compute_pos_effective_mass()
        except (np.linalg.LinAlgError, ValueError):
            pass  # singular for bases with a constant
    return est, trajs


def run(rec, p):
    if "walks" in p:
        return walk(rec, p)
    r = rng(p["seed"])
    for step in p["steps"]:
        if step == "files":
            files(rec, p, r)
            continue
        est, trajs = estimate(p, r, step)
        m = est.model
        cls = getattr(vb, p["model"])
        before = state(m)
        with rec.guard("save " + step):
            ds = m.save_model()
            rec.ev("save", step=step, before=before, after=state(m))
            for how in ("memory", "netcdf", "again"):
                src = ds
                if how == "netcdf":
                    ds.to_netcdf("model.nc")
                    src = xr.open_dataset("model.nc")
                fp = fingerprint(src)
                kw, over = {}, []
                if how == "again":   # explicit arguments win
                    kw = dict(L_obs="other", trunc_ind=int(m.trunc_ind) + 2, dt=float(m.dt) * 2)
                    over = [["L_obs", "other"], ["trunc_ind", q(m.trunc_ind + 2)], ["dt", q(float(m.dt) * 2)]]
                m2 = cls.load_model(m.basis if how != "netcdf" else gen.basis(p["basis"]).fit(np.concatenate([np.asarray(t["x"].data) for t in trajs])), src, **kw)
                rec.ev("load", step=step, how=how, model=before, loaded=state(m2), over=over, filesame=fingerprint(src) == fp)
                if how == "again":
                    continue
                # the loaded model answers as the original one
                scale = max([big(c) for c in (m.kernel, m.force_coeff, m.inv_mass_coeff) if c is not None] + [0.0])  # sums may cancel
                x = gen.rnd(r.uniform(-0.75, 0.75, size=(5, p["d"])), 1024)
                for f in ("force_eval", "kernel_eval", "pmf_eval", "friction_force_eval", "inv_mass_eval"):
                    if not hasattr(m, f):
                        continue
                    a, b = rec.call(getattr(m, f), x), rec.call(getattr(m2, f), x)
                    rec.ev("same", what="loaded-" + f, a=["1"] if a[0] == "ok" else ["0"], b=["1"] if b[0] == "ok" else ["0"], tol="0")
                    if a[0] == "ok" and b[0] == "ok":
                        rec.ev("same", what="loaded-" + f, a=qa(np.asarray(a[1])), b=qa(np.asarray(b[1])), tol=q(1e-8 * (1 + scale + big(a[1]))))
                for f, args in (("compute_noise", (trajs[0],)), ("compute_corrs_w_noise", (trajs[0],)), ("laplace_transform_kernel", ())):
                    a, b = rec.call(getattr(m, f), *args), rec.call(getattr(m2, f), *args)
                    rec.ev("same", what="loaded-" + f, a=["1"] if a[0] == "ok" else ["0"], b=["1"] if b[0] == "ok" else ["0"], tol="0")
                    if a[0] == "ok" and b[0] == "ok":
                        for u, w in zip(a[1], b[1]):
                            rec.ev("same", what="loaded-" + f, a=qa(np.asarray(u)), b=qa(np.asarray(w)), tol=q(1e-8 * (1 + big(u))))
                if how == "netcdf":
                    src.close()
            # a saved and loaded model can be saved again
            m3 = cls.load_model(m.basis, cls.load_model(m.basis, ds).save_model())
            rec.ev("load", step=step, how="twice", model=before, loaded=state(m3), over=[], filesame=True)


def files(rec, p, r):
    for n, (kw, second) in enumerate([(dict(saveall=True, prefix="run1_"), True), (dict(), True), (dict(saveall=True, prefix="sub/a_"), False), (dict(saveall=False), True)]):
        with rec.guard("files"):
            d = tempfile.mkdtemp(prefix="dir%d" % n, dir=os.getcwd())
            os.makedirs(d + "/sub")
            here = os.getcwd()
            os.chdir(d)
            try:
                trajs = [gen.traj(r, k, 1, dt=p["dt"]) for k in (30, 25)]
                est = vb.Estimator_gle(trajs, getattr(vb, p["model"]), gen.basis(p["basis"]), trunc=(p["L"] - 0.5) * p["dt"], verbose=False, **kw)
                est.compute_mean_force()
                est.compute_corrs(second_order_method=second)
                if n == 0:  # the last kernel is the one which is saved
                    est.compute_kernel(method="trapz")
                est.compute_kernel(method="rect")
                got = sorted(os.path.join(a, f)[2:] for a, _, fs in os.walk(".") for f in fs)
                pre = kw.get("prefix", "")
                want = [pre + "corrs.nc", pre + "kernel.nc"] if kw.get("saveall", True) else []
                content = []
                if kw.get("saveall", True) and got == sorted(want):
                    with xr.open_dataset(pre + "corrs.nc") as c:
                        for name, da in (("bkbk", est.bkbkcorrw), ("bkdx", est.bkdxcorrw)) + ((("dotbkbk", est.dotbkbkcorrw), ("dotbkdx", est.dotbkdxcorrw)) if second else ()):
                            content.append(dict(name=name, got=field(c[name] if name in c else None), want=field(da)))
                        content.append(dict(name="times", got=dict(there=True, dims=["t"], v=qa(c["time_trunc"].data)), want=dict(there=True, dims=["t"], v=qa(np.arange(est.model.trunc_ind) * est.dt))))
                    with xr.open_dataset(pre + "kernel.nc") as c:
                        content.append(dict(name="kernel", got=field(c["kernel"] if "kernel" in c else None), want=field(est.model.kernel)))
                        content.append(dict(name="kernel-times", got=field(c["time_kernel"]), want=field(est.model.kernel["time_kernel"])))
            finally:
                os.chdir(here)
            rec.ev("files", files=got, want=want, content=content)


if __name__ == "__main__":
    lib.main(cases, run)
