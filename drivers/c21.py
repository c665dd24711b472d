"""Orders of operations: behaviours generated by TLC, and random continuations of them."""
import numpy as np
import xarray as xr
import lib
import gen
from lib import q, qa, rng

COMB = [
    ("Pos_gle", dict(kind="poly", deg=2), 1, None, False),
    ("Pos_gle_no_vel_basis", dict(kind="poly", deg=1), 1, None, False),
    ("Pos_gle_overdamped", dict(kind="fourier", order=1, freq=1.0), 1, 2, False),
    ("Pos_gle_hybrid", dict(kind="poly", deg=1), 1, None, False),
    ("Pos_gle_const_kernel", dict(kind="linear"), 2, None, False),
    ("Pos_gle_with_friction", dict(kind="poly", deg=1), 1, 1, False),
    ("Pos_gle", dict(kind="poly", deg=2, remove_const=False), 1, None, True),
    ("Pos_gle", dict(kind="linear"), 2, 2, True),
]
COMPUTE = ["mean_force", "zero_force", "gram_force", "corrs:second", "corrs:first", "gram_kernel", "effective_mass", "pos_effective_mass", "kernel:unknown", "kernel:rect", "kernel:midpoint", "kernel:trapz", "kernel:second_kind_trapz"]
ASK = ["force_eval", "pmf_eval", "inv_mass_eval", "kernel_eval", "noise", "projected", "check", "laplace", "save_load"]
FORCES = ["mean", "zero"]
METHODS = ["rect", "midpoint", "trapz", "second_kind_trapz"]


def cases(tier, seed, gen_):
    out = []
    for i, (m, b, d, do, proj) in enumerate(COMB):
        mine = [dict(path=g["path"], refused=sorted(g["refused"])) for g in gen_ if g["projects"] == proj]
        short = [g for g in mine if len(g["path"]) <= 1 + (tier != "quick") and g["refused"]]
        r = rng(seed, "c21", i)
        per, reps = (14, 2) if tier == "quick" else (40, 16)
        for rep in range(reps):
            pick = (short if rep == 0 else []) + [mine[k] for k in r.choice(len(mine), size=min(per, len(mine)), replace=False)]
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=do, projects=proj, walks=pick, more=8)))
    out.append(("names", dict(names=True)))
    return out


def flat(*arrs):
    out = []
    for a in arrs:
        a = np.asarray(a)
        out += [str(x) for x in a.shape] + [q(x) for x in a.ravel().tolist()]
    return out


def fa(da):
    if da is None:
        return "absent"
    dims = sorted(da.dims)
    return flat(da.transpose(*dims).data)


class World:
    def __init__(self, p):
        r = rng(p["seed"])
        self.p = p
        self.trajs = [gen.traj(r, n, p["d"], dt=0.25, dobs=p["do"]) for n in (34, 27)]
        self.x = gen.rnd(r.uniform(-0.75, 0.75, size=(3, p["d"])))
        self.digest = self.fingerprint()

    def fingerprint(self):
        return [{k: (v.dims, np.array(v.data).tobytes()) for k, v in t.variables.items()} for t in self.trajs]

    def estimator(self):
        kw = dict(L_obs="obs") if self.p["do"] else {}
        return gen.estimator(self.trajs, self.p["model"], self.p["basis"], 9.5 * 0.25, **kw)

    def held(self, est):
        m = est.model
        dot0 = est.dotbkdxcorrw
        return dict(
            force=fa(m.force_coeff), gram=fa(m.gram_force), bkbk=fa(est.bkbkcorrw), bkdx=fa(est.bkdxcorrw), dotbkbk=fa(est.dotbkbkcorrw), dotbkdx=fa(dot0), P=fa(m.P_range), kernel=fa(m.kernel),
            ktime="absent" if m.kernel is None else flat(m.kernel["time_kernel"].data), gramk=fa(m.gram_kernel), mass=fa(m.eff_mass), imass=fa(m.inv_mass_coeff),
        )

    def do(self, est, a):
        if a == "mean_force":
            return est.compute_mean_force()
        if a == "zero_force":
            return est.set_zero_force()
        if a == "gram_force":
            return est.compute_gram_force()
        if a.startswith("corrs"):
            return est.compute_corrs(second_order_method=(a == "corrs:second"))
        if a == "gram_kernel":
            return est.compute_gram_kernel()
        if a == "effective_mass":
            return est.compute_effective_mass()
        if a == "pos_effective_mass":
            return est.compute_pos_effective_mass()
        return est.compute_kernel(method=a[7:])

    def ask(self, est, a):
        m, x = est.model, self.x
        if a == "force_eval":
            return flat(m.force_eval(x))
        if a == "pmf_eval":
            return flat(m.pmf_eval(x))
        if a == "inv_mass_eval":
            # with friction the inverse mass has no evaluation at positions alone: the coefficients stand for it
            if m.inv_mass_coeff is None:
                raise Exception("not there")
            return fa(m.inv_mass_coeff) if self.p["model"] == "Pos_gle_with_friction" else flat(m.inv_mass_eval(x))
        if a == "kernel_eval":
            return fa(m.kernel_eval(x))
        if a == "noise":
            time, noise, obs, force, mem = m.compute_noise(self.trajs[0])
            return flat(time) + fa(noise) + fa(force) + flat(mem)
        if a == "projected":
            return flat(*[np.asarray(u) for u in est.compute_projected_corrs()])
        if a == "check":
            return flat(est.check_volterra_inversion())
        if a == "laplace":
            return flat(*m.laplace_transform_kernel(n_points=3))
        if a == "save_load":
            type(m).load_model(m.basis, m.save_model())
            return []
        raise ValueError(a)


def refs(w):
    """every result and answer, each obtained in the plainest order from a fresh estimator"""
    R = {}
    for f in FORCES:
        e = w.estimator()
        w.do(e, f + "_force")
        R["force:" + f] = w.held(e)["force"]
        R["force_eval:" + f] = w.ask(e, "force_eval")
        R["pmf_eval:%s:0" % f] = w.ask(e, "pmf_eval")
        w.do(e, "effective_mass")
        R["pmf_eval:%s:1" % f] = w.ask(e, "pmf_eval")
        for second in (True, False):
            e = w.estimator()
            w.do(e, f + "_force")
            w.do(e, "corrs:second" if second else "corrs:first")
            h = w.held(e)
            if second:
                R["bkbk"], R["bkdx:" + f], R["dotbkbk"], R["dotbkdx:" + f], R["P"] = h["bkbk"], h["bkdx"], h["dotbkbk"], h["dotbkdx"], h["P"]
            else:
                R["dotbkdx0:" + f] = h["dotbkdx"]
        for m in METHODS:
            e = w.estimator()
            w.do(e, f + "_force")
            w.do(e, "corrs:second")
            w.do(e, "kernel:" + m)
            h = w.held(e)
            k = "%s:%s" % (f, m)
            R["kernel:" + k], R["ktime:" + m] = h["kernel"], h["ktime"]
            for g in FORCES:
                w.do(e, g + "_force")
                if m != "midpoint":
                    R["noise:%s:%s" % (g, k)] = w.ask(e, "noise")
                    R["projected:%s:%s" % (g, k)] = w.ask(e, "projected")
            R["kernel_eval:" + k] = w.ask(e, "kernel_eval")
            R["laplace:" + k] = w.ask(e, "laplace")
            R["check:%s:%s" % (f, k)] = w.ask(e, "check")
            o = "zero" if f == "mean" else "mean"
            w.do(e, o + "_force")
            w.do(e, "corrs:second")
            R["check:%s:%s" % (o, k)] = w.ask(e, "check")
    for a, key in (("gram_force", "gram"), ("effective_mass", "mass"), ("pos_effective_mass", "imass"), ("gram_kernel", "gramk")):
        e = w.estimator()
        if a == "gram_kernel" and w.p["projects"]:
            w.do(e, "zero_force")
            w.do(e, "corrs:second")
        w.do(e, a)
        R[key] = w.held(e)[key]
        if a == "pos_effective_mass":
            R["inv_mass_eval"] = w.ask(e, "inv_mass_eval")
    return {k: v for k, v in R.items() if v != "absent"}


def names(rec):
    import VolterraBasis as vb
    import VolterraBasis.basis as bf

    missing = []
    for mod in (vb, bf):
        ns = {}
        exec("from %s import *" % mod.__name__, ns)
        missing += [n for n in getattr(mod, "__all__", []) if n not in ns]
    want = ["Estimator_gle", "Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid", "Pos_gle_overdamped", "Integrator_gle", "Integrator_gle_const_kernel", "xframe", "compute_a", "compute_va", "concat_underdamped", "correlation_fft", "correlation_direct", "memory_fit", "memory_fit_eval", "memory_fit_kernel", "memory_kernel_eval", "prony_fit_times_serie", "prony_series_eval", "prony_fit_kernel", "prony_series_kernel_eval", "prony_inspect_data"]
    missing += [n for n in want if not hasattr(vb, n)]
    rec.ev("names", missing=missing)


def run(rec, p):
    if p.get("names"):
        with rec.guard("names"):
            names(rec)
        return
    w = World(p)
    r = rng(p["seed"], "walks")
    rec.ev("refs", refs=refs(w))
    for walk in p["walks"]:
        est = w.estimator()
        rec.ev("new", projects=p["projects"])
        todo = [("do", a) for a in walk["path"]]
        todo += [("do", a) for a in r.permutation(walk["refused"])]
        todo += [("ask", ASK[k]) for k in r.permutation(len(ASK))]
        todo += [("do", a) for a in r.choice(COMPUTE, size=p["more"])]
        todo += [("ask", ASK[k]) for k in r.permutation(len(ASK))]
        for kind, a in todo:
            a = str(a)
            if kind == "do":
                o = rec.outcome(w.do, est, a)
                val = []
            else:
                res = rec.call(w.ask, est, a)
                o, val = res[0], (res[1] if res[0] == "ok" else [])
            rec.ev(kind, a=a, outcome=o, val=val, held=w.held(est), method=str(est.model.method).lower(), data=w.fingerprint() == w.digest)


if __name__ == "__main__":
    lib.main(cases, run)
