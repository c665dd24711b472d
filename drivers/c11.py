import numpy as np
import lib
import gen
import volt
from lib import q, qa, rng

METHODS = volt.METHODS_FIRST


def cases(tier, seed, gen_):
    out = []
    for Tn in [4, 5, 6, 7, 8, 9, 10, 12, 13, 16] + ([20, 24, 25, 31] if tier == "thorough" else []):
        for nb, do in [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3)]:
            for rep in range(1 if tier == "quick" else 4):
                r = rng(seed, "c11", Tn, nb, do, rep)
                out.append(("synthetic-T%d-%dx%d-%d" % (Tn, nb, do, rep), dict(kind="syn", seed=int(r.randint(1 << 30)), T=Tn, nb=nb, do=do, dt=float(r.choice([0.25, 1.0, 0.125])))))
    for Tn, nb, do in [(300, 1, 1), (140, 1, 1), (126, 2, 1), (67, 2, 1), (40, 1, 2), (33, 3, 1)]:  # long memories
        r = rng(seed, "c11l", Tn)
        out.append(("long-T%d-%dx%d" % (Tn, nb, do), dict(kind="syn", seed=int(r.randint(1 << 30)), T=Tn, nb=nb, do=do, dt=float(r.choice([0.25, 0.03125, 0.001])))))
    for nb, do in [(6, 1), (7, 2), (3, 1), (2, 2)]:
        r = rng(seed, "c11s", nb)
        out.append(("scaled-%dx%d" % (nb, do), dict(kind="syn", seed=int(r.randint(1 << 30)), T=6, nb=nb, do=do, dt=0.125, scaled=True)))
    for i, (m, b, d) in enumerate(gen.combos()):
        for rep in range(1 if tier == "quick" else 3):
            r = rng(seed, "c11e", i, rep)
            lens = [int(x) for x in r.choice([36, 41, 50], size=int(r.choice([1, 2])))]
            out.append(("estimated-%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(kind="est", seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, lens=lens, T=int(r.choice([5, 7, 8])), dt=float(r.choice([0.25, 0.5])))))
    return out


def run(rec, p):
    r = rng(p["seed"])
    if p["kind"] == "syn":
        est = volt.holder(r, p["do"], p["T"], p["dt"], nb=p["nb"])
        volt.inject(est, *volt.synth(r, p["nb"], p["do"], p["T"], scales=volt.scales(r, p)))
    else:
        trajs = [gen.traj(r, N, p["d"], dt=p["dt"], corr=0.9) for N in p["lens"]]
        est = gen.estimator(trajs, p["model"], p["basis"], (p["T"] - 0.5) * p["dt"])
        est.compute_mean_force()
        est.compute_corrs()
    for meth in METHODS:
        if p["seed"] % 3:
            gen.aside(est, p["seed"] + len(meth))
        with rec.guard(meth):
            volt.kernel_event(rec, est, meth)
    with rec.guard("default"):
        est.compute_kernel()
        a = np.asarray(est.model.kernel)
        est.compute_kernel(method="rectangular")
        rec.ev("same", what="default-method-is-rectangular", a=qa(a), b=qa(est.model.kernel), tol="0")
    nb = np.asarray(est.bkbkcorrw).shape[0]
    do = np.asarray(est.bkdxcorrw).shape[1]
    k0 = r.randint(-8, 9, size=(nb, do)) / 4.0
    with rec.guard("k0"):
        volt.kernel_event(rec, est, "trapz", k0=k0)
    if nb == do == 1:
        with rec.guard("k0-float"):
            volt.kernel_event(rec, est, "trapz", k0=1.25)
    # without the derivative correlations, the methods which do not need them still work
    est.dotbkbkcorrw = None
    with rec.guard("no-dot"):
        volt.kernel_event(rec, est, "trapz")
    est.dotbkdxcorrw = None
    with rec.guard("no-dot2"):
        volt.kernel_event(rec, est, "rect")
        volt.kernel_event(rec, est, "trapz", k0=k0)
    rec.ev("refused", what="trapz without initial value", outcome=rec.outcome(est.compute_kernel, method="trapz"))
    rec.ev("refused", what="unknown method", outcome=rec.outcome(est.compute_kernel, method="simpson"))


if __name__ == "__main__":
    lib.main(cases, run)
