import numpy as np
import lib
import gen
import volt
import c11
from lib import q, qa, rng

METHODS = volt.METHODS_SECOND


def cases(tier, seed, gen_):
    return c11.cases(tier, seed + 77, gen_)


def run(rec, p):
    r = rng(p["seed"])
    if p["kind"] == "syn":
        est = volt.holder(r, p["do"], p["T"], p["dt"], nb=p["nb"])
        volt.inject(est, *volt.synth(r, p["nb"], p["do"], p["T"], scales=volt.scales(r, p)))
    else:
        trajs = [gen.traj(r, N, p["d"], dt=p["dt"], corr=0.9) for N in p["lens"]]
        est = gen.estimator(trajs, p["model"], p["basis"], (p["T"] - 0.5) * p["dt"])
        est.compute_mean_force()
        est.compute_corrs()
    nb = np.asarray(est.bkbkcorrw).shape[0]
    do = np.asarray(est.bkdxcorrw).shape[1]
    k0 = r.randint(-8, 9, size=(nb, do)) / 4.0
    for meth in METHODS:
        if p["seed"] % 3:
            gen.aside(est, p["seed"] + len(meth))
        with rec.guard(meth):
            volt.kernel_event(rec, est, meth)
            volt.kernel_event(rec, est, meth, k0=k0)
            if nb == do == 1:
                volt.kernel_event(rec, est, meth, k0=-0.75)
            volt.kernel_event(rec, est, meth)  # the value given before is not kept
    # other correlations on the same estimator: nothing of the former ones stays
    if p["kind"] == "syn":
        volt.inject(est, *volt.synth(r, p["nb"], p["do"], p["T"], scales=volt.scales(r, p)))
    else:
        est.set_zero_force()
        est.compute_corrs()
    for meth in METHODS:
        with rec.guard(meth + " anew"):
            volt.kernel_event(rec, est, meth)
    est.dotbkbkcorrw = None
    for meth in METHODS:
        rec.ev("refused", what=meth + " without derivative correlations", outcome=rec.outcome(est.compute_kernel, method=meth))
        rec.ev("refused", what=meth + " with initial value only", outcome=rec.outcome(est.compute_kernel, method=meth, k0=k0))
    est.dotbkdxcorrw = None
    for meth in METHODS:
        rec.ev("refused", what=meth + " without any derivative", outcome=rec.outcome(est.compute_kernel, method=meth))


if __name__ == "__main__":
    lib.main(cases, run)
