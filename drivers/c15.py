"""Correlations with the projected noise, over one and several trajectories."""
import numpy as np
import xarray as xr
import lib
import gen
import c14
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    for i, (m, b, d) in enumerate(gen.combos()):
        for rep in range(1 if tier == "quick" else 5):
            r = rng(seed, "c15", i, rep)
            lens = [int(x) for x in r.choice([11, 13, 16], size=int(r.choice([1, 2, 3])))]
            L = int(r.choice([3, 5])) if (i + rep) % 4 else 9  # also a memory almost as long as the trajectories
            out.append(("%s-%s-d%d-%d-%d" % (m, b["kind"], d, i, rep), dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=int(r.choice([0, 1, 2])), lens=lens, N=lens[0], t0=float(r.choice([0.0, 1.5])), dt=float(r.choice([0.25, 0.5])), L=L)))
    for i, (m, b, d) in enumerate([("Pos_gle", dict(kind="poly", deg=1), 1), ("Pos_gle_no_vel_basis", dict(kind="linear"), 1), ("Pos_gle_overdamped", dict(kind="linear"), 1)]):
        r = rng(seed, "c15h", i)
        lens = [[2500], [1100, 30], [17, 1300]][i]
        out.append(("huge-%s" % m, dict(seed=int(r.randint(1 << 30)), model=m, basis=b, d=d, do=0, lens=lens, N=lens[0], t0=0.0, dt=0.25, L=3)))
    return out


def run(rec, p):
    r = rng(p["seed"])
    est, m, trajs, od, coeff, K, P = c14.setup(p, r, lens=p["lens"])
    raw = gen.raw(est, trajs)
    base = dict(model=p["model"], coeff=qa(coeff), K=qa(K), P=P, dt=q(p["dt"]), ktime=qa(np.arange(p["L"]) * p["dt"]))
    for t in trajs:
        t["extra"] = (["time", "dim_extra"], r.randint(-8, 9, size=(t.sizes["time"], 2)) / 8.0)
    lefts = [("other variable", "extra"), ("noise", None), ("v", "v"), ("x", "x"), ("function", lambda t: np.asarray(t["x"]) ** 2), ("function-of-time", lambda t: np.asarray(t["x"]) * np.asarray(t["time"])[:, None]), ("derived", lambda t: 0.5 * t["v"] - 0.25)]
    for rule in ["rectangular", "rect", "trapz", "second_kind_rect", "second_kind_trapz", None]:
        m.method = rule
        pick = lefts if rule in ("rect", "trapz") and max(p["lens"]) < 1000 else [lefts[int(r.randint(len(lefts)))]]
        for name, op in pick:
            left = "absent" if op is None else [qa(np.asarray(t[op].data)) if isinstance(op, str) else qa(np.asarray(op(t))) for t in trajs]
            with rec.guard("pcorr"):
                kt, out = est.compute_projected_corrs(op) if op is not None else est.compute_projected_corrs()
                rec.ev("pcorr", what="pooled-" + name, rule=rule or "rect", trajs=raw, left=left, out=qa(np.asarray(out)), otime=qa(np.asarray(kt)), **base)
                k = int(r.randint(len(trajs)))
                kt, out = m.compute_corrs_w_noise(trajs[k], op)
                rec.ev("pcorr", what=name, rule=rule or "rect", trajs=[raw[k]], left=left if op is None else [left[k]], out=qa(np.asarray(out)), otime=qa(np.asarray(kt)), **base)
        with rec.guard("pcorr"):
            k = int(r.randint(len(trajs)))
            arr = r.randint(-8, 9, size=(p["lens"][k], 2)) / 8.0
            kt, out = m.compute_corrs_w_noise(trajs[k], arr)
            rec.ev("pcorr", what="array", rule=rule or "rect", trajs=[raw[k]], left=[qa(arr)], out=qa(np.asarray(out)), otime=qa(np.asarray(kt)), **base)
            kt, out = m.compute_corrs_w_noise(trajs[k], trajs[k]["v"])
            rec.ev("pcorr", what="dataarray", rule=rule or "rect", trajs=[raw[k]], left=[qa(np.asarray(trajs[k]["v"].data))], out=qa(np.asarray(out)), otime=qa(np.asarray(kt)), **base)
    for rule in ("midpoint", "midpoint_w_richardson", "unknown"):
        m.method = rule
        rec.ev("refused", what="projected noise with a kernel of method " + rule, outcome=rec.outcome(m.compute_corrs_w_noise, trajs[0]))
    m.method = "rect"
    ker, m.kernel = m.kernel, None
    rec.ev("refused", what="projected noise before the kernel", outcome=rec.outcome(m.compute_corrs_w_noise, trajs[0]))
    m.kernel, m.force_coeff = ker, None
    rec.ev("refused", what="projected noise before the mean force", outcome=rec.outcome(m.compute_corrs_w_noise, trajs[0]))


if __name__ == "__main__":
    lib.main(cases, run)
