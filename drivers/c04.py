import numpy as np
import scipy.stats
import lib
import basislib as bl
import VolterraBasis.basis as bf
from lib import q, qa, rng


def cases(tier, seed, gen):
    out = []
    for k in [1, 2, 3, 4, 5]:
        for n in sorted({k + 1, k + 2, k + 3, k + 5, 7, 10}):
            if n <= k:
                continue
            for removed in (True, False):
                for rep in range(1 if tier == "quick" else 4):
                    r = rng(seed, "c04", k, n, removed, rep)
                    out.append(("bspline-k%d-n%d-%s-%d" % (k, n, removed, rep), dict(kind="bspline", seed=int(r.randint(1 << 30)), b=dict(kind="bspline", n=n, k=k, removed=removed))))
    ST = [[[-1, 1]], [[-2, -1], [1, 2]], [[-3, -2], [-2, 0.5], [1, 4]], [[2, -1], [5, 3]], [[-5, -2], [2, 3], [5, 7], [8, 8.5]]]
    for i, st in enumerate(ST):
        for shape in ["tricube", "triweight", "quartic", "smoothstep"]:
            for per in (False, True):
                if per and len(st) < 2:
                    continue
                for rep in range(1 if tier == "quick" else 4):
                    r = rng(seed, "c04i", i, shape, per, rep)
                    out.append(("indicator-%d-%s-%s-%d" % (i, shape, per, rep), dict(kind="indicator", seed=int(r.randint(1 << 30)), b=dict(kind="indicator", states=st, shape=shape, periodic=per))))
    out.append(("indicator-2d", dict(kind="ind2d", seed=1, b=dict(kind="indicator", states=ST[0], shape="tricube", periodic=False))))
    return out


def run(rec, p):
    r = rng(p["seed"])
    b = p["b"]
    bas = bl.make(b)
    if p["kind"] == "ind2d":
        rec.ev("refused", what="indicator in two dimensions", outcome=rec.outcome(bas.fit, np.zeros((4, 2))))
        rec.ev("refused", what="unknown transition", outcome=rec.outcome(bf.SmoothIndicatorFeatures, [[0, 1]], "cosine"))
        return
    if p["kind"] == "bspline":
        data = r.randint(-48, 49, size=(12, 1)) / 16.0
        data[0], data[1] = -3.0, 2.0
        data = r.permutation(data)
        bas.fit(data if r.randint(2) else scipy.stats.describe(data))
        o = bl.spec_of(b, data)
        a, c = data.min(), data.max()
        x = a + (c - a) * (r.randint(1, 1024, size=(9, 1)) + 0.5) / 1024.0
        bl.evaluate(rec, bas, o, x, hess=True)
        bl.again(r, rec, bas, o, x[:5])
        if b["k"] > 1:  # ends of the range
            bl.evaluate(rec, bas, o, np.array([[a], [c]]), hess=b["k"] > 2)
            # at the knots, where the pieces meet
            g = np.linspace(a, c, b["n"])[:, None]
            bl.evaluate(rec, bas, o, np.clip(np.round(g * 1024) / 1024, a, c), hess=b["k"] > 3, grad=b["k"] > 2)
        many = a + (c - a) * (r.randint(1, 1024, size=(5003, 1)) + 0.5) / 1024.0
        if b["n"] < 7:
            bl.evaluate(rec, bas, o, many, pick=bl.some_of(r, len(many), 4))
        # data far from the origin and on another scale; one point
        for off, sc in ((1000.0, 1.0), (-3.0, 1.0 / 64), (0.5, 64.0)):
            data2 = off + sc * data
            bas.fit(data2)
            a, c = data2.min(), data2.max()
            x = a + (c - a) * (r.randint(1, 1024, size=(3, 1)) + 0.5) / 1024.0
            bl.evaluate(rec, bas, bl.spec_of(b, data2), x if sc < 1 else x[:1])
        # given knots
        kn = np.array([-4.0, -3.25, -2.0, -0.5, 0.0, 1.0, 2.25, 4.0, 4.5, 5.0])[: b["n"]]
        if len(kn) == b["n"]:
            bas.fit(data, knots=kn)
            x = kn[0] + (kn[-1] - kn[0]) * (r.randint(1, 1024, size=(7, 1)) + 0.5) / 1024.0
            bl.evaluate(rec, bas, bl.spec_of(b, data, knots=kn), x)
            # as many as are given, whatever number was announced
            few = bl.make(dict(b, n=3))
            few.fit(data, knots=kn)
            bl.evaluate(rec, few, bl.spec_of(b, data, knots=kn), x[:4])
        return
    bas.fit(np.zeros((3, 1)))
    o = bl.spec_of(b, None)
    pts = []
    for iv in b["states"]:
        lo, hi = min(iv), max(iv)
        pts += [lo - 0.375, lo + (hi - lo) * 0.25, lo + (hi - lo) * 0.6875, lo + (hi - lo) / 1024, hi - (hi - lo) / 2048, lo + (hi - lo) * float(r.randint(1, 64)) / 64, hi + 0.0625]
    x = np.array(pts)[:, None]
    bl.evaluate(rec, bas, o, x, anti=False)
    bl.again(r, rec, bas, o, x, anti=False)
    ends = np.array([e for iv in b["states"] for e in iv], float)[:, None]
    bl.evaluate(rec, bas, o, ends, anti=False, hess=False)
    if b["shape"] == "tricube":  # twice differentiable everywhere
        bl.evaluate(rec, bas, o, ends, anti=False)
    elif b["shape"] == "triweight":  # twice differentiable where the transition is over
        los = {min(iv) for iv in b["states"]}
        bl.evaluate(rec, bas, o, np.array([[e] for e in sorted({float(max(iv)) for iv in b["states"]} - los)]), anti=False)
    many = x[r.randint(len(x), size=5003)]
    bl.evaluate(rec, bas, o, many, anti=False, pick=bl.some_of(r, len(many)))
    far = np.array([[-50.0], [60.0]])
    bl.evaluate(rec, bas, o, far, anti=False)


if __name__ == "__main__":
    lib.main(cases, run)
