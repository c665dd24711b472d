import numpy as np
import scipy.stats
import lib
import basislib as bl
import VolterraBasis.basis as bf
from lib import q, qa, rng

PARTS = [
    dict(kind="poly", deg=2, family="Polynomial", removed=True),
    dict(kind="poly", deg=1, family="Legendre", removed=False),
    dict(kind="fourier", order=1, freq=1.5, removed=False),
    dict(kind="fourier", order=2, freq=0.5, removed=True),
    dict(kind="linear", centered=True),
    dict(kind="linear", centered=False),
    dict(kind="splinefct", knots=[-9, -9, -9, -9, -1, 1, 9, 9, 9, 9], coeffs=[1, -2, 3, -1, 2, 4], k=3),
    dict(kind="bspline", n=5, k=3, removed=True),
    dict(kind="bspline", n=4, k=2, removed=False),
    dict(kind="indicator", states=[[-1, 0.5], [1, 2]], shape="tricube", periodic=False),
]


def cases(tier, seed, gen):
    out = []
    nrep = 40 if tier == "quick" else 400
    for i in range(nrep):
        r = rng(seed, "c05", i)
        d = int(r.choice([1, 1, 2, 3]))
        pool = [j for j in range(len(PARTS)) if d == 1 or PARTS[j]["kind"] not in ("bspline", "indicator")]
        ks = [int(x) for x in r.choice(pool, size=int(r.choice([1, 2, 3, 4])))]
        out.append(("combine-%d" % i, dict(kind="combine", seed=int(r.randint(1 << 30)), d=d, parts=ks)))
    for i, j in [(a, b) for a in range(len(PARTS)) for b in range(len(PARTS) + 1)]:
        if tier == "quick" and (i * 3 + j) % 3 != 0 and j != len(PARTS):
            continue
        r = rng(seed, "c05t", i, j)
        out.append(("tensor-%d-%d" % (i, j), dict(kind="tensor", seed=int(r.randint(1 << 30)), b1=i, b2=None if j == len(PARTS) else j)))
    keep = [j for j in range(len(PARTS)) if not PARTS[j].get("removed")]
    for i in range(10 if tier == "quick" else 60):  # combinations as the factors
        r = rng(seed, "c05n", i)
        out.append(("tensor-combined-%d" % i, dict(kind="tensor", seed=int(r.randint(1 << 30)), b1=[int(v) for v in r.choice(keep, size=2)], b2=None if i % 2 == 0 else int(r.choice(keep)))))
    return out


def build(s, **kw):
    """A basis, or a combination of several."""
    return bl.make(dict(s, **kw)) if isinstance(s, dict) else bf.FeaturesCombiner(*[bl.make(dict(k, **kw)) for k in s])


def run(rec, p):
    r = rng(p["seed"])
    if p["kind"] == "combine":
        d = p["d"]
        data = r.randint(-48, 49, size=(12, d)) / 16.0
        form = int(r.randint(2))
        arg = data if form else scipy.stats.describe(data)
        bas = bf.FeaturesCombiner(*[bl.make(PARTS[k]) for k in p["parts"]])
        bas.fit(arg)
        alone = []
        for k in p["parts"]:
            one = bl.make(PARTS[k])
            one.fit(arg)
            alone.append(one)
        x = data[: int(r.choice([1, 4]))] * 0.75
        x0 = x.copy()
        rec.ev("count", nout=int(bas.n_output_features_), want=int(sum(a.n_output_features_ for a in alone)))
        rec.ev("combine", what="values", out=qa(bas.basis(x)), parts=[qa(a.basis(x)) for a in alone])
        rec.ev("combine", what="gradient", out=qa(bas.deriv(x)), parts=[qa(a.deriv(x)) for a in alone])
        rec.ev("combine", what="second-derivative", out=qa(bas.hessian(x)), parts=[qa(a.hessian(x)) for a in alone])
        rec.ev("same", what="constant-removed-if-any-part-has", a=[q(any(PARTS[k].get("removed", False) for k in p["parts"]))], b=[q(bool(bas.const_removed))], tol="0")
        rec.ev("same", what="points-unchanged", a=qa(x0), b=qa(x), tol="0")
        many = data[r.randint(len(data), size=3001)] * 0.75
        pick = bl.some_of(r, len(many))
        for what, f in (("values", "basis"), ("gradient", "deriv"), ("second-derivative", "hessian")):
            rec.ev("combine", what="many-" + what, out=qa(np.asarray(getattr(bas, f)(many))[pick]), parts=[qa(getattr(a, f)(many[pick])) for a in alone])
        # combinations of combinations, and a new fit
        nest = bf.FeaturesCombiner(bl.make(PARTS[p["parts"][0]]), bf.FeaturesCombiner(*[bl.make(PARTS[k]) for k in p["parts"]]))
        nest.fit(arg)
        for what, f in (("values", "basis"), ("gradient", "deriv"), ("second-derivative", "hessian")):
            rec.ev("combine", what="nested-" + what, out=qa(getattr(nest, f)(x)), parts=[qa(getattr(a, f)(x)) for a in [alone[0]] + alone])
        rec.ev("count", nout=int(nest.n_output_features_), want=int(alone[0].n_output_features_ + sum(a.n_output_features_ for a in alone)))
        # the same part twice is there twice
        one = bl.make(PARTS[p["parts"][0]])
        twice = bf.FeaturesCombiner(one, one)
        twice.fit(arg)
        rec.ev("count", nout=int(twice.n_output_features_), want=2 * int(alone[0].n_output_features_))
        for what, f in (("values", "basis"), ("gradient", "deriv"), ("second-derivative", "hessian")):
            rec.ev("combine", what="twice-" + what, out=qa(getattr(twice, f)(x)), parts=[qa(getattr(alone[0], f)(x))] * 2)
        data2 = data * 1.5 + 0.25
        bas.fit(data2)
        for a in alone:
            a.fit(data2)
        x = data2[3:5] * 0.5
        for what, f in (("values", "basis"), ("gradient", "deriv"), ("second-derivative", "hessian")):
            rec.ev("combine", what="refit-" + what, out=qa(getattr(bas, f)(x)), parts=[qa(getattr(a, f)(x)) for a in alone])
        return
    data = r.randint(-48, 49, size=(14, 2)) / 16.0
    data[:, 1] = data[:, 1] * 0.5 + 1.0
    s1 = PARTS[p["b1"]] if isinstance(p["b1"], int) else [PARTS[k] for k in p["b1"]]
    s2 = PARTS[p["b2"]] if p["b2"] is not None else s1
    bas = bf.TensorialBasis2D(build(s1), None if p["b2"] is None else build(s2))
    form = int(r.randint(2))
    bas.fit(data if form else scipy.stats.describe(data))
    ones = []
    for c, s in enumerate((s1, s2)):
        one = build(s, removed=False)
        one.fit(scipy.stats.describe(data[:, c : c + 1]))
        ones.append(one)
    npts = int(r.choice([1, 4]))
    x = np.stack([data[:4, 0] * 0.75, 1 + (data[3:7, 1] - 1) * 0.75], axis=1)[:npts]
    f = {}
    for c, one in enumerate(ones):
        xc = x[:, c : c + 1]
        f["b%d" % (c + 1)] = qa(one.basis(xc))
        f["d%d" % (c + 1)] = qa(one.deriv(xc))
        f["h%d" % (c + 1)] = qa(one.hessian(xc))
    n1, n2 = ones[0].n_output_features_, ones[1].n_output_features_
    comb = [[str(int(bas.comb_indices(i, j))) for j in range(n2)] for i in range(n1)]
    split = [[str(int(v)) for v in bas.split_index(k)] for k in range(n1 * n2)]
    rec.ev("tensor", nout=int(bas.n_output_features_), val=qa(bas.basis(x)), grad=qa(bas.deriv(x)), hess=qa(bas.hessian(x)), comb=comb, split=split, **f)
    place = r.randint(len(x), size=3001)  # many points
    pick = sorted({int(np.flatnonzero(place == k)[r.randint(3)]) for k in range(len(x))}, key=lambda i: place[i])
    val, grad, hess = (np.asarray(g(x[place]))[pick] for g in (bas.basis, bas.deriv, bas.hessian))
    rec.ev("tensor", nout=int(bas.n_output_features_), val=qa(val), grad=qa(grad), hess=qa(hess), comb=comb, split=split, **f)
    # a second fit on as many other data replaces the first
    data2 = np.stack([0.25 - 1.5 * data[:, 0], 2.0 * data[:, 1] - 0.5], axis=1)
    bas.fit(data2 if form else scipy.stats.describe(data2))
    x2 = np.stack([0.25 - 1.5 * x[:, 0], 2.0 * x[:, 1] - 0.5], axis=1)
    for c, one in enumerate(ones):
        one.fit(scipy.stats.describe(data2[:, c : c + 1]))
        xc = x2[:, c : c + 1]
        f.update({"b%d" % (c + 1): qa(one.basis(xc)), "d%d" % (c + 1): qa(one.deriv(xc)), "h%d" % (c + 1): qa(one.hessian(xc))})
    rec.ev("tensor", nout=int(bas.n_output_features_), val=qa(bas.basis(x2)), grad=qa(bas.deriv(x2)), hess=qa(bas.hessian(x2)), comb=comb, split=split, **f)
    rec.ev("same", what="constant-kept", a=["0"], b=[q(bool(bas.const_removed))], tol="0")
    rec.ev("refused", what="tensor basis in one dimension", outcome=rec.outcome(bas.fit, data[:, :1]))


if __name__ == "__main__":
    lib.main(cases, run)
