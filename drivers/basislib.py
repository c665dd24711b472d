import numpy as np
import VolterraBasis.basis as bf
from lib import q, qa


def make(b):
    k = b["kind"]
    rc = b.get("removed", True)
    if k == "poly":
        return bf.PolynomialFeatures(b["deg"], polynom=getattr(np.polynomial, b["family"]), remove_const=rc)
    if k == "fourier":
        return bf.FourierFeatures(order=b["order"], freq=b["freq"], remove_const=rc)
    if k == "bspline":
        return bf.BSplineFeatures(b["n"], k=b["k"], remove_const=rc)
    if k == "linear":
        return bf.LinearFeatures(to_center=b["centered"])
    if k == "splinefct":
        return bf.SplineFctFeatures(np.array(b["knots"], float), np.array(b["coeffs"], float), k=b["k"])
    if k == "indicator":
        sh = b["shape"]
        if sh == "smoothstep":

            def sh(u, der=0):
                return [2 * u**3 - 3 * u**2 + 1, 6 * u**2 - 6 * u, 12 * u - 6][der]

        return bf.SmoothIndicatorFeatures(b["states"], sh, periodic=b["periodic"])
    raise ValueError(k)


def spec_of(b, data, knots=None):
    """The record the specification knows the basis by."""
    o = dict(kind=b["kind"], removed=bool(b.get("removed", True)) and b["kind"] in ("poly", "fourier", "bspline"))
    k = b["kind"]
    if k == "poly":
        o.update(deg=b["deg"], family=b["family"])
    elif k == "fourier":
        o.update(order=b["order"], freq=q(b["freq"]))
    elif k == "bspline":
        g = np.linspace(data.min(), data.max(), b["n"]) if knots is None else np.asarray(knots)
        o.update(n=b["n"] if knots is None else len(knots), k=b["k"], grid=qa(g))
    elif k == "linear":
        from fractions import Fraction

        c = [str(sum(Fraction(v) for v in data[:, i]) / len(data)) if b["centered"] else "0" for i in range(data.shape[1])]
        o.update(center=c)
    elif k == "splinefct":
        o.update(knots=qa(np.array(b["knots"], float)), coeffs=qa(np.array(b["coeffs"], float)), k=b["k"])
    elif k == "indicator":
        o.update(states=[qa(np.array(s, float)) for s in b["states"]], shape=b["shape"], periodic=b["periodic"])
    return o


def evaluate(rec, bas, o, x, anti=True, hess=True, grad=True, val=True, pick=slice(None)):
    """pick: evaluate at all points, and record these (the points do not know each other)"""
    x0 = np.array(x)
    f = dict(b=o, x=qa(x0[pick]), nout=int(bas.n_output_features_))
    f["val"] = qa(np.asarray(bas.basis(x))[pick])
    f["grad"] = qa(np.asarray(bas.deriv(x))[pick]) if grad else "absent"
    f["hess"] = qa(np.asarray(bas.hessian(x))[pick]) if hess else "absent"
    f["anti"] = qa(np.asarray(bas.antiderivative(x))[pick]) if anti else "absent"
    rec.ev("eval", unchanged=bool(np.array_equal(x, x0)), **f)


def again(r, rec, bas, o, x, **kw):
    """The same array with other points between its ends, by a permutation and by new values"""
    x = np.array(x)
    bas.basis(x), bas.deriv(x)
    for new in (x[1:-1][::-1].copy(), np.roll(x[1:-1], 1, axis=0) * 0.5):
        x[1:-1] = new
        evaluate(rec, bas, o, x, **kw)


def some_of(r, n, k=6):
    """Places in a long list: both ends, and places of any magnitude"""
    return sorted({0, n - 1, n // 2} | {int(min(n - 1, 2 ** r.uniform(0, np.log2(n)))) for _ in range(k)})
