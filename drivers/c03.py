import numpy as np
import scipy.stats
import lib
import basislib as bl
import VolterraBasis.basis as bf
from lib import q, qa, rng

FAM = ["Polynomial", "Chebyshev", "Legendre", "Hermite", "HermiteE", "Laguerre"]


def cases(tier, seed, gen):
    out = []
    S = []
    for fam in FAM:
        for deg in [0, 1, 2, 3, 4] + ([5, 6, 7] if tier == "thorough" else []):
            S.append(dict(kind="poly", deg=deg, family=fam))
    S += [dict(kind="poly", deg=8, family="Chebyshev"), dict(kind="poly", deg=6, family="Polynomial")]
    for order in [0, 1, 2, 3] + ([4, 6] if tier == "thorough" else []):
        for freq in [1.0, 0.75, 2.5, -1.5]:  # order 5 below
            S.append(dict(kind="fourier", order=order, freq=freq))
    S += [dict(kind="fourier", order=5, freq=0.5)]
    S += [dict(kind="linear", centered=False), dict(kind="linear", centered=True)]
    for k, kn, co in [(3, [-4, -4, -4, -4, -1, 1, 4, 4, 4, 4], [1, -2, 3, -1, 2, 4]), (2, [-3, -3, -3, -1, 0, 2, 3, 3, 3], [1, -2, 0.5, -1, 2, 4]), (0, [-4, -1, 0.5, 4], [1, -2, 3]), (3, [-7, -6, -5, -4, -1, 1.5, 4, 5, 6, 7.5], [1, -2, 3, -1, 2, 4]), (1, [-4, -4, -1, 0.5, 4, 4], [1, -2, 3, 1]), (4, [-4] * 5 + [0.25] + [4] * 5, [1, 0, 2, -1, 3, -2]), (5, [-4] * 6 + [0.25] + [4] * 6, [1, 0, 2, -1, 3, -2, 1.5])]:
        S.append(dict(kind="splinefct", knots=kn, coeffs=co, k=k))
    for i, b in enumerate(S):
        for d in (1, 2, 3):
            for removed in ([True, False] if b["kind"] in ("poly", "fourier") else [True]):
                for rep in range(1 if tier == "quick" else 3):
                    r = rng(seed, "c03", i, d, rep)
                    bb = dict(b, removed=removed)
                    out.append(("%s-%d-d%d-%s-%d" % (b["kind"], i, d, removed, rep), dict(seed=int(r.randint(1 << 30)), b=bb, d=d)))
    return out


def run(rec, p):
    r = rng(p["seed"])
    b, d = p["b"], p["d"]
    data = r.randint(-48, 49, size=(int(r.choice([4, 8, 16])), d)) / 16.0
    bas = bl.make(b)
    ret = bas.fit(data if r.randint(2) else scipy.stats.describe(data))
    rec.ev("same", what="fit-returns-the-basis", a=["1"], b=[q(ret is bas)], tol="0")
    o = bl.spec_of(b, data)
    lim = 47
    for npts in (5, 1):
        x = r.randint(-lim, lim + 1, size=(npts, d)) / 16.0 + 1.0 / 64
        if npts > 1 and b["kind"] != "splinefct":
            x[0] = 0.0
        bl.evaluate(rec, bas, o, x, anti=npts > 1)
    x = r.randint(-lim, lim + 1, size=(5, d)) / 16.0 + 1.0 / 64
    bl.again(r, rec, bas, o, x)
    if b["kind"] != "splinefct":
        # memory layouts, integers and points far from the data the basis was fitted on
        x = (r.randint(-lim, lim + 1, size=(6, d)) / 16.0)[::2]
        bl.evaluate(rec, bas, o, np.asfortranarray(x), anti=True)
        bl.evaluate(rec, bas, o, np.repeat(x, 2, axis=0)[::2], anti=True)
        bl.evaluate(rec, bas, o, r.randint(-3, 4, size=(3, d)), anti=True)
        if b["kind"] != "poly" or b["deg"] <= 4:
            bl.evaluate(rec, bas, o, r.randint(-25, 26, size=(2, d)) / 2.0, anti=True)
    # very many points at once
    if d < 3 or b["kind"] == "linear":
        n = 12007
        xm = r.randint(-lim, lim + 1, size=(n, d)) / 16.0 + 1.0 / 64
        bl.evaluate(rec, bas, o, xm, anti=True, pick=bl.some_of(r, n))
    # a fit on many points
    if b["kind"] == "linear":
        data1 = r.randint(-48, 49, size=(2503, d)) / 16.0 + np.linspace(0, 2, 2503)[:, None]
        bas.fit(data1)
        bl.evaluate(rec, bas, bl.spec_of(b, data1), x, anti=False)
    # a second fit on other data replaces the first
    data2 = data + 1.25
    bas.fit(data2)
    bl.evaluate(rec, bas, bl.spec_of(b, data2), x, anti=False)


if __name__ == "__main__":
    lib.main(cases, run)
