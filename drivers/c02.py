import numpy as np
import lib
from lib import q, qa, rng, dyadic
import VolterraBasis as vb
import VolterraBasis.correlation as vc


def cases(tier, seed, gen):
    out = []
    lens = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33] + ([64, 65, 100, 127, 128, 129] if tier == "thorough" else [40])
    for N in lens:
        for na, nb in [(1, 1), (2, 1), (1, 3), (3, 2), (2, 2)]:
            for rep in range(1 if tier == "quick" else 4):
                r = rng(seed, "c02", N, na, nb, rep)
                out.append(("corr-N%d-%dx%d-%d" % (N, na, nb, rep), dict(seed=int(r.randint(1 << 30)), N=N, na=na, nb=nb)))
    for N, na, nb, t in [(257, 1, 2, 3), (1000, 2, 1, 2), (1023, 1, 1, 4), (1024, 1, 1, 4), (1025, 2, 2, 2), (4097, 1, 1, 2), (12001, 1, 1, 2)]:
        out.append(("corr-long-N%d" % N, dict(seed=N + seed, N=N, na=na, nb=nb, trunc=t)))
    # lengths just below the sizes of fast transforms, every relation of length, truncation and size
    r = rng(seed, "c02-pow2")
    for k in [5, 6, 7, 8, 9, 10, 11] * (1 if tier == "quick" else 4):
        for form in ["below", "above", "none", "few"]:
            P = 2**k if r.randint(3) else 3 * 2 ** (k - 1)
            j = int(r.randint(1, max(2, P // 8)))
            N = P - j if form != "above" else P + j
            t = {"below": int(j + 1 + r.randint(j + 1)), "above": int(r.randint(1, N)), "none": -1, "few": int(N // 16 + r.randint(1, 1 + N // 8))}[form]
            out.append(("corr-size-%d-%s-%d" % (P, form, len(out)), dict(seed=int(r.randint(1 << 30)), N=N, na=int(r.randint(1, 3)), nb=int(r.randint(1, 3)), trunc=t, lags=True)))
    out.append(("corr-size-huge", dict(seed=seed, N=5000 + seed, na=1, nb=1, trunc=901, lags=True)))
    return out


def some_lags(r, L):
    return sorted({0, 1 % L, L // 2, L // 2 + 1 if L // 2 + 1 < L else 0, max(0, L - 2), L - 1} | {int(n) for n in r.randint(L, size=4)})


def lag_events(rec, r, a, b, trunc):
    t = None if trunc < 0 else trunc
    for name, fn in [("fft", vb.correlation_fft), ("direct", vb.correlation_direct)]:
        for order, args in [("ab", (a[:, None], b)), ("ba", (a,))]:
            with rec.guard(name):
                o = np.asarray(fn(*args, trunc=t))
                lags = some_lags(r, o.shape[-1])
                rec.ev("corrlags", fn=name, order=order, a=qa(a), b=qa(b if order == "ab" else a), trunc=trunc, nlags=int(o.shape[-1]), lags=lags, out=qa(o[..., lags]))
    for name in ["correlation_1D", "correlation_direct_1D"]:
        if hasattr(vc, name):
            with rec.guard(name):
                o = np.asarray(getattr(vc, name)(a[0], b[0], trunc=t))
                lags = some_lags(r, o.shape[-1])
                rec.ev("corrlags", fn=name, order="ab", a=qa(a[:1]), b=qa(b[:1]), trunc=trunc, nlags=int(o.shape[-1]), lags=lags, out=qa(o[None, None, lags]))


def run(rec, p):
    r = rng(p["seed"])
    N, na, nb = p["N"], p["na"], p["nb"]
    a, b = dyadic(r, (na, N)), dyadic(r, (nb, N))
    if r.randint(3) == 0 or "trunc" in p:  # a large offset: nothing is subtracted
        a, b = a + 50, b - 20
    s = 2.0 ** int(r.choice([0, 0, -24, -12, 20]))  # no magnitude is too small or too large
    a, b = a * s, b * s
    form = int(r.randint(4))
    if form == 1:
        a, b = np.asfortranarray(a), np.repeat(b, 2, axis=1)[:, ::2]
    if form == 2 and s == 1:
        a, b = np.round(a).astype(int), np.round(b).astype(int)
    if "lags" in p:
        return lag_events(rec, r, a, b, p["trunc"])
    if "trunc" in p:
        for name, fn in [("fft", vb.correlation_fft), ("direct", vb.correlation_direct)]:
            with rec.guard(name):
                rec.ev("corr", fn=name, order="ab", a=qa(a), b=qa(b), trunc=p["trunc"], out=qa(fn(a[:, None], b, trunc=p["trunc"])), unchanged=True)
                rec.ev("corr", fn=name, order="ba", a=qa(a), b=qa(a), trunc=p["trunc"], out=qa(fn(a, trunc=p["trunc"])), unchanged=True)
        for name in ["correlation_1D", "correlation_direct_1D"]:
            if hasattr(vc, name):
                with rec.guard(name):
                    o = getattr(vc, name)(a[0], b[0], trunc=p["trunc"])
                    rec.ev("corr", fn=name, order="ab", a=qa(a[:1]), b=qa(b[:1]), trunc=p["trunc"], out=qa(np.asarray(o)[None, None]), unchanged=True)
        return
    truncs = sorted({-1, 1, max(1, N // 2), N, N + 3})
    for trunc in truncs:
        t = None if trunc < 0 else trunc
        for name, fn in [("fft", vb.correlation_fft), ("direct", vb.correlation_direct)]:
            with rec.guard(name):
                a0, b0 = a[:, None].copy(), b.copy()
                o = fn(a0, b0, trunc=t)
                rec.ev("corr", fn=name, order="ab", a=qa(a), b=qa(b), trunc=trunc, out=qa(o), unchanged=bool(np.array_equal(a0, a[:, None]) and np.array_equal(b0, b)))
            with rec.guard(name + "-auto"):
                a0 = a.copy()
                o = fn(a0, trunc=t)
                rec.ev("corr", fn=name, order="ba", a=qa(a), b=qa(a), trunc=trunc, out=qa(o), unchanged=bool(np.array_equal(a0, a)))
        for name in ["correlation_1D", "correlation_direct_1D"]:
            if hasattr(vc, name):
                fn = getattr(vc, name)
                with rec.guard(name):
                    a0, b0 = a[0].copy(), b[0].copy()
                    o = fn(a0, b0, trunc=t)
                    rec.ev("corr", fn=name, order="ab", a=qa(a[:1]), b=qa(b[:1]), trunc=trunc, out=qa(np.asarray(o)[None, None]), unchanged=bool(np.array_equal(a0, a[0]) and np.array_equal(b0, b[0])))
                    o = fn(a0, trunc=t)
                    rec.ev("corr", fn=name, order="ab", a=qa(a[:1]), b=qa(a[:1]), trunc=trunc, out=qa(np.asarray(o)[None, None]), unchanged=bool(np.array_equal(a0, a[0])))
    # the same array given twice: pairs follow the broadcasting, whatever the object
    for name, fn in [("fft", vb.correlation_fft), ("direct", vb.correlation_direct)]:
        with rec.guard(name + "-same"):
            a3 = a[None].copy()
            o = np.asarray(fn(a3, a3, trunc=max(1, N // 2)))
            for i in range(na):
                rec.ev("corr", fn=name, order="ab", a=qa(a[i : i + 1]), b=qa(a[i : i + 1]), trunc=max(1, N // 2), out=qa(o[:, i : i + 1]), unchanged=bool(np.array_equal(a3, a[None])))
    with rec.guard("default-trunc"):
        rec.ev("corr", fn="fft", order="ab", a=qa(a), b=qa(b), trunc=-1, out=qa(vb.correlation_fft(a[:, None], b)), unchanged=True)
        rec.ev("corr", fn="direct", order="ab", a=qa(a), b=qa(b), trunc=-1, out=qa(vb.correlation_direct(a[:, None], b)), unchanged=True)


if __name__ == "__main__":
    lib.main(cases, run)
