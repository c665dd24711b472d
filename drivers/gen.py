"""
Data shared by the drivers: trajectories, bases and models from plain parameters.
All numbers are short dyadic rationals, so that exact arithmetic in the specification stays cheap.
"""
import numpy as np
import VolterraBasis as vb
import VolterraBasis.basis as bf
from lib import rng, q, qa

MODELS = ["Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid", "Pos_gle_overdamped"]


def rnd(a, den=256):
    return np.round(np.asarray(a) * den) / den


def smooth(r, N, d, corr=0.8, amp=1.0, den=256):
    """Correlated series (AR(1)), so that short lags carry signal."""
    y = np.zeros((N, d))
    cur = r.normal(size=d)
    for t in range(N):
        cur = corr * cur + np.sqrt(1 - corr**2) * r.normal(size=d)
        y[t] = cur
    return rnd(amp * y, den)


def traj(r, N, d, dt=0.25, t0=0.0, corr=0.8, extra=None, dask=False, dobs=None):
    """A frame with independent x, v, a: the estimators must not assume relations between them."""
    x = rnd(np.clip(smooth(r, N, d, corr), -2.5, 2.5))
    v = smooth(r, N, d, corr)
    a = smooth(r, N, d, corr)
    time = t0 + dt * np.arange(N)
    if dask:
        import dask.array as da

        ch = (max(2, N // 3), d)
        ds = vb.xframe(da.from_array(x, chunks=ch), time, v=da.from_array(v, chunks=ch), a=da.from_array(a, chunks=ch))
    else:
        ds = vb.xframe(x, time, v=v, a=a)
    if dobs is not None:
        ds["obs"] = (["time", "dim_o"], smooth(r, N, dobs, corr))
    return ds


def basis(b):
    k = b["kind"]
    rc = b.get("remove_const", True)
    if k == "poly":
        fam = getattr(np.polynomial, b.get("family", "Polynomial"))
        return bf.PolynomialFeatures(b["deg"], polynom=fam, remove_const=rc)
    if k == "fourier":
        return bf.FourierFeatures(order=b["order"], freq=b.get("freq", 1.0), remove_const=rc)
    if k == "bspline":
        return bf.BSplineFeatures(b["n"], k=b.get("k", 3), remove_const=rc)
    if k == "linear":
        return bf.LinearFeatures(to_center=b.get("center", False))
    if k == "indicator":
        return bf.SmoothIndicatorFeatures(b["states"], b.get("boundary", "tricube"), periodic=b.get("periodic", False))
    if k == "splinefct":
        return bf.SplineFctFeatures(np.array(b["knots"], float), np.array(b["coeffs"], float), k=b.get("k", 3))
    if k == "tensor":
        return bf.TensorialBasis2D(basis(b["b1"]), basis(b["b2"]) if b.get("b2") else None)
    if k == "combine":
        return bf.FeaturesCombiner(*[basis(x) for x in b["parts"]])
    raise ValueError(k)


def estimator(trajs, model, b, trunc, **kw):
    kw.setdefault("saveall", False)
    kw.setdefault("verbose", False)
    return vb.Estimator_gle(trajs, getattr(vb, model), basis(b), trunc=trunc, **kw)


ASIDE = ["compute_gram_force", "compute_gram_kernel", "compute_effective_mass", "compute_pos_effective_mass", "compute_basis_mean", "describe_data", "check_volterra_inversion", "save_model", "laplace_transform_kernel", "kernel_eval", "force_eval", "compute_noise", "compute_projected_corrs"]


def aside(est, seed, skip=()):
    """Operations no result asked for later is made from, some of them, in some order: whether they are refused or not, nothing depends on them."""
    import contextlib
    import io
    import warnings

    r = np.random.RandomState(seed % (1 << 32))
    m = est.model
    ds = est.xva_list[int(r.randint(len(est.xva_list)))]
    args = dict(kernel_eval=[ds[["x"]].isel(time=slice(0, 3))], force_eval=[ds[["x"]].isel(time=slice(0, 3))], compute_noise=[ds])
    names = [n for n in ASIDE if n not in skip]
    for k in r.permutation(len(names))[: int(r.randint(1, len(names) + 1))]:
        f = getattr(est, names[k], None) or getattr(m, names[k], None)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                f(*args.get(names[k], []))
            except Exception:
                pass


def arr(ds, name):
    return np.asarray(ds[name].data)


def raw(est, trajs):
    """What the specification composes the model vectors from: data and basis values of every trajectory."""
    m = est.model
    out = []
    for ds in trajs:
        x = arr(ds, "x")
        o = dict(x=qa(x), v=qa(arr(ds, "v")), a=qa(arr(ds, "a")) if "a" in ds else "absent", obs=qa(arr(ds, m.L_obs)), bk=qa(m.basis.basis(x)), dbk=qa(m.basis.deriv(x)))
        try:
            o["ddbk"] = qa(m.basis.hessian(x))
        except NotImplementedError:
            o["ddbk"] = "absent"
        out.append(o)
    return out


def T(da, *dims):
    """Values in a fixed order of the named dimensions."""
    if da is None:
        return None
    return np.asarray(da.transpose(*dims).data)


def odim(est):
    """Name of the observable's component dimension."""
    return est.xva_list[0][est.model.L_obs].dims[1]


def corr_arrays(est):
    od = odim(est)
    f = {}
    for key, da, first in [("bkbk", est.bkbkcorrw, "dim_basis'"), ("dotbkbk", est.dotbkbkcorrw, "dim_basis'")]:
        f[key] = "absent" if da is None else qa(T(da, first, "dim_basis", "time_trunc"))
    for key, da in [("bkdx", est.bkdxcorrw), ("dotbkdx", est.dotbkdxcorrw)]:
        f[key] = "absent" if da is None else qa(T(da, "dim_basis", od, "time_trunc"))
    return f


# Model/basis combinations with a regular Gram matrix, per dimension
P1 = [
    dict(kind="poly", deg=1),
    dict(kind="poly", deg=2),
    dict(kind="poly", deg=2, family="Legendre"),
    dict(kind="fourier", order=1, freq=1.0),
    dict(kind="bspline", n=5, k=3),
    dict(kind="linear"),
    dict(kind="linear", center=True),
]
LIN = dict(kind="linear")
TENS = dict(kind="tensor", b1=dict(kind="poly", deg=1))
SPL = dict(kind="splinefct", knots=[-4, -4, -4, -4, -1, 1, 4, 4, 4, 4], coeffs=[1, -2, 3, -1, 2, 4], k=3)


def combos(with_tensor=True):
    """(model, basis, dim) triples on which every stage of the estimation is regular."""
    out = []
    for m in MODELS:
        for b in P1:
            if m == "Pos_gle_with_friction" and b["kind"] == "linear" and False:
                continue
            out.append((m, b, 1))
        for b in [LIN, dict(kind="linear", center=True), SPL] + ([TENS] if with_tensor else []):
            if m == "Pos_gle_with_friction" and b["kind"] == "tensor":
                continue
            out.append((m, b, 2))
        if m in ("Pos_gle", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel"):
            out.append((m, LIN, 3))
    for m in ["Pos_gle"]:
        for b in [dict(kind="poly", deg=2, remove_const=False), dict(kind="fourier", order=1, remove_const=False), dict(kind="bspline", n=4, k=2, remove_const=False)]:
            out.append((m, b, 1))
    return out
