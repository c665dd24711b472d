"""Shared by the drivers of the kernel properties."""
import numpy as np
import xarray as xr
import gen
from lib import q, qa, rng


def synth(r, nb, do, Tn, corr=0.75, scales=None):
    """Correlation-like data: B(0) and B(1) well conditioned, everything generic."""
    A = np.eye(nb) * 2 + 0.25 * r.randint(-2, 3, size=(nb, nb))
    B = np.zeros((Tn, nb, nb))
    for n in range(Tn):
        B[n] = A * corr**n + 0.0625 * r.randint(-2, 3, size=(nb, nb)) * (n > 0)
    D = r.randint(-16, 17, size=(Tn, nb, do)) / 16.0
    D[0] *= r.randint(2)  # not zero in general: the equation at time zero is not used
    Bd = r.randint(-16, 17, size=(Tn, nb, nb)) / 16.0
    Dd = r.randint(-16, 17, size=(Tn, nb, do)) / 16.0
    B = gen.rnd(B, 4096)
    if scales is not None:  # functions of very different sizes
        B, Bd = (M * scales[:, None] * scales for M in (B, Bd))
        D, Dd = (M * scales[:, None] for M in (D, Dd))
    return B, D, Bd, Dd


def scales(r, p):
    return 2.0 ** -r.permutation(np.linspace(0, 8, p["nb"]).astype(int)) if p.get("scaled") else None


def inject(est, B, D, Bd, Dd, perm=False):
    dims = ("dim_basis'", "dim_basis", "time_trunc")
    od = gen.odim(est)
    est.bkbkcorrw = xr.DataArray(np.ascontiguousarray(np.moveaxis(B, 0, -1)), dims=dims)
    est.bkdxcorrw = xr.DataArray(np.ascontiguousarray(np.moveaxis(D, 0, -1)), dims=("dim_basis", od, "time_trunc"))
    est.dotbkbkcorrw = None if Bd is None else xr.DataArray(np.moveaxis(Bd, 0, -1), dims=dims)
    est.dotbkdxcorrw = None if Dd is None else xr.DataArray(np.moveaxis(Dd, 0, -1), dims=("dim_basis", od, "time_trunc"))


def holder(r, do, Tn, dt, nb=1):
    """An estimator of the wanted truncation, whose correlations are then given."""
    t = gen.traj(r, Tn + 3, 1, dt=dt, dobs=do)
    est = gen.estimator([t], "Pos_gle_no_vel_basis", dict(kind="poly", deg=max(nb - 1, 0)), (Tn - 0.5) * dt, L_obs="obs")
    est.model.force_coeff = xr.DataArray(np.zeros((est.model.N_basis_elt_force, do)), dims=("dim_basis", "dim_o"))
    return est


def tf(da, *dims):
    """time first"""
    return None if da is None else np.asarray(da.transpose("time_trunc", *dims).data)


def corr_tf(est):
    od = gen.odim(est)
    f = dict(B=tf(est.bkbkcorrw, "dim_basis'", "dim_basis"), D=tf(est.bkdxcorrw, "dim_basis", od), Bd=tf(est.dotbkbkcorrw, "dim_basis'", "dim_basis"), Dd=tf(est.dotbkdxcorrw, "dim_basis", od))
    return {k: ("absent" if v is None else qa(v)) for k, v in f.items()}


def kernel_event(rec, est, method, k0=None, kw=None):
    before = corr_tf(est)
    args = dict(method=method)
    if k0 is not None:
        args["k0"] = k0
    est.compute_kernel(**args)
    ker = est.model.kernel
    od = gen.odim(est)
    after = corr_tf(est)
    kk = "absent"
    if k0 is not None:
        kk = qa(np.asarray(k0, dtype=float).reshape(np.asarray(ker).shape[1:]))
    rec.ev("kernel", method=method, dt=q(est.dt), k0=kk, out=qa(gen.T(ker, "time_kernel", "dim_basis", od)), otime=qa(ker["time_kernel"].data), unchanged=(before == after), **before)


METHODS_FIRST = ["rectangular", "rect", "midpoint", "midpoint_w_richardson", "trapz"]
METHODS_SECOND = ["second_kind_rect", "second_kind_trapz"]
