import numpy as np
import lib
from lib import q, qa, rng, dyadic
import VolterraBasis as vb


def cases(tier, seed, gen):
    out = []
    n = 60 if tier == "quick" else 600
    kinds = ["plain", "periodic", "gaps", "dask", "irregular", "integer", "big", "strided", "tiny", "other"]
    for i in range(n):
        r = rng(seed, "c01", i)
        N = int(r.choice([2, 3, 4, 5, 7, 12, 20]))
        d = int(r.choice([1, 2, 3]))
        dt = float(r.choice([1.0, 0.5, 0.125, 2.0, 0.001, 0.1]))
        out.append(("frame-%d" % i, dict(seed=int(r.randint(1 << 30)), N=N, d=d, dt=dt, t0=float(r.choice([0.0, 0.0, 1.5, -3.25])), kind=kinds[i % 10], lam=float(r.choice([0.5, 0.25, 0.0, 1.0])))))
    for i, kind in enumerate(["plain", "periodic", "gaps", "irregular"]):  # long ones
        r = rng(seed, "c01l", i)
        out.append(("long-%s" % kind, dict(seed=int(r.randint(1 << 30)), N=int(r.choice([2300, 3100])), d=1 + i % 2, dt=0.125, t0=0.0, kind=kind, lam=0.25, long=True)))
    return out


def snap(ds):
    return {k: np.array(np.asarray(ds[k])) for k in list(ds.variables)}, dict(ds.attrs)


def same(a, b):
    return set(a[0]) == set(b[0]) and all(np.array_equal(a[0][k], b[0][k], equal_nan=True) for k in a[0]) and a[1] == b[1]


def get(ds, k):
    return qa(ds[k].data if k in ds.data_vars else None) if k in ds.data_vars else "absent"


def run(rec, p):
    r = rng(p["seed"])
    N, d, dt = p["N"], p["d"], p["dt"]
    x = dyadic(r, (N, d))
    time = p["t0"] + dt * np.arange(N)
    per = p["kind"] == "periodic"
    if per:
        # true trajectory with steps below a quarter period, wrapped into [-pi, pi)
        steps = r.randint(-12, 13, size=(N, d)) / 8.0
        true = np.cumsum(steps, axis=0)
        x = (true + np.pi) % (2 * np.pi) - np.pi
    if p["kind"] == "irregular":
        time = p["t0"] + np.cumsum(r.randint(1, 9, size=N)) * dt
    if p["kind"] == "integer":
        x = r.randint(-9, 10, size=(N, d))
    if p["kind"] == "big":
        x = x + 4096.0
    if p["kind"] == "tiny":
        x = x * 2.0**-40
    if p["kind"] == "strided":
        x = np.repeat(np.asfortranarray(x), 2, axis=0)[::2]
    # --- construction ---------------------------------------------------------------------------
    for form in ["2d", "list", "1d"]:
        if (form == "1d" and d > 1) or (form != "2d" and p.get("long")):
            continue
        arg = {"2d": x, "list": x.tolist(), "1d": x[:, 0]}[form]
        if form == "list":
            arg = x.tolist()
        for hasv, hasa in [(False, False), (True, False), (True, True), (False, True)]:
            v, a = dyadic(r, (N, d)), dyadic(r, (N, d))
            for fix, dtarg, rnd in [(False, -1, 1e-4), (True, -1, 1e-4), (True, 0.25, 1e-4), (True, -1, 1.0 / 64), (True, 1.0 / 3, 1e-4), (True, 0.012345, 1e-3), (True, 7e-6, 1e-4)]:
                if fix and form != "2d":
                    continue
                if p.get("long") and (rnd != 1e-4 or hasv != hasa or dtarg > 0.01):
                    continue
                tt = np.array(time)
                if fix and dtarg < 0 and rnd == 1e-4:
                    tt = tt + (np.arange(N) == 1) * 2.0**-15
                if fix and dtarg < 0 and rnd == 1.0 / 64:
                    tt = tt + (np.arange(N) == 1) * (rnd / 8) if dt >= rnd else tt
                kw = {}
                if hasv:
                    kw["v"] = v if form != "1d" else v[:, 0]
                if hasa:
                    kw["a"] = a if form != "1d" else a[:, 0]
                ds = vb.xframe(arg, tt, fix_time=fix, dt=dtarg, round_time=rnd, **kw)
                rec.ev("xframe", x=qa(x), time=qa(tt), fix=fix, dtarg=q(dtarg), round=q(rnd), hasv=hasv, hasa=hasa, v=qa(v), a=qa(a), ox=get(ds, "x"), ov=get(ds, "v"), oa=get(ds, "a"), otime=qa(ds["time"].data), odt=q(ds.attrs.get("dt", float("nan"))))
    # --- derived quantities ------------------------------------------------------------------------
    if N < 3:
        return
    def holes(a):
        a = np.array(a)
        if p["kind"] == "gaps":
            a[r.randint(N), r.randint(d)] = np.nan
            if N > 6:
                a[r.randint(N)] = np.nan
        return a

    x = holes(x)
    xin = x
    if p["kind"] == "dask":
        import dask.array as da

        xin = da.from_array(x, chunks=(max(1, N // 3), d))
    ds = vb.xframe(xin, time)
    # the timestep of a frame is the one it carries, also when only a part of the frame is looked at
    cut = 0
    if p["kind"] == "integer":
        ds.attrs["dt"] = 3.0 * dt
    if p["kind"] in ("irregular", "strided", "periodic") and N >= 7:
        cut = 3
        ds = ds.isel(time=slice(cut, None))
        x, time, N = x[cut:], time[cut:], N - cut
        xin = x
    if p["kind"] == "other":  # other content of the frame has no part in it
        ds["other"] = (["time"], np.where(np.arange(N) == N // 2, np.nan, 1.0))
    dtq = q(ds.attrs["dt"])
    base = dict(x=qa(x), time=qa(time), dt=dtq)

    def out(o, before, inp):
        return dict(ox=get(o, "x"), ov=get(o, "v"), oa=get(o, "a"), otime=qa(o["time"].data), odt=q(o.attrs.get("dt", float("nan"))), unchanged=same(before, snap(inp)))

    for jumps in ([False, True] if not per else [True, False]):
        for jump, thr in [(2 * np.pi, 1.75 * np.pi)] + ([(2 * np.pi, np.pi), (3.0, 1.53125 + 1e-3)] if jumps else []):
            b = snap(ds)
            kw = dict(correct_jumps=jumps, jump=jump, jump_thr=thr)
            o = vb.compute_va(ds, lamb_finite_diff=p["lam"], **kw)
            rec.ev("va", lam=q(p["lam"]), jumps=jumps, jump=q(jump), thr=q(thr), **base, **out(o, b, ds))
            o = vb.compute_va_gjf(ds, **kw)
            rec.ev("va", lam="0", jumps=jumps, jump=q(jump), thr=q(thr), **base, **out(o, b, ds))
    # the defaults are the documented ones: centred difference, no jump correction
    b = snap(ds)
    o = vb.compute_va(ds)
    rec.ev("va", lam="1/2", jumps=False, jump="0", thr="0", **base, **out(o, b, ds))
    o = vb.compute_va(ds, correct_jumps=True)
    rec.ev("va", lam="1/2", jumps=True, jump=q(2 * np.pi), thr=q(1.75 * np.pi), **base, **out(o, b, ds))
    xva = o if o["time"].shape[0] > 0 else None
    v = holes(dyadic(r, (N, d)) * (2.0**-40 if p["kind"] == "tiny" else 1.0))
    dv = vb.xframe(xin, time, v=v)
    dv.attrs["dt"] = ds.attrs["dt"]
    if p["kind"] in ("strided", "big", "other"):  # other content of the frame has no part in it
        dv["other"] = (["time"], np.where(np.arange(N) == N // 2, np.nan, 1.0))
    b = snap(dv)
    o = vb.compute_a_from_vel(dv)
    rec.ev("a_vel", v=qa(v), **base, **out(o, b, dv))
    o = vb.compute_a(dv)
    rec.ev("a_pos", v=qa(v), **base, **out(o, b, dv))
    if xva is not None:
        b = snap(xva)
        c = vb.concat_underdamped(xva)
        rec.ev("concat", x=get(xva, "x"), v=get(xva, "v"), a=get(xva, "a"), time=qa(xva["time"].data), dt=q(xva.attrs["dt"]), ox=qa(c["x"].data), ov=qa(c["v"].data), otime=qa(c["time"].data), odt=q(c.attrs.get("dt", float("nan"))), unchanged=same(b, snap(xva)))


if __name__ == "__main__":
    lib.main(cases, run)
