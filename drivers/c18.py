"""Integration of the equation of motion, with recorded noise."""
import numpy as np
import xarray as xr
import lib
import gen
import basislib
import VolterraBasis as vb
from lib import q, qa, rng

BASES = [
    dict(kind="poly", deg=1, family="Polynomial"),
    dict(kind="poly", deg=3, family="Polynomial"),
    dict(kind="poly", deg=2, family="Legendre"),
    dict(kind="linear", centered=False),
    dict(kind="fourier", order=1, freq=1.0),
    dict(kind="poly", deg=2, family="Polynomial", removed=False),
    dict(kind="linear", centered=True),
]


class Stream:
    """A white noise source which can be rewound."""

    def __init__(self, seed, den=64):
        self.seed, self.den = seed, den
        self.rewind()

    def rewind(self):
        self.r = np.random.RandomState(self.seed)

    def __call__(self, size=None):
        return np.round(self.r.normal(size=size) * self.den) / self.den


def cases(tier, seed, gen_):
    out = []
    for mk in ("const", "pos"):
        for i, b in enumerate(BASES):
            for d in (1, 2):
                if d == 2 and b["kind"] == "fourier":
                    continue
                for rep in range(1 if tier == "quick" else 6):
                    r = rng(seed, "c18", mk, i, d, rep)
                    out.append(("%s-%s%d-d%d-%d" % (mk, b["kind"], i, d, rep), dict(seed=int(r.randint(1 << 30)), model=mk, basis=b, d=d, L=int(r.choice([3, 4, 6])), dt=float(r.choice([0.125, 0.0625])))))
    for mk in ("const", "pos"):  # many steps in one run
        r = rng(seed, "c18l", mk)
        out.append((mk + "-long", dict(seed=int(r.randint(1 << 30)), model=mk, basis=BASES[4], d=1, L=3, dt=0.0625, long=300 if tier == "quick" else 1200)))
    for mk in ("const", "pos"):  # a long memory
        r = rng(seed, "c18m", mk)
        out.append((mk + "-memory", dict(seed=int(r.randint(1 << 30)), model=mk, basis=BASES[3], d=1, L=214, dt=0.0625, long=230 if tier == "quick" else 400, only=True)))
    for k in range(2):
        r = rng(seed, "c18s", k)
        out.append(("starts-%d" % k, dict(kind="starts", seed=int(r.randint(1 << 30)), model="const", basis=BASES[3], d=1, L=3, dt=0.125)))
    return out


def setup(p, r, rngs):
    b, d, dt, L = p["basis"], p["d"], p["dt"], p["L"]
    data = gen.rnd(np.clip(r.normal(size=(40, d)), -2, 2))
    trajs = [gen.traj(r, n, d, dt=dt) for n in (max(30, L + 5), max(37, L + 9))]
    cls = "Pos_gle_const_kernel" if p["model"] == "const" else "Pos_gle"
    est = vb.Estimator_gle(trajs, getattr(vb, cls), basislib.make(b), trunc=(L - 0.5) * dt, saveall=False, verbose=False)
    m = est.model
    allx = np.concatenate([np.asarray(t["x"].data) for t in trajs])
    spec = basislib.spec_of(b, allx)
    if b["kind"] == "linear" and b["centered"]:
        spec["center"] = qa(np.asarray(m.basis.mean_).ravel()) if hasattr(m.basis, "mean_") else spec["center"]
    # restoring force, friction-like kernel
    coeff = r.randint(-8, 9, size=(m.N_basis_elt_force, d)) / 16.0
    P = "absent"
    nk = m.N_basis_elt_kernel
    if m.rank_projection:
        est.set_zero_force()
        est.compute_corrs()
        P = qa(gen.T(m.P_range, "dim_basis", "dim_basis_old"))
        nk = m.P_range.sizes["dim_basis"]
    m.force_coeff = xr.DataArray(coeff, dims=("dim_basis", "dim_x"))
    K = r.randint(-8, 9, size=(L, nk, d)) / 16.0
    # the noise needs a correlation function with a non negative spectrum
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(L) * dt})
    if p["seed"] % 3:
        gen.aside(est, p["seed"] + 5)
    return est, m, trajs, spec, coeff, K, P


def starts(rec, p, r):
    """every point which has the memory asked for before it can be drawn"""
    est, m, trajs, spec, coeff, K, P = setup(p, r, None)
    I = vb.Integrator_gle_const_kernel(m, coeffs_noise_kernel=np.zeros((K.shape[1], 1)), verbose=False)
    st = np.random.get_state()
    np.random.seed(int(r.randint(1 << 30)))
    for lens, nmem in (([5], 2), ([4, 6], 3), ([3], 0), ([4], 3)):
        with rec.guard("starts"):
            ts = [gen.traj(r, n, 1, dt=p["dt"]) for n in lens]
            for k, t in enumerate(ts):
                t["x"] = t["x"] * 0 + (100 * k + np.arange(lens[k]))[:, None]  # the value tells the place
            seen = set()
            for _ in range(400):
                x0 = I.initial_conditions(ts if len(ts) > 1 else ts[0], n_mem=nmem)
                v = int(x0["x"].data[-1, 0])
                seen.add((v // 100 + 1, v % 100 + 1))
            rec.ev("starts", nmem=nmem, lens=lens, seen=[list(s) for s in sorted(seen)])
    np.random.set_state(st)


def run(rec, p):
    r = rng(p["seed"])
    d, dt, L = p["d"], p["dt"], p["L"]
    if p.get("kind") == "starts":
        return starts(rec, p, r)
    est, m, trajs, spec, coeff, K, P = setup(p, r, None)
    nk = K.shape[1]
    # the stored centre of a centred basis is checked with the bases; here it only enters as a number
    ms = dict(kind=p["model"], b=spec, coeff=qa(coeff), K=qa(K), P=P, dt=q(dt))
    cls = vb.Integrator_gle_const_kernel if p["model"] == "const" else vb.Integrator_gle
    stream = Stream(int(r.randint(1 << 30)))
    nz = gen.rnd(np.zeros((nk, d)) + 0.0)

    def integ(L2=None, **kw):
        return cls(m, coeffs_noise_kernel=np.zeros((nk, d)), trunc_kernel=L2, rng=stream, verbose=False, **kw)

    class Noise:  # recorded noise instead of the generated one
        def __init__(self, arr):
            self.arr = arr

        def generate(self, size):
            return self.arr[:size]

    def doit(I, n, x0, noise, ms, zero=False, what=""):
        if not zero:
            I.noise_generator = Noise(noise)
        snap = None if x0 is None else x0.copy(deep=True)
        trj = I.run(n, x0, set_noise_to_zero=True) if zero else I.run(n, x0)
        if x0 is not None:  # the memory given is only read
            rec.ev("same", what="initial-conditions-unchanged", a=["1"], b=[q(snap.identical(x0))], tol="0")
        f = dict(n=n, dim=d, m=ms, n0=0 if x0 is None else x0["time"].shape[0], noise=qa(noise[:n] if not zero else np.zeros((n, d))), ox=qa(np.asarray(trj["x"].transpose("time", "dim_x"))), ov=qa(np.asarray(trj["v"].transpose("time", "dim_x"))), otime=qa(trj["time"].data), odt=q(trj.attrs["dt"]))
        f["x0"] = "absent" if x0 is None else qa(x0["x"].data)
        f["v0"] = "absent" if x0 is None else qa(x0["v"].data)
        rec.ev("run", what=what, **f)
        return trj

    if p.get("only"):
        with rec.guard("long memory"):
            z = gen.rnd(r.normal(size=(p["long"], d)))
            doit(integ(), p["long"], None, z, ms, what="long")
        return
    n = 3 * L if L < 6 else 14
    noise = gen.rnd(r.normal(size=(n, d)))
    with rec.guard("from rest"):
        I = integ()
        for again in range(3):  # nothing is kept from one run to the next
            doit(I, n - again, None, noise, ms, what="again%d" % again)
    if p.get("long"):
        with rec.guard("long"):
            z = gen.rnd(r.normal(size=(p["long"], d)) * 2)
            doit(integ(), p["long"], None, z, ms, what="long")
    for nmem in (0, 1, L - 2, L + 1):
        with rec.guard("from data"):
            I = integ()
            st = np.random.get_state()
            snap = [(np.array(t["x"].data), np.array(t["v"].data), np.array(t["time"].data)) for t in trajs]
            np.random.seed(int(r.randint(1 << 30)))
            x0 = I.initial_conditions(trajs if nmem % 2 else trajs[0], n_mem=nmem)
            np.random.set_state(st)
            same = all(np.array_equal(a, np.array(t["x"].data)) and np.array_equal(b, np.array(t["v"].data)) and np.array_equal(c, np.array(t["time"].data)) for (a, b, c), t in zip(snap, trajs))
            rec.ev("start", nmem=nmem, dim=d, dt=q(dt), ox=qa(x0["x"].data), ov=qa(x0["v"].data), otime=qa(x0["time"].data), unchanged=same, trajs=[dict(x=qa(t["x"].data), v=qa(t["v"].data)) for t in (trajs if nmem % 2 else trajs[:1])])
            trj = doit(I, nmem + 1 + 6, x0, noise if nmem + 7 <= n else gen.rnd(r.normal(size=(nmem + 7, d))), ms, zero=(nmem == 1))
    with rec.guard("restart"):
        # a run continued from its own first points is the same run
        trj = doit(integ(), n, None, noise, ms)
        for k in (1, 2, L, n - 1):
            t2 = doit(integ(), n, trj.isel(time=slice(0, k)), noise, ms)
            rec.ev("same", what="restart", a=qa(np.asarray(trj["x"])), b=qa(np.asarray(t2["x"])), tol="1/100000000")
            rec.ev("same", what="restart", a=qa(np.asarray(trj["v"])), b=qa(np.asarray(t2["v"])), tol="1/100000000")
    with rec.guard("truncated kernel"):
        L2 = max(2, L - 1)
        doit(integ(L2), n, None, noise, dict(ms, K=qa(K[:L2])))
    with rec.guard("bare coefficients"):
        if P == "absent" and nk == d:
            I = cls(None, basis=m.basis, force_coeff=coeff, kernel=K, dt=dt, verbose=False)
            doit(I, n, None, noise, ms)
    with rec.guard("generated noise"):
        # the noise which drives the motion is the one of the generator
        c = np.zeros((nk, d))
        for i in range(d):
            c[i, i] = 1.0
        Kp = np.zeros((L, nk, d))
        for i in range(d):
            Kp[:, i, i] = 0.5 ** np.arange(L) * (1 + i)
        keep = m.kernel
        m.kernel = xr.DataArray(Kp, dims=keep.dims, coords=keep.coords)
        stream.rewind()
        I = cls(m, coeffs_noise_kernel=c, rng=stream, verbose=False)
        stream.rewind()
        z = I.noise_generator.generate(n)
        stream.rewind()
        I2 = cls(m, coeffs_noise_kernel=c, rng=stream, verbose=False)
        stream.rewind()
        trj = I2.run(n)
        rec.ev("run", what="generated", n=n, dim=d, m=dict(ms, K=qa(Kp)), n0=0, noise=qa(z), ox=qa(np.asarray(trj["x"])), ov=qa(np.asarray(trj["v"])), otime=qa(trj["time"].data), odt=q(trj.attrs["dt"]), x0="absent", v0="absent")
        m.kernel = keep


if __name__ == "__main__":
    lib.main(cases, run)
