import numpy as np
import lib
from lib import q, qa, rng
import VolterraBasis as vb
import VolterraBasis.basis as bf


def cases(tier, seed, gen):
    out = []
    n = 1 if tier == "quick" else 6
    for rep in range(n):
        for d in (1, 2, 3):
            for deg in (1, 2):
                for kind in ["uniform", "refined", "shuffled", "moved"]:
                    r = rng(seed, "c06", d, deg, kind, rep)
                    out.append(("mesh-%dd-P%d-%s-%d" % (d, deg, kind, rep), dict(kind=kind, seed=int(r.randint(1 << 30)), d=d, deg=deg)))
        for d in (1, 2, 3):
            for kind in ("refined", "shuffled", "moved", "graded"):
                r = rng(seed, "c06g", d, kind, rep)
                out.append(("find-%dd-%s-%d" % (d, kind, rep), dict(kind=kind, find=True, seed=int(r.randint(1 << 30)), d=d, deg=1)))
        for d in (2, 3):  # hundreds of thin cells
            out.append(("find-%dd-thin-%d" % (d, rep), dict(kind="thin", find=True, seed=int(rng(seed, "c06t", d, rep).randint(1 << 30)), d=d, deg=1)))
        for d in (1, 2):
            r = rng(seed, "c06f", d, rep)
            out.append(("force-%dd-%d" % (d, rep), dict(kind="force", seed=int(r.randint(1 << 30)), d=d, deg=1)))
    return out


def mesh(r, d, kind):
    import skfem

    if d == 1:
        pts = np.sort(r.choice(np.arange(-32, 33), size=6, replace=False)) / 8.0
        m = skfem.MeshLine(np.linspace(-2, 3, 6) if kind == "uniform" else pts)
    elif d == 2:
        m = skfem.MeshTri().refined(1 if kind == "uniform" else 2)
    else:
        m = skfem.MeshTet().refined(1) if kind != "uniform" else skfem.MeshTet()
    if kind == "thin":
        L = [np.linspace(0, 1, 20 if d == 2 else 4), np.linspace(0, 1 / 64.0, 20 if d == 2 else 5), np.linspace(0, 1 / 32.0, 9)]
        m = (skfem.MeshTri if d == 2 else skfem.MeshTet).init_tensor(*L[:d])
    p, t = np.array(m.p, float), np.array(m.t)
    if kind == "graded" and d > 1:
        # long thin cells next to small ones: the nearest centre is often not the one of the own cell
        p = np.where(p > 0.5, p * 16 - 7.5, p)
        p[-1] /= 8
    if kind == "moved" and d > 1:
        # a map of the whole space which is affine on each coordinate plane but stretches: keeps cells valid
        A = np.eye(d) + 0.25 * np.tril(np.ones((d, d)), -1)
        p = A @ p * 2 - 0.5
        p = np.round(p * 256) / 256 if r.randint(2) else p * np.linspace(0.7, 11.1, d)[:, None] + 3.3
    if kind == "shuffled":
        perm = r.permutation(p.shape[1])
        inv = np.argsort(perm)
        p, t = p[:, perm], inv[t]
        t = t[:, r.permutation(t.shape[1])]
        if d == 1:
            flip = r.randint(2, size=t.shape[1]).astype(bool)
            t[:, flip] = t[::-1, flip]
    cls = {1: skfem.MeshLine, 2: skfem.MeshTri, 3: skfem.MeshTet}[d]
    if d == 1 and kind in ("moved", "graded"):  # far from the origin, on either side of it
        p = p / 8 + (512.0 if kind == "moved" else -512.0)
    elif d == 1 and kind == "shuffled":
        p = p - p.max() - 0.25
    if kind in ("moved", "shuffled", "graded"):
        m = cls(p, t)
    return m


def points(r, m, n, corner=False):
    """Points strictly inside cells; towards one of the corners for some."""
    d = m.p.shape[0]
    out = []
    for _ in range(n):
        c = r.randint(m.t.shape[1])
        w = r.randint(1, 9, size=d + 1).astype(float)
        if corner and r.randint(2):
            w[r.randint(d + 1)] += 60
        w /= w.sum()
        out.append(m.p[:, m.t[:, c]] @ w)
    return np.array(out)


def run(rec, p):
    import skfem

    r = rng(p["seed"])
    d, deg = p["d"], p["deg"]
    m = mesh(r, d, "refined" if p["kind"] == "force" else p["kind"])
    el = {(1, 1): skfem.ElementLineP1, (1, 2): skfem.ElementLineP2, (2, 1): skfem.ElementTriP1, (2, 2): skfem.ElementTriP2, (3, 1): skfem.ElementTetP1, (3, 2): skfem.ElementTetP2}[(d, deg)]()
    basis = skfem.CellBasis(m, el)
    bas = bf.FEMScalarFeatures(basis)
    if p["kind"] == "force":
        N = 60
        x = points(r, m, N)
        for i in range(m.p.shape[1]):  # one near each vertex: regular Gram matrix
            c = np.nonzero((m.t == i).any(axis=0))[0][0]
            w = np.where(m.t[:, c] == i, 16.0, 1.0)
            x[i] = m.p[:, m.t[:, c]] @ (w / w.sum())
        v, a = r.randint(-16, 17, size=(N, d)) / 8.0, r.randint(-16, 17, size=(N, d)) / 8.0
        ds = vb.xframe(x, np.arange(N) * 0.5, v=v, a=a)
        ref = bf.FEMScalarFeatures(basis).fit(None)
        bk = np.asarray(ref.basis(x))
        if not np.linalg.cond(bk.T @ bk) < 1e8:
            return
        est = vb.Estimator_gle(ds, vb.Pos_gle_no_vel_basis, bas, trunc=1.0, saveall=False, verbose=False, L_obs="a")
        est.compute_mean_force()
        rec.ev("force", bk=qa(bk), obs=qa(a), coeff=qa(est.model.force_coeff.transpose("dim_basis", "dim_x").data))
        rec.ev("same", what="force-at-points", a=qa(bk @ np.asarray(est.model.force_coeff.transpose("dim_basis", "dim_x").data)), b=qa(est.force_eval(x)), tol="1/1000000000")
        return
    if p.get("find"):
        # many points, far from the centres of their cells as well, through a fitted and an unfitted basis
        x = points(r, m, 90, corner=True)
        if d == 1:
            x[0], x[1] = m.p.max(), m.p.min()
        if True:  # next to an edge or a face, on its inner side
            for i in range(2, 14 if d < 3 else 32):
                c = r.randint(m.t.shape[1])
                w = r.randint(1, 9, size=d + 1).astype(float)
                k = r.randint(d + 1)
                w[k] = 0
                w /= w.sum()
                near = 2.0 ** -26 if d < 3 else 2.0 ** -int(r.choice([12, 14, 17]))
                w *= 1 - near
                w[k] = near
                x[i] = m.p[:, m.t[:, c]] @ w
        if d > 1:  # on a face, an edge or a vertex, exactly or up to rounding
            for i in range(14 if d < 3 else 32, 50 if d < 3 else 60):
                c = r.randint(m.t.shape[1])
                w = r.random_sample(d + 1) if i % 2 else r.randint(1, 9, size=d + 1).astype(float)
                w[r.permutation(d + 1)[: 1 + (i % 3 == 0) + (d == 3 and i % 9 == 0)]] = 0
                x[i] = m.p[:, m.t[:, c]] @ (w / w.sum())
        x0 = x.copy()
        cells = np.asarray(bas.element_finder(x))
        again = np.asarray(bf.FEMScalarFeatures(basis).fit(None).element_finder(x[::-1]))[::-1]
        one = np.array([int(np.asarray(bas.element_finder(x[i : i + 1]))[0]) for i in range(0, len(x), 7)])
        mm = dict(p=qa(m.p), t=[[int(v) for v in row] for row in m.t])
        # other points in as many places, some of them unchanged, through the same object
        other = x[r.permutation(len(x))]
        keep = r.randint(3, size=len(x)) == 0
        keep[0] = True
        other[keep] = x[keep]
        rec.ev("find", mesh=mm, x=qa(other), cells=[int(v) for v in np.asarray(bas.element_finder(other))], unchanged=True)
        # a long trajectory at once: the last points are as good as the first
        many = points(r, m, 2600 if d < 3 else 1300, corner=True)
        cm = np.asarray(bas.element_finder(many))
        pick = np.concatenate((np.arange(len(many) - 12, len(many)), r.randint(len(many), size=12)))
        rec.ev("same", what="as-many-cells-as-points", a=[q(len(cm))], b=[q(len(many))], tol="0")
        rec.ev("find", mesh=mm, x=qa(many[pick]), cells=[int(cm[k]) if k < len(cm) else -1 for k in pick], unchanged=True)
        fresh = bf.FEMScalarFeatures(basis).fit(None)
        bm = np.asarray(fresh.basis(many))
        rec.ev("same", what="long-trajectory-as-its-points", a=qa(bm[pick]), b=qa(np.asarray(fresh.basis(many[pick]))), tol="1/1000000000000")
        for c in (cells, again):
            rec.ev("find", mesh=mm, x=qa(x0), cells=[int(v) for v in c], unchanged=bool(np.array_equal(x, x0)))
        rec.ev("find", mesh=mm, x=qa(x0[::7]), cells=[int(v) for v in one], unchanged=bool(np.array_equal(x, x0)))
        return
    bas.fit(None)
    x = points(r, m, 8)
    if d == 1:
        x[0], x[1] = m.p.max(), m.p.min()
    x0 = x.copy()
    cells = np.asarray(bas.element_finder(x))
    f = dict(val=qa(bas.basis(x)), grad=qa(bas.deriv(x)))
    rec.ev("fem", mesh=dict(p=qa(m.p), t=[[int(v) for v in row] for row in m.t]), degree=deg, x=qa(x0), cells=[int(c) for c in cells], dofs=qa(basis.doflocs), cdofs=[[int(v) for v in row] for row in basis.element_dofs], nout=int(bas.n_output_features_), unchanged=bool(np.array_equal(x, x0)), **f)
    # then other points in as many places, some of them unchanged
    y = points(r, m, len(x))
    keep = r.randint(3, size=len(x)) == 0
    keep[[0, -1]] = True, False
    y[keep] = x[keep]
    f = dict(val=qa(bas.basis(y)), grad=qa(bas.deriv(y)))
    rec.ev("fem", mesh=dict(p=qa(m.p), t=[[int(v) for v in row] for row in m.t]), degree=deg, x=qa(y), cells=[int(c) for c in np.asarray(bas.element_finder(y))], dofs=qa(basis.doflocs), cdofs=[[int(v) for v in row] for row in basis.element_dofs], nout=int(bas.n_output_features_), unchanged=True, **f)
    # one point at a time, in any order, gives the same
    order = r.permutation(len(x))
    one = np.array([bas.basis(x[i : i + 1])[0] for i in order])
    rec.ev("same", what="point-by-point", a=qa(np.asarray(bas.basis(x))[order]), b=qa(one), tol="1/1000000000000")
    # another mesh, and a new fit
    m2 = mesh(r, d, "moved" if p["kind"] != "moved" else "shuffled")
    basis2 = skfem.CellBasis(m2, el)
    bas.basis_fem = basis2
    bas.fit(None)
    y = points(r, m2, 5)
    f = dict(val=qa(bas.basis(y)), grad=qa(bas.deriv(y)))
    rec.ev("fem", mesh=dict(p=qa(m2.p), t=[[int(v) for v in row] for row in m2.t]), degree=deg, x=qa(y), cells=[int(c) for c in np.asarray(bas.element_finder(y))], dofs=qa(basis2.doflocs), cdofs=[[int(v) for v in row] for row in basis2.element_dofs], nout=int(bas.n_output_features_), unchanged=True, **f)
    rec.ev("refused", what="second derivative of finite elements", outcome=rec.outcome(bas.hessian, x))


if __name__ == "__main__":
    lib.main(cases, run)
