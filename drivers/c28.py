"""Mesh construction: lines, data driven lines, centroids, triangulations, intersection of lines."""
import numpy as np
import lib
import VolterraBasis.basis as bf
from VolterraBasis.basis import _mesh_utils as mu
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    R = 1 if tier == "quick" else 6
    for rep in range(R):
        for n in (1, 2, 3, 7, 16):
            r = rng(seed, "c28l", n, rep)
            out.append(("line-%d-%d" % (n, rep), dict(kind="line", n=n, seed=int(r.randint(1 << 30)))))
        for n in (10, 57, 200, 20011):
            for d in (1, 2):
                r = rng(seed, "c28d", n, d, rep)
                out.append(("dataline-%d-d%d-%d" % (n, d, rep), dict(kind="dataline", n=n, d=d, seed=int(r.randint(1 << 30)))))
        for k in (1, 2, 3, 5, 8):
            r = rng(seed, "c28c", k, rep)
            out.append(("centroid-%d-%d" % (k, rep), dict(kind="centroid", k=k, seed=int(r.randint(1 << 30)))))
        for k in (2, 4):
            r = rng(seed, "c28ch", k, rep)
            out.append(("centroid-huge-%d-%d" % (k, rep), dict(kind="centroid", k=k, many=True, seed=int(r.randint(1 << 30)))))
        for k in (3, 4, 6):
            r = rng(seed, "c28cd", k, rep)
            out.append(("diffuse-%d-%d" % (k, rep), dict(kind="diffuse", k=k, seed=int(r.randint(1 << 30)))))
        for k in range(4):
            r = rng(seed, "c28i", k, rep)
            out.append(("intersect-%d-%d" % (k, rep), dict(kind="intersect", seed=int(r.randint(1 << 30)))))
        for k in range(2):
            r = rng(seed, "c28s", k, rep)
            out.append(("simplify-%d-%d" % (k, rep), dict(kind="simplify", seed=int(r.randint(1 << 30)))))
        for k in (1, 3, 6):
            for b in ("given", "hull", "simplified", "default"):
                r = rng(seed, "c28m", k, b, rep)
                out.append(("mesh-%s-%d-%d" % (b, k, rep), dict(kind="mesh", k=k, b=b, seed=int(r.randint(1 << 30)))))
    return out


def run(rec, p):
    r = rng(p["seed"])
    if p["kind"] == "line":
        n = p["n"]
        for rep in range(4):
            a = float(r.randint(-40, 40)) / 8
            b = a + float(r.randint(1, 80)) / 8
            rec.ev("line", a=q(a), b=q(b), n=n, ratio="1", out=qa(bf.uniform_line(a, b, n)))
            # the other way round is the mirrored line
            rec.ev("line", a=q(b), b=q(a), n=n, ratio="1", out=qa(bf.uniform_line(b, a, n)))
            for ratio in (0.5, 2.0, 1.25, 0.75, 3, 1.01, 0.99, 1.001):
                rec.ev("line", a=q(a), b=q(b), n=n, ratio=q(ratio), out=qa(bf.non_uniform_line(a, b, n, ratio)))
    elif p["kind"] == "dataline":
        n, d = p["n"], p["d"]
        x = np.clip(r.normal(size=(n, d)), -3, 3)
        x0 = x.copy()
        lo, hi = x.min(), x.max()
        for bins in (1, 4, 10, 33):
            rec.ev("dataline", n=bins + 1, lo=q(lo), hi=q(hi), uniform=True, out=qa(bf.data_driven_line(x, bins)))
            rec.ev("dataline", n=bins + 1, lo=q(-4), hi=q(5), uniform=True, out=qa(bf.data_driven_line(x, bins=bins, x_start=-4.0, x_end=5.0)))
            rec.ev("dataline", n=bins + 1, lo=q(-4), hi=q(hi), uniform=True, out=qa(bf.data_driven_line(x, bins=bins, x_start=-4.0)))
            rec.ev("dataline", n=bins + 1, lo=q(lo), hi=q(5), uniform=True, out=qa(bf.data_driven_line(x, bins=bins, x_end=5.0)))
            # a bound of exactly zero is a bound
            rec.ev("dataline", n=bins + 1, lo=q(lo - 10), hi=q(hi - 10 if hi > 0 else 0), uniform=True, out=qa(bf.data_driven_line(x - 10, bins=bins))) if hi - 10 == float(np.max(x - 10)) and lo - 10 == float(np.min(x - 10)) else None
            rec.ev("dataline", n=bins + 1, lo="0", hi=q(hi), uniform=True, out=qa(bf.data_driven_line(x, bins=bins, x_start=0.0))) if hi > 0 else None
            rec.ev("dataline", n=bins + 1, lo=q(lo), hi="0", uniform=True, out=qa(bf.data_driven_line(x, bins=bins, x_end=0.0))) if lo < 0 else None
        # in order, forwards, backwards or in part
        for y in (np.sort(x, axis=0), np.sort(x, axis=0)[::-1], np.concatenate([np.sort(x[: n // 2], axis=0), x[n // 2 :]]), np.concatenate([x[n // 2 :], np.sort(x[: n // 2], axis=0)[::-1]])):
            rec.ev("dataline", n=6, lo=q(y.min()), hi=q(y.max()), uniform=True, out=qa(bf.data_driven_line(y, 5)))
        rec.ev("dataline", n=11, lo=q(lo), hi=q(hi), uniform=True, out=qa(bf.data_driven_line(x)))
        for rule in ("auto", "sturges"):
            out = bf.data_driven_line(x, bins=rule)
            rec.ev("dataline", n=len(out), lo=q(lo), hi=q(hi), uniform=True, out=qa(out))
        rec.ev("same", what="data-unchanged", a=qa(x0), b=qa(x), tol="0")
    elif p["kind"] == "centroid":
        k = p["k"]
        # well separated clusters of different sizes: every algorithm finds them
        c = np.cumsum(r.randint(8, 12, size=k)).astype(float) - 30
        sizes = r.randint(2, 12, size=k) if p["seed"] % 3 else r.randint(1, 3, size=k)  # sometimes hardly more data than centres
        if p.get("many"):
            sizes = sizes * 0 + r.randint(900, 2600, size=k)
        x = np.concatenate([c[i] + r.randint(-16, 17, size=s) / 32.0 for i, s in enumerate(sizes)])
        x = x[r.permutation(len(x))].reshape(-1, 1)
        for scale in (1.0, 2.0**-14, 1024.0):
            xs = x * scale
            x0 = xs.copy()
            out = bf.centroid_driven_line(xs, bins=k)
            rec.ev("dataline", n=k + 2, lo=q(xs.min()), hi=q(xs.max()), out=qa(out))
            rec.ev("centroid", data=qa(xs.ravel()), k=k, out=qa(out), tol="1/1000000")
            rec.ev("same", what="data-unchanged", a=qa(x0), b=qa(xs), tol="0")
    elif p["kind"] == "diffuse":
        # no clusters in the data: the centres settle, up to the tolerance of the clustering
        k = p["k"]
        for rep in range(3):
            x = np.round(r.uniform(-1, 1, size=(240, 1)) * 4096) / 4096
            out = bf.centroid_driven_line(x, bins=k)
            rec.ev("dataline", n=k + 2, lo=q(x.min()), hi=q(x.max()), out=qa(out))
            rec.ev("centroid", data=qa(x.ravel()), k=k, out=qa(out), tol="1/50")
    elif p["kind"] == "intersect":
        for rep in range(8):
            P = [list(map(float, r.randint(-6, 7, size=2))) for _ in range(4)]
            if P[0] == P[1] or P[2] == P[3]:
                continue
            if rep % 3 == 0:  # parallel
                m = int(r.choice([-2, 1, 3]))
                P[3] = [P[2][0] + m * (P[1][0] - P[0][0]), P[2][1] + m * (P[1][1] - P[0][1])]
            if rep % 4 == 1:
                P = [[v / 256 for v in w] for w in P]
            if rep % 4 == 2:
                P = [[v * 2.0**-14 for v in w] for w in P]
            if rep % 4 == 3:
                P = [[v * 2.0**10 for v in w] for w in P]
            out = mu.get_intersect(*P)
            rec.ev("intersect", a1=qa(P[0]), a2=qa(P[1]), b1=qa(P[2]), b2=qa(P[3]), out=["inf", "inf"] if out == (float("inf"), float("inf")) else qa(out))
    elif p["kind"] == "simplify":
        # one corner of a convex polygon cut off: the short edge goes, its neighbours meet
        fn = getattr(mu, "remove_one_point", None)
        if fn is None:
            return
        for rep in range(6):
            A = np.array([[1.0, 0.25 * r.randint(-2, 3)], [0.25 * r.randint(-1, 2), 1.0]])
            sq = np.array([[-16.0, -16], [16, -16], [16, 16], [-16, 16]])[:: int(r.choice([1, -1]))]
            k = int(r.randint(4))
            c = sq[k]
            cut = np.array([c + (sq[k - 1] - c) / 64, c + (sq[(k + 1) % 4] - c) / 32])
            poly = np.concatenate([sq[:k], cut, sq[k + 1 :]])
            for start in range(5):
                pl = np.roll(poly, start, axis=0)
                at = (k + start) % 5
                if at == 4:  # the closing edge is not looked at
                    continue
                V = pl @ A.T + 3
                out, changed = fn(V.copy(), ratio_limit=0.01)
                rec.ev("simplify", verts=qa(V), at=at, corner=qa(A @ c + 3), out=qa(out), changed=bool(changed), short=True)
                out, changed = fn(V.copy(), ratio_limit=1e-7)
                rec.ev("simplify", verts=qa(V), at=at, corner=qa(A @ c + 3), out=qa(out), changed=bool(changed), short=False)
        # a polygon of many corners, one of them cut off
        for n in (14, 19):
            base = np.array([[256 * np.cos(a), 256 * np.sin(a)] for a in 2 * np.pi * (np.arange(n) + 0.3) / n]).round()[:: int(r.choice([1, -1]))]
            k = int(r.randint(n))
            c = base[k]
            poly = np.concatenate([base[:k], [c + (base[k - 1] - c) / 128, c + (base[(k + 1) % n] - c) / 64], base[k + 1 :]])
            for at in (0, 1, 7, n - 1):  # the place of the short edge
                V = np.roll(poly, at - k, axis=0)
                out, changed = fn(V.copy(), ratio_limit=0.01)
                rec.ev("simplify", verts=qa(V), at=at, corner=qa(c), out=qa(out), changed=bool(changed), short=True)
    else:
        k, b = p["k"], p["b"]
        ang = (np.arange(k) + 0.3) * 2 * np.pi / max(k, 1)
        c = np.stack([10 * np.cos(ang), 10 * np.sin(ang)], axis=1)
        sizes = r.randint(4, 10, size=k)
        x = np.concatenate([c[i] + r.normal(size=(s, 2)) for i, s in enumerate(sizes)])
        x = x[r.permutation(len(x))]
        x = np.round(x * 64) / 64
        if b == "simplified":  # a square with one corner cut off, the corner lies outside of the data
            x = np.concatenate([x, np.array([[-20, -20], [20, -20], [20, 19.5], [19.5, 20], [-20, 20]])])
        bins = k + (1 if b == "simplified" else 0)
        x0 = x.copy()
        kw = {}
        if b == "given":
            B = np.array([[-20.0, -20], [20, -20], [20, 20], [-20, 20]])
            kw["boundary_vertices"] = B.copy()
        elif b == "hull":
            kw["simplify_hull"] = 0.0
        elif b == "simplified":
            kw["simplify_hull"] = 0.001
        V, T = bf.centroid_driven_mesh(x, bins=bins, **kw)
        V, T = np.asarray(V), np.asarray(T)
        nb = len(V) - bins
        rec.ev("mesh", kind=b, bins=bins, boundary=qa(B) if b == "given" else "absent", corner=["20", "20"] if b == "simplified" else "absent", verts=qa(V), cells=[[int(i) for i in t] for t in T], data=qa(x0), nb=nb)
        rec.ev("same", what="data-unchanged", a=qa(x0), b=qa(x), tol="0")
        if b == "given":
            out = bf.centroid_driven_mesh(x, bins, B.tolist())
            rec.ev("same", what="boundary-as-list", a=qa(V), b=qa(out[0]), tol="0")


if __name__ == "__main__":
    lib.main(cases, run)
