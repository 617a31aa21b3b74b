"""C06: GD/IGD derivatives.  Spec: DeltaPDerivModel.tla (vectors), TraceDeltaPDeriv.tla (traces)."""
import copy
import numpy as np
from core import Buffers, enc, encv, guarded
from hvderiv import Quad

CFG = """CONSTANTS
 Box = %d
 Curv <- Curvatures
SPECIFICATION Spec
INVARIANTS GradIsStencil HessIsStencil MixedIsStencil ProductRule CubeRule Emit
CHECK_DEADLOCK FALSE
"""
PYTH = {2: [(3, 4), (4, 3), (0, 2), (5, 0), (6, 8), (5, 12), (0, 1), (8, 15)],
        3: [(1, 2, 2), (2, 3, 6), (0, 3, 4), (0, 0, 3), (2, 6, 9), (1, 4, 8), (4, 4, 7), (0, 0, 1)],
        4: [(1, 1, 1, 1), (2, 2, 2, 2), (1, 1, 3, 5), (0, 1, 2, 2), (1, 3, 1, 5), (0, 0, 3, 4)]}
FOURTH = {2: [(0, 4), (4, 0), (0, 1), (0, 9), (7, 24), (9, 0)], 3: [(0, 0, 4), (1, 4, 8), (4, 4, 7), (0, 1, 0), (7, 4, 4)],
          4: [(2, 2, 2, 2), (0, 0, 0, 4), (1, 0, 0, 0), (0, 1, 4, 8)]}


def vectors(ctx):
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
    _, tagged = ctx.tlc("DeltaPDerivModel", CFG % ctx.pick(3, 6))
    for tag, v in tagged:
        if tag != "VEC":
            continue
        ctx.vectors += 1
        a, x, r = v["a"], np.array(v["x"], float), np.array([v["r"]], float)
        f = lambda z: np.array([z[0] + a * z[1] ** 2, 2 * z[1] - a * z[0] * z[1]])
        J = lambda z: np.array([[1, 2 * a * z[1]], [-a * z[1], 2 - a * z[0]]])
        T = lambda z: np.array([[[0, 0], [0, 2 * a]], [[0, -a], [-a, 0]]], float)

        def run():
            bad = []
            todo = [("gd", 2, v["g2"], v["h2"], 1, 0), ("igd", 2, v["g2"], v["h2"], 1, 0), ("match", 2, v["g2"], v["h2"], 1, 0),
                    ("gd", 4, v["g4"], v["h4"], 1, 0)]
            if "g1" in v["sq"]:
                s = v["sq"]
                todo += [("gd", 1, s["g1"], s["h1"], 1000, 3), ("gd", 3, s["g3"], s["h3"], 1000, 3)]
            for kind, p, g, h, S, tol in todo:
                ind = GenerationalDistance(r, f, J, T, p=p) if kind == "gd" else InvertedGenerationalDistance(r, f, J, T, matching=kind == "match")
                G, H = ind.compute_derivatives(x[None])
                tol = tol or 1e-6 * (1 + np.abs(h).max())
                if np.shape(G) != (1, 2) or np.shape(H) != (1, 2, 2) or np.abs(S * G[0] - g).max() > tol or np.abs(S * H[0] - h).max() > tol:
                    bad.append((kind, p, G.tolist(), H.tolist()))
            return bad
        ok, bad = guarded(run)
        if not ok or bad:
            ctx.violation("vector", dict(kind="vector", spec="DeltaPDerivModel", vec=v, wrong=bad))
            if len(ctx.violations) > 10:
                return
    ctx.samples.append(dict(vector=v))


def signed_perm(rng, tup):
    v = np.array(tup)[rng.permutation(len(tup))]
    return v * rng.choice([-1, 1], len(tup))


def assigned(Y, R):
    D = ((Y[:, None] - R[None]) ** 2).sum(-1)
    s = np.sort(D, axis=1)
    uniq = D.shape[1] == 1 or np.all(s[:, 0] < s[:, 1])
    return D, uniq


def scenario(rng, kind, p2, m, nv, q, n=None):
    """Integer points, Jacobians and reference points satisfying the preconditions of the specification."""
    for _ in range(300):
        N = n or int(rng.integers(1, 6))
        if q is None:
            X = rng.integers(-20, 21, (N, nv))
            Y = X.copy()
        else:
            X = rng.integers(-2, 3, (N, nv))
            Y = np.array([q.f(x) for x in X])
        if len(set(map(tuple, Y))) < N:
            continue
        if kind == "gd":
            if p2 in (4,):
                R = np.concatenate([Y[rng.integers(N, size=rng.integers(1, 4))] + rng.integers(-6, 7, (1, m)),
                                    rng.integers(-40, 41, (rng.integers(0, 4), m))])
            else:
                src = FOURTH if p2 % 2 else PYTH
                R = np.array([y - signed_perm(rng, src[m][rng.integers(len(src[m]))]) for y in Y])
                R = np.concatenate([R, rng.integers(-200, 201, (rng.integers(0, 3), m))])
            R = R[rng.permutation(len(R))]
            D, uniq = assigned(Y, R)
            q2 = D.min(axis=1)
            if not uniq or (p2 != 4 and np.any(q2 == 0)):
                continue
            rt = np.round(np.sqrt(q2)).astype(int)
            if p2 in (2, 6) and np.any(rt ** 2 != q2):
                continue
            if p2 % 2:
                r4 = np.round(np.sqrt(rt)).astype(int)
                if np.any(r4 ** 4 != q2):
                    continue
            return X, Y, R
        if kind == "igd":
            R = rng.integers(Y.min() - 4, Y.max() + 5, (int(rng.integers(1, 8)), m))
            if rng.random() < .3:
                R[0] = Y[0]
            if not assigned(R, Y)[1]:
                continue
            return X, Y, R
        if kind == "match":
            R = rng.integers(Y.min() - 4, Y.max() + 5, (N + int(rng.integers(0, 4)), m))
            if len(set(map(tuple, R))) == len(R):
                return X, Y, R
    return None


def traces(ctx):
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
    from hvd.reference_set import ReferenceSet
    rng = ctx.rng(6)
    out = []
    while len(out) < ctx.pick(260, 2500):
        kind = str(rng.choice(["gd", "gd", "igd", "match"]))
        p2 = 4 if kind != "gd" else int(rng.choice([2, 3, 4, 5, 6, 8]))
        m = int(rng.choice([2, 3, 4]))
        ident = rng.random() < .4
        nv = m if ident else int(rng.choice([1, 2, 3]))
        q = None if ident else Quad(rng, nv, m, linear=rng.random() < .3)
        tr = dict(id="dpd-%d" % len(out), key="%s-p2=%d-%s" % (kind, p2, "id" if ident else "map"), ev=[])
        f = (lambda x: np.asarray(x, float)) if ident else (lambda x: q.f(x).astype(float))
        Jf = (lambda x: np.eye(m)) if ident else (lambda x: q.J(x).astype(float))
        Tf = (lambda x: np.zeros((m, nv, nv))) if ident else (lambda x: q.T(x).astype(float))
        # one indicator object and, often, the same arrays overwritten between the calls
        ind = {}
        n = int(rng.integers(1, 6)) if rng.random() < .5 else None
        buf = Buffers(rng.random() < .6)
        for e in range(3):
            sc = scenario(rng, kind, p2, m, nv, q, n)
            if sc is None:
                continue
            X, Y, R = sc
            J = np.array([Jf(x) for x in X]).astype(int)
            T = np.array([Tf(x) for x in X]).astype(int)
            N = len(X)
            Xf, Yf, Jx = buf('x', X.astype(float)), buf('y', Y.astype(float)), buf('j', J.astype(float))
            keep = [Xf.copy(), Yf.copy(), Jx.copy()]

            def call():
                Rf = R.astype(float)
                if not ind:
                    ind[0] = (GenerationalDistance(Rf, f, Jf, Tf, p=p2 / 2) if kind == "gd"
                              else InvertedGenerationalDistance(Rf, f, Jf, Tf, matching=kind == "match"))
                else:
                    ind[0].ref = ReferenceSet(Rf)
                i = ind[0]
                g, H, tg = [], [], []
                for kw in (dict(), dict(Y=Yf), dict(Y=Yf, Jacobian=Jx), dict(Jacobian=Jx)):
                    a, b = i.compute_derivatives(Xf, **kw)
                    g.append(np.array(a)), H.append(np.array(b))
                    tg.append(np.array(i.ref.reference_set))
                    g.append(np.array(i.compute_derivatives(Xf, compute_hessian=False, **kw)))
                return g, H, tg
            ok, r = guarded(call)
            if ok:
                g, H, tg = r
                if any(a.shape != (N, nv) for a in g) or any(b.shape != (N, nv, nv) for b in H):
                    ok, r = False, "wrong shapes"
                elif kind == "match" and not all(np.array_equal(a, tg[0]) for a in tg):
                    continue  # tied assignments: the answers belong to different targets
            if not ok:
                tr["ev"].append(dict(op="raised", what=r, Y=Y.tolist(), ref=R.tolist()))
                break
            size = dict(gd=N, igd=len(R), match=1)[kind]
            mx = max(np.nanmax(np.abs(np.nan_to_num(a, posinf=1e9, neginf=-1e9))) for a in g + H) * size
            # intermediate products of the specification must fit 32 bits as well
            D = ((Y[:, None] - (tg[0] if kind == "match" else R)[None]) ** 2).sum(-1)
            gq = 2 * np.abs(np.einsum("ika,ik->ia", J, np.abs(Y - (tg[0] if kind == "match" else R[D.argmin(1)])))).max() if kind != "igd" else 0
            inter = p2 * abs(p2 - 4) * gq ** 2 * (1 if p2 != 8 else 1)
            S = 100
            if max(mx, inter, p2 * mx) * S > 5e8:
                S = 1
            if max(mx, inter, p2 * mx) * S > 5e8:
                continue
            unmod = all(np.array_equal(a, b) for a, b in zip(keep, [Xf, Yf, Jx]))
            ref = (tg[0].round().astype(int) if kind == "match" else R).tolist()
            tr["ev"].append(dict(op="deriv", kind=kind, p2=p2, Y=Y.tolist(), J=J.tolist(), T=T.tolist(), ref=ref, S=S,
                                 grads=[encv(a * size, S) for a in g], hess=[encv(b * size, S) for b in H], unmod=bool(unmod)))
        if tr["ev"]:
            out.append(tr)
    return out


def run(ctx):
    vectors(ctx)
    trs = traces(ctx)
    ctx.samples.append(trs[0])
    ctx.validate("TraceDeltaPDeriv", trs)
    bad = []
    for tr in trs[:40]:
        if any(e["op"] == "raised" for e in tr["ev"]):
            continue
        for f in ("grads", "hess"):
            c = copy.deepcopy(tr)
            m = c["ev"][0][f][-1]
            while isinstance(m[-1], list):
                m = m[-1]
            m[-1] += 40
            bad.append(c)
    ctx.must_reject("TraceDeltaPDeriv", bad[:20])
