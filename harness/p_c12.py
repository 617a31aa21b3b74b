"""C12: MMD values and derivatives.  Spec: MMDModel.tla (the oracle is the exact derivative), TraceMMD.tla (recorded lives)."""
import copy
import numpy as np
from core import Buffers, enc, encv, guarded, pmap

LN2 = float(np.log(2))
CFG = """CONSTANTS
 NPts = %d
 NRef = %d
 Dim = %d
 Top = %d
 A = 9
 B = 1
SPECIFICATION Spec
INVARIANTS GradientOfYY GradientOfRY HessianOfYY CrossOfYY HessianOfRY GradientOfMatched Nonnegative
CHECK_DEADLOCK FALSE
"""
E5 = 100000


class Small:
    def __init__(self, rng, n, m, ident):
        self.ident, self.n, self.m = ident, n, m
        if ident:
            self.A, self.b, self.c = np.zeros((m, n, n), int), np.eye(m, dtype=int), np.zeros(m, int)
        else:
            A = rng.integers(-1, 2, (m, n, n)) * (rng.random((m, n, n)) < .5)
            self.A = np.triu(A) + np.transpose(np.triu(A, 1), (0, 2, 1))
            self.b = rng.integers(-1, 2, (m, n))
            self.c = rng.integers(0, 2, m)

    def f(self, x):
        return np.einsum("kij,i,j->k", self.A, x, x) + self.b @ x + self.c

    def J(self, x):
        return 2 * np.einsum("kij,j->ki", self.A, x) + self.b

    def T(self, x):
        return 2 * self.A


def poly(a, b):
    import jax.numpy as jnp

    def k(x, y, theta=1.0):
        s = theta * jnp.sum((x - y) ** 2)
        return 1 - a * s / 64 + b * s * s / 64
    return k


def kernel_arg(k):
    from hvd import mmd
    if k["kind"] == "poly":
        return dict(kernel=poly(k["a"], k["b"]))
    if k["kind"] == "rq":
        return dict(kernel=mmd.rational_quadratic, theta=2 / k["a"])
    if k["kind"] == "lap":
        return dict(kernel=mmd.laplace, theta=k["a"] * LN2)
    return dict(theta=k["a"] * LN2) if k["b"] else dict(kernel=mmd.rbf, theta=k["a"] * LN2)


def multiset(A):
    return sorted(map(tuple, np.asarray(A).tolist()))


def life(rng, i, shape=None):
    from hvd.mmd import MMD, MMDMatching
    from hvd.reference_set import ReferenceSet
    kind = ["mmd", "match"][i % 2]
    kk = ["poly", "rbf", "rq", "poly", "rbf", "lap"][(i // 2) % 6]
    k = dict(kind=kk, a=int(rng.integers(1, 4)), b=int(rng.integers(0, 2)))
    if kk == "poly":
        k["a"], k["b"] = int(rng.integers(-4, 12)), int(rng.integers(0, 3))
    tol = dict(poly=16, rbf=28, rq=34, lap=10)[kk]
    m = int(rng.integers(2, 4)) if i % 5 else int(rng.integers(1, 5))
    m = max(m, 2) if kind == "match" else m
    ident = i % 4 >= 2
    nv = m if ident else int(rng.integers(1, 4))
    q = Small(rng, nv, m, ident)
    N, M = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    if kind == "match":
        M = N if i % 3 else N + int(rng.integers(0, 3))

    def points(n):
        top = 3
        while True:  # objective points not too far apart, mostly distinct
            for _ in range(60):
                X = rng.integers(0, top, (n, nv))
                Y = np.array([q.f(x) for x in X])
                if (len(set(map(tuple, X))) == n or rng.random() < .1) and np.ptp(Y, axis=0).max() <= 4 and np.abs(Y).max() <= 5:
                    return X
            top = 6  # few distinct points on a line
            q.A *= 0  # too steep: fall back to a linear map
            q.c *= 0

    def refs(n):
        base = np.array([q.f(x) for x in points(min(4, 2 ** nv))])
        for w in range(1, 999):
            w = 1 + w // 20
            R = base[rng.integers(0, len(base), n)] + rng.integers(-w, w + 1, (n, m))
            if len(set(map(tuple, R))) == n:
                return R
    direction = rng.integers(-1, 2, m)
    mk = lambda R: ReferenceSet(R.astype(float), eta={0: direction.astype(float)})
    R = refs(M)
    bn = int(rng.integers(0, 7))
    given = multiset(R)
    kw = kernel_arg(k)
    if not ident:
        kw.update(func=lambda x: q.f(x).astype(float), jac=lambda x: q.J(x).astype(float), hessian=lambda x: q.T(x).astype(float))
    if kind == "match":
        kw["beta"] = bn / 4
    cls = MMD if kind == "mmd" else MMDMatching
    plain = kind == "mmd" and rng.random() < .5
    tr = dict(id="life-%d" % i, key="%s-%s-%s" % (kind, kk, "identity" if ident else "map"), ev=[])
    ok, ind = guarded(lambda: cls(nv, m, R.astype(float) if plain else mk(R), **kw))
    if not ok:
        tr["ev"].append(dict(op="raised", what=ind))
        return tr
    X = points(N)
    unit = LN2 if kk == "rbf" else 1.0
    ops = ["value", "deriv", "change", "deriv", "change", "value", "points", "deriv"] if i % 2 == 0 or rng.random() < .7 else \
          ["deriv", "value", "change", "value", "change", "deriv"]
    if kk == "lap":
        ops = ["value", "change", "value", "points", "value"]
    matched = False
    buf = Buffers(rng.random() < .6)
    for op in ops:
        if op == "points":
            X = points(N)
            continue
        if op == "change":
            c = int(rng.integers(3))
            if kind == "match" and c == 0:
                bn = int(rng.integers(0, 7))
                ind.beta = bn / 4
            elif c == 1 and not plain and (matched or kind == "mmd"):
                T0 = np.asarray(ind.ref.reference_set).copy()
                idx = [j for j in range(len(T0)) if kind == "mmd" or rng.random() < .6]

                def sh():
                    ind.ref.shift(1.0, np.array(idx, dtype=int))
                ok, r = guarded(sh)
                if not ok:
                    tr["ev"].append(dict(op="raised", what=r))
                    return tr
                T0[idx] += direction
                given = multiset(T0)
            else:
                R = refs(len(R) if kind == "match" else int(rng.integers(1, 6)))
                given = multiset(R)
                ind.ref = mk(R)
                plain = False
                matched = False
            continue
        Xf = buf('x', X.astype(float))
        Y = np.array([q.f(x) for x in X])
        Yf = buf('y', Y.astype(float))
        J = np.array([q.J(x) for x in X])
        Jf = buf('j', J.astype(float))
        c0 = [a.copy() for a in (Xf, Yf, Jf)]

        if op == "value":
            calls = [lambda: dict(v=ind.compute(X=Xf)), lambda: dict(v=ind.compute(Y=Yf)), lambda: dict(v=ind.compute(X=Xf, Y=Yf))]
        else:
            pair = lambda r: dict(gx=r[0], hx=r[1])
            full = lambda r: {x: r[y] for x, y in dict(gx="MMDdX", hx="MMDdX2", gy="MMDdY", hy="MMDdY2").items() if y in r}
            calls = [lambda: pair(ind.compute_derivatives(Xf)),
                     lambda: dict(gx=ind.compute_derivatives(Xf, Y=Yf, compute_hessian=False, jacobian=Jf)),
                     lambda: full(ind.compute_gradient(Xf, Y=Yf)),
                     lambda: full(ind.compute_hessian(Xf, jacobian=Jf)),
                     lambda: pair(ind.compute_derivatives(Xf, Y=Yf, jacobian=Jf)),
                     lambda: dict(gx=ind.compute_derivatives(Xf, compute_hessian=False))]
        # one event per call: with ties the matching may settle differently every time
        groups = [calls] if kind == "mmd" else [[c] for c in calls]
        for group in groups:
            ok, r = guarded(lambda: [c() for c in group], 60)
            if ok:
                ok, T = guarded(lambda: np.asarray(ind.ref.reference_set))
                if not ok:
                    r = T
            if ok:
                want = dict(v=(), gx=(N, nv), hx=(N * nv, N * nv), gy=(N, m), hy=(N * m, N * m))
                wrong = [(n, np.shape(v)) for c in r for n, v in c.items() if np.shape(v) != want[n]]
                if wrong or (kind == "match" and len(T) != N):
                    ok, r = False, "wrong shapes %s, targets %s" % (wrong, np.shape(T))
            if not ok:
                tr["ev"].append(dict(op="raised", what=r))
                return tr
            Ti = np.round(T).astype(int)
            ts = multiset(Ti)
            known = np.abs(T - Ti).max() < 1e-9
            if kind == "mmd":
                known = known and ts == given
            else:
                rest = list(given)
                for p in ts:
                    if p in rest:
                        rest.remove(p)
                    else:
                        known = False
                if known:
                    given = ts
                matched = True
            e = dict(op=op, kind=kind, k=k, Y=Y.tolist(), T=Ti.tolist(), bn=bn, tol=tol, known=int(known),
                     unmod=int(all(np.array_equal(a, b) for a, b in zip(c0, (Xf, Yf, Jf)))))
            for n in ["v"] if op == "value" else ["gx", "hx", "gy", "hy"]:
                e[n] = [encv(np.asarray(c[n]) / (1.0 if n == "v" else unit), E5) for c in r if n in c]
            if op == "deriv":
                e.update(J=J.tolist(), H=[q.T(x).tolist() for x in X],
                         amp=int(1 + np.abs(J).sum(axis=1).max() + np.abs(q.A).sum()))
            tr["ev"].append(e)
    return tr


def _life(a):
    return life(np.random.default_rng([a[0], 12, a[1]]), a[1])


def run(ctx):
    for conf in ctx.pick([(2, 1, 2, 1), (2, 2, 1, 2), (3, 1, 1, 2)], [(2, 2, 2, 2), (3, 2, 2, 1), (3, 3, 1, 2), (2, 2, 3, 1)]):
        ctx.tlc("MMDModel", CFG % conf)
    trs = pmap(_life, [(ctx.seed, i) for i in range(ctx.pick(120, 1500))])
    for a in range(0, len(trs), 300):
        ctx.validate("TraceMMD", trs[a:a + 300])
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if e["op"] == "value":
                b = copy.deepcopy(t); b["ev"][j]["v"][-1] += 60; bad.append(b)
            elif e["op"] == "deriv":
                for f in ("gx", "hy"):
                    if not e[f]:
                        continue
                    b = copy.deepcopy(t); b["ev"][j][f][-1][0][0] += 40 * 40 + e["tol"] * e["amp"] ** 2; bad.append(b)
        if len(bad) > 40:
            break
    if not ctx.violations:
        ctx.must_reject("TraceMMD", bad)
    ctx.samples.append(trs[0]["ev"][0] if trs[0]["ev"] else None)
    ctx.assumptions += ["kernels exercised: quadratic polynomials of the squared distance (exact), the Gaussian with rational weights "
                        "(theta a multiple of ln 2), the rational quadratic (alpha = 1) and, for values only, the Laplacian",
                        "which target a point is matched to is judged by C07; here the targets in force are taken as reported"]
