"""Shared driver of C02/C03: HVLocal vectors and recorded derivative calls."""
import copy
import numpy as np
from core import Buffers, enc, encv, guarded, Machinery

CFG = """CONSTANTS
 NPts = %d
 Dim = %d
 FixFirst = %s
 WithHess = %s
SPECIFICATION Spec
INVARIANTS InGeneralPosition GradIsTwoSided EulerGrad EulerHess DominatedIsFlat NoIncrease Emit
CHECK_DEADLOCK FALSE
"""


def units(rng, d):
    """Units of the objectives and origin (powers of two, so that everything stays exact)."""
    r = rng.random()
    if r < 0.5:
        return np.ones(d), np.zeros(d)
    if r < 0.75:
        u = 2.0 ** rng.integers(-6, 5, d)
        return u, u * rng.integers(-9, 9, d)
    return 2.0 ** rng.integers(-28, -8, d), rng.choice([0.0, 1.0, -0.5], d)


def vectors(ctx, confs, hess):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives
    ctx_rng = ctx.rng(23)
    for n, d, fix in confs:
        _, tagged = ctx.tlc("HVLocal", CFG % (n, d, "TRUE" if fix else "FALSE", "TRUE" if hess else "FALSE"))
        for tag, v in tagged:
            if tag != "VEC":
                continue
            # the same set in other units and with another origin (powers of two: exact)
            u, off = units(ctx_rng, d)
            P, R = np.array(v["p"], float) * u + off, np.array(v["r"], float) * u + off
            vol, U = np.prod(u), np.tile(u, n)

            def call():
                h = HypervolumeDerivatives(d, d, R)
                if hess:
                    return h.compute_derivatives(P)
                return h.compute_derivatives(P, compute_hessian=False), None
            ok, got = guarded(call)
            ctx.vectors += 1
            if ok and np.size(got[0]) == n * d and (not hess or np.shape(got[1]) == (n * d, n * d)):
                got = (np.asarray(got[0]) * u / vol if np.shape(got[0]) == P.shape else got[0],
                       np.asarray(got[1]) * np.outer(U, U) / vol if hess else None)
            good = ok and np.array_equal(np.shape(got[0]), P.shape) and np.allclose(np.ravel(got[0]), v["g"], atol=1e-9, rtol=1e-9)
            if good and hess:
                good = np.shape(got[1]) == (n * d, n * d) and np.allclose(got[1], v["h"], atol=1e-9, rtol=1e-9)
            if not good:
                ctx.violation("vector-n%d-d%d" % (n, d), dict(kind="vector", spec="HVLocal", points=v["p"], ref=v["r"],
                              expected_gradient=v["g"], expected_hessian=v["h"], got=str(got)[:2000]))
                if len(ctx.violations) > 10:
                    return
        ctx.samples.append(dict(vector=v))


class Quad:
    """Even-valued integer quadratic map R^n -> R^m with its derivatives."""

    def __init__(self, rng, n, m, linear):
        self.A = np.zeros((m, n, n), int)
        if not linear:
            self.A = 2 * rng.integers(-1, 2, (m, n, n))
            self.A = np.triu(self.A) + np.transpose(np.triu(self.A, 1), (0, 2, 1))
        self.b = 2 * rng.integers(-4, 5, (m, n))
        self.b[:, 0] += 2 * (self.b[:, 0] == 0)
        self.n, self.m = n, m

    def f(self, x):
        x = np.asarray(x)
        return np.einsum("kij,i,j->k", self.A, x, x) + self.b @ x

    def J(self, x):
        return 2 * np.einsum("kij,j->ki", self.A, np.asarray(x)) + self.b

    def T(self, x):
        return 2 * self.A


def generic(P):
    return all(len(set(P[:, k])) == len(P) for k in range(P.shape[1]))


def traces(ctx, n_traces, hess, salt):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives
    rng = ctx.rng(salt)
    out = []
    while len(out) < n_traces:
        m = int(rng.choice([2, 2, 3, 3, 3, 4, 4, 5]))
        nmax = ({2: 9, 3: 6, 4: 5, 5: 4} if not hess else {2: 7, 3: 5, 4: 4, 5: 3})[m]
        ident = rng.random() < 0.45
        sign = 1 if rng.random() < 0.7 else -1
        nv = m if ident else int(rng.choice([1, 2, 3, 4]))
        q = None if ident else Quad(rng, nv, m, linear=rng.random() < 0.3)
        evs_X = []
        same, Nsame = rng.random() < 0.5, int(rng.integers(1, nmax + 1))  # the same arrays, overwritten between calls
        buf = Buffers(same)
        for e in range(3):
            for attempt in range(200):
                N = Nsame if same else int(rng.integers(1, nmax + 1))
                if ident:
                    X = np.stack([2 * rng.permutation(N + 3)[:N] for _ in range(m)], axis=1)
                    if N > 2 and rng.random() < 0.5:  # a chain of dominated points
                        j, i = rng.permutation(N)[:2]
                        X[j] = X[i] + 2 * (N + 3) + 2 * rng.integers(0, 3, m)
                    Y = X
                else:
                    X = rng.integers(-3, 4, (N, nv))
                    Y = np.array([q.f(x) for x in X])
                P = sign * Y
                if generic(P) and np.ptp(P, axis=0).max() <= {2: 400, 3: 80, 4: 36, 5: 26}[m]:
                    evs_X.append((X, P))
                    break
        if not evs_X:
            continue
        lo = np.min([P.min(axis=0) for _, P in evs_X], axis=0)
        ref = np.max([P.max(axis=0) for _, P in evs_X], axis=0) + 2 * rng.integers(1, 4, m)
        if np.prod((ref - lo).astype(float)) > 2e7:
            continue
        u, off = units(rng, m)
        vol = np.prod(u)
        uref = sign * (ref * u + off)  # as the user states it
        if ident:
            kw, ux = {}, u
        else:
            ux = np.ones(nv)
            kw = dict(func=lambda x, q=q: q.f(x) * u + sign * off, jac=lambda x, q=q: q.J(x) * u[:, None],
                      hessian=lambda x, q=q: q.T(x) * u[:, None, None])
        tr = dict(id="deriv-%d" % len(out), ref=ref.tolist(), ev=[],
                  key="%s-%s-m%d" % ("identity" if ident else "map", "min" if sign > 0 else "max", m))
        uref_arg = uref.astype(float) if rng.random() < 0.8 else list(map(float, uref))
        ok, h = guarded(lambda: HypervolumeDerivatives(nv, m, uref_arg, minimization=sign > 0, **kw))
        for X, P in evs_X:
            N = len(X)
            Xf = X * ux + sign * off if ident else X.astype(float)
            Y = sign * (P * u + off)
            J = np.array([np.eye(m, dtype=int) if ident else q.J(x) for x in X])
            T = np.array([np.zeros((m, m, m), int) if ident else q.T(x) for x in X])
            X0 = Xf.copy()
            Xf, Y0, J0 = buf('x', Xf), buf('y', Y), buf('j', J * (u / ux)[:, None] if ident else J * u[:, None])
            J1 = J0.copy()

            given, order = [dict(), dict(Y=Y0), dict(Y=Y0, YdX=J0)], rng.permutation(3)

            def call():
                g, H = [], []
                if hess:
                    for j in order:
                        a, b = h.compute_derivatives(Xf, **given[j])
                        g.append(a), H.append(b)
                for j in order:
                    g.append(h.compute_derivatives(Xf, compute_hessian=False, **given[j]))
                return g, H
            ok, r = guarded(call)
            if ok:
                g, H = r
                if any(np.shape(a) != (N, nv) for a in g) or any(np.shape(b) != (N * nv, N * nv) for b in H):
                    ok, r = False, "wrong shapes %s %s" % ([np.shape(a) for a in g], [np.shape(b) for b in H])
            if not ok:
                tr["ev"].append(dict(op="raised", what=r))
                break
            U = np.tile(ux, N)
            g, H = [np.asarray(a) * ux / vol for a in g], [np.asarray(b) * np.outer(U, U) / vol for b in H]
            mx = max([np.nanmax(np.abs(a)) for a in g + H] + [1])
            S = 1000 if mx < 5e5 else 1
            unmod = np.array_equal(Xf, X0) and np.array_equal(Y0, sign * (P * u + off)) and np.array_equal(J0, J1)
            tr["ev"].append(dict(op="deriv", pts=P.tolist(), sign=sign, J=J.tolist(), T=T.tolist(), S=S,
                                 grads=[encv(a, S) for a in g], hess=[encv(b, S) for b in H], unmod=bool(unmod)))
        out.append(tr)
    return out


def selftest(ctx, trs, field):
    bad = []
    for i, tr in enumerate(trs[:40]):
        c = copy.deepcopy(tr)
        for e in c["ev"]:
            if e.get(field):
                m = e[field][-1]
                m[-1][0] += 5 * e["S"]
                bad.append(c)
                break
        if len(bad) >= 8:
            break
    ctx.must_reject("TraceHVDeriv", bad)
