"""Shared by C10/C11/C13: quadratic problems, recording probes for Newton runs."""
import numpy as np
from core import enc, encv, guarded

S = 10000


class QM:
    """x'Ax + b x + c with integer coefficients (A symmetric)"""

    def __init__(self, A, b, c):
        self.A, self.b, self.c = (np.asarray(v, dtype=int) for v in (A, b, c))
        self.m = len(self.c)

    @staticmethod
    def empty(n):
        return QM(np.zeros((0, n, n)), np.zeros((0, n)), np.zeros(0))

    def spec(self):
        return dict(A=self.A.tolist(), b=self.b.tolist(), c=self.c.tolist())

    def f(self, x):
        x = np.asarray(x, dtype=float)
        return np.einsum("kij,i,j->k", self.A, x, x) + self.b @ x + self.c

    def J(self, x):
        x = np.asarray(x, dtype=float)
        return 2.0 * np.einsum("kij,j->ki", self.A, x) + self.b

    def T(self, x):
        return 2.0 * self.A


class Problem:
    def __init__(self, F, H, G):
        self.F, self.H, self.G = F, H, G
        self.n = F.b.shape[1]

    def spec(self):
        return dict(F=self.F.spec(), H=self.H.spec(), G=self.G.spec())

    def kwargs(self, hess):
        kw = {}
        for n, q in (("h", self.H), ("g", self.G)):
            if q.m:
                kw[n] = q.f
                kw[n + "_jac"] = q.J
                if hess:
                    kw[n + "_hessian"] = q.T
        return kw

    def flags(self, x):
        """(active flags, feasible) the way the state documents them"""
        h, g = self.H.f(x), self.G.f(x)
        act = [1] * len(h) + [int(v >= -1e-4) for v in g]
        feas = int(np.all(np.abs(h) <= 1e-4) and not any(act[len(h):]))
        return act, feas


def psd(rng, n, scale=1):
    return np.diag(rng.integers(0, 2, n)) * scale


def random_problem(rng, n, m, n_eq, n_ieq):
    A = []
    for k in range(m):
        a = np.diag(rng.integers(0, 2, n))
        if n > 1 and rng.random() < .2:
            i, j = rng.permutation(n)[:2]
            a[i, j] = a[j, i] = rng.choice([-1, 1])
        A.append(a)
    b = rng.integers(-2, 3, (m, n))
    F = QM(A, b, rng.integers(0, 3, m))

    def cons(k, curved):
        out = []
        for _ in range(k):
            if rng.random() < curved:
                out.append((np.eye(n, dtype=int), rng.integers(-1, 2, n), -int(rng.integers(1, 4))))
            else:
                out.append((np.zeros((n, n), int), rng.choice([-1, 1, 2], n) * (rng.random(n) < .8), -int(rng.integers(0, 2))))
        return QM([o[0] for o in out], [o[1] for o in out], [o[2] for o in out]) if out else QM.empty(n)
    H, G = cons(n_eq, .5), cons(n_ieq, .4)
    # constraint gradients that vanish are of no interest
    for q in (H, G):
        for k in range(q.m):
            if not q.A[k].any() and not q.b[k].any():
                q.b[k][0] = 1
    return Problem(F, H, G)


class Probe:
    """A performance metric that records the optimizer after every iteration."""

    def __init__(self):
        self.shots = []
        self.opt = None

    def compute(self, X=None, Y=None):
        o = self.opt
        self.shots.append(dict(
            X=np.array(o.state.X, dtype=float), Y=np.array(o.state.Y, dtype=float), Yarg=np.array(Y, dtype=float),
            step=np.array(o.step, dtype=float), s=np.array(o.step_size, dtype=float).ravel(),
            ref=np.array(o.ref.reference_set, dtype=float) if hasattr(o.ref, "reference_set") else None,
            gd=getattr(o, "GD_value", None), igd=getattr(o, "IGD_value", None),
            matched=hasattr(o.ref, "_matched_medoids")))
        return float(len(self.shots))


def ends(opt, probe, ret, prob, budget, hist=("history_X", "history_Y", "history_indicator_value", "history_R_norm"), x_start=None):
    """the event describing a finished run"""
    X, Y, stop = ret
    shots = probe.shots
    lens = [len(getattr(opt, h)) for h in hist] + [len(opt.history_metrics["probe"])]
    unaltered = all(np.array_equal(a, b["X"][:, : prob.n]) for a, b in zip(opt.history_X, shots)) and all(
        np.array_equal(a, b["Y"]) for a, b in zip(opt.history_Y, shots)) and opt.history_metrics["probe"] == [
        float(i + 1) for i in range(len(shots))]
    last = shots[-1]["X"][:, : prob.n] if shots else x_start
    X, Y = np.asarray(X), np.asarray(Y)
    final = X.shape == last.shape and np.array_equal(X, last) and Y.shape == (len(X), prob.F.m) and np.allclose(
        Y, [prob.F.f(x) for x in X], rtol=1e-7, atol=1e-7)
    return dict(op="end", iters=len(shots), reported=int(stop.get("iter_count", -1)), lens=lens, unaltered=int(unaltered), final=int(final))


def moderate(*arrays, top=300.0):
    return all(np.all(np.abs(a) < top) for a in arrays)
