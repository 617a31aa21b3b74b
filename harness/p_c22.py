"""C22: numerical helpers.  Spec: Helpers.tla, HelpersModel.tla, TraceHelpers.tla."""
import copy
import numpy as np
from core import enc, encv, guarded, pmap

MODEL = """CONSTANTS
 MaxX = %d
 MaxB = %d
 Ent = %d
 Emitting = TRUE
SPECIFICATION Spec
INVARIANTS FoldInBox FoldFixes FoldPeriodic FoldSymmetric FoldLipschitz PackRoundTrip PackLength PDMeansPositive ShiftMonotone LargeShiftEnough Emit
CHECK_DEADLOCK FALSE
"""
INF = 10 ** 9


def unbound(v, sc):
    return np.array([np.inf if a >= INF else -np.inf if a <= -INF else a / sc for a in v], float)


def fold_event(X, lo, hi, sc, layout):
    """X: points as rows. layout: rows (N, d), columns (d, N), single (d,)."""
    from hvd.utils import handle_box_constraint as fold
    A = np.array(X, float) / sc
    n, d = A.shape
    B = A if layout == "rows" else A.T.copy() if layout == "columns" else A[0].copy()
    B0 = B.copy()
    L, U = unbound(lo, sc), unbound(hi, sc)
    ok, R = guarded(lambda: fold(B, L, U))
    if not ok:
        return dict(op="raised", what=R, X=X, lo=lo, hi=hi, layout=layout)
    R = np.asarray(R)
    shape = R.shape == B0.shape
    rows = (R if layout == "rows" else R.T if layout == "columns" else R[None]) if shape else A
    fin = np.isfinite(L) & np.isfinite(U)
    tol = 1e-9 * (1 + np.abs(np.where(fin, L, 0)) + np.abs(np.where(fin, U, 0)))
    inside = bool(np.all(~fin | ((rows >= L - tol) & (rows <= U + tol))))
    return dict(op="fold", X=encv(np.array(X) * 100), lo=[v if abs(v) >= INF else v * 100 for v in lo], hi=[v if abs(v) >= INF else v * 100 for v in hi],
                R=encv(rows * sc, 100), inside=inside, shape=bool(shape), same=bool(np.array_equal(B, B0)))


def fold_case(a):
    i, cases, seed = a
    rng = np.random.default_rng([seed, 22, i])
    ev = []
    for c in cases:
        sc = float(rng.choice([1, 8, 10, 3]))
        ev.append(fold_event([[c["x"]]], [c["lo"]], [c["hi"]], sc, ["single", "rows"][int(rng.integers(2))]))
    for _ in range(20):
        d, n = int(rng.integers(1, 5)), int(rng.integers(1, 6))
        lo = rng.integers(-50, 50, d); hi = lo + rng.integers(0, 40, d)
        lo, hi = lo.tolist(), hi.tolist()
        for k in range(d):
            r = rng.random()
            if r < 0.1: lo[k] = -INF
            elif r < 0.2: hi[k] = INF
            elif r < 0.25: lo[k], hi[k] = -INF, INF
        X = rng.integers(*((-60, 60) if rng.random() < 0.6 else (-9000, 9000)), (n, d)).tolist()
        lay = ["rows", "columns", "single"][int(rng.integers(3))]
        if lay == "single": X = X[:1]
        if lay == "rows" and n == d:      # the documented reading of square arrays is by columns
            lay = "columns"
        ev.append(fold_event(X, lo, hi, float(rng.choice([1, 16, 10, 7])), lay))
    return dict(id="fold-%d" % i, ev=ev)


def bounds_case(a):
    from hvd.utils import set_bounds
    seed, i = a
    rng = np.random.default_rng([seed, 2200, i])
    ev = []
    for _ in range(30):
        dim = int(rng.integers(1, 6))
        k = dim if rng.random() < 0.6 else int(rng.integers(1, 7))
        v = rng.integers(-9, 10, k).tolist()
        forms = [list(v), tuple(v), np.array(v), np.array(v, float), str(v)]
        if k == 1:
            forms += [v[0], float(v[0]), np.float64(v[0]), np.int64(v[0]), np.float32(v[0]), str(v)]
        b = forms[int(rng.integers(len(forms)))]
        if isinstance(b, str) and k == 1 and dim > 1:
            b = str(v * dim)
        ok, out = guarded(lambda: set_bounds(b, dim))
        if not ok and k in (1, dim):
            ev.append(dict(op="raised", what=out, b=repr(b), dim=dim)); continue
        ev.append(dict(op="bounds", b=v, dim=dim, out=encv(out) if ok else [], rejected=not ok))
    return dict(id="bounds-%d" % i, ev=ev)


def pack_event(n, dp, A, rng):
    from hvd.utils import matrix_to_Nd_vector as pack, Nd_vector_to_matrix as unpack
    A = np.array(A, bool).reshape(n, -1)
    k = A.shape[1]
    X = rng.integers(1, 1000, (n, dp + k))
    ev = []
    ok, v = guarded(lambda: pack(X.astype(float), dp, A))
    ev.append(dict(op="pack", X=encv(X), dp=dp, A=A.tolist(), out=encv(np.asarray(v).ravel())) if ok else dict(op="raised", what=v))
    w = rng.integers(1, 1000, n * dp + int(A.sum()))
    ok, Y = guarded(lambda: unpack(w.astype(float), n, dp + k, dp, A))
    ev.append(dict(op="unpack", v=encv(w), n=n, dp=dp, A=A.tolist(), out=encv(Y)) if ok else dict(op="raised", what=Y))
    try:
        from hvd.mmd_newton import Nd_vector_to_matrix as unpack2
    except ImportError:
        return ev
    full = np.c_[np.ones((n, dp), bool), A]
    ok, Y = guarded(lambda: unpack2(w.astype(float), n, dp + k, dp, full))
    ev.append(dict(op="unpack", v=encv(w), n=n, dp=dp, A=A.tolist(), out=encv(Y)) if ok else dict(op="raised", what=Y))
    if k and not A.any():
        # without duals the vector is the matrix
        ok, Y = guarded(lambda: unpack(w.astype(float), n, dp, dp, A[:, :0]))
        ev.append(dict(op="unpack", v=encv(w), n=n, dp=dp, A=[[] for _ in range(n)], out=encv(Y)) if ok else dict(op="raised", what=Y))
    return ev


def pack_case(a):
    i, cases, seed = a
    rng = np.random.default_rng([seed, 2201, i])
    ev = []
    for c in cases:
        ev += pack_event(c["n"], c["dp"], c["A"], rng)
    for _ in range(20):
        n, dp, k = int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
        ev += pack_event(n, dp, rng.random((n, k)) < rng.random(), rng)
    return dict(id="pack-%d" % i, ev=ev)


def hess_event(H):
    from hvd.utils import precondition_hessian
    A = np.array(H, float)
    ok, R = guarded(lambda: precondition_hessian(A))
    if not ok:
        return dict(op="raised", what=R, H=encv(H))
    return dict(op="hess", H=encv(H), D=encv(np.asarray(R) - np.array(H, float), 10 ** 6))


def hess_case(a):
    i, cases, seed = a
    rng = np.random.default_rng([seed, 2202, i])
    ev = [hess_event(c["H"]) for c in cases]
    for _ in range(20):
        n = int(rng.integers(1, 7))
        H = np.zeros((n, n), int)
        perm = rng.permutation(n); k = 0
        while k < n:
            b = perm[k:k + int(rng.integers(1, 4))]
            M = rng.integers(-3, 4, (len(b), len(b)))
            M = M @ M.T if rng.random() < 0.4 else M + M.T
            M = np.clip(M, -9, 9) + (rng.integers(0, 9) * np.eye(len(b), dtype=int) if rng.random() < 0.5 else 0)
            H[np.ix_(b, b)] = M
            k += len(b)
        ev.append(hess_event(H))
    return dict(id="hess-%d" % i, ev=ev)


def chim_case(a):
    from hvd.utils import compute_chim
    seed, i = a
    rng = np.random.default_rng([seed, 2203, i])
    ev = []
    for _ in range(15):
        m = int(rng.integers(2, 4)); n = int(rng.integers(m, 7))
        Y = rng.integers(0, 10, (n, m))
        if rng.random() < 0.5:       # extremes of a trade-off
            Y[:m] = 9 - np.diag(rng.integers(4, 10, m))
        Y = Y[rng.permutation(n)]
        ok, v = guarded(lambda: compute_chim(Y.astype(float)))
        ev.append(dict(op="chim", Y=encv(Y), n=encv(v, 10 ** 4)) if ok else dict(op="raised", what=v, Y=encv(Y)))
    return dict(id="chim-%d" % i, ev=ev)


def corrupted(trs):
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            b = copy.deepcopy(t); d = b["ev"][j]
            if e["op"] == "fold": d["R"][0][0] += 5
            elif e["op"] == "bounds": d["rejected"] = not d["rejected"]
            elif e["op"] in ("pack", "unpack") and e["out"]: d["out"] = d["out"][::-1] if d["out"] != d["out"][::-1] else d["out"] + [1]
            elif e["op"] == "hess": d["D"][-1][-1] += 5 if len(d["D"]) > 1 else -5
            elif e["op"] == "chim": d["n"][0] = -d["n"][0] if d["n"][0] else 500
            bad.append(b)
            if j > 6:
                break
        if len(bad) > 200:
            break
    return bad


def run(ctx):
    _, tagged = ctx.tlc("HelpersModel", MODEL % ctx.pick((12, 3, 3), (40, 6, 9)))
    by = {k: [b for t, b in tagged if t == k] for k in ("FOLD", "PACK", "HESS")}
    ctx.notes.update({k.lower(): len(v) for k, v in by.items()})
    rng = ctx.rng()
    nh = ctx.pick(3000, 18000)
    if len(by["HESS"]) > nh:
        by["HESS"] = [by["HESS"][i] for i in sorted(rng.choice(len(by["HESS"]), nh, replace=False))]
    trs = []
    for fn, k in ((fold_case, "FOLD"), (pack_case, "PACK"), (hess_case, "HESS")):
        n = max(ctx.pick(40, 400), (len(by[k]) + 39) // 40)
        trs += pmap(fn, [(i, by[k][i * 40:(i + 1) * 40], ctx.seed) for i in range(n)], procs=8)
    trs += pmap(bounds_case, [(ctx.seed, i) for i in range(ctx.pick(30, 300))], procs=8)
    trs += pmap(chim_case, [(ctx.seed, i) for i in range(ctx.pick(40, 500))], procs=8)
    ctx.vectors += sum(len(t["ev"]) for t in trs)
    for a in range(0, len(trs), 3000):
        ctx.validate("TraceHelpers", trs[a:a + 3000])
    if not ctx.violations:
        ctx.must_reject("TraceHelpers", corrupted([t for p in ("fold", "pack", "hess", "bounds", "chim") for t in [x for x in trs if x["id"].startswith(p)][:5]]))
    ctx.samples += [trs[0]["ev"][:2], trs[-1]["ev"][:2]]
