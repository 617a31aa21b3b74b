"""C15: gradient-based optimizer.  Spec: LaraModel.tla (exact motion on unit gradients), Lara.tla/TraceLara.tla (recorded runs)."""
import copy
import numpy as np
from core import enc, encv, guarded, pmap
from newtonlib import S, QM, random_problem, moderate

MODEL = """CONSTANTS
 NPts = %d
 NObj = %d
 K = 12
 W = 2
 Iters = %d
SPECIFICATION Spec
INVARIANTS InBox Emit
PROPERTIES Shrinking AsFarAsPossible Common
CHECK_DEADLOCK FALSE
"""


class Probe:
    def __init__(self):
        self.shots = []
        self.opt = None

    def compute(self, X=None, Y=None):
        self.shots.append((np.array(self.opt.state.X, dtype=float), np.array(self.opt.state.Y, dtype=float), np.array(Y, dtype=float)))
        return float(len(self.shots))


def inbox(X, xl, xu):
    return int(np.all(X >= xl - 1e-9) and np.all(X <= xu + 1e-9))


def run_case(case):
    from hvd.gradient_based import Lara
    F, X0, xl, xu, budget, name, key = (case[q] for q in "F X0 xl xu budget id key".split())
    n = F.b.shape[1]
    N = len(X0) if X0 is not None else case["N"]
    total = 10 * N if budget is None else budget
    lo, hi = np.broadcast_to(np.asarray(xl, float), n), np.broadcast_to(np.asarray(xu, float), n)
    far = lambda v: [enc(q, S) if np.isfinite(q) else int(np.sign(q)) * 9_000_000 for q in v]
    tr = dict(id=name, key=key, F=F.spec(), xl=far(lo), xu=far(hi), budget=total, ev=[])
    probe = Probe()
    given = None if X0 is None else np.array(X0)
    mine = None if X0 is None else given.copy()
    np.random.seed(case.get("seed", 0))
    kw = dict(N=case["N"]) if "N" in case else {}
    ok, opt = guarded(lambda: Lara(n_var=n, n_obj=F.m, func=F.f, jac=F.J, xl=xl, xu=xu, X0=given, max_iters=budget, verbose=False,
                                   metrics=dict(probe=probe), **kw), 30)
    if not ok:
        tr["ev"].append(dict(op="raised", what=opt))
        return tr
    probe.opt = opt
    X = np.array(opt.state.X, dtype=float)
    if X0 is None:
        tr["ev"].append(dict(op="sampled", asked=case["N"], n=len(X), inbox=inbox(X, lo, hi)))
    else:
        tr["ev"].append(dict(op="start", given=encv(mine, S), X=encv(X, S), same=int(np.array_equal(given, mine))))
    x_start = X.copy()
    ok, ret = guarded(opt.run, 60)
    want = case.get("want", [])
    for it, (X1, Y1, Yarg) in enumerate(probe.shots):
        if not moderate(X, X1, top=500) or not np.all(np.isfinite(X1)):
            break
        J = np.array([F.J(x) for x in X])
        if np.abs(J).max() > 30 or np.abs(Y1).max() > 900:
            break
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        cls = [int(np.nonzero(D[i] <= 1e-8)[0][0]) + 1 for i in range(len(X))]
        off = D[~np.eye(len(X), dtype=bool)]
        dl, du = X - lo, hi - X
        near = np.minimum(np.abs(dl), np.abs(du))
        at = np.where(np.abs(dl) <= 1e-10, -1, np.where(np.abs(du) <= 1e-10, 1, 0))
        nrm = np.sqrt((J ** 2).sum(-1))
        # a blocked component whose sign hangs on rounding
        with np.errstate(all="ignore"):
            head = -(J / nrm[..., None]).sum(1)
        edgy = bool(np.any((at != 0) & (np.abs(head) < 1e-2) & (np.abs(head) > 1e-13)))
        doubt = bool(np.any((off > 1e-9) & (off < 1e-6)) or np.any((near > 1e-11) & (near < 2e-3)) or edgy)
        tr["ev"].append(dict(op="iter", X=encv(X, S), at=at.tolist(), cls=cls, doubt=int(doubt), X1=encv(X1, S), Y1=encv(Y1, S),
                             inbox=inbox(X1, lo, hi), want=want[it] if it < len(want) else []))
        if not np.array_equal(Y1, Yarg):
            tr["ev"].append(dict(op="raised", what="metric called with other values"))
        X = X1
    if not ok:
        # a vanishing gradient has no direction
        if all(np.all(np.isfinite(s[0])) for s in probe.shots):
            tr["ev"].append(dict(op="raised", what=ret))
        return tr
    if not all(np.all(np.isfinite(s[0])) for s in probe.shots):
        if all(np.linalg.norm(F.J(x)[k]) > 1e-6 for s in [x_start] + [s[0] for s in probe.shots if np.all(np.isfinite(s[0]))] for x in s for k in range(F.m)):
            tr["ev"].append(dict(op="raised", what="points are NaN"))
        return tr

    def end():
        Xf, Yf, stop = ret
        last = probe.shots[-1][0] if probe.shots else x_start
        Xf, Yf = np.asarray(Xf), np.asarray(Yf)
        final = Xf.shape == last.shape and np.array_equal(Xf, last) and np.allclose(Yf, [F.f(x) for x in Xf], rtol=1e-7, atol=1e-7)
        lens = [len(getattr(opt, h)) for h in ("history_X", "history_Y", "history_R_norm")] + [len(opt.history_metrics["probe"])]
        unaltered = all(np.array_equal(a, b[0]) for a, b in zip(opt.history_X, probe.shots)) and all(
            np.array_equal(a, b[1]) for a, b in zip(opt.history_Y, probe.shots)) and opt.history_metrics["probe"] == [float(i + 1) for i in range(len(probe.shots))]
        return dict(op="end", iters=len(probe.shots), reported=int(stop.get("iter_count", -1)), lens=lens, unaltered=int(unaltered), final=int(final))
    ok, e = guarded(end)
    tr["ev"].append(e if ok else dict(op="raised", what=e))
    return tr


def model_case(b, i):
    A, bb, cc = [], [], []
    for a, c in b["obj"]:
        q = np.zeros((2, 2), int)
        q[a - 1, a - 1] = 4
        v = np.zeros(2, int)
        v[a - 1] = -8 * c // 12
        A.append(q); bb.append(v); cc.append(4 * c * c // 144)
    return dict(F=QM(A, bb, cc), X0=np.array(b["start"]) / 12, xl=[0, 0], xu=[2.0, 2.0], budget=len(b["path"]),
                want=[[[round(v * S / 12) for v in p] for p in X] for X in b["path"]], id="model-%d" % i, key="model-%d-objectives" % len(b["obj"]))


def random_case(rng, i):
    n = int([2, 1, 3, 2][i % 4])
    m = int([2, 3, 2, 1, 4][i % 5])
    F = random_problem(rng, n, m, 0, 0).F
    for k in range(m):
        if not F.A[k].any() and not F.b[k].any():
            F.b[k][0] = 1
    w = rng.integers(1, 4, n)
    xl, xu = (-w).tolist(), w.tolist()
    if rng.random() < .3:
        xl[0] = 0
    if rng.random() < .3:
        xu[rng.integers(n)] = 0
        xl = [min(a, b - 1) for a, b in zip(xl, xu)]
    kind = i % 8
    if kind == 1:
        xl, xu = np.array(xl, float), np.array(xu, float)
    elif kind == 2:
        xl, xu = -2, 2
    elif kind == 3:
        xl, xu = [-1.5], [2.0]
    elif kind == 4 and i % 3 == 0:
        xl = np.full(n, -np.inf) if i % 2 else -np.inf
        xu = [float(q) for q in w]
    N = int(rng.integers(1, 6))
    X0 = rng.integers(-12, 13, (N, n)) / 4
    if N > 1 and rng.random() < .4:
        X0[rng.integers(N)] = X0[rng.integers(N)]
    if rng.random() < .2 and N > 2:
        X0[1:] = X0[0]
    if rng.random() < .2:
        X0 = np.round(X0).astype(int)
    d = dict(F=F, X0=X0, xl=xl, xu=xu, budget=[1, 2, 4, 0, 7, None][int(rng.integers(6))], id="run-%d" % i, key="n%d-m%d-box%d" % (n, m, kind))
    if i % 9 == 8 and kind != 4:
        d.update(X0=None, N=N, seed=i)
    elif i % 10 == 7:
        d["N"] = 5
    return d


def _rand(a):
    return run_case(random_case(np.random.default_rng([a[0], 15, a[1]]), a[1]))


def corrupted(trs):
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if e["op"] == "iter":
                if e["want"]:
                    b = copy.deepcopy(t); b["ev"][j]["X1"][0][0] += 60; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["Y1"][0][0] += 800 + abs(e["Y1"][0][0]) // 20; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["inbox"] = 0; bad.append(b)
                if not e["doubt"]:
                    b = copy.deepcopy(t); b["ev"][j]["X1"].append(e["X1"][0]); bad.append(b)
            elif e["op"] == "end":
                b = copy.deepcopy(t); b["ev"][j]["reported"] += 1; bad.append(b)
        if len(bad) > 60:
            break
    return bad


def run(ctx):
    runs = []
    for cfg in ctx.pick([(2, 2, 4)], [(2, 2, 6), (3, 2, 4), (2, 3, 4)]):
        _, tagged = ctx.tlc("LaraModel", MODEL % cfg)
        runs += [b for t, b in tagged if t == "RUN"]
    rng = ctx.rng()
    pickn = ctx.pick(400, 4000)
    if len(runs) > pickn:
        runs = [runs[i] for i in sorted(rng.choice(len(runs), pickn, replace=False))]
    cases = [model_case(b, i) for i, b in enumerate(runs)]
    trs = pmap(run_case, cases, procs=8) + pmap(_rand, [(ctx.seed, i) for i in range(ctx.pick(800, 6000))], procs=8)
    for a in range(0, len(trs), 1200):
        ctx.validate("TraceLara", trs[a:a + 1200])
    its = [e for t in trs for e in t["ev"] if e["op"] == "iter"]
    ctx.notes["iterations_checked"] = len(its)
    ctx.notes["iterations_within_tolerance_doubt"] = sum(e["doubt"] for e in its)
    ctx.notes["iterations_with_duplicates"] = sum(len(set(e["cls"])) < len(e["cls"]) for e in its)
    ctx.notes["model_behaviours_replayed"] = len(cases)
    if not ctx.violations:
        ctx.must_reject("TraceLara", corrupted(trs))
    ctx.samples += [trs[0], trs[-1]["ev"][:2]]
