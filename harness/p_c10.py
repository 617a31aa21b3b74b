"""C10: hypervolume Newton runs.  Spec: HVNModel.tla (populations out), HVFixModel.tla, TraceHVN.tla (recorded runs)."""
import copy
import numpy as np
from core import enc, encv, guarded, pmap
from newtonlib import S, QM, Problem, Probe, random_problem, ends, moderate

MODEL = """CONSTANTS
 Side = 2
 MaxN = 3
 Eq = %s
SPECIFICATION Spec
INVARIANTS Distinct EachOnce FeasibleInLaterLayers LayerIsAntichain OneLayerIfNoneFeasible GradAgrees HessAgrees Emit
PROPERTIES NothingLost
CHECK_DEADLOCK FALSE
"""
FIX = """CONSTANTS
 NPts = %d
 Dim = %d
 FixFirst = TRUE
 WithHess = TRUE
SPECIFICATION Spec
INVARIANTS FixGradAgrees FixHessAgrees
CHECK_DEADLOCK FALSE
"""


def run_case(case):
    """case: problem, ref, X0, xl, xu, budget, limit, pre"""
    from hvd.newton import HVN
    pb, ref, X0, xl, xu, budget, limit, pre, name, key = (case[k] for k in "pb ref X0 xl xu budget limit pre id key".split())
    n, m = pb.n, pb.F.m
    N0 = len(X0)
    total = 10 * N0 if budget is None else budget
    tr = dict(id=name, key=key, pb=pb.spec(), ref=encv(ref, S), xl=encv(xl, S), xu=encv(xu, S), budget=total, limit=int(limit), pre=int(pre), ev=[])
    probe = Probe()
    given = np.array(X0, dtype=float)
    mine = given.copy()
    np.random.seed(1)

    def make():
        return HVN(n_var=n, n_obj=m, func=pb.F.f, jac=pb.F.J, hessian=pb.F.T, ref=np.array(ref, float), xl=list(xl), xu=np.array(xu, float),
                   X0=given, max_iters=budget, verbose=False, metrics=dict(probe=probe), limit_max_step_size=limit,
                   preconditioning=pre, **pb.kwargs(True))
    ok, opt = guarded(make)
    if not ok:
        tr["ev"].append(dict(op="raised", what=opt))
        return tr
    probe.opt = opt
    X = np.array(opt.state.X, dtype=float)
    tr["ev"].append(dict(op="start", given=encv(mine, S), X=encv(X[:, :n], S), lam=encv(X[:, n:], S), same=int(np.array_equal(given, mine))))
    x_start = X[:, :n].copy()
    ok, ret = guarded(opt.run, 60)
    if not ok:
        last = probe.shots[-1] if probe.shots else None
        if last is None or moderate(last["X"], last["step"], last["Y"], top=1e5):   # a run that has diverged may fail
            tr["ev"].append(dict(op="raised", what=ret, after=len(probe.shots)))
    nc = pb.H.m + pb.G.m
    for it, sh in enumerate(probe.shots):
        X1, step, s = sh["X"], sh["step"], sh["s"]
        if not (moderate(X, X1, step, sh["Y"]) and len(step) == len(X1) == len(s)) or it >= 3:
            if len(step) != len(X1) or len(s) != len(X1):
                tr["ev"].append(dict(op="raised", what="step of %s, %s sizes for %s points" % (step.shape, s.shape, X1.shape)))
            break
        base = X1 - s[:, None] * step
        kept, p = [], 0
        for row in base:
            while p < len(X) and not np.allclose(X[p], row, rtol=1e-7, atol=1e-7):
                p += 1
            if p < len(X):
                kept.append(p + 1)
            p += 1
        if len(kept) != len(X1):
            tr["ev"].append(dict(op="raised", what="new points are not old points plus step", iteration=it))
            break
        D = np.sqrt(((X[:, None, :n] - X[None, :, :n]) ** 2).sum(-1))
        near = int(np.any((D > 1e-13) & (D < 1e-3)))
        fl = [pb.flags(x[:n]) for x in X]
        acts = [[pb.flags(X[kept[i] - 1][:n] + step[i][:n] * .5 ** j)[0] for j in range(7)] for i in range(len(X1))]
        hv = opt.history_indicator_value[it] if it < len(opt.history_indicator_value) else float("nan")
        tr["ev"].append(dict(op="iter", X=encv(X[:, :n], S), lam=encv(X[:, n:], S), feas=[f[1] for f in fl], act=[f[0] for f in fl],
                             kept=kept, X1=encv(X1[:, :n], S), lam1=encv(X1[:, n:], S), step=encv(step[:, :n], S), slam=encv(step[:, n:], S),
                             s=[enc(v, 2 ** 20) for v in s], acts=acts, Y1=encv(sh["Y"], S), near=near, hv=enc(hv, 100),
                             box=int(np.all(X1[:, :n] >= np.array(xl) - 1e-9) and np.all(X1[:, :n] <= np.array(xu) + 1e-9))))
        X = X1
    if ok:
        ok, e = guarded(lambda: ends(opt, probe, ret, pb, total, x_start=x_start))
        tr["ev"].append(e if ok else dict(op="raised", what=e))
    return tr


def lattice_cases(rng, scheds, count):
    F = QM(np.zeros((2, 2, 2)), [[2, 1], [-1, 3]], [0, 2])
    z = np.zeros((1, 2, 2))
    out = []
    for i in range(count):
        eq, pop = scheds[int(rng.integers(len(scheds)))]
        H = QM(z, [[1, 1]], [-2]) if eq else QM.empty(2)
        pb = Problem(F, H, QM(z, [[1, -1]], [-1]))
        out.append(dict(pb=pb, ref=[11, 12], X0=np.array(pop, float), xl=[-4, -4], xu=[6, 6], budget=int(rng.integers(1, 3)), limit=bool(i % 4 == 3),
                        pre=False, id="lattice-%d" % i, key="lattice-%s" % ("eq" if eq else "ieq")))
    return out


def random_case(rng, i):
    n = int([2, 2, 2, 1, 3][i % 5])
    m = 3 if i % 6 == 5 else 2
    ne, ni = [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (0, 0)][int(rng.integers(6))]
    if n == 1:
        ne = 0
    pb = random_problem(rng, n, m, ne, ni)
    N = int(rng.integers(1, 5 if m == 2 else 4))
    q = 4
    X0 = rng.integers(-2 * q, 2 * q + 1, (N, n)) / q
    if N > 1 and rng.random() < .35:
        X0[-1] = X0[0]
    if N > 2 and rng.random() < .2:
        X0[1] = X0[0]
    box = int(rng.integers(1, 4)) if rng.random() < .6 else 1
    xl, xu = [-box] * n, [box] * n
    if rng.random() < .3:
        xl[0] = 0
    if i % 8 == 3:      # no box, or one of half-lines
        xl = [-np.inf] * n
        xu = [np.inf] * n if i % 16 == 3 else xu
    Xc = np.clip(X0, xl, xu)
    top = np.array([pb.F.f(x) for x in Xc]).max(axis=0)
    ref = (np.ceil(top) + rng.integers(1, 6, m)).tolist()
    limit = bool(rng.random() < .3)
    budget = [1, 2, 3, 0, 2, None][int(rng.integers(6))] if i % 7 else None
    return dict(pb=pb, ref=ref, X0=X0, xl=xl, xu=xu, budget=budget, limit=limit, pre=bool(i % 11 == 10),
                id="run-%d" % i, key="%s-n%d-m%d-eq%d-ieq%d" % ("limit" if limit else "free", n, m, ne, ni))


def _rand(a):
    return run_case(random_case(np.random.default_rng([a[0], 10, a[1]]), a[1]))


def corrupted(trs):
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if e["op"] == "start":
                if e["lam"] and e["lam"][0]:
                    b = copy.deepcopy(t); b["ev"][j]["lam"][0][0] += 2000; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["X"][0][0] += 30000; bad.append(b)
            elif e["op"] == "iter" and t["pre"] == 0:
                b = copy.deepcopy(t); b["ev"][j]["X1"][0][0] += 700 + abs(e["step"][0][0]) // 50; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["kept"].append(1); bad.append(b)
            elif e["op"] == "end":
                b = copy.deepcopy(t); b["ev"][j]["reported"] += 1; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["lens"][1] += 1; bad.append(b)
        if len(bad) > 60:
            break
    return bad


def run(ctx):
    scheds = []
    for eq in (False, True):
        _, tagged = ctx.tlc("HVNModel", MODEL % ("TRUE" if eq else "FALSE"))
        scheds += [(eq, b["pop"]) for t, b in tagged if t == "SCHED"]
    for conf in ctx.pick([(2, 2), (3, 2), (2, 3)], [(2, 2), (3, 2), (4, 2), (2, 3), (3, 3)]):
        ctx.tlc("HVFixModel", FIX % conf)
    rng = ctx.rng()
    cases = lattice_cases(rng, scheds, ctx.pick(150, 1500))
    trs = pmap(run_case, cases) + pmap(_rand, [(ctx.seed, i) for i in range(ctx.pick(330, 4000))])
    for a in range(0, len(trs), 500):
        ctx.validate("TraceHVN", trs[a:a + 500])
    ctx.notes["iterations_checked"] = sum(e["op"] == "iter" for t in trs for e in t["ev"])
    ctx.notes["populations_from_the_model"] = len(cases)
    if not ctx.violations:
        ctx.must_reject("TraceHVN", corrupted(trs))
    ctx.samples += [trs[0], trs[-1]["ev"][:2]]
