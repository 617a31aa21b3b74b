"""C13: MMD Newton runs.  Spec: MMDNModel.tla (targets over iterations), MMDFixModel.tla (kernel sums), TraceMMDN.tla (recorded runs)."""
import copy
import numpy as np
from core import enc, encv, guarded, pmap
from newtonlib import S, QM, Problem, Probe, random_problem, ends, moderate

MODEL = """CONSTANTS
 MaxN = 3
 MaxWait = %d
 Iters = %d
SPECIFICATION Spec
INVARIANTS FirstShiftsAll Patience Together Emit
PROPERTIES NotWithoutReason
CHECK_DEADLOCK FALSE
"""
FIX = """CONSTANTS
 NPts = %d
 NRef = %d
 Top1 = %d
SPECIFICATION Spec
INVARIANTS KernelAgrees ValueIsMeanDistance DecreasingKernel GradientIsSlope HessianIsSlope ScalesAgree
CHECK_DEADLOCK FALSE
"""


def kernel(k):
    import jax.numpy as jnp
    from hvd import mmd
    a, b = k["a"], k["b"]
    if k["kind"] == "poly":
        def poly(x, y, theta=1.0):
            s = theta * jnp.sum((x - y) ** 2)
            return 1 - a * s / 64 + b * s * s / 64
        return dict(kernel=poly)
    if k["kind"] == "rq":
        return dict(kernel=mmd.rational_quadratic, theta=2.0 / a)
    return dict(theta=a * float(np.log(2)) / 4)


def run_case(case):
    from hvd.mmd_newton import MMDNewton
    from hvd.reference_set import ReferenceSet
    pb, comps, eta, X0, xl, xu, budget, match, k, name, key = (case[q] for q in "pb comps eta X0 xl xu budget match k id key".split())
    n, m, N = pb.n, pb.F.m, len(X0)
    total = 10 * N if budget is None else budget
    ref0 = np.concatenate(comps)
    pre = bool(case.get("pre", False))
    tr = dict(id=name, key=key, pb=pb.spec(), xl=encv(xl, S), xu=encv(xu, S), budget=total, match=int(match), bn=1, k=k, pre=int(pre),
              eta=encv(eta, S), ref0=encv(ref0, S), ev=[])
    probe = Probe()
    given = np.array(X0, dtype=float)
    mine = given.copy()
    np.random.seed(1)

    def make():
        ref = ReferenceSet({q: np.array(c, dtype=float) for q, c in enumerate(comps)}, eta={q: np.array(e, dtype=float) for q, e in enumerate(eta)})
        probe.refset = ref
        return MMDNewton(n_var=n, n_obj=m, func=pb.F.f, jac=pb.F.J, hessian=pb.F.T, ref=ref, xl=list(xl), xu=np.array(xu, float), X0=given,
                         max_iters=budget, verbose=False, metrics=dict(probe=probe), preconditioning=pre, matching=match, **kernel(k), **pb.kwargs(False))
    ok, opt = guarded(make, 60)
    if not ok:
        tr["ev"].append(dict(op="raised", what=opt))
        return tr
    probe.opt = opt
    X = np.array(opt.state.X, dtype=float)
    tr["ev"].append(dict(op="start", given=encv(mine, S), X=encv(X[:, :n], S), lam=encv(X[:, n:], S), same=int(np.array_equal(given, mine))))
    x_start = X[:, :n].copy()
    ok, ret = guarded(opt.run, 120)
    if not ok:
        last = probe.shots[-1] if probe.shots else None
        if last is None or moderate(last["X"], last["step"], last["Y"], top=1e5):
            tr["ev"].append(dict(op="raised", what=ret, after=len(probe.shots)))
    home = lambda A: [int(np.argmin([np.min(((c - a) ** 2).sum(1)) for c in comps])) + 1 for a in A]
    lab0 = M = step0 = None
    for it, sh in enumerate(probe.shots):
        X1, step, s, M1 = sh["X"], sh["step"], sh["s"], sh["ref"]
        if len(step) != N or len(X1) != N:
            tr["ev"].append(dict(op="raised", what="step of %s for %s points" % (step.shape, X1.shape)))
            break
        if s.size != 1 and np.ptp(s) == 0:
            s = s[:1]
        if s.size != 1:
            tr["ev"].append(dict(op="raised", what="%d step sizes" % s.size))
            break
        if M1.shape != ((N, m) if match else ref0.shape):
            tr["ev"].append(dict(op="raised", what="%s targets for %d points" % (M1.shape, N)))
            break
        if not moderate(X, X1, step, sh["Y"], M1) or it >= case.get("look", 3):
            break
        Y = np.array([pb.F.f(x[:n]) for x in X])
        lab, mlab = home(Y), home(M1)
        if not match:
            lab, mlab = [1] * N, [int(q) + 1 for q in np.repeat(np.arange(len(comps)), [len(c) for c in comps])]
        if lab0 is None:
            lab0 = lab
        if lab != lab0 or (match and sorted(mlab) != sorted(lab)):
            break
        if it == 0:
            M = ref0 if len(ref0) == N or not match else M1 - .08 * np.array([eta[q - 1] for q in mlab])
            mlab_b = mlab if not match or len(ref0) != N else home(M)
        else:
            mlab_b = mlab if not match else home(M)
        D = np.sqrt(((Y[:, None] - M[None]) ** 2).sum(-1))
        same = np.array(lab)[:, None] == np.array(mlab_b)[None] if match else np.ones_like(D, bool)
        DY = np.sqrt(((Y[:, None] - Y[None]) ** 2).sum(-1))
        if match and len(comps) > 1 and len(set(lab.count(q + 1) for q in range(len(comps)))) > 1:
            break       # components of different shares may trade their clusters, which chooses targets anew
        top = 5 if k["kind"] == "poly" and k["b"] else 12
        # the fixed-point sums of the tails of a kernel are too coarse
        calm = np.all(~same | (D <= 5)) and DY.max() <= 5 and np.abs(step).max() <= 6 and max(np.abs(pb.F.J(x[:n])).max() for x in X) <= 9
        DM = np.sqrt(((M[:, None] - M[None]) ** 2).sum(-1)).max() if not match else 0
        if np.any((D > top) & same) or DY.max() > top or DM > top:
            break
        ln = np.linalg.norm(step0[:, :n], axis=1) if step0 is not None else np.ones(N)
        doubt = bool(np.any((D > 1e-9) & (D < 1e-7)) or np.any((ln > 1e-9) & (ln < 1e-7)))
        p = X[:, :n]
        # unmatched, the nearest of all references counts
        tr["ev"].append(dict(
            op="iter", first=int(it == 0), X=encv(X[:, :n], S), lam=encv(X[:, n:], S), act=[pb.flags(x[:n])[0] for x in X],
            M=encv(M, S), mlab=mlab_b, mlab1=mlab, lab=lab, zero=[[int(j) + 1 for j in np.nonzero(D[i] < 1e-8)[0]] for i in range(N)],
            still=[int(v < 1e-8) for v in ln], doubt=int(doubt), calm=int(calm), M1=encv(M1, S), step=encv(step[:, :n], S), slam=encv(step[:, n:], S),
            s=enc(s[0], 2 ** 20), acts=[[pb.flags(p[i] + .5 ** j * step[i, :n])[0] for i in range(N)] for j in range(7)],
            X1=encv(X1[:, :n], S), lam1=encv(X1[:, n:], S), Y1=encv(sh["Y"], S), val=enc(opt.history_indicator_value[it], S) if it < len(opt.history_indicator_value) else 2 ** 30,
            zstep=int(np.all(np.abs(step) < 1.1e-8))))
        X, M, step0 = X1, M1, step
    if ok:
        ok, e = guarded(lambda: ends(opt, probe, ret, pb, total, x_start=x_start))
        tr["ev"].append(e if ok else dict(op="raised", what=e))
    return tr


def model_cases(rng, scheds, count):
    """far apart targets under a narrow Gaussian: every point converges on its own, at the pace of its distance"""
    out = []
    one = QM(np.zeros((2, 2, 2)), np.eye(2), [0, 0])
    for i in range(count):
        sc = scheds[int(rng.integers(len(scheds)))]
        w, match = sc["wait"], sc["match"]
        N = len(w)
        a = 92           # theta = 15.9
        eta = [[-1, -1], [-.5, -1], [-1, -.25]][int(rng.integers(3))]
        M = np.array([[2.5 * j, 5 - 2.5 * j] for j in range(N)])
        # the targets after the first shift, minus an offset: the farther, the more iterations
        X0 = M + .08 * np.array(eta) + np.array([[0, 0], [.01, -.005], [-.06, .03]])[w]
        if match:
            M = M[rng.permutation(N)]
        elif rng.random() < .5:
            M = np.r_[M, [[8, -3]]]
        pb = Problem(one, QM.empty(2), QM.empty(2))
        out.append(dict(pb=pb, comps=[M], eta=[eta], X0=X0, xl=[-20, -20], xu=[20, 20], budget=8, look=8, match=match, k=dict(kind="rbf", a=a, b=0),
                        id="model-%d" % i, key="model-%s" % ("match" if match else "plain")))
    return out


def random_case(rng, i):
    n = int([2, 2, 1, 3][i % 4])
    m = 3 if i % 7 == 6 else 2
    match = bool(rng.random() < .6)
    ne, ni = [(0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (0, 2)][int(rng.integers(6))]
    if n == 1:
        ne = 0
    simple = rng.random() < .4
    if simple:
        n = m
        b = np.eye(n, dtype=int) if rng.random() < .5 else np.triu(rng.integers(-1, 2, (n, n)), 1) + np.diag(rng.choice([-1, 1, 2], n))
        F = QM(np.zeros((m, n, n)), b, rng.integers(0, 3, m))
        pb = Problem(F, random_problem(rng, n, m, ne, 0).H, random_problem(rng, n, m, 0, ni).G)
    else:
        pb = random_problem(rng, n, m, ne, ni)
    N = int(rng.integers(1, 4))
    q = 4
    box = int(rng.integers(1, 4))
    xl, xu = [-box] * n, [box] * n
    if rng.random() < .3:
        xl[0] = 0
    X0 = rng.integers(-2 * q, 2 * q + 1, (N, n)) / q
    K = N + (int(rng.integers(0, 3)) if rng.random() < .4 else 0)
    if not match:
        K = int(rng.integers(1, 5))
    P = np.array([pb.F.f(x) for x in rng.integers(-q, q + 1, (K, n)) / q])
    P = np.round(P * 4) / 4 - rng.integers(0, 5, (K, m)) / 4
    comps = [P]
    if N >= 2 and rng.random() < .3:      # two components, points go where they are closest
        off = rng.choice([-3, 3], m) + rng.integers(-1, 2, m)
        comps = [P, P[: max(1, K - 1)] + off] if not match else [P, P + off]
    eta = [(-rng.integers(0, 5, m) / 4 - .25).tolist() for _ in comps]
    kk = ["poly", "rq", "poly", "rbf"][int(rng.integers(4))]
    k = dict(kind=kk, a=int(rng.integers(1, 4)), b=0)
    if kk == "poly":
        k = dict(kind=kk, a=int(rng.integers(2, 12)), b=int(rng.integers(0, 2)))
    return dict(pb=pb, comps=comps, eta=eta, X0=X0, xl=xl, xu=xu, budget=[1, 2, 3, 0, 2, None][int(rng.integers(6))] if N < 3 else [1, 2, 0][int(rng.integers(3))],
                match=match, k=k, pre=bool(i % 13 == 12), id="run-%d" % i, key="%s-%s-n%d-m%d-eq%d-ieq%d" % ("match" if match else "plain", kk, n, m, ne, ni))


def _rand(a):
    return run_case(random_case(np.random.default_rng([a[0], 13, a[1]]), a[1]))


def corrupted(trs):
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if e["op"] == "iter":
                b = copy.deepcopy(t); b["ev"][j]["X1"][0][0] += 700 + abs(e["step"][0][0]) // 50; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["val"] += 400 + e["val"] // 20; bad.append(b)
                if not e["doubt"]:
                    b = copy.deepcopy(t); b["ev"][j]["M1"][0][0] += 500; bad.append(b)
            elif e["op"] == "end":
                b = copy.deepcopy(t); b["ev"][j]["reported"] += 1; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["unaltered"] = 0; bad.append(b)
        if len(bad) > 60:
            break
    return bad


def run(ctx):
    _, tagged = ctx.tlc("MMDNModel", MODEL % ctx.pick((2, 6), (4, 10)))
    scheds = [b for t, b in tagged if t == "SCHED"]
    scheds = [s for s in scheds if max(s["wait"]) <= 2]
    ctx.tlc("MMDFixModel", FIX % ctx.pick((2, 1, 2), (2, 2, 2)))
    rng = ctx.rng()
    cases = model_cases(rng, scheds, ctx.pick(60, 500))
    trs = pmap(run_case, cases, procs=8) + pmap(_rand, [(ctx.seed, i) for i in range(ctx.pick(200, 1600))], procs=8)
    for a in range(0, len(trs), 500):
        ctx.validate("TraceMMDN", trs[a:a + 500])
    ctx.notes["iterations_checked"] = sum(e["op"] == "iter" for t in trs for e in t["ev"])
    ctx.notes["newton_systems_checked"] = sum(e["op"] == "iter" and e["calm"] == 1 and t["pre"] == 0 for t in trs for e in t["ev"])
    ctx.notes["later_shifts_due"] = sum(any(z and s for z, s in zip(e["zero"], e["still"])) for t in trs for e in t["ev"] if e["op"] == "iter" and not e["first"])
    ctx.notes["starts_from_the_model"] = len(cases)
    if not ctx.violations:
        ctx.must_reject("TraceMMDN", corrupted(trs))
    ctx.samples += [trs[0], trs[-1]["ev"][:2]]
