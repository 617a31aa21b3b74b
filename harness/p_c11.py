"""C11: Delta-p Newton runs.  Spec: DPNModel.tla (targets and points over iterations), TraceDPN.tla (recorded runs)."""
import copy
import numpy as np
from core import enc, encv, guarded, pmap
from newtonlib import S, QM, Problem, Probe, random_problem, ends, moderate

MODEL = """CONSTANTS
 Grid <- GridDef
 Lo <- LoDef
 Hi = 25
 MaxN = %d
 Iters = %d
SPECIFICATION Spec
INVARIANTS InBox AlongEta FirstShiftsAll Patience Emit
CHECK_DEADLOCK FALSE
"""


def run_case(case):
    from hvd.newton import DpN
    from hvd.reference_set import ReferenceSet
    pb, comps, eta, X0, xl, xu, budget, typ, name, key = (case[k] for k in "pb comps eta X0 xl xu budget type id key".split())
    n, m, N = pb.n, pb.F.m, len(X0)
    total = 10 * N if budget is None else budget
    ref0 = np.concatenate(comps)
    tr = dict(id=name, key=key, pb=pb.spec(), xl=encv(xl, S), xu=encv(xu, S), budget=total, type=typ, pre=int(case.get("pre", False)),
              eta=encv(eta, S), ref0=encv(ref0, S), ev=[])
    probe = Probe()
    given = np.array(X0, dtype=float)
    mine = given.copy()
    np.random.seed(1)

    def make():
        parts = {k: np.array(c, dtype=float) for k, c in enumerate(comps)}
        if len(comps) == 1 and case.get("array"):
            parts = parts[0]
        ref = ReferenceSet(parts, eta={k: np.array(e, dtype=float) for k, e in enumerate(eta)})
        return DpN(dim=n, n_obj=m, func=pb.F.f, jac=pb.F.J, hessian=pb.F.T, ref=ref, xl=list(xl), xu=np.array(xu, float), type=typ,
                   x0=given, max_iters=budget, verbose=False, metrics=dict(probe=probe), preconditioning=case.get("pre", False), **pb.kwargs(True))
    ok, opt = guarded(make)
    if not ok:
        tr["ev"].append(dict(op="raised", what=opt))
        return tr
    probe.opt = opt
    X = np.array(opt.state.X, dtype=float)
    tr["ev"].append(dict(op="start", given=encv(mine, S), X=encv(X[:, :n], S), lam=encv(X[:, n:], S), same=int(np.array_equal(given, mine))))
    x_start = X[:, :n].copy()
    ok, ret = guarded(opt.run, 60)
    if not ok:
        last = probe.shots[-1] if probe.shots else None
        if last is None or moderate(last["X"], last["step"], last["Y"], top=1e5):
            tr["ev"].append(dict(op="raised", what=ret, after=len(probe.shots)))
    home = lambda A: [int(np.argmin([np.min(((c - a) ** 2).sum(1)) for c in comps])) + 1 for a in A]
    lab0 = M = step0 = None
    xl_, xu_ = np.array(xl, float), np.array(xu, float)
    for it, sh in enumerate(probe.shots):
        X1, step, s, M1 = sh["X"], sh["step"], sh["s"], sh["ref"]
        if len(step) != N or len(X1) != N or len(s) != N:
            tr["ev"].append(dict(op="raised", what="step of %s, %s sizes for %s points" % (step.shape, s.shape, X1.shape)))
            break
        if M1.shape != (N, m):
            tr["ev"].append(dict(op="raised", what="%s targets for %d points" % (M1.shape, N)))
            break
        if not moderate(X, X1, step, sh["Y"], M1) or it >= case.get("look", 4):
            break
        Y = np.array([pb.F.f(x[:n]) for x in X])
        lab, mlab = home(Y), home(M1)
        if lab0 is None:
            lab0 = lab
        if lab != lab0 or sorted(mlab) != sorted(lab):
            break
        if it == 0:
            M = ref0 if len(ref0) == N else M1 - .08 * np.array([eta[k - 1] for k in mlab])
            if len(ref0) == N:
                mlab_b = home(M)
            else:
                mlab_b = mlab
        else:
            mlab_b = home(M)
        D = np.sqrt(((Y[:, None] - M[None]) ** 2).sum(-1))
        if np.any((D > 16) & (np.array(lab)[:, None] == np.array(mlab_b)[None])):
            break
        ln = np.linalg.norm(step0[:, :n], axis=1) if step0 is not None else np.ones(N)
        doubt = bool(np.any((D > 1e-9) & (D < 1e-7)) or np.any((ln > 1e-9) & (ln < 1e-7)))
        p = X[:, :n]
        with np.errstate(all="ignore"):
            d = step[:, :n]
            room = np.where(d < 0, np.abs(p - xl_), np.abs(xu_ - p))
            mx = np.minimum(1, np.min(np.where(d != 0, room / np.abs(d), np.inf), axis=1))
        tr["ev"].append(dict(
            op="iter", first=int(it == 0), X=encv(X[:, :n], S), lam=encv(X[:, n:], S), act=[pb.flags(x[:n])[0] for x in X],
            M=encv(M, S), mlab=mlab_b, mlab1=mlab, lab=lab, zero=[[int(j) + 1 for j in np.nonzero(D[i] < 1e-8)[0]] for i in range(N)],
            still=[int(v < 1e-8) for v in ln], doubt=int(doubt), M1=encv(M1, S), step=encv(step[:, :n], S), slam=encv(step[:, n:], S),
            s=[enc(v, 2 ** 20) for v in s], actm=[pb.flags(p[i] + mx[i] * step[i, :n])[0] for i in range(N)],
            acts=[pb.flags(p[i] + s[i] * step[i, :n])[0] for i in range(N)], X1=encv(X1[:, :n], S), lam1=encv(X1[:, n:], S),
            Y1=encv(sh["Y"], S), tiny=[int(np.any((np.abs(v) > 0) & (np.abs(v) < .03))) for v in step[:, :n]], val=enc(opt.history_indicator_value[it], S), zstep=int(np.all(np.abs(step) < 1.1e-8)),
            box=int(np.all(X1[:, :n] >= xl_ - 1e-7) and np.all(X1[:, :n] <= xu_ + 1e-7))))
        X, M, step0 = X1, M1, step
    if ok:
        ok, e = guarded(lambda: ends(opt, probe, ret, pb, total, x_start=x_start))
        tr["ev"].append(e if ok else dict(op="raised", what=e))
    return tr


def model_cases(rng, scheds, count):
    out = []
    one = QM(np.zeros((2, 2, 2)), np.eye(2), [0, 0])
    for i in range(count):
        sc = scheds[int(rng.integers(len(scheds)))]
        out.append(dict(pb=Problem(one, QM.empty(2), QM.empty(2)), comps=[np.array(sc["M"], float) / 100], eta=[[-1, -1]], X0=np.array(sc["Y"], float) / 100,
                        xl=[-.05, -.05], xu=[.25, .25], budget=6, look=6, type=["gd", "igd", "deltap"][i % 3], array=True, id="model-%d" % i,
                        key="model-%s" % ["gd", "igd", "deltap"][i % 3]))
    return out


def random_case(rng, i):
    n = int([2, 2, 1, 3][i % 4])
    m = 3 if i % 7 == 6 else 2
    ne, ni = [(0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (0, 2)][int(rng.integers(6))]
    if n == 1:
        ne = 0
    simple = rng.random() < .35
    if simple:       # linear maps reach their targets
        n = m
        b = np.eye(n, dtype=int) if rng.random() < .5 else np.triu(rng.integers(-1, 2, (n, n)), 1) + np.diag(rng.choice([-1, 1, 2], n))
        F = QM(np.zeros((m, n, n)), b, rng.integers(0, 3, m))
        pb = Problem(F, random_problem(rng, n, m, ne, 0).H, random_problem(rng, n, m, 0, ni).G)
    else:
        pb = random_problem(rng, n, m, ne, ni)
    N = int(rng.integers(1, 5))
    q = 4
    box = int(rng.integers(1, 4))
    xl, xu = [-box] * n, [box] * n
    if rng.random() < .3:
        xl[0] = 0
    X0 = rng.integers(-2 * q, 2 * q + 1, (N, n)) / q
    if rng.random() < .25:
        X0 = np.clip(X0, -1, 1) * np.array(box)         # many coordinates on the bounds
    elif rng.random() < .3:     # or very close to them
        near = np.clip(X0, -1, 1) * box
        X0 = np.where((np.abs(near) == box) & (rng.random(X0.shape) < .7), near * (1 - rng.choice([2, 4, 9, 20], X0.shape) / 10000 / box), X0)
    if i % 9 == 4:      # no box, or one of half-lines
        xl = [-np.inf] * n
        xu = [np.inf] * n if i % 18 == 4 else xu
    Xc = np.clip(X0, xl, xu)
    two = N >= 2 and m == 2 and rng.random() < .2
    z = np.array([pb.F.f(x) for x in Xc])
    if two and simple:
        # two far components: points are assigned by where their images are
        half = N // 2
        off = np.array([40.0, -40.0])
        A = rng.integers(-4, 5, (N, m)) / 2
        B = rng.integers(-4, 5, (N, m)) / 2 + off
        base = np.linalg.solve(pb.F.b, -pb.F.c)
        X0 = np.r_[base + X0[:half] / 4, base + np.linalg.solve(pb.F.b, off) + X0[half:] / 4]
        perm = rng.permutation(N)
        X0 = X0[perm]
        xl, xu = [-100] * n, [100] * n
        comps = [A, B]
    else:
        K = N + (int(rng.integers(0, 3)) if rng.random() < .4 else 0)
        P = np.array([pb.F.f(x) for x in rng.integers(-q, q + 1, (K, n)) / q])
        P = np.round(P * 4) / 4 - rng.integers(0, 5, (K, m)) / 4
        comps = [P]
    eta = [(-rng.integers(0, 5, m) / 4 - .25).tolist() for _ in comps]
    return dict(pb=pb, comps=comps, eta=eta, X0=X0, xl=xl, xu=xu, budget=[1, 2, 3, 0, 6, None][int(rng.integers(6))], look=6 if simple else 4,
                type=["gd", "igd", "deltap", "deltap"][int(rng.integers(4))], pre=bool(i % 13 == 12), id="run-%d" % i, array=bool(i % 2),
                key="%s-n%d-m%d-eq%d-ieq%d" % ("two" if len(comps) > 1 else "one", n, m, ne, ni))


def _rand(a):
    return run_case(random_case(np.random.default_rng([a[0], 11, a[1]]), a[1]))


def corrupted(trs):
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if e["op"] == "iter":
                b = copy.deepcopy(t); b["ev"][j]["X1"][0][0] += 700 + abs(e["step"][0][0]) // 50; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["val"] += 400 + e["val"] // 20; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["box"] = 0; bad.append(b)
                if not e["doubt"]:
                    b = copy.deepcopy(t); b["ev"][j]["M1"][0][0] += 500; bad.append(b)
            elif e["op"] == "end":
                b = copy.deepcopy(t); b["ev"][j]["reported"] += 1; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["unaltered"] = 0; bad.append(b)
        if len(bad) > 60:
            break
    return bad


def run(ctx):
    _, tagged = ctx.tlc("DPNModel", MODEL % ctx.pick((2, 4), (2, 6)))
    scheds = [b for t, b in tagged if t == "SCHED"]
    rng = ctx.rng()
    cases = model_cases(rng, scheds, ctx.pick(90, 900))
    trs = pmap(run_case, cases) + pmap(_rand, [(ctx.seed, i) for i in range(ctx.pick(330, 4000))])
    for a in range(0, len(trs), 500):
        ctx.validate("TraceDPN", trs[a:a + 500])
    ctx.notes["iterations_checked"] = sum(e["op"] == "iter" for t in trs for e in t["ev"])
    ctx.notes["later_shifts_due"] = sum(any(z and s for z, s in zip(e["zero"], e["still"])) for t in trs for e in t["ev"] if e["op"] == "iter" and not e["first"])
    ctx.notes["starts_from_the_model"] = len(cases)
    if not ctx.violations:
        ctx.must_reject("TraceDPN", corrupted(trs))
    ctx.samples += [trs[0], trs[-1]["ev"][:2]]
