"""C20: SMS-EMOA survival, tournament, dynamic hypervolume record.  Spec: SMS.tla, SMSModel.tla, TraceSMS.tla."""
import copy
import numpy as np
from core import enc, encv, guarded, pmap

MODEL = """CONSTANTS
 Side = %d
 MaxPts = %d
 MaxOps = %d
 Emitting = %s
SPECIFICATION Spec
INVARIANTS LeavesIsThin SomethingSurvives FrontFirst GreedyIsOptimalForOne TwinsAreWorthless SharesAtMostTotal Emit
PROPERTIES DeletionCostsShare AdditionNeverLoses
CHECK_DEADLOCK FALSE
"""


def dummy(m, cons):
    from pymoo.core.problem import Problem
    return Problem(n_var=2, n_obj=m, n_ieq_constr=int(cons), xl=0, xu=1)


def population(F, CV):
    from pymoo.core.individual import Individual
    from pymoo.core.population import Population
    inds = []
    for i, f in enumerate(F):
        ind = Individual(X=np.array([i, i], float), F=np.array(f, dtype=float), G=np.array([] if CV is None else [CV[i] if CV[i] > 0 else -1.0]),
                         H=np.array([]))
        inds.append(ind)
    return Population.create(*inds), inds


def whereis(inds, sel):
    ids = {id(x): i + 1 for i, x in enumerate(inds)}
    return [ids.get(id(x), 0) for x in sel]


def survive_event(F, CV, n, ideal, nadir, eps, seed):
    from hvd.moea.sms_emoa import LeastHypervolumeContributionSurvival as Least
    m = len(F[0])
    pop, inds = population(F, CV)
    np.random.seed(seed)
    kw = dict(n_survive=n)
    if ideal is not None:
        kw.update(ideal=np.array(ideal, float), nadir=np.array(nadir, float))
    sv = Least() if eps == 10 else Least(eps=float(eps))
    ok, out = guarded(lambda: sv.do(dummy(m, CV is not None), pop, **kw))
    if not ok:
        return dict(op="raised", what=out, pts=encv(F), n=n)
    return dict(op="survive", pts=encv(F), cv=[] if CV is None else encv(CV), n=len(F) if n is None else n, id=[] if ideal is None else encv(ideal),
                na=[] if nadir is None else encv(nadir), eps=eps, C=whereis(inds, out))


def survive_case(a):
    i, sets, seed = a
    rng = np.random.default_rng([seed, 20, i])
    ev = []
    for s in sets:
        ev.append(survive_event(np.array(s["pts"]), None, s["n"], None, None, 10, i))
    if sets:
        return dict(id="model-%d" % i, key="small-sets", ev=ev)
    for _ in range(6):
        m = int([2, 2, 2, 3, 4][int(rng.integers(5))])
        k = int(rng.integers(1, 10 if m == 2 else 12))
        top = int(rng.integers(2, 14))
        F = rng.integers(0, top, (k, m))
        if m == 2 and rng.random() < .6:      # mostly on one front
            F[:, 1] = top + 2 - F[:, 0] - rng.integers(0, 2, k)
        CV = rng.integers(0, 4, k) * (rng.random(k) < .6) if rng.random() < .35 else None
        n = int(rng.integers(1, k + 1)) if rng.random() < .9 else k + 3
        ideal = nadir = None
        if rng.random() < .5:
            ideal = rng.integers(0, 3, m)
            nadir = ideal + rng.integers(1, max(2, top), m)
        if rng.random() < .05:
            n = None
        ev.append(survive_event(F, CV, n, ideal, nadir, int([10, 10, 10, 1, 3][int(rng.integers(5))]), int(rng.integers(2 ** 31))))
    return dict(id="survive-%d" % i, key="survival", ev=ev)


def tour_case(a):
    seed, i = a
    from hvd.moea.sms_emoa import cv_and_dom_tournament
    rng = np.random.default_rng([seed, 21, i])
    ev = []
    for _ in range(4):
        k, m = int(rng.integers(2, 6)), int(rng.integers(2, 4))
        F = rng.integers(0, 4, (k, m))
        CV = rng.integers(0, 3, k) * (rng.random(k) < .5)
        pop, _ = population(F, CV)
        P = rng.integers(0, k, (6, 2))
        np.random.seed(i)
        ok, S = guarded(lambda: cv_and_dom_tournament(pop, P.copy()))
        ev.append(dict(op="tour", pts=encv(F), cv=encv(CV), P=(P + 1).tolist(), W=[int(v) + 1 for v in np.ravel(S)]) if ok else dict(op="raised", what=S))
    return dict(id="tour-%d" % i, key="tournament", ev=ev)


def dyn_case(a):
    kind, ops, m, i, seed = a
    from hvd.exact import DynamicHypervolume
    from hvd.hypervolume import hypervolume
    from hvd.moea.sms_emoa import ApproximateMonteCarloHypervolume as MC
    rng = np.random.default_rng([seed, 22, i])
    ref = np.full(m, 4.0)
    ints = lambda A: [[int(round(v)) if abs(v - round(v)) < 1e-9 else 999 for v in r] for r in np.asarray(A, float)]
    if ops is None:
        ref = rng.integers(3, 7, m).astype(float)
        ops, size = [], 0
        for _ in range(int(rng.integers(3, 9))):
            if size and rng.random() < .45:
                ops.append((0, int(rng.integers(1, size + 1))))
                size -= 1
            else:
                b = int(rng.integers(1, 4))
                ops.append((1, rng.integers(0, int(ref.min()) + (2 if kind == "exact" else 0), (b, m)).tolist()))
                size += b
    else:
        ops = [(1, [[o[1], o[2]]]) if o[0] else (0, o[1]) for o in ops]

    def loop(ref_, F):
        tot = hypervolume(F, ref_) if len(F) else 0.0
        return np.array([tot - (hypervolume(np.delete(F, q, axis=0), ref_) if len(F) > 1 else 0.0) for q in range(len(F))])
    np.random.seed(i)
    tr = dict(id="dyn-%s-%d" % (kind, i), key="dynamic-" + kind, ev=[])
    if kind == "exact":
        first = ops[0][1] if ops[0][0] and i % 3 == 0 else None
        ok, d = guarded(lambda: DynamicHypervolume(ref.copy(), F=None if first is None else np.array(first, float),
                                                   func_hv=lambda r, F: hypervolume(F, r) if len(F) else 0.0, func_hvc=loop))
    else:
        first = None
        ok, d = guarded(lambda: MC(ref.copy()))
    if not ok:
        tr["ev"].append(dict(op="raised", what=d))
        return tr
    held, box = [], 0
    for j, o in enumerate(ops):
        if o[0]:
            held = held + [list(p) for p in o[1]]
            box = 0 if kind == "exact" else int(round(float(np.prod(ref - np.min(held, axis=0)))))
            ok, r = (True, d) if first is not None and j == 0 else guarded(lambda: d.add(np.array(o[1], float)))
        else:
            held = held[: o[1] - 1] + held[o[1]:]
            ok, r = guarded(lambda: d.delete(o[1] - 1))
        if not ok:
            tr["ev"].append(dict(op="raised", what=r))
            break
        if kind != "exact" and not held:
            break
        tr["ev"].append(dict(op="dyn", pts=held, F=ints(d.F), hv=enc(d.hv, 100), hvc=encv(d.hvc, 100), ref=ints([ref])[0], vbox=box))
    return tr


def gen_case(a):
    seed, i = a
    from pymoo.core.problem import ElementwiseProblem
    from hvd.moea.sms_emoa import SMSEMOA
    rng = np.random.default_rng([seed, 23, i])
    m = 3 if i % 4 == 3 else 2
    cons = i % 3 == 2
    K = int(rng.integers(3, 9))
    tiny = i % 5 == 4        # only a few distinct points exist
    w = rng.integers(0, 3, (m, 2))

    class P(ElementwiseProblem):
        def __init__(self):
            super().__init__(n_var=2, n_obj=m, n_ieq_constr=int(cons), xl=np.zeros(2), xu=np.zeros(2) if tiny else np.ones(2))

        def _evaluate(self, x, out, *args, **kw):
            z = np.floor(x * K)
            f = [1 + z[0], 1 + K - z[0] + z[1], 2 + z[1] + abs(z[0] - K // 2)][:m]
            out["F"] = np.array(f) + w[:, 0]
            if cons:
                out["G"] = np.array([np.floor(3 * x[1]) - 1 - (1 if x[0] > .5 else 0)])
    np.random.seed(int(rng.integers(2 ** 31)))
    n = int(rng.integers(3, 7))
    tr = dict(id="gen-%d" % i, key="generations-m%d%s%s" % (m, "-cons" if cons else "", "-few" if tiny else ""), ev=[])

    def start():
        few = dict(sampling=rng.random((max(2, n - 3), 2))) if i % 7 == 6 else {}     # starts with fewer than pop_size
        alg = SMSEMOA(pop_size=n, **few, n_offsprings=int(rng.integers(1, n + 1)) if i % 2 else None)
        alg.setup(P(), termination=("n_gen", 6), seed=int(rng.integers(1000)), verbose=False)
        alg.next()
        return alg
    ok, alg = guarded(start, 60)
    if not ok:
        tr["ev"].append(dict(op="raised", what=alg))
        return tr
    for _ in range(4):
        if not alg.has_next():
            break
        before = list(alg.pop)
        ok, r = guarded(alg.next, 60)
        if not ok:
            tr["ev"].append(dict(op="raised", what=r))
            break
        off = [] if alg.off is None else list(alg.off)
        merged = before + off
        F = np.array([q.F for q in merged])
        tr["ev"].append(dict(op="gen", pts=encv(F), cv=[enc(q.CV[0], 1) for q in merged] if cons else [], n=n, np=len(before), C=whereis(merged, list(alg.pop))))
    return tr


def corrupted(trs):
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if e["op"] in ("survive", "gen") and len(e["C"]) > 0:
                b = copy.deepcopy(t); b["ev"][j]["C"] = e["C"][:-1]; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["C"][0] = b["ev"][j]["C"][-1]; bad.append(b) if len(e["C"]) > 1 else None
            elif e["op"] == "dyn" and e["pts"]:
                b = copy.deepcopy(t); b["ev"][j]["hv"] += 3 if e["vbox"] == 0 else 60 + 25 * e["vbox"]; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["F"][0][0] += 1; bad.append(b)
        if len(bad) > 150:
            break
    return bad


def run(ctx):
    _, tagged = ctx.tlc("SMSModel", MODEL % ctx.pick((3, 3, 3, "TRUE"), (3, 5, 4, "TRUE")))
    sets = [b for t, b in tagged if t == "SET"]
    ops = [b["ops"] for t, b in tagged if t == "OPS"]
    rng = ctx.rng()
    ns, no = ctx.pick((2400, 1500), (40000, 5000))
    if len(sets) > ns:
        sets = [sets[i] for i in sorted(rng.choice(len(sets), ns, replace=False))]
    if len(ops) > no:
        ops = [ops[i] for i in sorted(rng.choice(len(ops), no, replace=False))]
    jobs = [(i, sets[i * 40:(i + 1) * 40], ctx.seed) for i in range((len(sets) + 39) // 40)]
    nr = ctx.pick(400, 4000)
    trs = pmap(survive_case, jobs, procs=8) + pmap(survive_case, [(i, [], ctx.seed) for i in range(nr)], procs=8)
    trs += pmap(tour_case, [(ctx.seed, i) for i in range(ctx.pick(100, 600))], procs=8)
    trs += pmap(dyn_case, [("exact", o, 2, i, ctx.seed) for i, o in enumerate(ops)], procs=8)
    trs += pmap(dyn_case, [(k, None, m, 100000 + i, ctx.seed) for i in range(ctx.pick(80, 500)) for k in ("exact", "sampled") for m in (2, 3)], procs=8)
    trs += pmap(gen_case, [(ctx.seed, i) for i in range(ctx.pick(60, 500))], procs=8)
    for a in range(0, len(trs), 3000):
        ctx.validate("TraceSMS", trs[a:a + 3000])
    ev = [e["op"] for t in trs for e in t["ev"]]
    ctx.notes.update({k: ev.count(k) for k in ("survive", "gen", "tour", "dyn")})
    if not ctx.violations:
        ctx.must_reject("TraceSMS", corrupted(trs[:3] + [t for t in trs if t["id"].startswith(("survive", "dyn", "gen"))][::7]))
    ctx.samples += [trs[0]["ev"][:2], trs[-1]["ev"][:2]]
