"""C19: constraint-aware MOEA/D.  Spec: MOEAD.tla, MOEADModel.tla, TraceMOEAD.tla."""
import copy
import numpy as np
from core import enc, encv, guarded, pmap

MODEL = """CONSTANTS
 Decs = {%s}
 MaxCV = %d
 Steps = %d
 G = 4
 U10 = 8
 Emitting = TRUE
SPECIFICATION Spec
INVARIANTS IdealIsLower ToleranceBounded ZeroFromConfiguredFraction Emit
PROPERTIES NeverWorse ToleranceShrinks FeasibleStays OnlyNeighbours
CHECK_DEADLOCK FALSE
"""


def decomposition(name):
    from pymoo.decomposition.tchebicheff import Tchebicheff
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.weighted_sum import WeightedSum
    return dict(tche=Tchebicheff, pbi=PBI, wsum=WeightedSum)[name]()


def integer_problem(m, kind, seed):
    """Objectives and violations are integers that vary with x in [0, 1]^3."""
    from pymoo.core.problem import Problem
    r = np.random.default_rng([seed, 7])
    C = r.integers(1, 9, (m, 3)); sh = r.random((m, 3))
    A = r.integers(0, 4, (2, 3)); b = r.integers(0, 5, 2)

    class P(Problem):
        def __init__(self):
            super().__init__(n_var=3, n_obj=m, n_ieq_constr=2 if kind in ("ieq", "both") else 0, n_eq_constr=1 if kind in ("eq", "both") else 0, xl=0.0, xu=1.0)

        def _evaluate(self, x, out, *args, **kw):
            x = np.atleast_2d(x)
            out["F"] = np.array([[float(np.floor((C[k] * np.abs(z - sh[k])).sum() * 1.5)) for k in range(m)] for z in x])
            if self.n_ieq_constr:
                out["G"] = np.array([[float(np.floor(A[j] @ z * 2 - b[j])) for j in range(2)] for z in x])
            if self.n_eq_constr:
                out["H"] = np.array([[min(3.0, float(np.floor(6 * abs(z[0] - z[1])))) ] for z in x]) + 1e-4
    return P()


class Table:
    """Individuals by identity, with the values the algorithm compares."""
    def __init__(self):
        self.ids, self.keep, self.F, self.cv = {}, [], [], []

    def __call__(self, ind):
        if id(ind) not in self.ids:
            self.keep.append(ind)
            self.ids[id(ind)] = len(self.keep)
            self.F.append(encv(ind.F)); self.cv.append(enc(ind.CV[0]) if len(ind.CV) else 0)
        return self.ids[id(ind)]


def recorder():
    from hvd.moea import ConstraintAwareMOEAD

    class Recorder(ConstraintAwareMOEAD):
        def _replace(self, k, off):
            rec = getattr(self, "rec", None)
            if rec is None:
                return super()._replace(k, off)
            tab, ev, budget = rec
            before = [tab(x) for x in self.pop]
            p = self.termination.perc * budget if self.termination is not None else budget
            super()._replace(k, off)
            ev.append(dict(op="replace", k=int(k) + 1, off=tab(off), p=int(round(p)), N=[int(j) + 1 for j in self.neighbors[k]], before=before,
                           after=[tab(x) for x in self.pop]))
    return Recorder


def start_event(tab, alg):
    return dict(op="start", ids=[tab(x) for x in alg.pop], N=[[int(j) + 1 for j in r] for r in alg.neighbors])


def head(i, dec, cons, w, T, G, u10, tab, ev):
    return dict(id=i, dec=dec, cons=bool(cons), w=w, T=T, G=G, u10=u10, F=tab.F, cv=tab.cv, ev=ev)


def step_case(a):
    i, runs = a
    return [replay(i * 1000 + j, r) for j, r in enumerate(runs)]


def individual(f, cv, cons):
    from pymoo.core.individual import Individual
    return Individual(X=np.zeros(2), F=np.array(f, float), G=np.array([float(cv) if cv > 0 else -1.0] if cons else []), H=np.array([]))


def replay(i, r):
    """A behaviour of the model, step by step through the algorithm's replacement."""
    from pymoo.core.population import Population
    from pymoo.core.problem import Problem
    from pymoo.core.termination import Termination
    W = [[0, 2], [1, 1], [2, 0]]
    tab, ev = Table(), []

    class Progress(Termination):
        now = 0.0

        def _update(self, algorithm):
            return self.now

    def go():
        term = Progress()
        alg = recorder()(ref_dirs=np.array(W, float), n_neighbors=2, decomposition=decomposition(r["dec"]))
        alg.setup(Problem(n_var=2, n_obj=2, n_ieq_constr=1, xl=0, xu=1), termination=term, seed=1)
        alg.infill()
        alg.advance(infills=Population.create(*[individual(x["f"], x["cv"], True) for x in r["pop"]]))
        ev.append(start_event(tab, alg))
        alg.rec = (tab, ev, 4)
        for s in r["hist"]:
            term.perc = s["p"] / 4
            off = individual(s["f"], s["cv"], True)
            alg.ideal = np.minimum(alg.ideal, off.F)
            alg._replace(s["k"] - 1, off)
    ok, msg = guarded(go, 30)
    if not ok:
        ev.append(dict(op="raised", what=msg))
    return head("model-%d" % i, r["dec"], True, W, 2, 4, 8, tab, ev)


def directions(rng, m):
    if m == 2:
        n = int(rng.integers(2, 9))
        return [[k, n - 1 - k] for k in range(n)]
    if m == 1:
        return [[1], [2], [3]]
    n = int(rng.integers(2, 4))
    return [[a, b, n - a - b] for a in range(n + 1) for b in range(n + 1 - a)]


def run_case(a):
    seed, i = a
    rng = np.random.default_rng([seed, 19, i])
    m = int(rng.integers(2, 4))
    w = directions(rng, m)
    if rng.random() < 0.3:
        w = [w[j] for j in rng.permutation(len(w))]
    T = int(rng.integers(2, len(w) + 3)) if rng.random() < 0.85 else 2
    dec = ["tche", "pbi", "wsum", "default"][int(rng.integers(4))]
    kind = ["none", "ieq", "ieq", "eq", "both"][int(rng.integers(5))]
    u10 = int(rng.integers(2, 11)) if rng.random() < 0.7 else 8
    gens = int(rng.integers(3, 9))
    how = ["n_gen", "n_gen", "n_eval", "none"][int(rng.integers(4))]
    n = len(w)
    budget = dict(n_gen=gens, n_eval=gens * n, none=1)[how]
    tab, ev = Table(), []

    def go():
        kw = {} if u10 == 8 and rng.random() < 0.5 else dict(perc_eps_until=u10 / 10)
        from pymoo.core.termination import NoTermination
        alg = recorder()(ref_dirs=np.array(w, float), n_neighbors=T, prob_neighbor_mating=float(rng.choice([0.0, 0.5, 0.9])), **kw,
                         **({} if dec == "default" else dict(decomposition=decomposition(dec))))
        alg.setup(integer_problem(m, kind, int(seed * 1000 + i)), termination=NoTermination() if how == "none" else (how, budget), seed=int(i) + 1)
        alg.next()
        ev.append(start_event(tab, alg))
        alg.rec = (tab, ev, budget)
        for _ in range(gens - 1 if how != "none" else 3):
            n0 = alg.n_gen
            alg.next()
            ev.append(dict(op="next", n0=int(n0), n1=int(alg.n_gen) + (0 if alg.has_next() else 0), ids=[tab(x) for x in alg.pop]))
        if how != "none":
            n0 = alg.n_gen
            if not alg.has_next():
                alg.next()
                ev.append(dict(op="idle", n0=int(n0), n1=int(alg.n_gen), ids=[tab(x) for x in alg.pop]))
    ok, msg = guarded(go, 60)
    if not ok:
        ev.append(dict(op="raised", what=msg))
    d = dec if dec != "default" else ("tche" if m <= 2 else "pbi")
    return head("run-%d" % i, d, kind != "none", w, min(T, len(w)), budget, u10, tab, ev)


def corrupted(trs):
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if e["op"] == "replace":
                n = [x for x in e["N"] if e["after"][x - 1] == e["off"]]
                o = [x for x in range(1, len(e["after"]) + 1) if x not in e["N"]]
                for x in (o[:1] if not n else n[:1]):
                    b = copy.deepcopy(t)
                    b["ev"][j]["after"][x - 1] = e["off"] if not n else e["before"][x - 1]
                    if n and (e["p"] > 0 or t["dec"] == "pbi"):
                        continue
                    bad.append(b)
            elif e["op"] == "next":
                b = copy.deepcopy(t); b["ev"][j]["n1"] += 1; bad.append(b)
                k = [q for q in range(j) if t["ev"][q]["op"] == "replace"]
                if k:
                    b = copy.deepcopy(t); b["ev"][k[-1]]["k"] = t["ev"][k[-2]]["k"]; bad.append(b)
            elif e["op"] == "start":
                b = copy.deepcopy(t); b["ev"][j]["N"][0] = b["ev"][j]["N"][0][:-1]; bad.append(b)
        if len(bad) > 120:
            break
    return bad


def run(ctx):
    runs = []
    for decs, mcv, steps in ctx.pick([('"tche", "wsum", "pbi"', 1, 1)], [('"tche", "wsum", "pbi"', 3, 1), ('"wsum"', 1, 2)]):
        _, tagged = ctx.tlc("MOEADModel", MODEL % (decs, mcv, steps))
        runs += [b for t, b in tagged if t == "RUN"]
    rng = ctx.rng()
    ctx.notes["emitted"] = len(runs)
    n = ctx.pick(12000, 150000)
    if len(runs) > n:
        runs = [runs[i] for i in sorted(rng.choice(len(runs), n, replace=False))]
    jobs = [(i, runs[i * 200:(i + 1) * 200]) for i in range((len(runs) + 199) // 200)]
    trs = [t for b in pmap(step_case, jobs, procs=8) for t in b]
    ctx.vectors += len(trs)
    rnd = pmap(run_case, [(ctx.seed, i) for i in range(ctx.pick(320, 3000))], procs=8)
    for a in range(0, len(trs), 30000):
        ctx.validate("TraceMOEAD", trs[a:a + 30000])
    ctx.validate("TraceMOEAD", rnd)
    ctx.notes.update(replacements=sum(e["op"] == "replace" for t in trs + rnd for e in t["ev"]), generations=sum(e["op"] == "next" for t in rnd for e in t["ev"]))
    if not ctx.violations:
        ctx.must_reject("TraceMOEAD", corrupted(rnd[:40] + trs[::max(1, len(trs) // 40)]))
    ctx.samples += [trs[0], rnd[0]["ev"][:3]]
