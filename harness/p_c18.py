"""C18: conversion to and from pymoo.  Spec: Problem.tla, Interop.tla, InteropModel.tla, TraceInterop.tla."""
import copy
import json
import os
import subprocess
import sys
import tempfile
import numpy as np
import problemlib as pl
from core import Machinery, REPO, enc, encv, guarded, pmap
from p_c16 import functions, pmap_each, quad_problem, rel

MODEL = """CONSTANTS
 Depth = %d
 MaxN = %d
 MaxM = %d
 Emitting = TRUE
SPECIFICATION Spec
INVARIANTS BackendOnlyByUser LoadedNeverChanges NumpyModulesRefused FailedOrJax SlackOnlyAppended EmitH EmitC
CHECK_DEADLOCK FALSE
"""
MODULES = dict(multi="pymoo.problems.multi.zdt", many="pymoo.problems.many.dtlz")


# ---------------------------------------------------------------- factory histories (each in a fresh process)
def history(a):
    """Replay one history of factory calls in this (fresh) process."""
    import importlib
    i, acts, seed = a
    rng = np.random.default_rng([seed, 1801, i])
    import pymoo.gradient as gradient
    from hvd.problems import get_pymoo_problem
    tr = dict(id="history-%d" % i, key="factory", ev=[])
    loaded = {}

    def backend(f):
        m = sys.modules.get(MODULES[f])
        return "absent" if m is None else getattr(getattr(m, "anp", None), "__name__", "?")

    names = dict(multi=["zdt1", "ZDT2", "zdt3", "Zdt4", "zdt6"], many=["dtlz1", "DTLZ2", "dtlz3", "dtlz4", "dtlz5", "dtlz6", "dtlz7"])
    for x in acts:
        ok = True
        try:
            if x["a"] == "get":
                p = get_pymoo_problem(str(rng.choice(names[x["f"]])), n_var=int(rng.integers(4, 9)), boundary_constraints=bool(rng.integers(2)))
                p.objective(0.5 * (p.xl + p.xu))
            elif x["a"] == "getbad":
                get_pymoo_problem(str(rng.choice(names[x["f"]])), n_var=[-2, "x", None][int(rng.integers(3))])
            elif x["a"] == "unsupported":
                get_pymoo_problem(str(rng.choice(["wfg1", "nope", "zdt5", "zdt", "", "mw1"])))
            elif x["a"] == "blocked":        # the import of the problem module fails
                stop = dict(multi="pymoo.problems.multi.osy", many="pymoo.problems.many.dtlz")[x["f"]]     # osy: halfway
                sys.modules[stop] = None
                try:
                    get_pymoo_problem(names[x["f"]][0], n_var=5)
                finally:
                    del sys.modules[stop]
            elif x["a"] == "plain":
                importlib.import_module(MODULES[x["f"]])
            else:
                gradient.activate(x["b"])
        except Exception as e:
            ok = False
        ev = dict(op="factory", a=x["a"], f=x["f"], b=x["b"], ok=ok, tb=gradient.TOOLBOX,
                  toolbox=importlib.import_module("pymoo.gradient.toolbox").__name__, multi=backend("multi"), many=backend("many"))
        same = True
        for f, name in MODULES.items():
            m = sys.modules.get(name)
            if m is not None:
                same &= loaded.setdefault(f, (m, getattr(m, "anp", None))) == (m, getattr(m, "anp", None))
        ev["same"] = bool(same)
        tr["ev"].append(ev)
    return tr


def worker(job, out):
    """Entry point of a helper process: imports the library once, then one forked process per history."""
    import multiprocessing as mp
    import hvd.problems  # noqa: F401
    acts = json.load(open(job))
    if any(m.startswith("pymoo.problems.m") for m in sys.modules):
        acts = []
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(history, acts, chunksize=1)
    json.dump(res, open(out, "w"))


def originals(job, out):
    """Entry point: values of the original pymoo problems (no JAX)."""
    import importlib
    res = []
    for name, kw, X in json.load(open(job)):
        mod = "pymoo.problems.many.dtlz" if name.startswith("dtlz") else "pymoo.problems.multi." + ("zdt" if name.startswith("zdt") else name)
        p = getattr(importlib.import_module(mod), name.upper())(**kw)
        o = {}
        p._evaluate(np.array(X), o)
        res.append(dict(n_var=int(p.n_var), n_obj=int(p.n_obj), n_ieq=int(p.n_ieq_constr), n_eq=int(p.n_eq_constr),
                        xl=np.asarray(p.xl, float).tolist(), xu=np.asarray(p.xu, float).tolist(),
                        F=stack(o["F"], len(X)), G=stack(o.get("G"), len(X))))
    json.dump(res, open(out, "w"))


def stack(v, n):
    if v is None:
        return [[] for _ in range(n)]
    return (np.column_stack(v) if isinstance(v, list) else np.asarray(v, float).reshape(n, -1)).tolist()


def helper(ctx, what, data):
    d = tempfile.mkdtemp(dir=ctx.work)
    with open(d + "/in.json", "w") as f:
        json.dump(data, f)
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([REPO, os.path.dirname(os.path.abspath(__file__))]), JAX_PLATFORMS="cpu")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import p_c18; p_c18.%s(%r, %r)" % (what, d + "/in.json", d + "/out.json")],
                       env=env, capture_output=True, text=True, timeout=700)
    if not os.path.exists(d + "/out.json"):
        return None, r.stderr[-400:]
    return json.load(open(d + "/out.json")), ""


# ---------------------------------------------------------------- built-in pymoo problems through the factory
def builtin(a):
    i, (name, kw, X), orig, bound = a
    tr = dict(id="pymoo-%s-%d" % (name, i), key="pymoo " + name, ev=[])
    ev = tr["ev"]

    def record():
        from hvd.problems import get_pymoo_problem
        p = get_pymoo_problem(name if i % 2 else name.upper(), boundary_constraints=bound, **kw)
        ev.append(dict(op="counts", n_var=p.n_var, n_obj=p.n_obj, n_eq=p.n_eq_constr, n_ieq=p.n_ieq_constr, n=orig["n_var"], m=orig["n_obj"],
                       ne=orig["n_eq"], ni=orig["n_ieq"], bound=bound, xl=encv(p.xl, 1e6), xu=encv(p.xu, 1e6), lo=encv(orig["xl"], 1e6), hi=encv(orig["xu"], 1e6)))
        Z = np.array(X)
        ev.append(dict(op="agree", what="F", sameshape=True, d=rel([p.objective(x) for x in Z], orig["F"]) + rel(p.objective_batch(Z), orig["F"])))
        if p.n_ieq_constr:
            G = np.array([p.ieq_constraint(x) for x in Z])
            want = np.array(orig["G"], float).reshape(len(Z), -1)
            if bound:
                want = np.c_[want, np.array(orig["xl"]) - Z, Z - np.array(orig["xu"])]
            ev.append(dict(op="agree", what="G", sameshape=bool(G.shape == want.shape), d=rel(G, want)))
        J = p.objective_jacobian(Z[0])
        h = 1e-6 * (np.array(orig["xu"]) - np.array(orig["xl"]))
        num = np.array([(p.objective(Z[0] + np.eye(len(h))[k] * h[k]) - p.objective(Z[0] - np.eye(len(h))[k] * h[k])) / (2 * h[k]) for k in range(len(h))]).T
        scale = 1e-5 * (1 + np.abs(num).max())
        ev.append(dict(op="agree", what="jacobian", sameshape=bool(J.shape == num.shape), d=[enc(v) for v in (np.abs(J - num) / scale).ravel()]))
    ok, msg = guarded(record, 200)
    if not ok:
        ev.append(dict(op="raised", what=msg))
    return tr


# ---------------------------------------------------------------- native problems seen by pymoo
def view(a):
    name, kw, seed, i = a
    rng = np.random.default_rng([seed, 1802, i])
    tr = dict(id="view-%s-%s" % (name, "-".join("%s%s" % (k[-3:], v) for k, v in kw.items())), key=name, ev=[])
    ev = tr["ev"]

    def record():
        cls = pl.classes()[name]
        kw2 = dict(kw)
        if pl.has_boundary(cls) and rng.random() < .5:
            kw2["boundary_constraints"] = True
        p = pl.make(cls, **kw2)
        q = p.as_pymoo_problem()
        from pymoo.core.problem import Problem
        assert isinstance(q, Problem)
        ne, ni = getattr(p, "n_eq_constr", 0), getattr(p, "n_ieq_constr", 0)
        ev.append(dict(op="counts", n_var=q.n_var, n_obj=q.n_obj, n_eq=q.n_eq_constr, n_ieq=q.n_ieq_constr, n=p.n_var, m=p.n_obj, ne=ne, ni=ni, bound=False,
                       xl=encv(q.xl, 1e6), xu=encv(q.xu, 1e6), lo=encv(p.xl, 1e6), hi=encv(p.xu, 1e6)))
        X = p.xl + (0.01 + 0.98 * rng.random((4, p.n_var))) * (p.xu - p.xl)
        X0 = X.copy()
        for B in (X, X[:1], X[2]):
            o = q.evaluate(B, return_values_of=["F", "G", "H"], return_as_dictionary=True)
            rows = np.atleast_2d(B)
            for key, m, f in (("F", p.n_obj, p.objective), ("H", ne, lambda x: p.eq_constraint(x)), ("G", ni, lambda x: p.ieq_constraint(x))):
                if m:
                    v = np.asarray(o[key], float)
                    ev.append(dict(op="agree", what="%s of %d points" % (key, len(rows)), sameshape=bool(v.shape == B.shape[:-1] + (m,)),
                                   d=rel(v, [np.ravel(f(x)) for x in rows])))
        ev.append(dict(op="agree", what="argument untouched", sameshape=True, d=rel(X, X0)))
        if seed % 2 == 0 or i % 4 == 0:
            from hvd.problems import MOP
            try:
                F = p.get_pareto_front()
            except Exception:
                F = None
            if isinstance(F, np.ndarray) and name in ("ZDT1", "ZDT2", "ZDT4", "ZDT6", "UF4", "UF1", "DENT"):
                G = q.pareto_front()
                ev.append(dict(op="agree", what="front", sameshape=bool(np.shape(G) == F.shape), d=rel(G, F)))
            ev.append(dict(op="agree", what="already native", sameshape=bool(MOP.from_pymoo(p) is p), d=[]))
    ok, msg = guarded(record, 200)
    if not ok:
        ev.append(dict(op="raised", what=msg))
    return tr


# ---------------------------------------------------------------- user-defined problems in both directions
def user_problem(c):
    import jax.numpy as jnp
    from pymoo.core.problem import ElementwiseProblem, Problem
    n = c["n"]

    def qf(q):
        A, b, cc = (np.array(q[k], float) for k in "Abc")
        A = A.reshape(-1, n, n); b = b.reshape(-1, n)
        return lambda x: jnp.einsum("kab,...a,...b->...k", A, x, x) + x @ b.T + cc
    fo, fe, fi = (qf(c[k]) for k in ("obj", "eq", "ieq"))
    el = c["form"].startswith("element")

    def _evaluate(self, x, out, *args, **kwargs):
        if c["form"] == "return":
            return fo(x)
        if el:
            assert x.ndim == 1
        put = (lambda v: v) if c["form"] in ("array", "element") else (lambda v: [v[..., k] for k in range(v.shape[-1])])
        out["F"] = put(fo(x))
        if c["ni"]:
            out["G"] = put(fi(x))
        if c["ne"]:
            out["H"] = put(fe(x))
    kw = dict(n_var=n, n_obj=c["m"], n_eq_constr=c["ne"], n_ieq_constr=c["ni"])
    if c["bk"] == "scalar":
        kw.update(xl=c["lo"][0], xu=c["hi"][0])
    elif c["bk"] == "vector":
        kw.update(xl=np.array(c["lo"]), xu=np.array(c["hi"], float))
    base = ElementwiseProblem if el else Problem
    return type("UserPymoo", (base,), dict(_evaluate=_evaluate))(**kw)


def user_case(a):
    i, c, seed = a
    rng = np.random.default_rng([seed, 1803, i])
    tr = dict(id="user-%d" % i, key="user", ev=[])
    ev = tr["ev"]

    def record():
        from hvd.problems import MOP
        q = user_problem(c)
        p = MOP.from_pymoo(q, boundary_constraints=c["bound"])
        ev.append(dict(op="counts", n_var=p.n_var, n_obj=p.n_obj, n_eq=p.n_eq_constr, n_ieq=p.n_ieq_constr, n=c["n"], m=c["m"], ne=c["ne"], ni=c["ni"],
                       bound=c["bound"], xl=encv(p.xl), xu=encv(p.xu), lo=c["lo"], hi=c["hi"]))
        for B, batch in ((1, False), (int(rng.integers(2, 5)), True)):
            X = rng.integers(-6, 7, (B, c["n"]))
            e = dict(op="quad", X=X.tolist(), lo=c["lo"], hi=c["hi"], bound=c["bound"], obj=c["obj"], eq=c["eq"], ieq=c["ieq"])
            for k, m in (("E", p.n_eq_constr), ("G", p.n_ieq_constr)):
                if not m:
                    e.update({k: [[]] * B, k + "J": [[]] * B, k + "H": [[]] * B})
            for what, m, val, jac, hes, bval, bjac, bhes in functions(p):
                k = dict(objective="F", eq="E", ieq="G")[what]
                Xf = X.astype(float)
                if batch:
                    e.update({k: encv(bval(Xf)), k + "J": encv(bjac(Xf)), k + "H": encv(bhes(Xf))})
                else:
                    e.update({k: encv([val(x) for x in Xf]), k + "J": encv([jac(x) for x in Xf]), k + "H": encv([hes(x) for x in Xf])})
            ev.append(e)
        # and back: the wrapped problem and a native one as pymoo problems
        natives = [p]
        if c["bk"] != "none":
            natives.append(quad_problem(dict(c, cmop=True)))
        for w in natives:
            v = w.as_pymoo_problem()
            X = rng.integers(-6, 7, (3, c["n"]))
            o = v.evaluate(X.astype(float), return_values_of=["F", "G", "H"], return_as_dictionary=True)
            ev.append(dict(op="counts", n_var=v.n_var, n_obj=v.n_obj, n_eq=v.n_eq_constr, n_ieq=v.n_ieq_constr, n=c["n"], m=c["m"], ne=c["ne"], ni=c["ni"],
                           bound=c["bound"], xl=encv(v.xl), xu=encv(v.xu), lo=c["lo"], hi=c["hi"]))
            ev.append(dict(op="view", X=X.tolist(), lo=c["lo"], hi=c["hi"], bound=c["bound"], obj=c["obj"], eq=c["eq"], ieq=c["ieq"],
                           F=encv(o["F"]), E=encv(o["H"]) if c["ne"] else [[]] * 3, G=encv(o["G"]) if v.n_ieq_constr else [[]] * 3))
    ok, msg = guarded(record, 200)
    if not ok:
        ev.append(dict(op="raised", what=msg))
    return tr


def refusals(seed):
    """Problems that JAX cannot trace, and things that are no pymoo problems."""
    import jax.numpy as jnp
    from pymoo.core.problem import ElementwiseProblem, Problem
    from hvd.problems import MOP, ZDT1
    tr = dict(id="refusals", key="refusals", ev=[])
    good = lambda X: jnp.column_stack([jnp.sum(X ** 2, axis=1), jnp.sum((X - 1) ** 2, axis=1)])

    def asarray(self, X, out, *a, **k): out["F"] = np.sum(np.asarray(X) ** 2, axis=1, keepdims=True)
    def branch(self, X, out, *a, **k): out["F"] = good(X) if X[0, 0] > 0 else good(-X)
    def number(self, X, out, *a, **k): out["F"] = jnp.array([[float(X[0, 0]), 1.0]])
    def constraint(self, X, out, *a, **k): out["F"] = good(X); out["G"] = np.array(X)[:, :1]
    def equality(self, X, out, *a, **k): out["F"] = good(X); out["H"] = np.asarray(X, float)[:, :1]
    def both_g(self, X, out, *a, **k): out["F"] = good(X); out["H"] = X[:, :1]; out["G"] = np.asarray(X, float)[:, :1]
    def both_h(self, X, out, *a, **k): out["F"] = good(X); out["G"] = X[:, :1]; out["H"] = np.asarray(X, float)[:, :1]
    def missing(self, X, out, *a, **k): out["F"] = good(X)
    def missing_g(self, X, out, *a, **k): out["F"] = good(X); out["H"] = X[:, :1]
    def missing_h(self, X, out, *a, **k): out["F"] = good(X); out["G"] = X[:, :1]
    def nothing(self, X, out, *a, **k): pass
    def item(self, x, out, *a, **k): out["F"] = [x[0].item(), x[1] ** 2]
    cases = [(asarray, 1, {}, Problem), (branch, 2, {}, Problem), (number, 2, {}, Problem), (constraint, 2, dict(n_ieq_constr=1), Problem),
             (equality, 2, dict(n_eq_constr=1), Problem), (both_g, 2, dict(n_ieq_constr=1, n_eq_constr=1), Problem), (both_h, 2, dict(n_ieq_constr=1, n_eq_constr=1), Problem),
             (missing, 2, dict(n_ieq_constr=1), Problem), (missing, 2, dict(n_eq_constr=2), Problem),
             (missing_g, 2, dict(n_ieq_constr=1, n_eq_constr=1), Problem), (missing_h, 2, dict(n_ieq_constr=1, n_eq_constr=1), Problem),
             (nothing, 2, {}, Problem), (item, 2, {}, ElementwiseProblem)]
    for f, m, kw, base in cases:
        for b in (False, True):
            e = dict(op="refused", what=f.__name__, accepted=True)
            try:
                MOP.from_pymoo(type("U", (base,), dict(_evaluate=f))(n_var=2, n_obj=m, xl=-1, xu=1, **kw), boundary_constraints=b)
            except Exception:
                e["accepted"] = False
            tr["ev"].append(e)
    for thing in (object(), None, 3, ZDT1, lambda x: x):
        e = dict(op="refused", what=repr(type(thing)), accepted=True)
        try:
            MOP.from_pymoo(thing)
        except Exception:
            e["accepted"] = False
        tr["ev"].append(e)
    return tr


def corrupted(trs):
    bad, seen = [], {}
    for t in trs:
        for j, e in enumerate(t["ev"]):
            k = e["op"] + e.get("a", "")
            if seen.get(k, 0) >= 2 or (e["op"] == "agree" and not e["d"]):
                continue
            b = copy.deepcopy(t); d = b["ev"][j]
            if e["op"] == "factory": d["tb" if seen.get(k) else "toolbox"] = "?"
            elif e["op"] == "counts": d["n_ieq"] += 1
            elif e["op"] == "quad": d["FJ"][0][0][0] += 1
            elif e["op"] == "view": d["F"][0][0] += 1
            elif e["op"] == "agree": d["d"][-1] = 5000
            elif e["op"] == "refused": d["accepted"] = True
            else: continue
            seen[k] = seen.get(k, 0) + 1
            bad.append(b)
    return bad


def run(ctx):
    _, tagged = ctx.tlc("InteropModel", MODEL % ctx.pick((4, 2, 2), (5, 3, 3)))
    conf = [b for t, b in tagged if t == "CONF"]
    hist = [b for t, b in tagged if t == "HIST"]
    rng = ctx.rng()
    ctx.notes["histories_in_the_model"], ctx.notes["user_configurations_in_the_model"] = len(hist), len(conf)
    pick = lambda s, k: [s[i] for i in sorted(rng.choice(len(s), min(len(s), k), replace=False))]
    hist, conf = pick(hist, ctx.pick(200, 2500)), pick(conf, ctx.pick(80, 500))
    trs, err = helper(ctx, "worker", [(i, h, ctx.seed) for i, h in enumerate(hist)])
    if trs is None:
        trs = [dict(id="factory", key="factory", ev=[dict(op="raised", what=err)])]
    elif not trs:
        raise Machinery("pymoo problem modules are loaded together with the library")
    jobs = []
    names = ["bnh", "osy", "srn", "tnk", "zdt1", "zdt2", "zdt3", "zdt4", "zdt6"] + ["dtlz%d" % k for k in range(1, 8)]
    box = dict(bnh=([0, 0], [5, 3]), osy=([0, 0, 1, 0, 1, 0], [10, 10, 5, 6, 5, 10]), srn=([-20] * 2, [20] * 2), tnk=([0] * 2, [np.pi] * 2))
    for name in names:
        for k in range(ctx.pick(1, 4)):
            kw = {}
            if name not in box:
                kw = dict(n_var=int(rng.integers(5, 12)))
                if name.startswith("dtlz"):
                    kw["n_obj"] = int(rng.integers(2, 5)) if name not in ("dtlz5", "dtlz6") else 3
            n = kw.get("n_var") or len(box[name][0])
            lo, hi = map(np.array, box.get(name, ([0] * n, [1] * n)))
            if name == "zdt4":
                lo, hi = np.r_[0, [-5] * (n - 1)], np.r_[1, [5] * (n - 1)]
            X = lo + (0.02 + 0.96 * rng.random((5, n))) * (hi - lo)
            jobs.append((name, kw, X.tolist()))
    orig, err = helper(ctx, "originals", jobs)
    if orig is None:
        raise Machinery("values of the original pymoo problems: " + err)
    trs += pmap(builtin, [(i, j, o, bool(i % 2)) for i, (j, o) in enumerate(zip(jobs, orig))], procs=8)
    trs += pmap_each(view, [(n, c, ctx.seed, i) for n in pl.NAMES for i, c in enumerate(pl.configs(n)[:ctx.pick(1, 4)])])
    trs += pmap(user_case, [(i, c, ctx.seed) for i, c in enumerate(conf)], procs=8)
    trs += pmap(refusals, [ctx.seed])
    ctx.notes.update(histories_replayed=len(hist), pymoo_problems=len(names), native_problems=len(pl.NAMES), user_problems=len(conf))
    ctx.samples += [dict(trace=t["id"], events=[e["op"] + " " + e.get("a", "") + e.get("what", "") for e in t["ev"]][:10]) for t in trs[:3] + trs[-4:]]
    fails = ctx.validate("TraceInterop", trs)
    good = [t for i, t in enumerate(trs, 1) if i not in fails]
    ctx.must_reject("TraceInterop", corrupted(good))
    for t in trs:
        for e in t["ev"]:
            ctx.clauses[e["op"] + (" " + e["a"] if e["op"] == "factory" else "")] += 1
    ctx.assumptions += ["an error of any exception type counts as refusal", "module state is observed through pymoo.gradient.TOOLBOX, the toolbox import and the anp of zdt and dtlz modules"]
