"""C16: derivatives reported by problems.  Spec: Problem.tla, ProblemModel.tla, TraceProblem.tla."""
import copy
import numpy as np
import problemlib as pl
from core import BIG, NANV, enc, encv, guarded, pmap

MODEL = """CONSTANTS
 MaxN = %d
 MaxM = %d
 Coef = %d
 Emitting = TRUE
SPECIFICATION Spec
INVARIANTS AcceptsTrue ExactOnCubics RejectsOther RoughIfKink SmoothIfLinear Counts NativeFirst SlackSigns FirstDifferences SecondDifferences Symmetric Emit
CHECK_DEADLOCK FALSE
"""


def rel(a, b):
    """Scaled differences of two arrays; equal shapes are reported separately."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.size != b.size:
        return [10 ** 6]
    a, b = a.ravel(), b.ravel()
    out = []
    for x, y in zip(a, b):
        if (np.isnan(x) and np.isnan(y)) or x == y:
            out.append(0)
        elif not (np.isfinite(x) and np.isfinite(y)):
            out.append(10 ** 6)
        else:
            out.append(int(round(min(abs(x - y) / (1e-9 * (1 + abs(y))), 1e6))))
    return out


def stencil(fun, x, h):
    """fun: point -> flat array. Difference quotients <<dp, dm, dp2, dm2>> per variable, shape (n, m, 4)."""
    f0 = fun(x)
    out = np.empty((len(x), f0.size, 4))
    for i in range(len(x)):
        for c, s in enumerate((1, -1, 2, -2)):
            y = x.copy(); y[i] += s * h[i]
            out[i, :, c] = (fun(y) - f0) / h[i]
    return f0, out


def der_event(what, fun, J, x, h, rng_, want):
    """J: reported derivative, shape (m, n) after flattening the leading axes."""
    f0, q = stencil(fun, x, h)
    J = np.asarray(J, float)
    shape = list(J.shape)
    if shape != want:
        return dict(op="der", what=what, shape=shape, want=want, D=[], S=[], x=x.tolist())
    m = J.shape[0]
    Jf = J.reshape(-1, len(x))
    D = [[] for _ in range(m)]
    for k in range(Jf.shape[0]):
        for i in range(len(x)):
            d = np.r_[Jf[k, i], q[i, k]]
            least = 1e-3 * (1 + (abs(f0[k]) if np.isfinite(f0[k]) else 0)) / rng_[i]
            s = np.max(np.r_[np.abs(np.where(np.isfinite(d), d, 0)) * [0, 1, 1, .5, .5], least])   # not the reported value: it may be the wrong one
            D[k * m // Jf.shape[0]].append([enc(v, 1e6 / s) for v in d] + [enc(least, 1e6 / s)])
    return dict(op="der", what=what, shape=shape, want=want, D=D, S=[rel(v, v.T) for v in J] if J.ndim == 3 else [], x=x.tolist())


def functions(p):
    """(name, number of outputs, value, jacobian, hessian, batch versions) of a problem."""
    out = [("objective", p.n_obj, p.objective, p.objective_jacobian, p.objective_hessian, p.objective_batch, p.objective_jacobian_batch, p.objective_hessian_batch)]
    if getattr(p, "n_eq_constr", 0):
        out.append(("eq", p.n_eq_constr, p.eq_constraint, p.eq_jacobian, p.eq_hessian, p.eq_constraint_batch, p.eq_jacobian_batch, p.eq_hessian_batch))
    if getattr(p, "n_ieq_constr", 0):
        out.append(("ieq", p.n_ieq_constr, p.ieq_constraint, p.ieq_jacobian, p.ieq_hessian, p.ieq_constraint_batch, p.ieq_jacobian_batch, p.ieq_hessian_batch))
    return out


def points(p, rng, n, special):
    w = p.xu - p.xl
    X = rng.random((n, p.n_var))
    X = 0.01 + 0.98 * X
    if n > 2:
        X[-1] = 0.01 + 0.04 * X[-1] if rng.random() < .5 else 0.95 + 0.04 * X[-1]
    if special:
        k = min(p.n_var - 1, max(1, p.n_obj - 1))
        X[0, k:] = rng.choice([0.5, 0.35])          # on the optimal distance values of many problems
    return p.xl + w * X


def builtin_case(a):
    name, kw, npts, seed, i, extra = a
    rng = np.random.default_rng([seed, 16, i])
    tr = dict(id="%s-%s" % (name, "-".join("%s%s" % (k[-3:], v) for k, v in kw.items())), key=name, ev=[])
    ev = tr["ev"]
    cls = pl.classes().get(name)
    if cls is None:
        ev.append(dict(op="raised", what="missing problem " + name)); return tr
    kw = dict(kw)
    ok, p = guarded(lambda: pl.make(cls, **kw))
    if not ok:
        ev.append(dict(op="raised", what=p)); return tr
    if extra == "box":       # a smaller box, bounds given as sequences
        lo = p.xl + 0.2 * (p.xu - p.xl); hi = p.xl + 0.9 * (p.xu - p.xl)
        kw.update(xl=list(lo), xu=list(hi))
        ok, p = guarded(lambda: pl.make(cls, **kw))
        if not ok:
            ev.append(dict(op="raised", what=p)); return tr
    X = points(p, rng, npts, True)
    w = p.xu - p.xl
    h = 1e-5 * w

    def record():
        for what, m, val, jac, hes, bval, bjac, bhes in functions(p):
            n = p.n_var
            f = lambda x: np.asarray(val(x), float).ravel()
            jf = lambda x: np.asarray(jac(x), float).ravel()
            for x in X:
                x0 = x.copy()
                J = jac(x); H = np.asarray(hes(x))
                ev.append(der_event(what + " jacobian", f, J, x, h, w, [m, n]))
                ev.append(der_event(what + " hessian", jf, H, x, h, w, [m, n, n]))
                ev.append(dict(op="agree", what=what + " argument untouched", sameshape=True, d=rel(x, x0)))
            Z = X[1:] if pl.family(name) == "WFG" and len(X) > 1 else X      # kinks: rounding decides the side
            for B in (Z[:1], Z, Z[[0, -1, 0, 1 % len(Z)]]):
                v, J, H = bval(B), bjac(B), bhes(B)
                ok = np.asarray(v).reshape(len(B), -1).shape == (len(B), m) and J.shape == (len(B), m, n) and H.shape == (len(B), m, n, n)
                ev.append(dict(op="agree", what=what + " batch", sameshape=bool(ok),
                               d=rel(v, [f(x) for x in B]) + rel(J, [jac(x) for x in B]) + rel(H, [hes(x) for x in B])))
    ok, r = guarded(record, 300)
    if not ok:
        ev.append(dict(op="raised", what=r)); return tr
    if pl.has_boundary(cls):
        def boundary():
            q = pl.make(cls, boundary_constraints=True, **kw)
            nat = getattr(p, "n_ieq_constr", 0)
            ev.append(dict(op="counts", n_var=q.n_var, n_obj=q.n_obj, n_eq=getattr(q, "n_eq_constr", 0), n_ieq=q.n_ieq_constr,
                           n=p.n_var, m=p.n_obj, ne=getattr(p, "n_eq_constr", 0), ni=nat, bound=True))
            ev.append(dict(op="agree", what="objective with boundary", sameshape=True, d=rel([q.objective(x) for x in X], [p.objective(x) for x in X])
                           + rel(q.objective_jacobian(X[0]), p.objective_jacobian(X[0])) + rel(q.xl, p.xl) + rel(q.xu, p.xu)))
            if getattr(p, "n_eq_constr", 0):
                ev.append(dict(op="agree", what="eq with boundary", sameshape=True, d=rel([q.eq_constraint(x) for x in X], [p.eq_constraint(x) for x in X])))
            for x in X[:2]:
                x = np.round(x * 1024) / 1024
                G, J, H = (np.asarray(v) for v in (q.ieq_constraint(x), q.ieq_jacobian(x), q.ieq_hessian(x)))
                native = []
                if nat:
                    native = rel(G[:nat], p.ieq_constraint(x)) + rel(J[:nat], p.ieq_jacobian(x)) + rel(H[:nat], p.ieq_hessian(x))
                ev.append(dict(op="slack", native=native, x=encv(x, 10 ** 6), lo=encv(q.xl, 10 ** 6), hi=encv(q.xu, 10 ** 6), extra=near(G[nat:] * 1e6, x, q),
                               J=encv(J[nat:]), H=encv(H[nat:])))
            B = X[1:]
            v, J, H = q.ieq_constraint_batch(B), q.ieq_jacobian_batch(B), q.ieq_hessian_batch(B)
            ev.append(dict(op="agree", what="ieq batch with boundary", sameshape=bool(v.shape == (len(B), q.n_ieq_constr)),
                           d=rel(v, [q.ieq_constraint(x) for x in B]) + rel(J, [q.ieq_jacobian(x) for x in B]) + rel(H, [q.ieq_hessian(x) for x in B])))
        ok, r = guarded(boundary, 300)
        if not ok:
            ev.append(dict(op="raised", what=r))
    return tr


def near(v, x, q):
    """Slacks in 1e-6 units; the encoded terms are rounded separately, so snap a deviation of at most one unit."""
    w = np.r_[np.array(encv(q.xl, 10 ** 6)) - encv(x, 10 ** 6), np.array(encv(x, 10 ** 6)) - encv(q.xu, 10 ** 6)]
    v = np.asarray(v, float)
    if v.shape != w.shape:
        return encv(v)
    return [int(b) if abs(a - b) <= 1.01 else enc(a) for a, b in zip(v, w)]


def quad_problem(c):
    """A user-defined problem with the integer data of the model configuration."""
    import jax.numpy as jnp
    from hvd.problems.base import MOP, CMOP

    def qf(q):
        A, b, cc = (np.array(q[k], float) for k in "Abc")
        n = c["n"]
        A = A.reshape(-1, n, n); b = b.reshape(-1, n)
        return lambda x: jnp.einsum("kab,a,b->k", A, x, x) + b @ x + cc
    fo, fe, fi = (qf(c[k]) for k in ("obj", "eq", "ieq"))
    body = dict(_objective=lambda self, x: fo(x))
    if c["cmop"]:
        body.update(_eq_constraint=lambda self, x: fe(x), _ieq_constraint=lambda self, x: fi(x))
        cls = type("UserCMOP", (CMOP,), body)
        return cls(n_var=c["n"], n_obj=c["m"], xl=c["lo"], xu=np.array(c["hi"]), n_eq_constr=c["ne"], n_ieq_constr=c["ni"], boundary_constraints=c["bound"])
    return type("UserMOP", (MOP,), body)(c["n"], c["m"], np.array(c["lo"], float), tuple(c["hi"]))


def quad_case(a):
    i, c, seed = a
    rng = np.random.default_rng([seed, 1600, i])
    tr = dict(id="user-%d" % i, key="user", ev=[])
    ev = tr["ev"]

    def record():
        p = quad_problem(c)
        ne, ni = getattr(p, "n_eq_constr", 0), getattr(p, "n_ieq_constr", 0)
        ev.append(dict(op="counts", n_var=p.n_var, n_obj=p.n_obj, n_eq=ne, n_ieq=ni, n=c["n"], m=c["m"], ne=c["ne"], ni=c["ni"], bound=c["bound"]))
        for B, batch in ((1, False), (int(rng.integers(2, 5)), True), (1, True)):
            X = rng.integers(-9, 10, (B, c["n"]))
            e = dict(op="quad", X=X.tolist(), lo=c["lo"], hi=c["hi"], bound=c["bound"], obj=c["obj"], eq=c["eq"], ieq=c["ieq"])
            for k, m in (("E", ne), ("G", ni)):
                if not m:
                    e.update({k: [[]] * B, k + "J": [[]] * B, k + "H": [[]] * B})
            for what, m, val, jac, hes, bval, bjac, bhes in functions(p):
                k = dict(objective="F", eq="E", ieq="G")[what]
                Xf = X.astype(float)
                if batch:
                    e.update({k: encv(bval(Xf)), k + "J": encv(bjac(Xf)), k + "H": encv(bhes(Xf))})
                else:
                    e.update({k: encv([val(x) for x in Xf]), k + "J": encv([jac(x) for x in Xf]), k + "H": encv([hes(x) for x in Xf])})
            ev.append(e)
    ok, r = guarded(record, 200)
    if not ok:
        ev.append(dict(op="raised", what=r, conf=c))
    return tr


def corrupted(trs):
    bad = []
    seen = {}
    for t in trs:
        for j, e in enumerate(t["ev"]):
            k = e["op"] + e.get("what", "")
            if seen.get(k, 0) >= 3:
                continue
            b = copy.deepcopy(t); d = b["ev"][j]
            if e["op"] == "der":
                ro = lambda r: max(abs(v) for v in r[1:5]) >= BIG or 10 * (7 * abs(2 * (r[1] - r[2]) - r[3] + r[4]) + 6 * abs(r[1] + r[2])) > 6 * max(abs(r[1]), abs(r[2]), r[5])
                z = next(((a, c) for a, row in enumerate(d["D"]) if not any(map(ro, row)) for c, r in enumerate(row) if 500000 < abs(r[0]) < BIG), None)
                if z is None: continue
                r = d["D"][z[0]][z[1]]
                r[0] = int(r[0] * 1.3)
            elif e["op"] == "agree": d["d"][-1] = 5000
            elif e["op"] == "counts": d["n_ieq"] += 1
            elif e["op"] == "slack": d["extra"][0] *= -1; d["J"][0][0] = 1
            elif e["op"] == "quad": d["F"][0][0] += 1
            else: continue
            seen[k] = seen.get(k, 0) + 1
            b["ev"] = [d]
            bad.append(b)
    return bad


def run(ctx):
    _, tagged = ctx.tlc("ProblemModel", MODEL % ctx.pick((2, 2, 2), (3, 3, 5)))
    conf = [b for t, b in tagged if t == "CONF"]
    rng = ctx.rng()
    n = ctx.pick(60, 500)
    if len(conf) > n:
        conf = [conf[i] for i in sorted(rng.choice(len(conf), n, replace=False))]
    ctx.notes["configurations_of_user_problems"] = len(conf)
    jobs = []
    for name in pl.NAMES:
        cs = pl.configs(name)
        if ctx.quick:
            j = int(rng.integers(1, len(cs))) if len(cs) > 1 else 0
            pick = [(cs[0], "box" if rng.random() < .5 and pl.family(name) != "WFG" else "")] + ([(cs[j], "")] if len(cs) > 1 and pl.family(name) not in ("WFG", "UF", "CF") else [])
            if pl.family(name) in ("UF", "CF", "WFG"):
                pick = [(cs[int(rng.integers(0, 2))], "")]
        else:
            pick = [(c, "") for c in cs] + [(cs[0], "box")]
        jobs += [(name, c, ctx.pick(3, 8), ctx.seed, len(jobs) + q, x) for q, (c, x) in enumerate(pick)]
    jobs.sort(key=lambda a: 0 if a[0].startswith("WFG") else 1)
    trs = pmap_each(builtin_case, jobs) + pmap(quad_case, [(i, c, ctx.seed) for i, c in enumerate(conf)], procs=8)
    ctx.notes["problems"] = len(pl.NAMES)
    ctx.notes["problem_configurations"] = len(jobs)
    ctx.samples += [dict(problem=t["id"], events=[e["op"] + " " + e.get("what", "") for e in t["ev"]][:12]) for t in trs[:4]]
    fails = ctx.validate("TraceProblem", trs)
    good = [t for i, t in enumerate(trs, 1) if i not in fails]
    ctx.must_reject("TraceProblem", corrupted(good))
    for t in trs:
        for e in t["ev"]:
            ctx.clauses[e["op"]] += 1
    ctx.assumptions += ["built-in problems: derivatives compared with difference quotients at sampled interior points (relative step 1e-5); kinks inside the stencil widen the tolerance",
                        "user-defined problems: integer quadratic objectives and constraints, compared exactly"]


def pmap_each(fn, items, procs=8):
    import multiprocessing as mp
    with mp.get_context("fork").Pool(procs, maxtasksperchild=6) as pool:
        return pool.map(fn, items, chunksize=1)
