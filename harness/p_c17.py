"""C17: reported Pareto fronts and sets, sizes and bounds.  Spec: Front.tla, FrontModel.tla, TraceFront.tla."""
import copy
import inspect
import warnings
import numpy as np
import problemlib as pl
from core import BIG, enc, encv, guarded, pmap

MODEL = """CONSTANTS
 GX = %d
 GY = %d
 RMax = %d
 Emitting = TRUE
SPECIFICATION Spec
INVARIANTS TrueFrontAccepted AcceptedIsOptimal PartsAccepted OnlyWholeFront Strict AcceptedBroadcast ScalarIsSingleton Emit
CHECK_DEADLOCK FALSE
"""
# inverted problems whose published front is optimal only among points with optimal distance variables
INVERTED = ("IDTLZ2", "IDTLZ3", "IDTLZ4", "Eq1IDTLZ2", "Eq1IDTLZ3", "Eq1IDTLZ4")


def split(V, base, r):
    """<<hi, lo>> pairs of values relative to the front's range."""
    z = (np.asarray(V, float) - base) / r * 1e6
    out = []
    for row in np.atleast_2d(z):
        o = []
        for v in row:
            if not np.isfinite(v) or abs(v) >= BIG:
                o.append([BIG if not v < 0 else -BIG, 0])
            else:
                h = int(np.floor(v))
                o.append([h, int(round((v - h) * 1e6))])
        out.append(o)
    return out


def suspects(A, B, r, k):
    """Indices of the k pairs (a, b) where a is closest to dominating b by a visible amount."""
    best = []
    for i0 in range(0, len(A), 400):
        d = (A[i0:i0 + 400, None] - B[None]) / r
        w = d.max(2)                      # <= 0: a is nowhere worse
        gain = d.min(2)
        s = np.where(w <= 1e-11, 1e3, 0) - 1e3 * np.maximum(w, 0) - np.maximum(gain, -1)
        s[gain > -1e-3] = -1e9
        s = np.where(np.isnan(s), -1e9, s)
        for f in np.argsort(s, axis=None)[::-1][:k]:
            best.append((s.flat[f], i0 + f // s.shape[1], f % s.shape[1]))
    best.sort(reverse=True)
    return [(i, j) for v, i, j in best[:k] if v > -1e8]


def front_of(p, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return p.get_pareto_front(**kw)


def count_parameter(fun):
    for q in inspect.signature(fun).parameters.values():
        if q.kind in (q.POSITIONAL_OR_KEYWORD, q.KEYWORD_ONLY) and q.name in ("N", "n", "n_pareto_points", "n_points"):
            return q.name


def case(a):
    """Traces of one problem configuration."""
    name, kw, n, seed, i = a
    rng = np.random.default_rng([seed, 17, i])
    np.random.seed(int(rng.integers(2 ** 31)))
    ident = "%s-%s" % (name, "-".join("%s%s" % (k[-3:], v) for k, v in kw.items()))
    tr = dict(id=ident, key=name, ev=[])
    off = dict(id=ident + "-off-optimal", key=name + " dominated by points with distance variables off 0.5", ev=[])
    ev = tr["ev"]

    def record():
        p = pl.make(pl.classes()[name], **kw)
        remote = name in ("DTLZ5", "DTLZ6", "DTLZ7")        # the front is downloaded
        F = None
        try:
            F = front_of(p)
        except Exception:
            if not remote:
                raise
        S = np.asarray(p.get_pareto_set(), float) if hasattr(p, "get_pareto_set") else None
        if S is not None and S.ndim != 2:
            S = None
        if F is None or F is NotImplemented:
            if S is None:
                return
            F = None
        fronts = []
        if F is not None:
            fronts.append(np.asarray(F, float))
            arg = count_parameter(p.get_pareto_front)
            if arg:
                for c in (int(rng.integers(5, 60)), int(rng.integers(150, 700))):
                    fronts.append(np.asarray(front_of(p, **{arg: c}), float))
        base = fronts[0] if fronts else p.objective_batch(S)
        lo = np.nanmin(base, axis=0)
        r = np.nanmax(base, axis=0) - lo
        r = np.where(r > 0, r, 1.0)
        X = [pl.near_optimal(name, p, rng, n), p.xl + rng.random((n, p.n_var)) * (p.xu - p.xl),
             np.where(rng.random((n // 8, p.n_var)) < .5, p.xl, p.xu)]
        if S is not None:
            arg = count_parameter(p.get_pareto_set)
            X.append(np.asarray(p.get_pareto_set(**({arg: n // 2} if arg else {}))))
        X = np.vstack([x for x in X if len(x)])
        X = X[np.all((X >= p.xl) & (X <= p.xu), axis=1)]
        X = X[pl.feasible(p, X)]
        Y = p.objective_batch(X)
        clean = np.all(np.isfinite(Y), axis=1)
        X, Y = X[clean], Y[clean]
        optimal = np.ones(len(X), bool)
        if name in INVERTED:
            optimal = np.all(X[:, p.n_obj - 1:] == 0.5, axis=1)
        tol = {2: 50_000, 3: 150_000, 4: 250_000}.get(p.n_obj, 400_000)
        fine = {2: 15_000, 3: 60_000}.get(p.n_obj, 200_000)     # spacing of the samples
        for F in fronts:
            e = dict(op="front", n=int(F.shape[-1]) if F.ndim == 2 else -1, n_obj=p.n_obj, F=[])
            ev.append(e)
            if F.shape[-1] != p.n_obj or not len(F):
                continue
            keep = sorted(set(rng.choice(len(F), min(len(F), 25), replace=False)) | {k for q in suspects(F, F, r, 10) for k in q})
            e["F"] = split(F[keep], lo, r)
            for sel, t in ((optimal, tr), (~optimal, off)):
                if sel.any():
                    prs = suspects(Y[sel], F, r, 12)
                    if prs:
                        ii, jj = sorted({q[0] for q in prs}), sorted({q[1] for q in prs})
                        t["ev"].append(dict(op="samples", S=split(Y[sel][ii], lo, r), F=split(F[jj], lo, r), x=X[sel][ii[0]].tolist()))
            if not name.startswith("Eq1"):
                dist = np.array([np.abs((Y - f) / r).max(1).min() for f in F]) if len(F) <= 300 else None
                pick = np.argsort(dist)[::-1][:10] if dist is not None else rng.choice(len(F), 40, replace=False)
                near = sorted({int(np.abs((Y - F[k]) / r).max(1).argmin()) for k in pick})
                ev.append(dict(op="reach", F=split(F[pick], lo, r), S=split(Y[near], lo, r), tol=tol if pl.family(name) == "WFG" else fine))
        if fronts:
            F = np.asarray(front_of(p, N=20000), float) if pl.family(name) == "WFG" else fronts[0]   # WFG: images of random samples
            Z = Y[optimal]
            if len(Z) > 2500:
                Z = Z[rng.choice(len(Z), 2500, replace=False)]
            far = np.array([((F - y) / r).max(1).min() for y in Z])
            pick = np.argsort(far)[::-1][:15]
            jj = sorted({int(((F - Z[k]) / r).max(1).argmin()) for k in pick})
            ev.append(dict(op="complete", F=split(F[jj], lo, r), S=split(Z[pick], lo, r), tol=tol * 3 if pl.family(name) == "WFG" else tol, worst=enc(far.max(), 1e6)))
        if S is not None:
            V = p.objective_batch(S)
            con = bool(getattr(p, "n_ieq_constr", 0))
            B = fronts[0] if fronts else V
            inv = [int(k) for k in np.flatnonzero(~np.all((S >= p.xl) & (S <= p.xu), axis=1))[:3]]
            keep = set(inv) | set(int(k) for k in rng.choice(len(S), min(len(S), 12), replace=False))
            if len(V) > 1:
                sub = rng.choice(len(V), min(len(V), 300), replace=False)
                keep |= {int(sub[k]) for q in suspects(V[sub], V[sub], r, 5) for k in q}
            jj = set()
            for A, C, first in ((V, B, True), (B, V, False)):
                for x, y in suspects(A, C, r, 5):
                    keep.add(int(x if first else y)); jj.add(int(y if first else x))
            far = np.array([np.abs((B - v) / r).max(1).min() for v in V[:200]])
            keep |= {int(k) for k in np.argsort(far)[::-1][:5]}
            keep = sorted(keep)
            jj |= {int(np.abs((B - V[k]) / r).max(1).argmin()) for k in keep}
            jj = sorted(jj)
            wide = 0 if not fronts or pl.family(name) == "WFG" else tol   # WFG: both are images of random samples
            ev.append(dict(op="set", X=outside(S[keep], p), lo=[0] * p.n_var, hi=[2] * p.n_var, Y=split(V[keep], lo, r), F=split(B[jj], lo, r),
                           nfeas=int(pl.feasible(p, S[keep]).sum()), constrained=con, tol=wide))
    ok, msg = guarded(record, 300)
    if not ok:
        ev.append(dict(op="raised", what=msg))
    return [t for t in (tr, off) if t["ev"]]


def outside(X, p):
    """Position of every coordinate with respect to the box: -1 below, 1 inside, 3 above or undefined."""
    return [[-1 if x < l else 1 if x <= u else 3 for x, l, u in zip(row, p.xl, p.xu)] for row in X]


def value(c):
    k, v = c["kind"], c["v"]
    return dict(int=int, npint=np.int64, bool=bool, npbool=np.bool_, float=float, npfloat=np.float64, str=str).get(k, lambda z: None)(v)


def bound(b, k):
    if b["form"] == "scalar":
        return [float, int, np.float64][k % 3](b["v"][0])
    return [list, tuple, np.array, lambda z: np.array(z, float)][k % 4](b["v"])


def ctor_case(a):
    i, rows = a
    import jax.numpy as jnp
    from hvd.problems.base import MOP, CMOP
    tr = dict(id="constructor-%d" % i, key="constructor", ev=[])
    M = type("UserMOP", (MOP,), dict(_objective=lambda self, x: jnp.array([jnp.sum(x), jnp.sum(x ** 2)])))
    C = type("UserCMOP", (CMOP,), dict(_objective=lambda self, x: jnp.array([jnp.sum(x), jnp.sum(x ** 2)])))
    for k, c in enumerate(rows):
        cls = C if (i + k) % 3 == 0 else M
        e = dict(op="ctor", c={q: c[q] for q in ("nvar", "nobj", "lo", "hi")}, accepted=False)
        try:
            p = cls(value(c["nvar"]), value(c["nobj"]), bound(c["lo"], i + k), bound(c["hi"], i + k // 2))
            e.update(accepted=True, n_var=enc(p.n_var), n_obj=enc(p.n_obj), xl=encv(p.xl), xu=encv(p.xu))
        except Exception as ex:
            e["error"] = type(ex).__name__
        tr["ev"].append(e)
    return tr


BADCOUNTS = [dict(kind="int", v=0), dict(kind="int", v=-4), dict(kind="bool", v=1), dict(kind="float", v=6), dict(kind="npfloat", v=6), dict(kind="str", v=6)]


def builtin_counts(name):
    """Sizes of the built-in problems: invalid ones are refused, fixed ones kept with a warning."""
    cls = pl.classes().get(name)
    tr = dict(id=name + "-sizes", key=name, ev=[])
    if cls is None:
        tr["ev"].append(dict(op="raised", what="missing problem " + name)); return tr
    par = inspect.signature(cls.__init__).parameters
    fixv = pl.family(name) in ("DENT", "DisConnected", "CONV")
    fixo = fixv or pl.family(name) in ("CF", "UF", "ZDT")

    def make(**kw):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            p = cls(**kw)
        return p, any(issubclass(q.category, UserWarning) and ("n_obj" in str(q.message) or "n_var" in str(q.message)) for q in w)

    def record():
        for what, fixed in (("n_var", fixv), ("n_obj", fixo)):
            if what not in par:
                continue
            for c in BADCOUNTS if not fixed else []:
                e = dict(op="badcount", c=c, accepted=False, what=what)
                try:
                    make(**{what: value(c)}); e["accepted"] = True
                except Exception:
                    pass
                tr["ev"].append(e)
            for v in ([None, 7, 5] if fixed else []):
                p, warned = make(**({what: v} if v is not None else {}))
                tr["ev"].append(dict(op="fixed", name=name, n_obj=p.n_obj, n_var=p.n_var, warned=bool(warned), overridden=v is not None, what=what))
    ok, msg = guarded(record, 100)
    if not ok:
        tr["ev"].append(dict(op="raised", what=msg))
    return tr


def corrupted(trs):
    bad, seen = [], {}
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if seen.get(e["op"], 0) >= 4:
                continue
            b = copy.deepcopy(t); d = b["ev"][j]
            if e["op"] == "front":
                if not e["F"]: continue
                d["F"].append([[v[0] + 2000, v[1]] for v in d["F"][0]])
            elif e["op"] == "samples": d["S"].append([[v[0] - 2000, v[1]] for v in d["F"][0]])
            elif e["op"] == "reach": d["F"].append([[v[0] - 2000000, v[1]] for v in d["F"][0]])
            elif e["op"] == "complete": d["S"].append([[v[0] - 2000000, v[1]] for v in d["F"][0]])
            elif e["op"] == "set": d["X"][0][0] = 3
            elif e["op"] == "ctor": d["accepted"] = not e["accepted"]
            elif e["op"] == "badcount": d["accepted"] = True
            elif e["op"] == "fixed": d["warned"] = not e["warned"]
            else: continue
            seen[e["op"]] = seen.get(e["op"], 0) + 1
            b["ev"] = [d]
            bad.append(b)
    return bad


def run(ctx):
    _, tagged = ctx.tlc("FrontModel", MODEL % ctx.pick((2, 2, 3), (3, 2, 2)))
    conf = [b for t, b in tagged if t == "CONF"]
    ctx.notes["constructor_argument_combinations"] = len(conf)
    rng = ctx.rng()
    jobs = []
    for name in pl.NAMES:
        cs = pl.configs(name)
        if ctx.quick:
            cs = cs[:2] + [cs[int(rng.integers(2, len(cs)))]] if pl.family(name) in ("WFG", "DTLZ", "IDTLZ") else [cs[int(rng.integers(0, min(2, len(cs))))]]
        jobs += [(name, c, ctx.pick(2500, 6000), ctx.seed * 1000 + k, len(jobs) + q) for k in range(ctx.pick(1, 2)) for q, c in enumerate(cs)]
    from p_c16 import pmap_each
    trs = [t for ts in pmap_each(case, jobs) for t in ts]
    step = 60
    trs += pmap(ctor_case, [(i, conf[i * step:(i + 1) * step]) for i in range((len(conf) + step - 1) // step)])
    trs += pmap(builtin_counts, pl.NAMES)
    ctx.notes["problems"] = len(pl.NAMES)
    ctx.notes["problem_configurations"] = len(jobs)
    ctx.samples += [dict(problem=t["id"], events=[e["op"] for e in t["ev"]]) for t in trs[:6]]
    fails = ctx.validate("TraceFront", trs)
    good = [t for i, t in enumerate(trs, 1) if i not in fails]
    ctx.must_reject("TraceFront", corrupted(good))
    for t in trs:
        for e in t["ev"]:
            ctx.clauses[e["op"]] += 1
    ctx.assumptions += ["fronts are compared with sampled feasible points (near-optimal constructions, random points, corners, reported sets); pairs are preselected by how close they come to domination",
                        "fronts of DTLZ5-7 are downloaded by the code and are not checked here; their Pareto sets are"]
