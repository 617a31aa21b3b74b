"""C14: backtracking line search.  Spec: LineSearchModel.tla (all merit patterns out), TraceLineSearch.tla."""
import copy
import numpy as np
from core import enc, guarded, NANV

PHI0 = 102_400_000.0
CFG = """CONSTANTS
 MaxSteps = {%s}
 Kinds = {%s}
 Converged = {%s}
SPECIFICATION Spec
INVARIANTS ResultPositive FirstAcceptable StepsHalve Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
"""


def call(R, phi, mx, positional):
    from hvd.line_search import backtracking_line_search as ls
    seen = []

    def f(a):
        a = float(np.asarray(a).ravel()[0])
        seen.append(a)
        if len(seen) > 60:
            raise RuntimeError("too many merit evaluations")
        return phi(a)
    if mx == 1.0 and positional == 2:
        ok, r = guarded(lambda: ls(R, f))
    elif positional == 1:
        ok, r = guarded(lambda: ls(R, f, mx))
    else:
        ok, r = guarded(lambda: ls(R, f, max_step_size=mx))
    return ok, (float(np.asarray(r).ravel()[0]) if ok else r), seen


def residual(rng, norm, shape):
    """array of exactly this norm (up to one ulp): one row of 3-4-5 pieces"""
    R = np.zeros(shape)
    if R.size == 1:
        R.flat[0] = norm
    else:
        R.flat[0], R.flat[R.size - 1] = .6 * norm, -.8 * norm
    return R


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    steps = [1024, 832, 64] if q else [1024, 960, 832, 512, 192, 64]
    kinds = ["deep", "just", "short", "nan", "muchworse"] if q else ["deep", "just", "short", "equal", "worse", "nan"]
    vecs = []
    for conv, ks in (("FALSE", kinds), ("TRUE", ["deep", "short", "worse", "nan", "muchworse"])):
        _, tagged = ctx.tlc("LineSearchModel", CFG % (", ".join(map(str, steps)), ", ".join('"%s"' % k for k in ks), conv),
                            workers=4)
        vecs += [b for t, b in tagged if t == "VEC"]
    shapes = [(1, 1), (2, 3), (4,), (5, 2)]
    for i, v in enumerate(vecs):
        phi0 = PHI0 if not v["conv"] else [0.0, 1e-16, 2.220446049250313e-16][i % 3]
        table = {}
        s = v["mx"] / 1024
        for g in v["gains"]:
            if v["conv"]:
                table[s] = float("nan") if g == NANV else abs(phi0) * 2 + (1.0 if g < 0 else 0)
            else:
                table[s] = float("nan") if g == NANV else (PHI0 - g / 2 if g < 2e8 else 1.0)
            if g == -1_000_000_000:
                table[s] = float("inf")
            s /= 2
        R = residual(rng, phi0, shapes[i % 4])
        ok, r, seen = call(R, lambda a: table.get(a, float("nan")), v["mx"] / 1024, i % 3)
        exp = [u / 1024 for u in v["steps"]]
        if not ok or seen != exp or r != v["res"] / 1024:
            ctx.violation("vector-%s" % ("converged" if v["conv"] else "search"),
                          dict(kind="vector", spec=v, evaluated=seen, returned=r))
    ctx.vectors += len(vecs)
    ctx.samples += vecs[:3]
    # arbitrary merit functions, recorded
    traces = []
    for i in range(ctx.pick(600, 6000)):
        norm = float(10 ** rng.uniform(-4, 5))
        R = residual(rng, norm, shapes[int(rng.integers(4))]) if i % 2 else rng.standard_normal(shapes[i % 4]) * norm
        phi0 = float(np.linalg.norm(R))
        conv = i % 17 == 0
        if conv:
            R = R * 0.0
            phi0 = 0.0
        mx = float([1, 1, rng.uniform(1e-2, 1), 2.0 ** -rng.integers(0, 5)][i % 4])
        c = rng.uniform(0.2, 2, 3)
        k = float(rng.uniform(0.5, 60))
        fam = i % 5
        base = phi0 if phi0 else 1.0

        def phi(a, c=c, k=k, fam=fam, base=base):
            if fam == 0:
                return base * abs(1 - k * a)
            if fam == 1:
                return base * (1 + c[0] * np.sin(k * a) * a)
            if fam == 2:
                return base * (1 - 1.9e-5 * a * c[1])
            if fam == 3:
                return base * (c[2] if a < 1 / k else 5.0)
            return float("nan") if a > 1 / k else base * .5
        R0 = R.copy()
        ok, r, seen = call(R, phi, mx, i % 3)
        if not ok:
            ev = [dict(op="raised", what=r)]
        else:
            ev = [dict(op="search", mx=enc(mx, 2 ** 20), res=enc(r, 2 ** 20), conv=int(conv), same=int(np.array_equal(R, R0)),
                       ev=[dict(s=enc(a, 2 ** 20), phi=enc(phi(a) / base, 1e8)) for a in seen])]
        traces.append(dict(id="search-%d-fam%d" % (i, fam), key="search-fam%d" % fam, ev=ev))
    ctx.validate("TraceLineSearch", traces)
    bad = []
    for t in traces[:60]:
        e = t["ev"][0]
        if e["op"] != "search" or not e["ev"]:
            continue
        b = copy.deepcopy(t); b["ev"][0]["res"] += 5000; bad.append(b)
        b = copy.deepcopy(t); b["ev"][0]["ev"][0]["s"] //= 3; bad.append(b)
        b = copy.deepcopy(t); b["ev"][0]["ev"] = b["ev"][0]["ev"] * 7; bad.append(b)
    if not ctx.violations:
        ctx.must_reject("TraceLineSearch", bad)
    ctx.samples.append(traces[1])
    ctx.assumptions += ["merit values within 3e-8 of the acceptance threshold are left open in recorded searches; the exported "
                        "patterns sit half a unit in the last specified place on either side of it"]
