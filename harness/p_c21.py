"""C21: reference set generation.  Spec: RSG.tla, RSGModel.tla, TraceRSG.tla."""
import copy
import numpy as np
from core import enc, encv, guarded, pmap

MODEL = """CONSTANTS
 Side = %d
 MaxPts = %d
 E2s = {%s}
 MPs = {%s}
 Nfs = {%s}
 Emitting = TRUE
SPECIFICATION Spec
INVARIANTS Partition Separated NoNoiseForOne PairsHaveNoBorder SharesNearRequest FillingOnPolyline Emit
CHECK_DEADLOCK FALSE
"""
K = 1000


def radius(e2, scale):
    return float(np.sqrt(e2 + 0.5) / scale)


def detect(pts, e2, mp, scale, eps=None):
    from hvd.rsg import ComponentDetection
    A = np.array(pts, float) / scale
    B = A.copy()
    ok, out = guarded(lambda: ComponentDetection(A, radius(e2, scale) if eps is None else eps, mp))
    if not ok:
        return dict(op="raised", what=out, pts=encv(pts)), None
    comps = [encv(np.asarray(c) * scale) for c in out[0]]
    return dict(op="detect", pts=encv(pts), e2=e2, mp=mp, comps=comps, num=enc(out[1]), same=bool((A == B).all())), comps


def fill(X, n, scale):
    from hvd.rsg import interpolate_tst
    A = np.array(X, float) / scale
    B = A.copy()
    ok, I = guarded(lambda: interpolate_tst(A, n))
    if not ok:
        return dict(op="raised", what=I, X=encv(X), n=n)
    return dict(op="fill", X=encv(X), n=n, I=encv(np.asarray(I) * scale, K), same=bool((A == B).all()))


def rsg(pts, e2, mp, nf, scale, comps, defaults=False):
    from hvd.rsg import RSG
    A = np.array(pts, float) / scale
    B = A.copy()
    ok, F = guarded(lambda: RSG(A, nf) if defaults else RSG(Py=A, Nf=nf, eps=radius(e2, scale), minpts=mp))
    if not ok:
        return dict(op="raised", what=F, pts=encv(pts), e2=e2, mp=mp, nf=nf)
    return dict(op="rsg", pts=encv(pts), e2=e2, mp=mp, nf=nf, comps=comps, Fy=encv(np.asarray(F) * scale, K) if len(F) else [], same=bool((A == B).all()))


def set_case(a):
    i, sets, seed = a
    rng = np.random.default_rng([seed, 21, i])
    ev = []
    for s in sets:
        pts = [s["pts"][j] for j in rng.permutation(len(s["pts"]))]
        sc = float(rng.choice([1, 50, 3]))
        e, comps = detect(pts, s["e2"], s["mp"], sc)
        ev.append(e)
        ev.append(fill(pts, s["nf"], sc))
        if comps is not None:
            ev.append(rsg(pts, s["e2"], s["mp"], s["nf"], sc, comps))
    return dict(id="sets-%d" % i, ev=ev)


def front(rng, n, side):
    """Points with distinct first coordinates along a trade-off curve, with gaps, outliers and duplicates."""
    x = np.sort(rng.choice(side + 1, size=min(n, side + 1), replace=False))
    kind = rng.integers(3)
    y = [(side - x), ((side - x) ** 2) // side, rng.integers(0, side + 1, len(x))][kind]
    pts = [[int(a), int(b)] for a, b in zip(x, y)]
    for _ in range(int(rng.integers(0, 3))):
        pts.append(list(pts[int(rng.integers(len(pts)))]))
    return [pts[j] for j in rng.permutation(len(pts))]


def random_case(a):
    seed, i = a
    rng = np.random.default_rng([seed, 2100, i])
    side = int(rng.choice([6, 12, 30]))
    pts = front(rng, int(rng.integers(1, 12)), side)
    defaults = bool(rng.random() < 0.3)
    mp = 2 if defaults else int(rng.integers(1, 5))
    e2 = 26 if defaults else int(rng.integers(0, max(2, side * side // 6)))
    sc = 64.0 if defaults else float(rng.choice([1, 10, 30]))
    nf = int(rng.integers(1, 25))
    e, comps = detect(pts, e2, mp, sc, 0.08 if defaults else None)
    ev = [e, fill(pts, int(rng.integers(1, 12)), sc)]
    if comps is not None:
        ev.append(rsg(pts, e2, mp, nf, sc, comps, defaults))
    return dict(id="random-%d" % i, ev=ev)


def corrupted(trs):
    bad = []
    for t in trs:
        for j, e in enumerate(t["ev"]):
            if e["op"] == "detect" and e["comps"]:
                b = copy.deepcopy(t); b["ev"][j]["comps"][0] = b["ev"][j]["comps"][0][1:]; bad.append(b)
                if len(e["comps"]) > 1:
                    b = copy.deepcopy(t); b["ev"][j]["comps"][0] += b["ev"][j]["comps"].pop(); b["ev"][j]["num"] -= 1; bad.append(b)
            elif e["op"] == "fill" and len(e["I"]) > 1:
                b = copy.deepcopy(t); b["ev"][j]["I"][-1][0] += 40; bad.append(b)
                b = copy.deepcopy(t); b["ev"][j]["I"].pop(0); bad.append(b)
            elif e["op"] == "rsg" and e["Fy"]:
                b = copy.deepcopy(t); b["ev"][j]["Fy"][0][1] += 40; bad.append(b)
        if len(bad) > 150:
            break
    return bad


def run(ctx):
    _, tagged = ctx.tlc("RSGModel", MODEL % ctx.pick((3, 3, "1, 2, 4", "1, 2, 3", "1, 3, 5"), (3, 4, "1, 2, 5", "1, 2, 3", "1, 2, 5")))
    sets = [b for t, b in tagged if t == "SET"]
    ctx.notes["emitted"] = len(sets)
    rng = ctx.rng()
    n = ctx.pick(3000, 30000)
    if len(sets) > n:
        sets = [sets[i] for i in sorted(rng.choice(len(sets), n, replace=False))]
    trs = pmap(set_case, [(i, sets[i * 40:(i + 1) * 40], ctx.seed) for i in range((len(sets) + 39) // 40)], procs=8)
    trs += pmap(random_case, [(ctx.seed, i) for i in range(ctx.pick(600, 8000))], procs=8)
    ctx.vectors += sum(len(t["ev"]) for t in trs)
    for a in range(0, len(trs), 3000):
        ctx.validate("TraceRSG", trs[a:a + 3000])
    if not ctx.violations:
        ctx.must_reject("TraceRSG", corrupted(trs[:2] + trs[-150:]))
    ctx.samples += [trs[0]["ev"][:3], trs[-1]["ev"]]
