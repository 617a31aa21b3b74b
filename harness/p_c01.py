"""C01: hypervolume values.  Spec: HVArchive.tla (vectors out), TraceHV.tla (traces in)."""
import copy
import numpy as np
from core import Buffers, enc, guarded

CFG = """CONSTANTS
 Lo = 0
 Hi = %d
 Dim = %d
 MaxLen = %d
 Flat = %d
 EmitVec = TRUE
 Refs <- %s
SPECIFICATION Spec
INVARIANTS MeasureIsCellCount OutsideIsWorthless OnlyFrontCounts Emit
PROPERTIES Monotone DominatedAddsNothing
CHECK_DEADLOCK FALSE
"""


def vectors(ctx):
    from hvd.hypervolume import hypervolume
    confs = [(2, 3, 3, 0, "Refs3"), (3, 2, 3, 0, "Refs2"), (1, 4, 3, 0, "Refs4"), (2, 4, 3, 3, "Refs4Deep")]
    if not ctx.quick:
        confs = [(2, 3, 3, 0, "Refs3Big"), (1, 3, 5, 0, "Refs3"), (3, 2, 4, 0, "Refs2Big"), (1, 4, 4, 0, "Refs4"),
                 (2, 4, 3, 2, "Refs4Deep"), (1, 5, 3, 0, "Refs5")]
    for hi, dim, ml, flat, refs in confs:
        _, tagged = ctx.tlc("HVArchive", CFG % (hi, dim, ml, flat, refs))
        for tag, v in tagged:
            if tag != "VEC":
                continue
            ok, got = guarded(lambda: float(hypervolume(np.array(v["p"], float).reshape(-1, dim), np.array(v["r"], float))))
            ctx.vectors += 1
            if not ok or abs(got - v["v"]) > 1e-9:
                ctx.violation("value", dict(kind="vector", spec="HVArchive", points=v["p"], ref=v["r"],
                                            expected=v["v"], got=got))
                if len(ctx.violations) > 20:
                    return
        ctx.samples.append(dict(vector=v))


def lattice(rng, n, d, m, style):
    if style == "front":  # mutually non-dominated-ish: constant sum with noise
        P = rng.integers(0, m, (n, d))
        P[:, -1] = np.clip(m - P[:, :-1].sum(axis=1) // max(1, d - 1) + rng.integers(0, 2, n), 0, m + 1)
    elif style == "ties":
        P = rng.integers(0, 3, (n, d)) * max(1, m // 3)
    else:
        P = rng.integers(0, m + 2, (n, d))
    if n > 2 and rng.random() < 0.3:
        P[rng.integers(n)] = P[rng.integers(n)]
    return P


def traces(ctx):
    from hvd.hypervolume import HyperVolume, hypervolume
    from hvd.hypervolume_derivatives import HypervolumeDerivatives, hypervolume_improvement
    rng = ctx.rng(1)
    out = []
    for t in range(ctx.pick(150, 900)):
        d = int(rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6]))
        m = {1: 50, 2: 60, 3: 25, 4: 12, 5: 7, 6: 5}[d]
        nmax = {1: 8, 2: 16, 3: 12, 4: 9, 5: 7, 6: 6}[d]
        ref = rng.integers(max(1, m // 2), m + 1, d)
        tied = d >= 3 and rng.random() < 0.55  # many coinciding coordinates, also with the reference point
        if tied:
            ref = rng.integers(2, {3: 8, 4: 6, 5: 5, 6: 4}[d], d)
        # lattice unit and offset per axis: powers of two, so that scaling is exact
        unit = 2.0 ** rng.integers(-6, 4, d)
        if rng.random() < 0.25:  # very fine, very coarse
            unit = 2.0 ** rng.integers(-34, 20, d)
        off = rng.choice([0, 0, 1, -3, 100]) * unit * rng.integers(0, 3)
        if rng.random() < 0.15 and unit.max() < 1:  # close together, away from the origin
            off = rng.choice([1.0, -2.0], d)
        if rng.random() < 0.25:  # the reference point becomes exactly the origin
            off = -ref * unit
        toreal = lambda P: np.asarray(P, float).reshape(-1, d) * unit + off
        R = ref * unit + off
        vol = float(np.prod(unit))
        S = 1000 if float(np.prod(ref.astype(float))) * 1000 < 9e8 else 1
        if float(np.prod(ref.astype(float))) * S > 9e8:
            continue
        tr = dict(id="hv-%d" % t, key="value-d%d" % d, ref=ref.tolist(), ev=[])
        HV = HyperVolume(R.copy())
        hd = HypervolumeDerivatives(d, d, R.copy()) if d > 1 else None
        A = np.eye(d)[rng.permutation(d)]
        hx = HypervolumeDerivatives(d, d, R.copy(), func=lambda x: A @ x, jac=lambda x: A)
        # the same problem stated as maximization
        hm = HypervolumeDerivatives(d, d, -R, func=lambda x: -(A @ x), jac=lambda x: -A, minimization=False)
        buf, nsame = Buffers(rng.random() < 0.5), int(rng.integers(1, nmax + 1))
        for e in range(8 if tied else int(rng.integers(2, 5))):
            n = int(rng.choice([0, 1, 2, nmax, rng.integers(1, nmax + 1), rng.integers(1, nmax + 1)]))
            if buf.on and rng.random() < 0.7:
                n = nsame
            P = (rng.integers(0, rng.integers(2, max(ref) + 2), (n, d)) if tied
                 else lattice(rng, n, d, m, rng.choice(["front", "ties", "uniform"])))
            Y = toreal(P)
            if rng.random() < 0.3:
                x = lattice(rng, 1, d, m, "uniform")[0]
                X1, Y1 = toreal(x)[0], Y.copy()
                ok, v = guarded(lambda: [hypervolume_improvement(X1, Y1, R)])
                if not ok:
                    tr["ev"].append(dict(op="raised", what=v, pts=P.tolist()))
                    break
                tr["ev"].append(dict(op="improve", x=x.tolist(), pts=P.tolist(), S=S,
                                     vals=[enc(q / vol, S) for q in v],
                                     unmod=bool(np.array_equal(Y1, Y) and np.array_equal(X1, toreal(x)[0]))))
                continue
            Y1, R1 = buf('y', Y), buf('r', R)
            Yl = [list(map(float, y)) for y in Y]

            def run():
                v = [hypervolume(Y1, R1), HV.compute(Y1), hypervolume(Yl, list(R1)), HV.compute([tuple(y) for y in Y1])]
                if hd is not None and n > 0:
                    v.append(hd.compute(Y=Y1))
                    v.append(hd.compute(X=Y1))
                if n > 0:
                    X = Y1 @ A  # A @ x = y  <=>  x = A^T y
                    v.append(hx.compute(X=X))
                    v.append(hm.compute(X=X))
                    v.append(hm.compute(Y=-Y1))
                return v
            ok, v = guarded(run)
            if not ok:
                tr["ev"].append(dict(op="raised", what=v, pts=P.tolist()))
                break
            unmod = np.array_equal(Y1, Y) and np.array_equal(R1, R) and Yl == [list(map(float, y)) for y in Y]
            tr["ev"].append(dict(op="value", pts=P.tolist(), S=S, vals=[enc(q / vol, S) for q in v], unmod=bool(unmod)))
        if tr["ev"]:
            out.append(tr)
    for t in range(ctx.pick(30, 250)):  # long series of small sets with many ties in 4-6 objectives
        d = int(rng.choice([4, 5, 6, 6]))
        ref = rng.integers(1, 4, d) + (rng.random(d) < 0.5)
        tr = dict(id="ties-%d" % t, key="value-d%d" % d, ref=ref.tolist(), ev=[])
        HV = HyperVolume(ref.astype(float))
        for e in range(30):
            P = np.minimum(rng.integers(0, rng.integers(2, max(ref) + 2), (int(rng.integers(2, 9)), d)), ref)
            ok, v = guarded(lambda: [HV.compute(P.astype(float))])
            if not ok:
                tr["ev"].append(dict(op="raised", what=v, pts=P.tolist()))
                break
            tr["ev"].append(dict(op="value", pts=P.tolist(), S=1000, vals=[enc(q, 1000) for q in v], unmod=True))
        out.append(tr)
    return out


def run(ctx):
    vectors(ctx)
    trs = traces(ctx)
    ctx.samples.append(trs[0])
    ctx.validate("TraceHV", trs)
    bad = []
    for tr in trs[:12]:
        c = copy.deepcopy(tr)
        for e in c["ev"]:
            if e.get("vals"):
                e["vals"][-1] += e["S"]
                bad.append(c)
                break
    ctx.must_reject("TraceHV", bad)
    ctx.notes["dimensions"] = "1-6 objectives, up to 16 points per set"
    ctx.assumptions += ["coordinates are lattice points scaled/shifted by powers of two, so float results are exact"]
