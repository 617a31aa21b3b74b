"""C05: GD/IGD values.  Spec: DeltaPModel.tla (vectors), TraceDeltaP.tla (recorded lives)."""
import copy
import numpy as np
from core import Buffers, enc, guarded

CFG = """CONSTANTS
 Hi = %d
 Dim = %d
 MaxY = %d
 MaxR = %d
SPECIFICATION Spec
INVARIANTS Duality ZeroIffCovered ShiftInvariant PowerMean Emit
PROPERTIES MoreRefs MoreY
CHECK_DEADLOCK FALSE
"""


def vectors(ctx):
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
    for conf in ctx.pick([(2, 2, 2, 2), (1, 3, 2, 2)], [(2, 2, 3, 2), (2, 2, 2, 3), (1, 3, 3, 3)]):
        _, tagged = ctx.tlc("DeltaPModel", CFG % conf)
        vecs = [v for tag, v in tagged if tag == "VEC"]
        if ctx.quick and len(vecs) > 6000:
            vecs = vecs[::len(vecs) // 6000]
        for v in vecs:
            ctx.vectors += 1
            Y, R = np.array(v["y"], float), np.array(v["r"], float)

            def run():
                bad = []
                for p2 in (1, 2, 4, 6, 8):
                    p = p2 / 2
                    for name, cls, n in (("gd", GenerationalDistance, len(Y)), ("igd", InvertedGenerationalDistance, len(R))):
                        val = cls(R, p=p).compute(Y=Y)
                        if not abs(val ** p * n * 1000 - v[name][str(p2)]) <= v["e" + name][str(p2)]:
                            bad.append((name, p, float(val)))
                return bad
            ok, bad = guarded(run)
            if not ok or bad:
                ctx.violation("vector", dict(kind="vector", spec="DeltaPModel", Y=v["y"], ref=v["r"], wrong=bad, expected=v))
                if len(ctx.violations) > 10:
                    return
        ctx.samples.append(dict(vector=v))


def traces(ctx):
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
    from hvd.reference_set import ReferenceSet
    rng = ctx.rng(5)
    out = []
    S = 1000
    for t in range(ctx.pick(160, 1500)):
        m = int(rng.choice([2, 2, 3, 3, 4, 5]))
        hi = {2: 8, 3: 7, 4: 6, 5: 5}[m]
        unit = 2.0 ** rng.integers(-4, 4)

        def newref(k, nc):
            out = [rng.integers(0, hi + 1, (int(rng.integers(1, k + 1)), m)) for _ in range(nc)]
            if dup:  # reference points that occur several times count several times
                out = [r[rng.integers(0, len(r), len(r))] for r in out]
            return out
        nc = int(rng.choice([1, 1, 2, 3]))
        matching = nc == 1 and rng.random() < 0.35
        dup = not matching and rng.random() < 0.4
        refs = newref(7, nc)
        eta = rng.integers(-2, 2, (nc, m))
        as_array = nc == 1 and not matching and rng.random() < 0.5  # the reference set is given as a plain array

        def build(refs):
            a = [r * unit for r in refs]
            if as_array:
                return a[0]
            if nc == 1 and rng.random() < .5:
                return ReferenceSet(a[0], eta={0: eta[0] * unit})
            return ReferenceSet({i: q for i, q in enumerate(a)}, eta={i: eta[i] * unit for i in range(nc)})
        A = np.eye(m)[rng.permutation(m)]
        f = lambda x: A @ x
        tr = dict(id="dp-%d" % t, key="%s-m%d-c%d" % ("match" if matching else "plain", m, nc), ev=[],
                  ref=np.concatenate(refs).tolist(), comp=[i + 1 for i, r in enumerate(refs) for _ in r], eta=eta.tolist())
        p2s = [1, 2, 4, 6, 8] if rng.random() < .5 else [int(rng.choice([1, 2, 4, 6, 8])), 4]

        def setup():
            rs = build(refs)
            gds = {p2: GenerationalDistance(rs, f, p=p2 / 2) for p2 in p2s}
            igds = {p2: InvertedGenerationalDistance(rs, f, p=p2 / 2) for p2 in p2s}
            mt = InvertedGenerationalDistance(rs, f, matching=True)
            return rs, gds, igds, mt
        ok, st = guarded(setup)
        if not ok:
            tr["ev"].append(dict(op="raised", what=st))
            out.append(tr)
            continue
        rs, gds, igds, mt = st
        cur = len(tr["ref"])
        matched = False
        buf = Buffers(rng.random() < .5)
        nsame = int(rng.integers(1, 7))
        for e in range(int(rng.integers(3, 7))):
            op = rng.choice(["eval", "eval", "shift", "replace", "match"])
            if op == "match" and (not matching or cur > 6):
                op = "eval"
            if op == "shift" and (matched or as_array):
                op = "eval"
            if op == "shift":
                c = int(rng.choice([1, 1, 2, -1]))
                ok, r = guarded(lambda: rs.shift(float(c)))
                tr["ev"].append(dict(op="shift", c=c) if ok else dict(op="raised", what=r))
            elif op == "replace":
                refs = newref(6, nc)
                rs = build(refs)
                rs = ReferenceSet(rs) if as_array else rs
                for i in list(gds.values()) + list(igds.values()) + [mt]:
                    i.ref = rs
                matched = False
                cur = sum(map(len, refs))
                tr["ev"].append(dict(op="replace", ref=np.concatenate(refs).tolist(),
                                     comp=[i + 1 for i, r in enumerate(refs) for _ in r]))
                ok = True
            elif op == "match":
                n = int(rng.integers(1, cur + 1)) if not matched else cur
                P = rng.integers(0, hi + 1, (n, m))
                Y, Y0 = buf('y', P * unit), P * unit

                def run():
                    v = [mt.compute(Y=Y)]
                    T = np.array(mt.ref.reference_set)
                    v.append(mt.compute(X=Y @ A))
                    return v, T, np.array(mt.ref.reference_set)
                ok, r = guarded(run)
                if ok:
                    T = [[int(q) for q in np.round(np.clip(y / unit, -1e6, 1e6))] for y in r[1]]
                    T2 = [[int(q) for q in np.round(np.clip(y / unit, -1e6, 1e6))] for y in r[2]]
                    vals = [enc(q / unit ** 2 * n, S) for q in r[0]]
                    # the second answer belongs to the targets reported after it (they may be permuted only by ties)
                    tr["ev"].append(dict(op="match", Y=P.tolist(), T=T, vals=[vals[0]], unmod=bool(np.array_equal(Y, Y0))))
                    tr["ev"].append(dict(op="match", Y=P.tolist(), T=T2, vals=[vals[1]], unmod=True))
                    matched, cur = True, n
                else:
                    tr["ev"].append(dict(op="raised", what=r))
            else:
                n = nsame if buf.on and rng.random() < .7 else int(rng.integers(1, 7))
                P = rng.integers(0, hi + 1, (n, m))
                Y, Y0 = buf('y', P * unit), P * unit
                X = buf('x', Y @ A)  # func(x) = A x = y

                def run():
                    o = []
                    for kind, ind, k in (("gd", gds, n), ("igd", igds, cur)):
                        for p2, i in ind.items():
                            for kw in (dict(Y=Y), dict(X=X), dict(X=X, Y=Y)):
                                o.append(dict(kind=kind, p2=p2, v=enc((i.compute(**kw) / unit) ** (p2 / 2) * k, S)))
                    return o
                ok, r = guarded(run)
                tr["ev"].append(dict(op="eval", Y=P.tolist(), vals=r, unmod=bool(np.array_equal(Y, Y0))) if ok
                                else dict(op="raised", what=r))
            if not ok:
                break
        out.append(tr)
    return out


def run(ctx):
    vectors(ctx)
    trs = traces(ctx)
    ctx.samples.append(trs[0])
    ctx.validate("TraceDeltaP", trs)
    bad = []
    for tr in trs:
        c = copy.deepcopy(tr)
        for e in c["ev"]:
            if e["op"] == "eval":
                e["vals"][-1]["v"] += 2000
                bad.append(c)
                break
            if e["op"] == "match":
                e["vals"][0] += 2000
                bad.append(c)
                break
        if len(bad) > 15:
            break
    ctx.must_reject("TraceDeltaP", bad)
