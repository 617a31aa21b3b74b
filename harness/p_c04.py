"""C04: dominance layers.  Spec: NDS.tla (vectors out), TraceNDS.tla (traces in)."""
import copy
import numpy as np
from core import Buffers, guarded

CFG = """CONSTANTS
 Hi = %d
 Dim = %d
 MaxLen = %d
SPECIFICATION Spec
INVARIANTS RankIsChainLength RankIsPeeling NoEmptyLayer LayersAreAntichains DuplicatesTogether FilterIsUniqueFront Emit
PROPERTIES OnlyPushedBack
CHECK_DEADLOCK FALSE
"""


def ranks_from_index_layers(fronts, n):
    r = [-1] * n
    for k, idx in fronts.items():
        for i in np.atleast_1d(idx):
            r[int(i)] = int(k) if r[int(i)] == -1 else -2
    return r


def ranks_from_decisions(fronts, n, ident):
    r = [-1] * n
    for k, decs in fronts.items():
        for d in decs:
            i = ident(d)
            r[i] = int(k) if r[i] == -1 else -2
    return r


def all_sorts(Y):
    """Every way of asking for the layers of Y."""
    from hvd.utils import non_domin_sort
    n = len(Y)
    out = [ranks_from_index_layers(non_domin_sort(Y, only_front_indices=True), n)]
    decs = [("point", i) for i in range(n)]
    table = {i: Y[i] for i in range(n)}
    f = non_domin_sort(decs, get_objectives=lambda d: table[d[1]])
    out.append(ranks_from_decisions(f, n, lambda d: d[1]))
    f = non_domin_sort(decs, get_objectives=lambda d: list(map(float, table[d[1]])), only_front_indices=True)
    out.append(ranks_from_index_layers(f, n))
    f = non_domin_sort([tuple(map(float, y)) for y in Y])
    # decisions are the vectors themselves: count each vector's multiplicity per layer
    r = [-1] * n
    pool = {}
    for i, y in enumerate(Y):
        pool.setdefault(tuple(map(float, y)), []).append(i)
    for k, ds in f.items():
        for d in ds:
            if pool.get(tuple(d)):
                r[pool[tuple(d)].pop()] = int(k)
    out.append(r)
    return out


def all_filters(Y):
    from hvd.utils import get_non_dominated
    idx = get_non_dominated(Y, return_index=True)
    kept = get_non_dominated(Y)
    return [int(i) for i in idx], np.asarray(kept)


def run(ctx):
    from hvd.utils import is_dominate
    confs = [(2, 2, 4), (1, 3, 4), (2, 3, 3), (1, 4, 3)]
    if not ctx.quick:
        confs = [(2, 2, 5), (3, 2, 4), (1, 3, 5), (2, 3, 3), (1, 4, 4), (1, 5, 3)]
    for hi, dim, ml in confs:
        _, tagged = ctx.tlc("NDS", CFG % (hi, dim, ml))
        for tag, v in tagged:
            if tag != "VEC":
                continue
            ctx.vectors += 1
            Y = np.array(v["p"], float)
            ok, got = guarded(lambda: (all_sorts(Y), all_filters(Y)))
            good = ok and all(r == v["rank"] for r in got[0])
            if good:
                idx, kept = got[1]
                good = [i + 1 for i in idx] == v["front"] and kept.shape == (len(idx), dim) and np.array_equal(kept, Y[[i - 1 for i in v["front"]]])
            if not good:
                ctx.violation("vector", dict(kind="vector", spec="NDS", points=v["p"], expected_layers=v["rank"],
                                             expected_front=v["front"], got=str(got)[:1000]))
                if len(ctx.violations) > 10:
                    return
        ctx.samples.append(dict(vector=v))
    trs = traces(ctx)
    ctx.samples.append(trs[0])
    ctx.validate("TraceNDS", trs)
    bad = []
    for tr in trs[:20]:
        c = copy.deepcopy(tr)
        e = c["ev"][0]
        if e["op"] == "sort":
            e["ranks"][-1][0] += 1
            bad.append(c)
    ctx.must_reject("TraceNDS", bad)
    ctx.notes["dimensions"] = "exhaustive small lists in 2-4 objectives; recorded lists of up to 40 points in 2-7 objectives"


def traces(ctx):
    from hvd.utils import is_dominate
    rng = ctx.rng(4)
    out = []
    buf = Buffers()
    for t in range(ctx.pick(260, 2500)):
        d = int(rng.choice([2, 3, 3, 4, 4, 5, 6, 7]))
        n = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 30, 40]))
        style = rng.choice(["ties", "uniform", "chain", "flat", "anti"])
        hi = {"ties": 2, "uniform": 30, "chain": 6, "flat": 3, "anti": 12}[style]
        P = rng.integers(0, hi + 1, (n, d))
        if style == "chain":
            P = P + rng.integers(0, 5, (n, 1))
        if style == "flat":
            P[:, rng.integers(d)] = 1
        if style == "anti":
            P[:, 0] = hi * 2 - P[:, 1:].sum(axis=1) // (d - 1) + rng.integers(0, 3, n)
        if n > 3 and rng.random() < 0.4:
            P[rng.integers(n, size=n // 3)] = P[rng.integers(n, size=n // 3)]
        off = rng.integers(-5, 5, d)
        unit = 2.0 ** rng.integers(-5, 5, d)
        if rng.random() < 0.25:  # nearly equal coordinates, large coordinates
            unit = 2.0 ** rng.integers(-40, 30, d)
        Y = buf('y', P * unit + off)
        Y0 = Y.copy()
        tr = dict(id="nds-%d" % t, key="nds-d%d-%s" % (d, style), ev=[])
        ok, r = guarded(lambda: all_sorts(Y))
        tr["ev"].append(dict(op="sort", pts=P.tolist(), ranks=r, unmod=bool(np.array_equal(Y, Y0))) if ok
                        else dict(op="raised", what=r, pts=P.tolist()))
        ok, r = guarded(lambda: all_filters(Y))
        if ok:
            kept = [[int(q) for q in np.round((k - off) / unit)] for k in r[1]]
            tr["ev"].append(dict(op="filter", pts=P.tolist(), idx=[i + 1 for i in r[0]], kept=kept,
                                 unmod=bool(np.array_equal(Y, Y0))))
        else:
            tr["ev"].append(dict(op="raised", what=r, pts=P.tolist()))
        for _ in range(4):
            a, b = P[rng.integers(n)], P[rng.integers(n)]
            if rng.random() < 0.5:
                b = a + (rng.random(d) < 0.3)
                if rng.random() < 0.3:
                    b = b - (rng.random(d) < 0.2)
            ok, r = guarded(lambda: is_dominate(a * unit + off, list(b * unit + off)))
            tr["ev"].append(dict(op="dom", a=a.tolist(), b=b.tolist(), res=int(bool(r))) if ok else dict(op="raised", what=r))
        out.append(tr)
    return out
