"""C07: matched targets.  Spec: RefSetModel.tla (schedules out), TraceRefSet.tla (recorded lives in)."""
import copy
import numpy as np
from core import enc, encv, guarded

CFG = """CONSTANTS
 World = %d
 Depth = %d
SPECIFICATION Spec
INVARIANTS OneTargetEach OwnersDistinct CountsMatch Emit
PROPERTIES RematchPermutes ShiftIsLocal
CHECK_DEADLOCK FALSE
"""
U = 1000
WORLDS = {
    1: ([[(0, 8), (2, 6), (4, 4)]], [[(0, 9), (5, 5)], [(6, 4), (1, 9)], [(3, 7), (0, 11), (6, 6)]]),
    2: ([[(0, 20), (2, 16), (4, 14)], [(16, 4), (20, 0)]],
        [[(1, 19), (21, 1)], [(17, 6), (3, 18)], [(3, 18), (5, 15), (22, 1)]]),
    3: ([[(0, 20), (3, 17)], [(10, 10), (12, 8)], [(20, 0), (24, -4)]],
        [[(1, 21), (25, 0)], [(22, 1), (11, 11)], [(13, 9), (1, 20), (21, 3)]]),
}


def normal_ok(C):
    """unique extreme points and a one-signed normal: the default direction is defined"""
    C = np.asarray(C)
    m = C.shape[1]
    E = []
    for k in range(m):
        j = np.nonzero(C[:, k] == C[:, k].min())[0]
        if len(j) > 1:
            return False
        E.append(C[j[0]])
    M = np.array(E[1:]) - E[0]
    n = np.array([M[0][1], -M[0][0]]) if m == 2 else np.cross(M[0], M[1])
    return np.any(n != 0) and (np.all(n >= 0) or np.all(n <= 0))


def homes_ok(comps, Y):
    if len(comps) == 1:
        return True
    D = np.array([[np.linalg.norm(np.asarray(c) - y, axis=1).min() for c in comps] for y in Y])
    s = np.sort(D, axis=1)
    return bool(np.all(s[:, 1] - s[:, 0] > 0.05))


class Life:
    """Drives one ReferenceSet and records what it reports."""

    def __init__(self, id, key, comps, eta=None, y_idx=None, kind="dict", scale=1.0):
        from hvd.reference_set import ReferenceSet
        self.s = scale
        comps = [np.asarray(c, float) for c in comps]
        self.n = len(comps)
        self.tr = dict(id=id, key=key, comps=[encv(c, U) for c in comps], U=U, ev=[],
                       lattice=[np.asarray(c).astype(int).tolist() for c in comps],
                       eta=[] if eta is None else [encv(e, 10000) for e in eta],
                       part=[] if y_idx is None else [[int(i) + 1 for i in c] for c in y_idx])
        self.args = [c * scale for c in comps]
        self.args0 = [c.copy() for c in self.args]
        ref = self.args[0] if kind == "array" and self.n == 1 else dict(enumerate(self.args))
        et = None if eta is None else {i: np.asarray(e, float) * scale for i, e in enumerate(eta)}
        self.cur = comps
        self.N = None
        self.ok, self.rs = guarded(lambda: ReferenceSet(ref, eta=et, Y_idx=None if y_idx is None else [np.array(c) for c in y_idx]))
        self.default_eta = eta is None
        if not self.ok:
            self.tr["ev"].append(dict(op="raised", what=self.rs))
        else:
            self.ref()

    def obs(self):
        return encv(np.asarray(self.rs.reference_set) / self.s, U)

    def ref(self):
        self._do(lambda: self.obs(), lambda o: dict(op="ref", obs=o))

    def _do(self, f, g):
        if not self.ok:
            return
        self.ok, r = guarded(f)
        self.tr["ev"].append(g(r) if self.ok else dict(op="raised", what=r))

    def match(self, Y):
        Y = np.asarray(Y, float)
        Ys = Y * self.s
        Y0 = Ys.copy()

        def f():
            self.rs.match(Ys)
            return self.obs()
        self._do(f, lambda o: dict(op="match", Y=encv(Y, U), obs=o, unmod=bool(np.array_equal(Ys, Y0) and all(
            np.array_equal(a, b) for a, b in zip(self.args, self.args0)))))
        self.N = len(Y)

    def shift(self, c, idx=None, form="array"):
        cc = c / self.s if self.default_eta else c   # a unit direction has no length unit to scale

        def f():
            if form == "kw" or idx is None:
                self.rs.shift(c * (self.s if self.default_eta else 1.0), idx if idx is None else np.array(idx, int))
            else:
                self.rs.shift(c * (self.s if self.default_eta else 1.0), indices=list(idx) if form == "list" else np.array(idx, int))
            return self.obs()
        self._do(f, lambda o: dict(op="shift", c10=enc(c, 10000), all=idx is None,
                                   idx=[] if idx is None else [int(i) + 1 for i in idx], obs=o))
        if self.ok and self.N is None:
            o = np.asarray(self.rs.reference_set) / self.s
            sz = np.cumsum([len(c) for c in self.cur])[:-1]
            self.cur = np.split(o, sz)


def schedules(ctx):
    out = []
    for w in (1, 2, 3):
        _, tagged = ctx.tlc("RefSetModel", CFG % (w, ctx.pick(4, 5)))
        seen = set()
        for tag, v in tagged:
            if tag != "SCHED":
                continue
            ops = tuple(map(tuple, v["ops"]))
            if ops in seen:
                continue
            seen.add(ops)
        seen = sorted(seen)
        if ctx.quick:
            keep = ctx.rng(w).permutation(len(seen))[:130]
            seen = [seen[i] for i in sorted(keep)]
        comps, Ys = WORLDS[w]
        for ops in seen:
            L = Life("sched-w%d-%s" % (w, "".join("%s%s" % (o[0], x) for o, x in ops)), "schedule-world%d" % w, comps,
                     eta=[(-(k + 1), -1) for k in range(len(comps))])
            for o, x in ops:
                if o == "match":
                    L.match(Ys[x - 1])
                else:
                    L.shift(1.0, None if x == 0 else [x - 1])
            out.append(L.tr)
            ctx.vectors += 1
        ctx.samples.append(dict(schedule=ops))
    return out


def traces(ctx):
    rng = ctx.rng(7)
    out = []
    tries = 0
    while len(out) < ctx.pick(160, 1500):
        tries += 1
        m = int(rng.choice([2, 2, 3]))
        nc = int(rng.choice([1, 1, 2, 3]))
        N = int(rng.integers(1, 6))
        comps = []
        for k in range(nc):
            size = N + int(rng.integers(0, 4))
            for _ in range(500):
                C = rng.integers(0, 5, (size, m)) + (0 if nc == 1 else 0)
                if nc > 1:
                    C[:, 0] += 4 * k
                    C[:, 1] += 4 * (nc - 1 - k)
                if len(set(map(tuple, C))) == size:
                    break
            else:
                C = None
            comps.append(C)
        if any(c is None for c in comps):
            continue
        default = all(normal_ok(c) for c in comps)
        eta = None if default and rng.random() < .75 else [rng.integers(-2, 2, m) for _ in range(nc)]
        y_idx = None
        if nc > 1 and rng.random() < .5:
            nk = int(rng.integers(1, min(nc, N) + 1))
            lab = np.concatenate([np.arange(nk), rng.integers(0, nk, N - nk)])
            rng.shuffle(lab)
            y_idx = [np.nonzero(lab == j)[0] for j in range(nk)]
        scale = float(2.0 ** rng.integers(-3, 4))
        L = Life("ref-%d" % len(out), "%s-c%d-m%d" % ("default" if eta is None else "eta", nc, m), comps, eta, y_idx,
                 "array" if rng.random() < .4 else "dict", scale)
        span = 5 + (4 * (nc - 1) if nc > 1 else 0)
        for e in range(int(rng.integers(2, 7))):
            op = rng.choice(["match", "match", "shift", "shift"])
            if op == "match":
                n = N if L.N is None or rng.random() < .8 else int(rng.integers(1, N + 1))
                if y_idx is not None and L.N is None:
                    n = N
                for _ in range(100):
                    Y = rng.integers(-1, span, (n, m)).astype(float)
                    if rng.random() < .3:
                        Y = Y + rng.integers(0, 8, Y.shape) / 8
                    if homes_ok(L.cur, Y):
                        break
                else:
                    continue
                L.match(Y)
            else:
                c = float(rng.choice([0.05, 0.08, 0.5, 1.0, 2.0, -0.5]))
                idx = None
                if rng.random() < .6 and L.N is not None:
                    idx = sorted(rng.permutation(L.N)[: int(rng.integers(0, L.N + 1))].tolist())
                    if rng.random() < .4:
                        rng.shuffle(idx)
                L.shift(c, idx, str(rng.choice(["array", "list", "kw"])))
        out.append(L.tr)
    return out


def run(ctx):
    trs = schedules(ctx) + traces(ctx)
    ctx.samples.append(trs[-1])
    ctx.validate("TraceRefSet", trs)
    bad = []
    for tr in trs[::7]:
        for op in ("match", "shift"):
            c = copy.deepcopy(tr)
            for e in c["ev"]:
                if e["op"] == op:
                    e["obs"][-1][0] += 100
                    bad.append(c)
                    break
    ctx.must_reject("TraceRefSet", bad[:24])
