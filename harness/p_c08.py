"""C08: state caches.  Spec: StateModel.tla (schedules out), TraceState.tla (recorded lives in)."""
import copy, os, shutil, tempfile
import numpy as np
from core import enc, encv, guarded

CFG = """CONSTANTS
 Depth = %d
 MaxStates = 3
SPECIFICATION Spec
INVARIANTS CacheFresh NothingShared ArgNotShared Emit
PROPERTIES OthersUntouched EvalsMonotone
CHECK_DEADLOCK FALSE
"""
E5 = 100000


class Q:
    """integer quadratic map with constant, values divided by `div`"""

    def __init__(self, rng, n, m, div, bal=None, small=False):
        A = rng.integers(-1, 2, (m, n, n))
        self.A = np.triu(A) + np.transpose(np.triu(A, 1), (0, 2, 1))
        if small:
            self.A *= (rng.random((m, 1, 1)) < .5)
        self.b = rng.integers(-4, 5, (m, n))
        self.c = rng.integers(-12, 13, m)
        self.div, self.m, self.n = float(div), m, n

    def spec(self):
        return dict(A=self.A.tolist(), b=self.b.tolist(), c=self.c.tolist())

    def f(self, x):
        return (np.einsum("kij,i,j->k", self.A, x, x) + self.b @ x + self.c) / self.div

    def J(self, x):
        return (2 * np.einsum("kij,j->ki", self.A, x) + self.b) / self.div

    def T(self, x):
        return 2 * self.A / self.div


class Prob:
    """The same problem through every callback style the state supports."""

    def __init__(self, F, H, G, style):
        self.F, self.H, self.G, self.style = F, H, G, style

    def _row(self, v, scalar=False):
        v = np.asarray(v)
        return float(v[0]) if scalar and v.shape == (1,) else v

    def objective(self, x):
        return self.F.f(x)

    def jacobian(self, x):
        return self.F.J(x)

    def eq(self, x):
        return self._row(self.H.f(x), self.style == "scalar")

    def eq_jac(self, x):
        v = self.H.J(x)
        return v[0] if self.style == "scalar" and len(v) == 1 else v

    def eq_hess(self, x):
        v = self.H.T(x)
        return v[0] if self.style == "scalar" and len(v) == 1 else v

    def ieq(self, x):
        return self._row(self.G.f(x), self.style == "scalar")

    def ieq_jac(self, x):
        return self.G.J(x)

    def ieq_hess(self, x):
        return self.G.T(x)


class BatchProb(Prob):
    def __init__(self, F, H, G, style):
        super().__init__(F, H, G, style)
        self._frozen = style == "frozen"

    def _b(self, f, X):
        v = np.stack([f(x) for x in X])
        if self._frozen:  # e.g. a view of a JAX array
            v.flags.writeable = False
        return v

    def objective_batch(self, X):
        return self._b(self.F.f, X)

    def jacobian_batch(self, X):
        return self._b(self.F.J, X)

    def eq_batch(self, X):
        return self._b(self.H.f, X)

    def eq_jac_batch(self, X):
        return self._b(self.H.J, X)

    def eq_hess_batch(self, X):
        return self._b(self.H.T, X)

    def ieq_batch(self, X):
        return self._b(self.G.f, X)

    def ieq_jac_batch(self, X):
        return self._b(self.G.J, X)

    def ieq_hess_batch(self, X):
        return self._b(self.G.T, X)


class Life:
    def __init__(self, rng, id, key, nvar=None, neq=None, nieq=None, style=None, hashess=None, dual=None, tmp=None):
        from hvd.base import State
        self.rng, self.tmp = rng, tmp
        nvar = int(rng.integers(1, 4)) if nvar is None else nvar
        neq = int(rng.integers(0, 3)) if neq is None else neq
        nieq = int(rng.integers(0, 3)) if nieq is None else nieq
        style = style or str(rng.choice(["plain", "scalar", "batch", "frozen", "lambda"]))
        hashess = bool(rng.random() < .7) if hashess is None else hashess
        m = int(rng.integers(1, 4))
        F, H, G = Q(rng, nvar, m, 1), Q(rng, nvar, max(neq, 1), E5, small=True), Q(rng, nvar, max(nieq, 1), E5, small=True)
        P = (BatchProb if style in ("batch", "frozen") else Prob)(F, H, G, style)
        if style == "lambda":
            cb = dict(func=lambda x: F.f(x), jac=lambda x: F.J(x), h=lambda x: H.f(x), h_jac=lambda x: H.J(x), h_hess=lambda x: H.T(x),
                      g=lambda x: G.f(x), g_jac=lambda x: G.J(x), g_hess=lambda x: G.T(x))
        else:
            cb = dict(func=P.objective, jac=P.jacobian, h=P.eq, h_jac=P.eq_jac, h_hess=P.eq_hess, g=P.ieq, g_jac=P.ieq_jac, g_hess=P.ieq_hess)
        if neq == 0:
            cb["h"] = cb["h_jac"] = cb["h_hess"] = None
        if nieq == 0:
            cb["g"] = cb["g_jac"] = cb["g_hess"] = None
        if not hashess:
            cb["h_hess"] = cb["g_hess"] = None
        self.nvar, self.nd = nvar, (neq + nieq if (rng.random() < .7 if dual is None else dual) else 0)
        self.State, self.cb, self.neq, self.nieq, self.m = State, cb, neq, nieq, m
        self.tr = dict(id=id, key=key + "-" + style, nvar=nvar, neq=neq, nieq=nieq, f=F.spec(), h=H.spec(), g=G.spec(), hashess=hashess, ev=[])
        self.live, self.N, self.ok, self.arg = [], [], True, None

    def obs(self, s):
        N = len(s.X)
        J = np.asarray(s.J).reshape(N, self.m, self.nvar)
        return dict(X=encv(s.X), Y=encv(np.asarray(s.Y).reshape(N, self.m)), J=encv(J), c=encv(s.cstr_value, E5),
                    act=np.asarray(s.active_indices).astype(int).tolist(), cg=encv(s.cstr_grad, E5),
                    ch=encv(s.cstr_hess, E5) if self.tr["hashess"] else [], feas=np.asarray(s.is_feasible()).astype(int).tolist(),
                    nj=int(s.n_jac_evals), nc=int(s.n_cstr_jac_evals), nh=int(s.n_cstr_hess_evals))

    def do(self, f, ev):
        if not self.ok:
            return

        def g():
            r = f()
            if r is not None:
                self.live.append(r)
            return [self.obs(s) for s in self.live]
        self.ok, o = guarded(g)
        self.tr["ev"].append(dict(ev, obs=o) if self.ok else dict(op="raised", what=o, at=ev))

    def point(self):
        return self.rng.integers(-3, 4, self.nvar + self.nd)

    def arr(self, X):
        """the array handed to the code, in one of several dtypes / layouts"""
        k = self.rng.integers(4)
        X = np.asarray(X)
        if k == 0:
            return X.astype(int)
        if k == 1:
            return np.asfortranarray(X.astype(float))
        return X.astype(float)

    def create(self, X):
        self.arg = self.arr(X)

        def f():
            s = self.State(self.nvar, self.neq, self.nieq, **self.cb)
            s.update(self.arg)
            return s
        self.do(f, dict(op="create", X=np.asarray(X).tolist()))
        self.N.append(len(X))

    def update(self, s, X):
        self.arg = self.arr(X)
        self.do(lambda: self.live[s].update(self.arg), dict(op="update", s=s + 1, X=np.asarray(X).tolist()))
        self.N[s] = len(X)

    def one(self, s, k, x):
        self.arg = self.arr(x)
        self.do(lambda: self.live[s].update_one(self.arg, k), dict(op="one", s=s + 1, k=k + 1, x=np.asarray(x).tolist()))

    def slice(self, s, idx):
        form = self.rng.integers(4)
        srt = len(set(idx)) == len(idx) and list(idx) == sorted(idx)
        if form == 0:
            ix = list(idx)
        elif form == 1 and srt:
            ix = np.isin(np.arange(self.N[s]), idx)
        elif form == 2 and srt and list(idx) == list(range(idx[0], idx[-1] + 1)):
            ix = slice(idx[0], idx[-1] + 1)
        else:
            ix = np.array(idx)
        self.do(lambda: self.live[s][ix], dict(op="slice", s=s + 1, idx=[int(i) + 1 for i in idx]))
        self.N.append(len(idx))

    def copy(self, s):
        self.do(lambda: copy.deepcopy(self.live[s]), dict(op="copy", s=s + 1, idx=list(range(1, self.N[s] + 1))))
        self.N.append(self.N[s])

    def reload(self, s):
        def f():
            p = os.path.join(self.tmp, "st")
            self.live[s].save(p)
            r = self.State.load(p + ".pkl")
            for k, v in self.cb.items():  # callbacks are not persisted; put them back to keep going
                setattr(r, k, v)
            return r
        self.do(f, dict(op="reload", s=s + 1, idx=list(range(1, self.N[s] + 1))))
        self.N.append(self.N[s])

    def overwrite(self):
        a = self.arg
        if a is None:
            return
        a[...] = 77
        self.do(lambda: None, dict(op="overwrite"))


def run(ctx):
    tmp = os.path.join(ctx.work, "save")
    os.makedirs(tmp)
    rng = ctx.rng(8)
    _, tagged = ctx.tlc("StateModel", CFG % ctx.pick(4, 5))
    sched = sorted({json_key(v["ops"]) for tag, v in tagged if tag == "SCHED"})
    ctx.notes["schedules_generated"] = len(sched)
    pick = sorted(rng.permutation(len(sched))[:ctx.pick(500, 4000)])
    trs = []
    from json import loads
    for i in pick:
        L = Life(rng, "sched-%d" % i, "sched", tmp=tmp)
        table = {p: L.point() for p in range(1, 6)}
        sets = {1: [table[1], table[2]], 2: [table[3], table[1], table[2]]}
        for o, a, b, c in loads(sched[i]):
            if o == "create":
                L.create(np.array(sets[a]))
            elif o == "update":
                L.update(a - 1, np.array(sets[b]))
            elif o == "one":
                L.one(a - 1, b - 1, table[c])
            elif o == "slice":
                L.slice(a - 1, [q - 1 for q in b])
            elif o == "copy":
                L.copy(a - 1)
            elif o == "reload":
                L.reload(a - 1)
            else:
                L.overwrite()
        ctx.vectors += 1
        trs.append(L.tr)
    for t in range(ctx.pick(80, 800)):
        L = Life(rng, "life-%d" % t, "life", tmp=tmp)
        L.create(np.array([L.point() for _ in range(int(rng.integers(1, 6)))]))
        for e in range(int(rng.integers(3, 9))):
            s = int(rng.integers(len(L.N)))
            op = rng.choice(["update", "one", "one", "slice", "copy", "reload", "overwrite"])
            if op in ("slice", "copy", "reload") and len(L.N) >= 4:
                op = "one"
            if op == "update":
                L.update(s, np.array([L.point() for _ in range(int(rng.integers(1, 6)))]))
            elif op == "one":
                L.one(s, int(rng.integers(L.N[s])), L.point())
            elif op == "slice":
                n = L.N[s]
                some = rng.permutation(n)[:rng.integers(1, n + 1)].tolist()
                L.slice(s, [some, sorted(some), rng.integers(0, n, rng.integers(1, n + 2)).tolist()][rng.integers(3)])
            elif op == "copy":
                L.copy(s)
            elif op == "reload":
                L.reload(s)
            else:
                L.overwrite()
        trs.append(L.tr)
    ctx.samples.append(trs[-1]["ev"][0])
    ctx.validate("TraceState", trs)
    bad = []
    for i, tr in enumerate(trs[::9]):
        if any(e["op"] == "raised" for e in tr["ev"]):
            continue
        c = copy.deepcopy(tr)
        o = c["ev"][-1]["obs"][0]
        w = ["X", "Y", "J", "act", "feas", "nj"][i % 6]
        if w == "nj":
            o["nj"] += 1
        elif w in ("act", "feas"):
            o["feas"][0] = 1 - o["feas"][0]
        else:
            v = o[w][0]
            while isinstance(v[0], list):
                v = v[0]
            v[0] += 1
        bad.append(c)
    ctx.must_reject("TraceState", bad[:24])
    ctx.assumptions.append("integer quadratic problems: all evaluations are exact; constraint values are multiples of 1e-5")


def json_key(o):
    from json import dumps
    return dumps(o)
