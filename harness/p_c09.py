"""C09: KKT test.  Spec: KKTModel.tla (cases out), TraceKKT.tla (recorded verdicts in)."""
import copy
import numpy as np
from core import guarded

CFG = """CONSTANTS
 Dim = %d
 Hi = %d
 MaxObj = %d
 MaxEq = %d
 MaxIeq = %d
SPECIFICATION Spec
INVARIANTS DualIsPrimal Looser Emit
PROPERTIES MoreMultipliers
CHECK_DEADLOCK FALSE
"""
E5 = 1e5


class Table:
    """A problem given by tables: point number k (its first variable) has the k-th data."""

    def __init__(self, n, pts, neq, nieq):
        self.n, self.p, self.neq, self.nieq = n, pts, neq, nieq

    def _p(self, x):
        return self.p[int(round(x[0]))]

    def state(self):
        from hvd.base import State
        m = len(self.p[0]["g"])
        kw = {}
        if self.neq:
            kw.update(h=lambda x: np.array(self._p(x)["hv"], float), h_jac=lambda x: np.array(self._p(x)["h"], float))
        if self.nieq:
            kw.update(g=lambda x: np.array(self._p(x)["gv"], float), g_jac=lambda x: np.array(self._p(x)["gg"], float))
        s = State(self.n, self.neq, self.nieq, lambda x: np.zeros(m), lambda x: np.array(self._p(x)["g"], float), **kw)
        X = np.zeros((len(self.p), self.n))
        X[:, 0] = np.arange(len(self.p))
        s.update(X)
        return s


def vectors(ctx):
    groups = {}
    for conf in ctx.pick([(2, 1, 2, 1, 1), (1, 2, 2, 1, 2)], [(2, 1, 3, 1, 1), (2, 1, 2, 1, 2), (1, 3, 3, 1, 2), (3, 1, 2, 0, 1)]):
        _, tagged = ctx.tlc("KKTModel", CFG % conf)
        for tag, v in tagged:
            if tag == "VEC":
                groups.setdefault((len(v["g"][0]), len(v["g"]), len(v["h"]), len(v["a"])), []).append(v)
    cap = ctx.pick(900, 6000)
    rng = ctx.rng(9)
    for (n, m, ne, na), vs in groups.items():
        if len(vs) > cap:
            vs = [vs[i] for i in sorted(rng.permutation(len(vs))[:cap])]
        for lo in range(0, len(vs), 300):
            part = vs[lo:lo + 300]
            T = Table(n, [dict(g=v["g"], hv=[0] * ne, h=v["h"], gv=[0] * na, gg=v["a"]) for v in part], ne, na)
            ok, got = guarded(lambda: (T.state().check_KKT(), T.state().check_KKT(stationarity_tol=0.5 + 1e-6)), 120)
            ctx.vectors += len(part)
            for i, v in enumerate(part):
                if not ok or bool(got[0][i]) != v["k0"] or bool(got[1][i]) != v["half"]:
                    ctx.violation("vector", dict(kind="vector", spec="KKTModel", case=v, got=str(got)[:300] if not ok else [bool(got[0][i]), bool(got[1][i])]))
                    break
    ctx.samples.append(v)


def traces(ctx):
    rng = ctx.rng(99)
    out = []
    for t in range(ctx.pick(220, 2000)):
        n = int(rng.choice([1, 2, 2, 3]))
        m, ne, na = int(rng.integers(1, 4)), int(rng.integers(0, 3)), int(rng.integers(0, 3))
        if n == 3:
            m, ne, na = min(m, 2), min(ne, 1), min(na, 2)
        tr = dict(id="kkt-%d" % t, key="kkt-n%d" % n, ev=[])
        for e in range(2):
            tol = lambda: int(rng.choice([0, 10, 10, 50, 100, 1]))
            st = int(rng.choice([0, 100, 500, 1000, 1500, 0]))
            default = rng.random() < .35
            ft, at = (10, 10) if default else (tol(), tol())
            pts, real = [], []
            for k in range(int(rng.integers(1, 7))):
                hi = int(rng.choice([1, 2, 3]))
                g = rng.integers(-hi, hi + 1, (m, n))
                h = rng.integers(-hi, hi + 1, (ne, n))
                gg = rng.integers(-hi, hi + 1, (na, n))
                if rng.random() < .5:  # make a KKT point (up to a small residual): last objective balances the rest
                    mu, nu = rng.integers(-2, 3, ne), rng.integers(0, 3, na)
                    bal = -(g[:-1].sum(axis=0) + mu @ h + nu @ gg)
                    g[-1] = bal + (rng.integers(-1, 2, n) if rng.random() < .4 else 0)
                near = lambda tl: int(rng.choice([0, 0, tl, tl + 1, -tl, -tl - 1, 3 * tl + 5, -3 * tl - 5]))
                hv = [int(rng.choice([0, near(ft)])) for _ in range(ne)]
                gv = [int(rng.choice([0, near(ft), near(at), -at - 7, -2000])) for _ in range(na)]
                p = dict(g=g.tolist(), hv=hv, h=h.tolist(), gv=gv, gg=gg.tolist(), fin=True)
                r = dict(g=g.astype(float), hv=np.array(hv) / E5, h=h.astype(float), gv=np.array(gv) / E5, gg=gg.astype(float))
                if rng.random() < .15:
                    w = str(rng.choice(["g"] + (["hv", "h"] if ne else []) + (["gv"] if na else [])))
                    flat = r[w].reshape(-1)
                    flat[rng.integers(len(flat))] = rng.choice([np.nan, np.inf, -np.inf])
                    p["fin"] = False
                pts.append(p), real.append(r)
            T = Table(n, real, ne, na)
            kw = {} if default else dict(feasibility_tol=ft / E5, active_tol=at / E5)
            if st == 0 and default:
                pass  # all defaults: stationarity 1e-4 is below the resolution of the specification
            else:
                kw["stationarity_tol"] = st / 1000 if st else 1e-6
            ok, r = guarded(lambda: np.asarray(T.state().check_KKT(**kw)), 60)
            tr["ev"].append(dict(op="kkt", n=n, pts=pts, st=st, ft=ft, at=at, res=r.astype(int).tolist()) if ok
                            else dict(op="raised", what=r))
            if rng.random() < .3:
                bad = str(rng.choice(["stationarity_tol", "feasibility_tol", "active_tol"]))
                try:
                    T.state().check_KKT(**{bad: -float(rng.choice([1e-9, 0.1, 2]))})
                    tr["ev"].append(dict(op="negative", refused=0))
                except ValueError:
                    tr["ev"].append(dict(op="negative", refused=1))
                except Exception as ex:
                    tr["ev"].append(dict(op="raised", what=repr(ex)))
        out.append(tr)
    return out


def run(ctx):
    vectors(ctx)
    trs = traces(ctx)
    ctx.samples.append(trs[0]["ev"][0])
    ctx.validate("TraceKKT", trs)
    bad = []
    for tr in trs:
        e = tr["ev"][0]
        if e["op"] != "kkt":
            continue
        for i, p in enumerate(e["pts"]):
            # flip a verdict that the specification settles: infeasible or undefined points reported as KKT
            if not p["fin"] and e["res"][i] == 0:
                c = copy.deepcopy(tr)
                c["ev"][0]["res"][i] = 1
                bad.append(c)
            elif e["res"][i] == 1 and e["st"] >= 500 and all(v == 0 for q in p["g"] for v in q):
                c = copy.deepcopy(tr)
                c["ev"][0]["res"][i] = 0
                bad.append(c)
    ctx.must_reject("TraceKKT", bad[:16])
