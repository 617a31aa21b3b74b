"""Catalogue of built-in problems and sampling shared by C16, C17 and C18."""
import inspect
import warnings
import numpy as np


def classes():
    """name -> class of every problem of the library, also those not exported at package level."""
    import hvd.problems as P
    from hvd.problems import misc
    from hvd.problems.base import MOP, CMOP
    out = {}
    for mod in (P, misc):
        for n in dir(mod):
            c = getattr(mod, n)
            if inspect.isclass(c) and issubclass(c, MOP) and c not in (MOP, CMOP) and not n.startswith("_"):
                out.setdefault(c.__name__, c)
    return out


NAMES = (["%s%s" % (p, d) for p in ("", "Eq1") for d in ["DTLZ1", "DTLZ2", "DTLZ3", "DTLZ4", "IDTLZ1", "IDTLZ2", "IDTLZ3", "IDTLZ4"]]
         + ["DTLZ5", "DTLZ6", "DTLZ7"] + ["CF%d" % i for i in range(1, 11)] + ["CONV3", "CONV4", "CONV4_2F", "DENT", "DisConnected"]
         + ["UF%d" % i for i in range(1, 11)] + ["WFG%d" % i for i in range(1, 10)] + ["ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"])


def family(name):
    for f in ("IDTLZ", "DTLZ", "CF", "CONV", "UF", "WFG", "ZDT"):
        if name.replace("Eq1", "").startswith(f):
            return f
    return name


def configs(name):
    """Sensible configurations (constructor keywords), smallest first."""
    f = family(name)
    if f in ("DTLZ", "IDTLZ"):
        return [dict(n_var=6, n_obj=3), dict(n_var=5, n_obj=2), dict(n_var=7, n_obj=4), dict(n_var=3, n_obj=3), dict(n_var=3, n_obj=2), dict()]
    if f == "CF":
        return [dict(n_var=8), dict(n_var=7), dict(n_var=11), dict(n_var=12), dict()]
    if f == "UF":
        return [dict(n_var=6), dict(n_var=7), dict(n_var=11), dict()]
    if f == "WFG":
        return [dict(n_var=8, n_obj=2), dict(n_var=6, n_obj=3), dict(n_var=10, n_obj=3), dict(n_var=8, n_obj=3, k=4, l=4), dict(n_var=8, n_obj=4, k=6, l=2)]
    if f == "ZDT":
        return [dict(n_var=5), dict(n_var=2), dict(n_var=9), dict()]
    return [dict()]


def has_boundary(cls):
    return "boundary_constraints" in inspect.signature(cls.__init__).parameters


def make(cls, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(**kw)


def position_grid(d, n, rng):
    """About n points of [0, 1]^d: a grid with the corners, and random ones."""
    if d == 1:
        return np.r_[np.linspace(0, 1, n), np.linspace(0, 1, n // 2) ** 5, rng.random(n // 4)][:, None]
    g = max(3, int(round(n ** (1 / d))))
    G = np.stack(np.meshgrid(*[np.linspace(0, 1, g)] * d), -1).reshape(-1, d)
    return np.r_[G, rng.random((n // 2, d))]


def near_optimal(name, p, rng, n):
    """Points of the box that the published definitions call optimal or that are extreme (any subset of the box is
    a legitimate sample: the formulas only make it an effective one)."""
    f = family(name)
    v = p.n_var
    if f in ("DTLZ", "IDTLZ"):
        P = position_grid(p.n_obj - 1, n, rng)
        if name.startswith("Eq1"):           # the equality constraint: a sphere in the position variables
            D = rng.standard_normal((n, p.n_obj - 1))
            D /= np.linalg.norm(D, axis=1)[:, None]
            P = 0.5 + np.sqrt(0.16 + rng.choice([-1, 0, 1], (n, 1)) * 0.999e-4) * D
            P = P[np.all((P >= 0) & (P <= 1), axis=1)]
        out = []
        for c in ([0.0, 1e-30, 0.5] if f == "DTLZ" else [0.5, 0.0, 1.0, 0.6]):
            out.append(np.c_[P, np.full((len(P), v - p.n_obj + 1), c)])
        if f == "IDTLZ":             # one distance variable in the next valley of DTLZ3's g
            out.append(np.c_[P, np.full((len(P), v - p.n_obj), 0.5), np.full(len(P), 0.6)])
        if name.endswith("4"):       # biased positions
            out.append(np.c_[P ** 0.01, np.full((len(P), v - p.n_obj + 1), 0.5)])
        return np.vstack(out)
    if f == "ZDT":
        t = position_grid(1, n, rng)
        return np.c_[t, np.zeros((len(t), v - 1))]
    if f == "UF" or f == "CF":
        j = np.arange(1, v + 1)
        if p.n_obj == 3:
            P = position_grid(2, n, rng)
            if name == "CF8":            # feasible only on curves
                P = np.r_[P[:n // 2], np.stack(np.meshgrid(np.linspace(0, 1, n // 5), [0, 1 / 3, 1 / 2, 2 / 3, 1]), -1).reshape(-1, 2)]
            X = 2 * P[:, [1]] * np.sin(2 * np.pi * P[:, [0]] + j * np.pi / v)
            X[:, :2] = P
            return np.clip(X, p.xl, p.xu)
        t = np.r_[position_grid(1, n, rng), np.arange(21)[:, None] / 20]
        S = np.sin(6 * np.pi * t + j * np.pi / v); C = np.cos(6 * np.pi * t + j * np.pi / v)
        odd = (j % 2 == 1)
        if name in ("UF1", "UF4", "UF5", "UF6", "UF7", "CF3", "CF4"):
            X = S
        elif name == "CF2":
            X = np.where(odd, S, C)
        elif name == "UF2":
            e = 0.3 * t ** 2 * np.cos(24 * np.pi * t + 4 * j * np.pi / v) + 0.6 * t
            X = e * np.where(odd, C, S)
        elif name in ("UF3", "CF1"):
            X = t ** (0.5 * (1 + 3 * (j - 2) / (v - 2)))
        elif name in ("CF5", "CF6"):
            X = 0.8 * t * np.where(odd, C, S)
        else:
            X = np.where(odd, C, S)
        X = X.copy(); X[:, [0]] = t
        out = [X]
        if name in ("CF4", "CF5"):   # the second variable has to leave its optimum
            for d in np.r_[np.linspace(0, 0.5, 6), 1.0]:
                Y = X.copy(); Y[:, 1] += d; out.append(Y)
            Y = X.copy(); Y[:, 1] += np.maximum(0, 0.5 * t[:, 0] - 0.25); out.append(Y)
        if name in ("CF6", "CF7"):
            u = 1 - t[:, 0]
            r1 = np.maximum(0, np.sign(.5 * u - u ** 2) * np.sqrt(abs(.5 * u - u ** 2)))
            r2 = np.maximum(0, np.sign(.25 * np.sqrt(u) - .5 * u) * np.sqrt(abs(.25 * np.sqrt(u) - .5 * u)))
            for a in (0, 1):
                for b in (0, 1):
                    Y = X.copy(); Y[:, 1] += a * r1; Y[:, 3] += b * r2; out.append(Y)
        return np.clip(np.vstack(out), p.xl, p.xu)
    if f == "WFG":
        k = p.k
        P = np.r_[position_grid(k, n // 2, rng), (rng.random((n // 2, k)) < .5), rng.random((n // 2, k)) ** 50]
        P = np.r_[P, np.repeat(position_grid(p.n_obj - 1, n // 2, rng), k // (p.n_obj - 1), axis=1)]
        Z = [np.c_[P, np.full((len(P), v - k), 0.35)]]
        return np.vstack(Z) * p.xu
    if name == "DENT":
        t = position_grid(1, n, rng) * 4 - 2
        return np.c_[t, -t]
    if f == "CONV":
        W = rng.dirichlet(np.ones(p.n_obj) * rng.choice([.3, 1.0]), n)
        if name == "CONV3":
            return W @ np.vstack([-np.ones(3), np.ones(3), [-1, -1, 1]])
        return np.vstack([W @ np.eye(4), W @ (np.eye(4) - 1)]) if name == "CONV4_2F" else W @ np.eye(4)
    return np.empty((0, v))


def feasible(p, X, slack=1e-9):
    ok = np.ones(len(X), bool)
    if len(X) and getattr(p, "n_ieq_constr", 0):
        ok &= np.all(p.ieq_constraint_batch(X).reshape(len(X), -1) <= slack, axis=1)
    if len(X) and getattr(p, "n_eq_constr", 0):
        ok &= np.all(p.eq_constraint_batch(X).reshape(len(X), -1) <= slack, axis=1)
    return ok
