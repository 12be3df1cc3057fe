"""Estimators and data sets shared by the checks."""
import numpy as np

from vp.gen import size

KINDS = ["logistic", "linreg", "newsvendor", "portfolio", "weber"]
SOLVERS = {
    "logistic": ["entropic_torch", "entropic_torch_post", "entropic_torch_pre", "dedicated"],
    "linreg": ["entropic_torch", "entropic_torch_post", "entropic_torch_pre", "dedicated"],
    "newsvendor": ["entropic_torch", "entropic_torch_post", "entropic_torch_pre", "dedicated"],
    "portfolio": ["entropic_torch", "entropic_torch_post", "entropic_torch_pre", "dedicated"],
    "weber": ["entropic_torch", "entropic_torch_post", "entropic_torch_pre"],
}
COSTS = {
    "logistic": ["t-NLC-2-2", "t-NC-2-2", "t-NC-1-2", "t-NC-1-1", "t-NLC-2-2-4.0"],
    "linreg": ["t-NLC-2-2", "t-NC-2-2", "t-NLC-1-2-2.0", "t-NC-1-1"],
    "newsvendor": ["t-NC-1-2", "t-NC-2-2", "t-NC-1-1"],
    "portfolio": ["t-NC-1-1", "t-NC-2-2", "t-NC-1-2", "t-NC-1-inf"],
    "weber": ["t-NLC-2-2", "t-NC-2-2", "t-NC-1-2"],
}


def cls(kind):
    from skwdro.linear_models import LinearRegression, LogisticRegression
    from skwdro.operations_research import NewsVendor, Portfolio, Weber
    return {"logistic": LogisticRegression, "linreg": LinearRegression, "newsvendor": NewsVendor,
            "portfolio": Portfolio, "weber": Weber}[kind]


def data(kind, rng, m=None, d=None, classes=2):
    """(X, y) with y None for the unlabelled problems."""
    m = size(rng, 8, 25, 130, .06) if m is None else m
    d = size(rng, 1, 5, 24, .06) if d is None else d
    if kind == "logistic":
        y = np.arange(m) % classes
        rng.shuffle(y)
        centres = rng.normal(size=(classes, d)) * 1.5
        X = centres[y] + rng.normal(size=(m, d))
        y = np.array([-1., 1.])[y] if classes == 2 else y
    elif kind == "linreg":
        X = rng.normal(size=(m, d))
        y = X @ rng.normal(size=d) + rng.normal() + .3 * rng.normal(size=m)
    elif kind == "newsvendor":
        X, y = rng.exponential(scale=2., size=(m, 1)), None
    elif kind == "portfolio":
        X, y = rng.normal(size=(m, d)) * .5 + rng.normal(size=d) * .3, None
    else:
        X, y = rng.normal(size=(m, 2)) * 2., rng.uniform(.2, 2., size=m)
    return X, y


def make(kind, **opts):
    return cls(kind)(**opts)


def fit(est, X, y):
    return est.fit(X) if y is None else est.fit(X, y)


def polyhedron(o, X, rng):
    """Support constraints C xi <= d holding at the data, for the dedicated portfolio."""
    k = int(rng.integers(1, 4))
    C = rng.normal(size=(k, X.shape[1]))
    o["C"], o["d"] = C, (X @ C.T).max(0) + rng.uniform(.01, .5, size=k)


def fast_iters(rng, solver):
    """A short schedule, integer or pair."""
    if rng.random() < .5:
        return int(rng.integers(3, 15))
    return (int(rng.integers(0, 6)), int(rng.integers(2, 15)))


def random_options(kind, rng, solver, n_iter="fast"):
    o = {"rho": float(rng.choice([0., 1e-3, .05, .3, 1.])), "solver": solver,
         "cost": str(rng.choice(COSTS[kind]))}
    if solver != "dedicated":
        o["n_zeta_samples"] = int(rng.integers(1, 12))
        o["random_state"] = int(rng.integers(0, 1000))
        o["n_iter"] = fast_iters(rng, solver) if n_iter == "fast" else n_iter
        if rng.random() < .4:
            o["learning_rate"] = float(rng.choice([1e-3, .05, .5]))
        if rng.random() < .5:
            o["solver_reg"] = float(rng.choice([1e-3, .05, .5]))
    elif o["rho"] == 0. and kind != "newsvendor":
        o["rho"] = .05
    if kind in ("logistic", "linreg"):
        o["fit_intercept"] = bool(rng.random() < .6)
    if kind == "portfolio":
        o["eta"] = float(rng.choice([0., .5, 2.]))
        o["alpha"] = float(rng.choice([.02, .1, .5, .95, 1.]))
    return o
