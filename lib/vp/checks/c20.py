"""C20: the dedicated regression solver returns the robust regression optimum (certificate monitor)."""
import numpy as np
from scipy.optimize import minimize_scalar

from vp import est, gen

RULE = ("the solver and the estimator are run on random regression data (noisy, offset, badly "
        "scaled, wide, collinear); the returned point is compared with the best point of the "
        "ridge path, which contains the optimum; non-trivial when an optimum was certified")
REQUIRED = ["certified", "no_intercept", "with_intercept", "estimator", "zero_model",
            "radius_order", "omitted", "nonzero_model", "value_order", "offset_data"]
TOL = 1e-5


def cases(tier, seed):
    n = 120 if tier == "quick" else 1500
    return [{"kind": "solver" if k % 2 else "estimator", "k": k} for k in range(n)]


def primal(X, y, b, c, rho):
    return np.linalg.norm(X @ b + c - y) / np.sqrt(len(y)) + rho * np.linalg.norm(b)


def optimum(X, y, rho, icpt):
    """Least objective along the ridge path, which carries the optimum for every radius."""
    n = len(y)
    Xc, yc = (X - X.mean(axis=0), y - y.mean()) if icpt else (X, y)
    U, s, Vt = np.linalg.svd(Xc, full_matrices=False)
    Uy = U.T @ yc

    def value(logt):
        w = s * Uy / (s * s + np.exp(logt))
        return primal(Xc, yc, Vt.T @ w, 0., rho)
    grid = np.linspace(np.log(1e-12), np.log(1e10), 240)
    vals = [value(t) for t in grid]
    k = int(np.argmin(vals))
    r = minimize_scalar(value, bounds=(grid[max(k - 1, 0)], grid[min(k + 1, 239)]),
                        method="bounded", options={"xatol": 1e-9})
    return min(r.fun, min(vals), primal(Xc, yc, np.zeros(X.shape[1]), 0., rho))


def problem(rng, mon):
    m, d = gen.size(rng, 4, 40, 200), gen.size(rng, 1, 6, 20)
    X = rng.normal(size=(m, d))
    style = str(rng.choice(["plain", "scaled", "offset", "collinear"]))
    if style == "scaled":
        X = X * np.exp(rng.normal(size=d))
    if style == "offset":
        X = X + rng.normal(size=d) * 2.
    if style == "collinear" and d > 1:
        X[:, 1] = X[:, 0] + 1e-3 * rng.normal(size=m)
    y = X @ rng.normal(size=d) + rng.choice([.2, 1., 3.]) * rng.normal(size=m)
    if rng.random() < .6:
        y = y + rng.normal() * 3.
        mon.saw("offset_data")
    return X, y


def judge(mon, X, y, rho, icpt, coef, b, who):
    n, d = X.shape
    coef = np.asarray(coef, float)
    mon.check(coef.shape == (d,), "the coefficients do not have one entry per feature",
              got=coef.shape)
    c = float(np.ravel(b)[0])
    if icpt:
        mon.saw("with_intercept")
    else:
        mon.check(abs(c) <= 1e-6 * (1. + np.abs(y).max()),
                  "there is an intercept although none was asked for", got=c)
        c = 0.
        mon.saw("no_intercept")
    p = primal(X, y, coef, c, rho)
    best = optimum(X, y, rho, icpt)
    mon.check(p <= best + TOL * (1. + best), "the returned point is not optimal", who=who,
              value=p, best=best, rho=rho, icpt=icpt)
    mon.saw("certified")
    mon.saw("zero_model" if np.linalg.norm(coef) < 1e-4 else "nonzero_model")
    return p


def run(case, mon, rng):
    from skwdro.solvers.specific_solvers import WDROLinRegSpecificSolver as solver
    X, y = problem(rng, mon)
    omit = case["kind"] != "estimator" and rng.random() < .2
    icpt = bool(rng.random() < .55) and not omit
    centred = y - y.mean() if icpt else y
    big = np.linalg.norm(X.T @ centred) / np.sqrt(len(y)) / max(np.linalg.norm(centred), 1e-12)
    rho = float(rng.choice([1e-3, .01, .1, .3, 1.])) * float(rng.uniform(.5, 1.5))
    if rng.random() < .25:
        rho = float(big * rng.uniform(1.05, 2.))
    if case["kind"] == "estimator":
        e = est.make("linreg", rho=rho, solver="dedicated", fit_intercept=icpt)
        with mon.under_test("fitting the dedicated regressor"):
            e.fit(X, y)
        v = judge(mon, X, y, rho, icpt, e.coef_, e.intercept_, "estimator")
        mon.saw("estimator")
        mon.nontrivial("e", e.coef_, rho)
    else:
        kw = {"rho": rho, "fit_intercept": icpt}
        if omit:   # the defaults
            rho, kw = 1., {}
            mon.saw("omitted")
        with mon.under_test("the dedicated regression solver"):
            r = solver(X=X, y=y, **kw)
        v = judge(mon, X, y, rho, icpt, r.coef, r.intercept, "solver")
        mon.nontrivial("s", r.coef, rho)
        with mon.under_test("the dedicated regression solver"):
            r2 = solver(rho=rho * 2., X=X, y=y, fit_intercept=icpt)
        v2 = judge(mon, X, y, 2. * rho, icpt, r2.coef, r2.intercept, "solver")
        mon.check(v2 >= v - TOL * (1. + v), "the optimal value decreases with the radius",
                  small=v, large=v2)
        mon.saw("radius_order")
        mon.check(np.linalg.norm(r2.coef) <= np.linalg.norm(r.coef) + 2e-2 * (
            1. + np.linalg.norm(r.coef)), "the coefficients grow with the radius",
            small=np.linalg.norm(r.coef), large=np.linalg.norm(r2.coef))
        mon.saw("value_order")
    if rho > 1.02 * big:
        coef = e.coef_ if case["kind"] == "estimator" else r.coef
        mon.check(np.linalg.norm(coef) * rho <= 1e-2 * (1. + v),
                  "the coefficients do not vanish at a large radius", rho=rho, threshold=big)
