"""C41: ordinary fits at a small radius stay close to the empirical optimum (certificate)."""
import numpy as np

from vp import est
from vp.core import Skip

RULE = ("every estimator is fitted with its default options and a small radius on ordinary, "
        "well-scaled data; the empirical loss of the fitted model is compared with the empirical "
        "optimum found independently, on a scale where one is the loss of doing nothing; a miss "
        "counts when two of three seeds miss; non-trivial when the fit was judged")
REQUIRED = ["est_" + k for k in est.KINDS] + ["dedicated", "entropic_torch",
                                              "entropic_torch_post", "larger_data"]
# L-BFGS without line search may leave the optimum in the robust steps of these
PRESAMPLED = {k: ("entropic_torch_pre",) for k in est.KINDS}
PRESAMPLED["newsvendor"] += ("entropic_torch",)
ALLOWED = {"linreg": .05, "logistic": .05, "newsvendor": .15, "portfolio": .2, "weber": .02}


def cases(tier, seed):
    n = 2 if tier == "quick" else 8
    return [{"kind": "fit", "est": k, "solver": s} for _ in range(n) for k in est.KINDS
            for s in est.SOLVERS[k] if s not in PRESAMPLED[k]]


def excess(kind, e, X, y):
    """Empirical loss above the optimum, relative to that of a model that does nothing."""
    from scipy.optimize import linprog, minimize
    if kind == "linreg":
        A = np.hstack([X, np.ones((len(X), 1))])
        b = np.linalg.lstsq(A, y, rcond=None)[0]
        best, idle = ((A @ b - y) ** 2).mean(), (y ** 2).mean()
        return (((e.predict(X) - y) ** 2).mean() - best) / (idle - best)
    if kind == "logistic":
        return float((np.ravel(e.predict(X)) != y).mean())
    if kind == "newsvendor":
        x = X.ravel()

        def f(t):
            return (e.k * t - e.u * np.minimum(t, x)).mean()
        best = min(f(t) for t in x)
        return (f(float(np.ravel(e.coef_)[0])) - best) / -best
    if kind == "weber":
        def f(p):
            return (y * np.linalg.norm(X - p, axis=1)).mean()
        best = min([minimize(f, X.mean(0), method="Nelder-Mead").fun] + [f(p) for p in X])
        return (f(np.ravel(e.coef_)) - best) / best
    N, d = X.shape

    def f(w):
        r = X @ w
        return min(-r.mean() + e.eta * (t + np.maximum(-r - t, 0.).mean() / e.alpha) for t in -r)
    # weights, quantile, one excess per scenario
    c = np.concatenate([-X.mean(0), [e.eta], np.full(N, e.eta / e.alpha / N)])
    r = linprog(c, A_ub=np.hstack([-X, -np.ones((N, 1)), -np.eye(N)]), b_ub=np.zeros(N),
                A_eq=np.array([[1.] * d + [0.] * (N + 1)]), b_eq=[1.],
                bounds=[(0., None)] * d + [(None, None)] + [(0., None)] * N)
    idle = np.mean([f(w) for w in np.eye(d)])
    if r.status != 0 or idle - r.fun < .05:
        raise Skip("every portfolio is about as good")
    return (f(np.ravel(e.coef_)) - r.fun) / (idle - r.fun)


def run(case, mon, rng):
    kind, solver = case["est"], case["solver"]
    big = rng.random() < .15
    m = int(rng.integers(100, 300)) if big else int(rng.integers(30, 60))
    d = int(rng.integers(2, 5))
    X, y = est.data(kind, rng, m=m, d=d)
    if kind == "logistic":   # two separated clouds
        w = rng.normal(size=d)
        w /= np.linalg.norm(w)
        y = np.where(X @ w > 0, 1., -1.)
        if len(set(y)) == 1:
            raise Skip("one class")
        X = X + .8 * y[:, None] * w
    if kind == "newsvendor" and case["solver"] == "dedicated":
        X = X + .5
    rho = float(rng.choice([.003, .01, .03]))
    worst = []
    for turn in range(3):
        e = est.make(kind, rho=rho, solver=solver, random_state=int(rng.integers(10000)))
        with mon.under_test("fitting with default options"):
            est.fit(e, X, y)
        finite = np.isfinite(np.asarray(e.coef_, dtype=float)).all()
        v = excess(kind, e, X, y) if finite else float("inf")
        worst.append(v)
        if v <= ALLOWED[kind]:
            break
        if turn == 1 and solver == "dedicated":
            break
    bad = sum(not v <= ALLOWED[kind] for v in worst)
    mon.check(bad < 2, "a default fit is far from the empirical optimum", est=kind, solver=solver,
              rho=rho, m=m, d=d, excess=worst, allowed=ALLOWED[kind])
    mon.saw("est_" + kind)
    mon.saw(solver)
    if big:
        mon.saw("larger_data")
    mon.nontrivial(kind, solver, rho, worst[0])
