"""C22: the dedicated newsvendor solver returns the robust newsvendor optimum (brute force)."""
import numpy as np

from vp import est, gen

RULE = ("the solver and the estimator are run on random demand samples (with ties, zeros, heavy "
        "tails), prices and radii from zero to beyond the mean demand; the returned order is "
        "compared with a scan over all candidate orders of the brute-force worst-case cost; "
        "non-trivial when an order was judged")
REQUIRED = ["judged", "zero_order", "positive_order", "zero_radius", "large_radius", "ties",
            "zero_demand", "estimator", "radius_order", "near_threshold", "dual_variable",
            "sample_average", "unprofitable"]


def cases(tier, seed):
    n = 160 if tier == "quick" else 2400
    return [{"kind": "solver" if k % 2 else "estimator", "k": k} for k in range(n)]


def worst(t, x, k, u, rho):
    """Largest expected cost of ordering t when a demand mass rho may be removed."""
    n = len(x)
    sold = np.minimum(t, x)
    pos = x > 0
    # pulling a unit of mass at x down to zero costs x and destroys min(t, x) sales;
    # moving part of the mass is linear, so the budget goes to the best ratios first
    eff = np.zeros(n)
    eff[pos] = np.minimum(1., t / x[pos])
    left, lost = n * rho, 0.
    for i in np.argsort(-eff, kind="stable"):
        if x[i] <= 0 or left <= 0:
            continue
        f = min(1., left / x[i])
        lost += f * sold[i]
        left -= f * x[i]
    return k * t - u * (sold.sum() - lost) / n


def scan(x, k, u, rho):
    top = x.max()
    grid = np.concatenate([[0.], np.unique(x), np.linspace(0., top * 1.3 + 1e-9, 160)])
    vals = np.array([worst(t, x, k, u, rho) for t in grid])
    return vals.min(), grid[int(vals.argmin())]


def judge(mon, x, k, u, rho, t, who):
    t = float(np.ravel(t)[0])
    mon.check(t >= -1e-7, "the order is negative", order=t, who=who)
    t = max(t, 0.)
    got = worst(t, x, k, u, rho)
    best, arg = scan(x, k, u, rho)
    tol = 1e-5 * (1. + (k + u) * x.max())
    mon.check(got <= best + tol, "the order is not optimal", who=who, order=t, cost=got,
              better=arg, best=best, rho=rho, k=k, u=u, n=len(x))
    mon.saw("judged")
    if rho == 0:
        mon.saw("zero_radius")
    mon.saw("positive_order" if t > 1e-6 else "zero_order")
    return got


def threshold(x, k, u):
    """A radius near which the optimal decision switches, by bisection on the scan."""
    lo, hi = 0., x.mean()
    if scan(x, k, u, 0.)[0] >= -1e-12:
        return None
    for _ in range(14):
        mid = .5 * (lo + hi)
        if scan(x, k, u, mid)[0] < -1e-9:
            lo = mid
        else:
            hi = mid
    return .5 * (lo + hi)


def run(case, mon, rng):
    from skwdro.solvers.specific_solvers import WDRONewsvendorSpecificSolver as solver
    n = gen.size(rng, 1, 26, 200)
    style = str(rng.choice(["exp", "ties", "zeros", "heavy", "uniform", "scaled"]))
    x = {"exp": lambda: rng.exponential(2., n), "ties": lambda: rng.integers(1, 5, n) * 1.,
         "zeros": lambda: np.where(rng.random(n) < .3, 0., rng.exponential(2., n)),
         "heavy": lambda: rng.pareto(1.5, n) + .1, "uniform": lambda: rng.uniform(5., 6., n),
         "scaled": lambda: rng.exponential(300., n)}[style]()
    if style == "ties":
        mon.saw("ties")
    if (x == 0).any():
        mon.saw("zero_demand")
    k = float(rng.choice([1., 5., 5., 8.])) * float(rng.uniform(.5, 1.5))
    u = k * float(rng.uniform(1.05, 4.)) if rng.random() < .85 else k * float(rng.uniform(.3, 1.))
    mean = x.mean()
    mode = int(rng.integers(4))
    if mode == 0:
        rho = 0.
    elif mode == 1:
        rho = mean * float(rng.uniform(0., .8))
    elif mode == 2:
        th = threshold(x, k, u)
        rho = mean * .3 if th is None else th * float(rng.choice([.9, .97, 1.03, 1.1]))
        mon.saw("near_threshold", int(th is not None))
    else:
        rho = mean * float(rng.choice([.9, 1., 1.2, 3.]))
    if rho > mean:
        mon.saw("large_radius")
    if case["kind"] == "estimator":
        e = est.make("newsvendor", rho=rho, k=k, u=u, solver="dedicated")
        with mon.under_test("fitting the dedicated newsvendor"):
            e.fit(x[:, None])
        judge(mon, x, k, u, rho, e.coef_, "estimator")
        t, lam = float(np.ravel(e.coef_)[0]), float(np.ravel(e.dual_var_)[0])
        mon.check(lam == (0. if t == 0. else u), "the dual variable is not that of the order",
                  order=t, lam=lam, u=u)
        mon.saw("dual_variable")
        mon.saw("estimator")
        mon.nontrivial("e", x[:4], rho)
        return
    kw = {"k": k, "u": u, "rho": rho}
    if rng.random() < .2:   # the defaults
        k, u, rho, kw = 5., 7., 1., {}
        mon.saw("omitted")
    with mon.under_test("the dedicated newsvendor solver"):
        r = solver(samples=x[:, None], **kw)
    c1 = judge(mon, x, k, u, rho, r.coef, "solver")
    r2rho = rho + mean * float(rng.uniform(.05, .6))
    with mon.under_test("the dedicated newsvendor solver"):
        r2 = solver(k=k, u=u, rho=r2rho, samples=x[::-1, None])
    c2 = judge(mon, x, k, u, r2rho, r2.coef, "solver")
    mon.check(c2 >= c1 - 1e-5 * (1. + (k + u) * x.max()),
              "the optimal worst case decreases with the radius", small=c1, large=c2)
    mon.saw("radius_order")
    mon.nontrivial("s", x[:4], rho)
    if k < u:
        from skwdro.solvers import specific_solvers as spec
        with mon.under_test("the sample-average newsvendor solvers"):
            a = spec.SAANewsvendorSpecificSolver(k=k, u=u, samples=x[:, None])
            b = spec.SAANewsvendorSpecificSolver2(k=k, u=u, samples=x[:, None])
        ca = judge(mon, x, k, u, 0., a.coef, "first sample-average solver")
        judge(mon, x, k, u, 0., b.coef, "second sample-average solver")
        mon.close(np.ravel(a.dual_var)[0], ca, 1e-4 * (1. + (k + u) * x.max()),
                  "the sample-average solver reports another value")
        mon.saw("sample_average")
    else:
        from skwdro.solvers import specific_solvers as spec
        with mon.under_test("the second sample-average newsvendor solver"):
            b = spec.SAANewsvendorSpecificSolver2(k=k, u=u, samples=x[:, None])
        judge(mon, x, k, u, 0., b.coef, "second sample-average solver")
        mon.saw("unprofitable")
