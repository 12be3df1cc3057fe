"""C21: the dedicated portfolio solver returns the robust mean-risk optimum (certificate)."""
import math

import cvxpy as cp
import numpy as np

from vp import est, gen

RULE = ("the solver and the estimator are run on random return samples, radii, risk parameters, "
        "ground norms and polyhedral supports; the returned weights, threshold and dual variable "
        "are fed to an independent worst-case expectation (the transport problem itself) and an "
        "independent programme looks for a better decision; non-trivial when an optimum was "
        "judged")
REQUIRED = ["simplex", "worst_case", "optimum", "radius_order", "support", "support_order",
            "estimator", "norm_1", "norm_2", "norm_inf", "no_risk", "zero_radius",
            "dual_variable"]
TOL = 2e-4


def cases(tier, seed):
    n = 64 if tier == "quick" else 640
    return [{"kind": ["free", "support", "estimator", "free"][k % 4], "k": k} for k in range(n)]


def pieces(eta, alpha):
    """Slopes in the portfolio return and in the threshold of the two loss pieces."""
    return [(-1., eta), (-1. - eta / alpha, eta * (1. - 1. / alpha))]


def dual_order(p):
    return math.inf if p == 1 else 1. if math.isinf(p) else p / (p - 1.)


def free_value(theta, tau, X, eta, alpha, rho, p):
    """Worst-case objective without support constraint, closed form."""
    r = X @ theta
    loss = np.max([a * r + b * tau for a, b in pieces(eta, alpha)], axis=0)
    return loss.mean() + rho * (1. + eta / alpha) * np.linalg.norm(theta, dual_order(p))


def free_optimum(X, eta, alpha, rho, p):
    m = X.shape[1]
    th, tau = cp.Variable(m, nonneg=True), cp.Variable()
    r = X @ th
    loss = cp.maximum(*[a * r + b * tau for a, b in pieces(eta, alpha)])
    q = dual_order(p)
    obj = cp.sum(loss) / len(X) + rho * (1. + eta / alpha) * cp.norm(
        th, "inf" if math.isinf(q) else q)
    pb = cp.Problem(cp.Minimize(obj), [cp.sum(th) == 1, cp.abs(tau) <= 1e4])
    pb.solve(solver="CLARABEL")
    return pb.value


def worst_case(theta, tau, X, eta, alpha, rho, p, C=None, d=None):
    """Worst expected loss over the transport ball: the adversary's own problem."""
    N, m = X.shape
    ab = pieces(eta, alpha)
    w = cp.Variable((N, 2), nonneg=True)
    q = [cp.Variable((N, m)) for _ in ab]
    cons = [cp.sum(w, axis=1) == 1]
    value, moved = 0., 0.
    for k, (a, b) in enumerate(ab):
        value = value + cp.sum(cp.multiply(w[:, k], b * tau + a * (X @ theta))) \
            + a * cp.sum(q[k] @ theta)
        moved = moved + cp.sum(cp.norm(q[k], "inf" if math.isinf(p) else p, axis=1))
        if C is not None:
            # points X + q / w must satisfy C . <= d
            cons.append(cp.multiply(cp.reshape(w[:, k], (N, 1), order="C")
                                    @ np.ones((1, len(d))), X @ C.T - d[None]) + q[k] @ C.T <= 0)
    cons.append(moved / N <= rho)
    pb = cp.Problem(cp.Maximize(value / N), cons)
    pb.solve(solver="CLARABEL")
    return pb.value


def judge(mon, rng, X, eta, alpha, rho, p, theta, tau, lam, value, C=None, d=None):
    N, m = X.shape
    theta = np.asarray(theta, float)
    if not mon.check(theta.shape == (m,), "there is not one weight per asset", got=theta.shape):
        return None
    mon.check((theta >= -1e-6).all() and abs(theta.sum() - 1.) <= 1e-6,
              "the weights are not on the simplex", theta=theta)
    mon.saw("simplex")
    tau, lam, value = (float(np.ravel(v)[0]) for v in (tau, lam, value))
    scale = 1. + abs(value) + np.abs(X).max()
    info = dict(eta=eta, alpha=alpha, rho=rho, p=p)
    mon.check(lam >= -1e-6, "the dual variable is negative", lam=lam)
    if C is None:
        at = free_value(theta, tau, X, eta, alpha, rho, p)
        mon.close(value, at, TOL * scale,
                  "the reported value is not the worst case of the decision", **info)
        if rho > 1e-3:
            need = (1. + eta / alpha) * np.linalg.norm(theta, dual_order(p))
            mon.close(lam * rho, need * rho, TOL * scale * 5.,
                      "the dual variable is not the sensitivity to the radius", **info)
            mon.saw("dual_variable")
        best = free_optimum(X, eta, alpha, rho, p)
        if best is not None:
            mon.check(at <= best + TOL * scale, "the returned decision is not optimal", at=at,
                      best=best, **info)
            mon.close(value, best, TOL * scale, "the reported value is not the optimum", **info)
            mon.saw("optimum")
    if N <= 8:
        wc = worst_case(theta, tau, X, eta, alpha, rho, p, C, d)
        if wc is not None and np.isfinite(wc):
            mon.close(value, wc, 5 * TOL * scale,
                      "the reported value is not the adversary's best", support=C is not None,
                      **info)
            mon.saw("worst_case")
            if C is not None:
                for _ in range(4):
                    t2 = rng.dirichlet(np.ones(m)) if rng.random() < .5 else np.maximum(
                        theta + rng.normal(size=m) * .1, 1e-9)
                    t2 = t2 / t2.sum()
                    u2 = tau + rng.normal() * rng.choice([.05, .5])
                    w2 = worst_case(t2, u2, X, eta, alpha, rho, p, C, d)
                    if w2 is not None and np.isfinite(w2):
                        mon.check(w2 >= value - 5 * TOL * scale,
                                  "a better decision exists", found=w2, value=value, **info)
                mon.saw("optimum")
    mon.saw("norm_inf" if math.isinf(p) else "norm_%d" % p)
    if eta == 0:
        mon.saw("no_risk")
    if rho == 0:
        mon.saw("zero_radius")
    return value


def run(case, mon, rng):
    from skwdro.solvers.specific_solvers import WDROPortfolioSpecificSolver as solver
    small = rng.random() < .5 or case["kind"] == "support"
    N, m = int(rng.integers(1, 7)) if small else gen.size(rng, 1, 30, 120), gen.size(rng, 1, 5, 15, .05)
    X = rng.normal(size=(N, m)) * rng.choice([.1, 1.]) + rng.normal(size=m) * .3
    eta = float(rng.choice([0., .3, 1., 5.]))
    alpha = float(rng.choice([.05, .3, .8, .95, 1.]))
    rho = float(rng.choice([0., .01, .1, .5, 2.]))
    p = float(rng.choice([1., 2., math.inf]))
    C = d = None
    if case["kind"] == "support":
        k = int(rng.integers(1, 4))
        if rng.random() < .5:
            C = np.vstack([np.eye(m), -np.eye(m)])
            d = np.concatenate([X.max(axis=0) + .2, -X.min(axis=0) + .2])
        else:
            C = rng.normal(size=(k, m))
            d = (X @ C.T).max(axis=0) + rng.uniform(.05, 1., size=k)
    none = dict(C=np.zeros((1, m)), d=np.zeros((1, 1)))
    if case["kind"] == "estimator":
        cost = "t-NC-1-" + ("inf" if math.isinf(p) else "%d" % p)
        e = est.make("portfolio", rho=rho, eta=eta, alpha=alpha, cost=cost, solver="dedicated")
        with mon.under_test("fitting the dedicated portfolio"):
            e.fit(X)
        judge(mon, rng, X, eta, alpha, rho, p, e.coef_, e.tau_, e.dual_var_, e.result_)
        mon.saw("estimator")
        mon.nontrivial("e", e.coef_, rho)
        if rng.random() < .5:
            C = np.vstack([np.eye(m), -np.eye(m)])
            d = np.concatenate([X.max(axis=0) + .2, -X.min(axis=0) + .2])
            e2 = est.make("portfolio", rho=rho, eta=eta, alpha=alpha, cost=cost, C=C, d=d,
                          solver="dedicated")
            with mon.under_test("fitting the dedicated portfolio"):
                e2.fit(X)
            judge(mon, rng, X, eta, alpha, rho, p, e2.coef_, e2.tau_, e2.dual_var_, e2.result_,
                  C, d)
        return
    kw = dict(m=m, p=p, eta=eta, alpha=alpha, samples=X)
    with mon.under_test("the dedicated portfolio solver"):
        r = solver(rho=rho, **kw, **none)
    v = judge(mon, rng, X, eta, alpha, rho, p, r.coef, r.intercept, r.dual_var, r.robust_loss)
    if v is None:
        return
    tol = 5 * TOL * (1. + abs(v) + np.abs(X).max())
    if case["kind"] == "support":
        with mon.under_test("the dedicated portfolio solver"):
            s = solver(rho=rho, C=C, d=d, **kw)
        vs = judge(mon, rng, X, eta, alpha, rho, p, s.coef, s.intercept, s.dual_var,
                   s.robust_loss, C, d)
        mon.saw("support")
        if vs is not None:
            mon.check(vs <= v + tol, "a support constraint increases the worst case", free=v,
                      constrained=vs)
            mon.saw("support_order")
    with mon.under_test("the dedicated portfolio solver"):
        r2 = solver(rho=rho + float(rng.uniform(.05, 1.)), **kw, **none)
    mon.check(float(r2.robust_loss) >= v - tol, "the optimal value decreases with the radius",
              small=v, large=r2.robust_loss)
    mon.saw("radius_order")
    mon.nontrivial(case["kind"], r.coef, rho)
