"""C32: radius tuning returns a model fitted at a radius it examined (event monitor)."""
import contextlib
import io
import math
import warnings

import numpy as np
from sklearn.base import BaseEstimator

from vp import est
from vp.core import Skip

RULE = ("the grid tuner runs on a scripted estimator that logs every fit and score, and on real "
        "estimators: the radius returned must be the examined power of ten that scored best, "
        "refitted on all the data; the portfolio tuner runs on random returns and its recorded "
        "intermediate quantities, radius and refitted weights are recomputed independently; "
        "non-trivial when a radius was returned")
REQUIRED = ["grid", "examined", "refitted", "real", "portfolio", "radius_formula", "gradients",
            "conjugates", "refit_checked", "refused", "norm1", "norm2", "interior_target",
            "edge_target", "general_tuner", "entropic", "dedicated", "on_quantile"]
MAX_JOBS = 4
MAX_SKIPPED = .3
LOG = []


def cases(tier, seed):
    g, r, p = (6, 2, 24) if tier == "quick" else (40, 8, 400)
    return [{"kind": "grid", "cost": 5} for _ in range(g)] + \
        [{"kind": "real", "cost": 9} for _ in range(r)] + \
        [{"kind": "portfolio"} for _ in range(p)] + [{"kind": "refused"}, {"kind": "general"}]


class Scripted(BaseEstimator):
    """Scores best at a scripted radius; logs what it was fitted on."""

    def __init__(self, rho=1e-2, solver_reg=None, target=0., tag=0):
        self.rho = rho
        self.solver_reg = solver_reg
        self.target = target
        self.tag = tag

    def fit(self, X, y):
        LOG.append((self.tag, float(self.rho), len(X)))
        self.seen_ = (np.asarray(X).copy(), np.asarray(y).copy())
        self.fitted_rho_ = float(self.rho)
        return self

    def predict(self, X):
        return np.full(len(X), self.fitted_rho_)

    def score(self, X, y):
        return -(math.log10(self.fitted_rho_) - self.target) ** 2


@contextlib.contextmanager
def quiet_dask():
    """Swallow the tuner's prints and close the scheduler it leaves behind."""
    import dask
    from distributed import default_client
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), \
            dask.config.set({"distributed.scheduler.dashboard.link": "",
                             "distributed.worker.memory.terminate": False}):
        warnings.simplefilter("ignore")
        try:
            yield
        finally:
            try:
                c = default_client()
            except ValueError:
                c = None
            if c is not None:
                cluster = c.cluster
                c.close()
                if cluster is not None:
                    cluster.close()


def grid(case, mon, rng):
    from skwdro.base.rho_tuners import RhoTunedEstimator
    lo, hi = (-4, 4) if rng.random() < .4 else sorted(
        int(v) for v in rng.choice(np.arange(-5, 6), size=2, replace=False))
    radii = [10. ** (-i) for i in range(hi, lo, -1)]
    m = int(rng.integers(60, 120))
    X, y = rng.normal(size=(m, 2)), rng.normal(size=m)
    edge = rng.random() < .5
    target = math.log10(radii[0 if rng.random() < .5 else -1]) if edge else \
        math.log10(radii[int(rng.integers(len(radii)))]) + float(rng.uniform(-.4, .4))
    mon.saw("edge_target" if edge else "interior_target")
    tag = int(rng.integers(1 << 30))
    base = Scripted(target=target, tag=tag)
    kw = {} if (lo, hi) == (-4, 4) else dict(min_power=lo, max_power=hi)
    del LOG[:]
    with quiet_dask():
        with mon.under_test("tuning the radius"):
            t = RhoTunedEstimator(base, **kw)
            out = t.fit(X, y)
    mon.check(out is t, "fit does not return the tuner")
    best = t.best_estimator_
    seen = [e for e in LOG if e[0] == tag]
    tried = sorted({r for _, r, _ in seen})
    mon.check(len(tried) == len(radii) and np.allclose(tried, sorted(radii), rtol=1e-9),
              "the radii examined are not the grid's powers of ten", got=tried, want=radii)
    mon.saw("examined", len(tried))
    mon.check(isinstance(best, Scripted), "the result is not an estimator of the wrapped kind")
    want = min(radii, key=lambda r: abs(math.log10(r) - target))
    mon.check(abs(best.rho / want - 1.) < 1e-9, "the radius returned is not the one that scored best",
              got=best.rho, want=want)
    mon.check(best.fitted_rho_ == best.rho, "the result was not fitted at its radius")
    mon.check(np.array_equal(best.seen_[0], X) and np.array_equal(best.seen_[1], y),
              "the result was not fitted on all the data", rows=len(best.seen_[0]))
    mon.check(base.rho == 1e-2 and not hasattr(base, "seen_"), "tuning altered the wrapped estimator")
    mon.saw("refitted")
    mon.saw("grid")
    mon.nontrivial("grid", best.rho, target, m)


def real(case, mon, rng):
    from skwdro.base.rho_tuners import RhoTunedEstimator
    X, y = est.data("linreg", rng, m=int(rng.integers(40, 60)), d=2)
    e = est.make("linreg", solver="dedicated")
    with quiet_dask():
        with mon.under_test("tuning the radius"):
            t = RhoTunedEstimator(e, min_power=0, max_power=3).fit(X, y)
    best = t.best_estimator_
    mon.check(type(best) is type(e), "the result is not an estimator of the wrapped kind")
    mon.check(min(abs(best.rho / r - 1.) for r in (1e-1, 1e-2, 1e-3)) < 1e-9,
              "the radius returned is not in the grid", got=best.rho)
    again = est.make("linreg", solver="dedicated", rho=best.rho).fit(X, y)
    mon.close(best.coef_, again.coef_, 1e-6 * (1. + np.abs(again.coef_).max()),
              "the result was not fitted on all the data at its radius")
    mon.saw("real")
    mon.nontrivial("real", best.rho, best.coef_)


def portfolio(case, mon, rng):
    from skwdro.base.rho_tuners import PortfolioBlanchetRhoTunedEstimator
    m, d = int(rng.integers(6, 20)), int(rng.integers(2, 5))
    X, _ = est.data("portfolio", rng, m=m, d=d)
    code = str(rng.choice(["t-NC-1-1", "t-NC-1-2"]))
    eta, alpha = float(rng.choice([.25, .5, 2.])), float(rng.choice([.1, .5, .95]))
    solver = "dedicated" if rng.random() < .7 else "entropic_torch"
    opts = dict(eta=eta, alpha=alpha, solver=solver, cost=code)
    if solver != "dedicated":
        opts.update(n_iter=(2, 10), n_zeta_samples=4)
    base = est.make("portfolio", **opts)
    np.random.seed(int(rng.integers(1 << 30)))
    Xc = X.copy()
    with mon.under_test("tuning the radius"):
        t = PortfolioBlanchetRhoTunedEstimator(base)
        try:
            out = t.fit(X, None)
        except AssertionError as err:
            if "differentiable" in str(err):
                raise Skip("a return sits exactly on the quantile")
            raise
    info = dict(code=code, solver=solver, eta=eta, alpha=alpha)
    mon.check(np.array_equal(X, Xc), "tuning altered the data")
    mon.check(out is t, "fit does not return the tuner")
    best = t.best_estimator_
    erm = est.make("portfolio", **dict(opts, rho=0. if solver == "dedicated" else .1)).fit(X)
    theta, tau = np.asarray(erm.coef_, float).reshape(-1), float(np.ravel(erm.tau_)[0])
    mon.close(np.ravel(t.theta_erm_), theta, 1e-6, "the reference decision is not the documented fit",
              **info)
    hit = (-(X @ theta) - tau > 0).astype(float)
    # either side is right for the return that sets the quantile
    unclear = np.abs(X @ theta + tau) < 1e-6
    hit = np.where(unclear, (np.asarray(t.h_samples_)[:, -1] < eta - .5 * eta / alpha), hit)
    mon.saw("on_quantile", int(unclear.sum()))
    # gradient of the mean-risk loss with respect to the weights and the quantile
    h = np.column_stack([-X * (1. + eta / alpha * hit)[:, None], eta - eta / alpha * hit])
    mon.close(t.h_samples_, h, 1e-6 * (1. + np.abs(h).max()),
              "the recorded gradients are not those of the loss", **info)
    mon.saw("gradients")
    mon.close(t.cov_matrix_, np.cov(h), 1e-6 * (1. + np.abs(np.cov(h)).max()),
              "the recorded covariance is not that of the gradients", **info)
    mon.check(len(t.normal_samples_) == m, "there are not as many samples as data points")
    q = float(code.split("-")[3])
    mon.saw("norm%d" % q)
    want = m * np.linalg.norm(t.normal_samples_, ord=q, axis=1) ** 2 / (1. + eta / alpha * hit).sum()
    mon.close(np.ravel(t.conjugate_samples_), want, 1e-5 * (1. + want.max()),
              "the recorded conjugate values are not the documented ones", **info)
    mon.saw("conjugates")
    r = math.sqrt(np.quantile(want, .95) / m)
    mon.check(best.rho >= 0., "the radius is negative")
    mon.close(float(best.rho), r, 1e-5 * (1. + r), "the radius is not the documented value", **info)
    mon.saw("radius_formula")
    again = est.make("portfolio", **dict(opts, rho=float(best.rho))).fit(X)
    mon.close(np.ravel(best.coef_), np.ravel(again.coef_), 1e-5,
              "the result was not fitted at its radius", **info)
    mon.check(best.rho_ == best.rho if hasattr(best, "rho_") else True,
              "the radius used differs from the option")
    mon.saw("refit_checked")
    mon.saw("portfolio")
    mon.saw("dedicated" if solver == "dedicated" else "entropic")
    mon.nontrivial("portfolio", code, solver, r)


def run(case, mon, rng):
    from skwdro.base import rho_tuners as rt
    if case["kind"] == "refused":
        for c in (rt.RhoTunedEstimator, rt.BlanchetRhoTunedEstimator,
                  rt.PortfolioBlanchetRhoTunedEstimator):
            mon.raises(lambda: c(None), "a missing estimator is accepted", types=(ValueError,))
            mon.saw("refused")
        mon.nontrivial("refused")
        return
    if case["kind"] == "general":
        X, y = est.data("linreg", rng, m=12, d=2)
        ok = True
        try:
            t = rt.BlanchetRhoTunedEstimator(est.make("linreg", solver="entropic_torch",
                                                      n_iter=(2, 10))).fit(X, y)
            ok = hasattr(t, "best_estimator_") and float(t.best_estimator_.rho) >= 0.
        except Exception:
            ok = False
        mon.check(ok, "the general statistical tuner cannot be fitted")
        mon.saw("general_tuner")
        mon.nontrivial("general")
        return
    {"grid": grid, "real": real, "portfolio": portfolio}[case["kind"]](case, mon, rng)
