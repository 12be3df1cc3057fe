"""C38: scikit-learn's tools drive the estimators faithfully (metamorphic monitor)."""
import numpy as np

from vp import est
from vp.core import Skip

RULE = ("cross-validation, grid search, pipelines, set_params, one-versus-rest and bagging tools "
        "of scikit-learn are run over every estimator and solver; scores, choices and predictions "
        "are compared with loops written by hand over newly constructed estimators; non-trivial "
        "when a tool was compared")
TOOLS = ["cross_val", "grid", "pipeline", "set_params", "predictions", "meta"]
REQUIRED = TOOLS + ["est_%s_%s" % (k, s) for k in est.KINDS for s in est.SOLVERS[k]] + [
    "folds", "candidates", "refitted"]
MAX_SKIPPED = .35


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    return [{"est": k, "solver": s, "tool": t} for _ in range(n) for k in est.KINDS
            for s in est.SOLVERS[k] for t in TOOLS
            if k in ("logistic", "linreg") or t in ("cross_val", "grid", "set_params")]


def new_fit(kind, o, X, y, mon):
    e = est.make(kind, **o)
    with mon.under_test("fitting"):
        try:
            est.fit(e, X, y)
        except RuntimeError as err:
            if "overflow" in str(err):
                raise Skip("the optimizer overflowed")
            raise
    if not np.all(np.isfinite(np.asarray(e.coef_, float))):
        raise Skip("the fit diverged")
    return e


def score(kind, e, X, y, mon):
    """Documented scores, written by hand where scikit-learn defines them."""
    with mon.under_test("scoring"):
        if kind == "logistic":
            return float(np.mean(np.asarray(e.predict(X)) == y))
        if kind == "linreg":
            p = np.asarray(e.predict(X)).reshape(-1)
            return 1. - ((y - p) ** 2).sum() / ((y - y.mean()) ** 2).sum()
        return float(e.score(X) if y is None else e.score(X, y))


def pick(a, i):
    return None if a is None else a[i]


def sizes(m, folds):
    """Consecutive folds, as documented for KFold."""
    cut = np.full(folds, m // folds)
    cut[:m % folds] += 1
    edge = np.concatenate([[0], np.cumsum(cut)])
    return [np.arange(edge[k], edge[k + 1]) for k in range(folds)]


def hand(kind, o, X, y, folds, mon):
    out = []
    for test in sizes(len(X), folds):
        train = np.setdiff1d(np.arange(len(X)), test)
        e = new_fit(kind, o, X[train], pick(y, train), mon)
        out.append(score(kind, e, X[test], pick(y, test), mon))
        mon.saw("folds")
    return np.array(out)


def tool(mon, what, f):
    with mon.under_test(what):
        try:
            return f()
        except RuntimeError as err:
            if "overflow" in str(err):
                raise Skip("the optimizer overflowed")
            raise


def agree(mon, got, want, what, info, tol=1e-5):
    want = np.asarray(want, float)
    if not np.all(np.isfinite(want)):
        raise Skip("the fits diverged")
    mon.close(np.asarray(got, float), want, tol * (1. + np.abs(want)), what, **info)


def run(case, mon, rng):
    from sklearn import model_selection as ms
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import StandardScaler
    kind, solver, t = case["est"], case["solver"], case["tool"]
    # folds of consecutive points, every one with all classes
    m = 12 if kind != "newsvendor" else int(rng.integers(9, 16))
    X, y = est.data(kind, rng, m=m)
    if kind == "logistic":
        # alternating labels, so that every fold holds both classes
        order = np.argsort(y, kind="stable").reshape(2, -1).T.reshape(-1)
        X, y = X[order], y[order]
    o = est.random_options(kind, rng, solver)
    o.pop("learning_rate", None)
    folds = int(rng.choice([2, 3]))
    if kind == "portfolio" and solver == "dedicated" and rng.random() < .6:
        est.polyhedron(o, X, rng)
    info = dict(est=kind, solver=solver, tool=t, options={k: str(v) for k, v in o.items()})
    kf = ms.KFold(folds)
    args = (X,) if y is None else (X, y)
    if t == "cross_val":
        want = hand(kind, o, X, y, folds, mon)
        got = tool(mon, "cross-validating",
                   lambda: ms.cross_val_score(est.make(kind, **o), *args, cv=kf,
                                              error_score="raise"))
        agree(mon, got, want, "cross-validated scores", info)
    elif t == "grid":
        rhos = [float(r) for r in rng.choice([.01, .1, .4, 1., 2.], size=2, replace=False)]
        want = np.array([hand(kind, dict(o, rho=r), X, y, folds, mon).mean() for r in rhos])
        g = tool(mon, "searching a grid", lambda: ms.GridSearchCV(
            est.make(kind, **o), {"rho": rhos}, cv=kf, error_score="raise").fit(*args))
        agree(mon, g.cv_results_["mean_test_score"], want, "scores of the grid", info)
        mon.saw("candidates", len(rhos))
        if abs(want[0] - want[1]) > 1e-4 * (1. + np.abs(want).max()):
            mon.check(g.best_params_ == {"rho": rhos[int(np.argmax(want))]},
                      "another candidate was chosen", **info)
        best = new_fit(kind, dict(o, rho=g.best_params_["rho"]), X, y, mon)
        agree(mon, np.asarray(g.best_estimator_.coef_).reshape(-1),
              np.asarray(best.coef_, float).reshape(-1), "refitted parameters", info)
        mon.saw("refitted")
        if kind in ("logistic", "linreg"):
            agree(mon, g.predict(X), best.predict(X), "predictions of the refitted estimator", info)
    elif t == "pipeline":
        rho = float(rng.choice([.01, .2, 1.]))
        pipe = Pipeline([("scale", StandardScaler()), ("e", est.make(kind, **o))])
        tool(mon, "fitting a pipeline", lambda: pipe.set_params(e__rho=rho).fit(X, y))
        Z = (X - X.mean(0)) / X.std(0)
        e = new_fit(kind, dict(o, rho=rho), Z, y, mon)
        tol = 1e-4 if solver == "dedicated" else 1e-3
        a, b = pipe.named_steps["e"].coef_, e.coef_
        agree(mon, np.asarray(a).reshape(-1), np.asarray(b, float).reshape(-1),
              "parameters fitted in a pipeline", info, tol)
        Q = rng.normal(size=(5, X.shape[1])) + X.mean(0)
        lin = ((Q - X.mean(0)) / X.std(0)) @ np.asarray(b, float).reshape(-1) \
            + np.asarray(e.intercept_ if e.intercept_ is not None else 0., float).reshape(-1)
        got = np.asarray(pipe.predict(Q))
        if kind == "linreg":
            agree(mon, got, lin, "predictions of the pipeline", info,
                  tol * (1. + float(np.abs(b).sum())))
        else:
            sure = np.abs(lin) > 1e-2
            mon.check(np.array_equal(got[sure], np.sign(lin[sure])),
                      "predictions of the pipeline", **info)
    elif t == "set_params":
        other = est.random_options(kind, rng, solver)
        e = est.make(kind, **other)
        if rng.random() < .5:
            new_fit(kind, other, X, y, mon)
            tool(mon, "fitting", lambda: est.fit(e, X, y))
        merged = dict(other, **o)
        with mon.under_test("setting options"):
            back = e.set_params(**o)
        mon.check(back is e, "set_params does not return the estimator", **info)
        tool(mon, "fitting after setting options", lambda: est.fit(e, X, y))
        f = new_fit(kind, merged, X, y, mon)
        agree(mon, np.asarray(e.coef_).reshape(-1), np.asarray(f.coef_, float).reshape(-1),
              "options set later give another fit", info)
        mon.raises(lambda: e.set_params(no_such_option=1), "an unknown option is accepted",
                   types=(ValueError,), **info)
    elif t == "predictions":
        want = []
        for test in sizes(m, folds):
            train = np.setdiff1d(np.arange(m), test)
            want.append(np.asarray(new_fit(kind, o, X[train], y[train], mon).predict(X[test])))
            mon.saw("folds")
        got = tool(mon, "predicting out of fold",
                   lambda: ms.cross_val_predict(est.make(kind, **o), X, y, cv=kf))
        want = np.concatenate(want)
        if kind == "linreg":
            agree(mon, got, want, "out-of-fold predictions", info)
        else:
            mon.check(np.mean(np.asarray(got) == want) == 1., "out-of-fold predictions", **info)
    else:
        meta(kind, o, X, y, rng, mon, info)
    mon.saw(t)
    mon.saw("est_%s_%s" % (kind, solver))
    mon.nontrivial(kind, solver, t, X)


def meta(kind, o, X, y, rng, mon, info):
    """Tools that fit several copies of the estimator."""
    if kind == "logistic":
        from sklearn.multiclass import OneVsRestClassifier
        c = np.arange(len(X)) % 3
        X = X + rng.normal(size=(3, X.shape[1]))[c] * 2.
        ovr = tool(mon, "fitting one against the rest", lambda: OneVsRestClassifier(
            est.make(kind, **o)).fit(X, c))
        for k, e in enumerate(ovr.estimators_):
            f = new_fit(kind, o, X, (c == k).astype(int), mon)
            agree(mon, np.asarray(e.coef_).reshape(-1), np.asarray(f.coef_, float).reshape(-1),
                  "one-against-the-rest parameters", info)
        mon.check(set(np.asarray(ovr.predict(X))) <= {0, 1, 2}, "classes of one against the rest",
                  **info)
    else:
        from sklearn.ensemble import VotingRegressor
        o2 = dict(o, rho=float(rng.choice([.02, .5])))
        v = tool(mon, "fitting a vote", lambda: VotingRegressor(
            [("a", est.make(kind, **o)), ("b", est.make(kind, **o2))]).fit(X, y))
        a, b = (new_fit(kind, q, X, y, mon) for q in (o, o2))
        agree(mon, v.predict(X), (np.asarray(a.predict(X)) + np.asarray(b.predict(X))) / 2.,
              "predictions of a vote", info)
