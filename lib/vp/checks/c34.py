"""C34: invalid data and options are refused (monitor of refused calls)."""
import numpy as np

from vp import est

RULE = ("a valid call of an estimator is spoiled in one way (data, labels, options, call order) "
        "and must end in an exception, leave the arrays and options as they were, and leave an "
        "estimator that was never fitted unfitted; the unspoiled call must succeed; non-trivial "
        "when the refusal was observed and the unspoiled call worked")
FIT = ["nan_data", "inf_data", "flat_data", "cube_data", "no_samples", "no_features", "text_data",
       "unknown_solver", "numpy_solver", "unknown_cost", "bad_cost", "negative_radius",
       "text_radius", "no_radius"]
LABELS = ["short_labels", "long_labels", "nan_labels", "inf_labels", "no_labels"]
CLASSES = ["one_class", "real_labels"]
ASSETS = ["negative_eta", "zero_alpha", "large_alpha", "negative_alpha", "negative_epsilon",
          "negative_samples", "narrow_constraints", "wide_constraints"]
USE = ["unfitted", "nan_points", "inf_points", "flat_points", "no_points", "more_features",
       "fewer_features"]
REQUIRED = ["fit_" + f for f in FIT + LABELS + CLASSES + ASSETS] + ["use_" + u for u in USE] + [
    "est_" + k for k in est.KINDS] + ["still_unfitted", "arrays_kept", "options_kept", "accepted"]


def cases(tier, seed):
    out = []
    for _ in range(2 if tier == "quick" else 16):
        for k in est.KINDS:
            for s in est.SOLVERS[k]:
                how = FIT + (LABELS if k in ("logistic", "linreg", "weber") else []) + \
                    (CLASSES if k == "logistic" else []) + (ASSETS if k == "portfolio" else [])
                if s == "dedicated":   # need not use the cost
                    how = [h for h in how if "cost" not in h]
                out += [{"kind": "fit", "est": k, "solver": s, "how": h} for h in how]
                out += [{"kind": "use", "est": k, "solver": s, "how": u} for u in USE]
    return out


def spoil(how, kind, X, y, o, rng):
    i, j = int(rng.integers(X.shape[0])), int(rng.integers(X.shape[1]))
    if how in ("nan_data", "inf_data"):
        X[i, j] = np.nan if how == "nan_data" else rng.choice([-np.inf, np.inf])
    elif how == "flat_data":
        X = X[:, 0].copy()
    elif how == "cube_data":
        X = X[:, :, None].copy()
    elif how == "no_samples":
        X, y = X[:0].copy(), None if y is None else y[:0].copy()
    elif how == "no_features":
        X = X[:, :0].copy()
    elif how == "text_data":
        X = X.astype(object)
        X[i, j] = "a"
    elif how == "unknown_solver":
        o["solver"] = str(rng.choice(["entropicish", "sgd", "", "Dedicated"]))
    elif how == "numpy_solver":
        o["solver"] = "entropic"
    elif how == "unknown_cost":
        o["cost"] = str(rng.choice(["t-XX-2-2", "t-NCC-1-1", "q-NC-2-2"]))
    elif how == "bad_cost":
        o["cost"] = str(rng.choice(["foo", "t-NC-2", "t-NC-1-2-3-4-5", "t-NC-two-2"]))
    elif how == "negative_radius":
        o["rho"] = -float(rng.choice([1e-6, .1, 3.]))
    elif how == "text_radius":
        o["rho"] = str(rng.choice(["large", "a"]))
    elif how == "no_radius":
        o["rho"] = None
    elif how == "short_labels":
        y = y[:-1].copy()
    elif how == "long_labels":
        y = np.r_[y, y[:1]]
    elif how in ("nan_labels", "inf_labels"):
        y = y.astype(float)
        y[i] = np.nan if how == "nan_labels" else np.inf
    elif how == "no_labels":
        y = None
    elif how == "one_class":
        y = np.full_like(y, y[0])
    elif how == "real_labels":
        y = rng.normal(size=len(y))
    elif how == "negative_eta":
        o["eta"] = -float(rng.choice([1e-3, 1.]))
    elif how in ("zero_alpha", "large_alpha", "negative_alpha"):
        o["alpha"] = {"zero_alpha": 0., "large_alpha": float(rng.choice([1.01, 3.])),
                      "negative_alpha": -.5}[how]
    elif how == "negative_epsilon":
        o["solver_reg"] = -.1
    elif how == "negative_samples":
        o["n_zeta_samples"] = -int(rng.integers(1, 9))
    elif how in ("narrow_constraints", "wide_constraints"):
        k = X.shape[1] + (1 if how == "wide_constraints" else -1)
        o["C"], o["d"] = np.zeros((2, k)), np.zeros((2, 1))
    return X, y, o


def options(kind, solver, rng):
    o = {"solver": solver, "rho": float(rng.choice([.05, .2]))}
    if solver != "dedicated":
        o["n_iter"] = (1, 2)
        o["n_zeta_samples"] = 3
    return o


def same(a, b):
    return a is b or (type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b),
                                                            equal_nan=a.dtype.kind == "f")) \
        if isinstance(a, np.ndarray) else a is b or a == b


def methods(kind, e, X, y):
    out = [("score", lambda p, q: e.score(p) if y is None or kind == "weber" else e.score(p, q))]
    for name in ("predict", "predict_proba", "eval"):
        if hasattr(e, name):
            out.append((name, lambda p, q, n=name: getattr(e, n)(p)))
    return out


def run(case, mon, rng):
    kind, solver, how = case["est"], case["solver"], case["how"]
    d = 1 if kind == "newsvendor" else 2 if kind == "weber" else int(rng.integers(2, 4))
    X, y = est.data(kind, rng, m=int(rng.integers(4, 9)), d=d)
    o = options(kind, solver, rng)
    info = dict(est=kind, solver=solver, how=how)
    good = est.make(kind, **o)
    with mon.under_test("fitting"):
        est.fit(good, X, y)
    mon.saw("accepted")
    if case["kind"] == "fit":
        bx, by, bo = spoil(how, kind, X.copy(), None if y is None else y.copy(), dict(o), rng)
        kx, ky = np.array(bx, copy=True), None if by is None else np.array(by, copy=True)
        made = []

        def attempt():
            made.append(est.make(kind, **bo))
            if how == "negative_radius" and rng.random() < .5:
                made[0] = est.make(kind, **o).set_params(rho=bo["rho"])
            if y is None:
                return made[0].fit(bx)
            return made[0].fit(bx, by)
        mon.raises(attempt, "invalid input was accepted: " + how, **info)
        mon.saw("fit_" + how)
        ok = bx.dtype == object or np.array_equal(bx, kx, equal_nan=True)
        mon.check(ok and (by is None or np.array_equal(by, ky, equal_nan=by.dtype.kind == "f")),
                  "a refused fit changed the data", **info)
        mon.saw("arrays_kept")
        if made:
            now = made[0].get_params(deep=False)
            mon.check(all(same(now[k], v) for k, v in bo.items()),
                      "a refused fit changed the options", **info)
            mon.saw("options_kept")
            for name, call in methods(kind, made[0], X, y):
                mon.raises(lambda: call(X, y), "an estimator whose fit was refused answers",
                           method=name, **info)
                mon.saw("still_unfitted")
    else:
        e = est.make(kind, **o) if how == "unfitted" else good
        P, q = X.copy(), None if y is None else y.copy()
        if how in ("nan_points", "inf_points"):
            P[int(rng.integers(len(P))), int(rng.integers(P.shape[1]))] = \
                np.nan if how == "nan_points" else np.inf
        elif how == "flat_points":
            P = P[:, 0].copy()
        elif how == "no_points":
            P, q = P[:0].copy(), None if q is None else q[:0]
        elif how == "more_features":
            P = np.c_[P, P[:, :1]]
        elif how == "fewer_features":
            P = P[:, :-1].copy()
        if not (kind in ("newsvendor", "weber") and "features" in how):
            # (these two work with points of any dimension)
            for name, call in methods(kind, e, X, y):
                kept = P.copy()
                mon.raises(lambda: call(P, q), "invalid use was accepted: " + how, method=name,
                           **info)
                mon.check(np.array_equal(P, kept, equal_nan=True),
                          "a refused call changed the data", method=name, **info)
                mon.saw("use_" + how)
    mon.saw("est_" + kind)
    mon.nontrivial(kind, solver, how, X, o["rho"])
