"""C18: fitting and predicting do not alter data or options (state sanitizer)."""
import copy
import pickle

import numpy as np
from sklearn.base import clone

from vp import est
from vp.core import Skip

RULE = ("every estimator and solver is fitted, asked for predictions, evaluations and scores on "
        "arrays of several layouts and types; arrays and options are snapshotted around every "
        "call, and clones, pickles and deep copies are compared with the original; non-trivial "
        "when the estimator was fitted")
REQUIRED = ["arrays_checked", "options_checked", "returned_self", "clones", "pickles",
            "read_only", "fortran", "float32", "integers", "lists", "non_contiguous",
            "predictions", "default_schedule", "omitted_options"] + ["est_" + k for k in est.KINDS]
MAX_SKIPPED = .4
LAYOUTS = ["float64", "fortran", "float32", "integers", "read_only", "lists", "non_contiguous"]


def cases(tier, seed):
    n = 14 if tier == "quick" else 140
    return [{"kind": "fit", "est": e, "solver": est.SOLVERS[e][(k // 7) % len(est.SOLVERS[e])],
             "layout": LAYOUTS[k % 7]} for k in range(n) for e in est.KINDS] + \
        [{"kind": "fit", "est": e, "solver": s, "layout": LAYOUTS[k % 7]}
         for k in range(n // 7) for e in est.KINDS for s in est.SOLVERS[e]]


def layout(a, how, mon):
    if a is None:
        return None
    mon.saw(how)
    a = np.array(a, dtype=float)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "float32":
        return a.astype(np.float32)
    if how == "integers":
        return np.round(a * 4).astype(np.int64)
    if how == "read_only":
        a.flags.writeable = False
        return a
    if how == "lists":
        return a.tolist()
    if how == "non_contiguous":
        big = np.zeros(tuple(2 * k for k in a.shape))
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    return a


RULE_OPTIONS = ("order", "tol_theta", "tol_lambda", "monitoring", "mode", "metric", "verbose")


def options(e):
    out = {}
    for k, v in e.get_params(deep=False).items():
        if k == "opt_cond" and v is not None:
            v = tuple((a, getattr(v, a)) for a in RULE_OPTIONS if hasattr(v, a))
        out[k] = copy.deepcopy(v)
    return out


def same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b and (a is None) == (b is None)


def same_options(mon, a, b, what, **detail):
    for k in a:
        mon.check(k in b and same_value(a[k], b[k]), what, option=k, before=str(a[k])[:80],
                  after=str(b.get(k))[:80], **detail)
    mon.saw("options_checked")


class Guard:
    """Snapshot of the caller's arrays and the estimator's options around calls."""

    def __init__(self, mon, e, arrays, name):
        self.mon, self.e, self.name = mon, e, name
        self.arrays = [a for a in arrays if a is not None]
        self.copies = [copy.deepcopy(a) for a in self.arrays]
        self.flags = [(a.flags.writeable, a.strides, a.dtype) if isinstance(a, np.ndarray)
                      else None for a in self.arrays]
        self.options = options(e)

    def verify(self, call):
        for a, c, f in zip(self.arrays, self.copies, self.flags):
            if isinstance(a, np.ndarray):
                self.mon.check(np.array_equal(a, c), "%s changed the caller's array" % call,
                               est=self.name)
                self.mon.check((a.flags.writeable, a.strides, a.dtype) == f,
                               "%s changed the layout of the caller's array" % call)
            else:
                self.mon.check(a == c, "%s changed the caller's list" % call, est=self.name)
            self.mon.saw("arrays_checked")
        same_options(self.mon, self.options, options(self.e), "%s changed an option" % call,
                     est=self.name)


def outputs(e, kind, X, y):
    if kind == "logistic":
        return [np.asarray(e.predict_proba(X)), np.asarray(e.predict(X)),
                np.asarray(e.score(X, y))]
    if kind == "linreg":
        return [np.asarray(e.predict(X)), np.asarray(e.score(X, y))]
    if y is None:
        return [np.asarray(e.eval(X)), np.asarray(e.score(X))]
    return [np.asarray(e.eval(X, y)), np.asarray(e.score(X, y))]


def run(case, mon, rng):
    kind, solver, how = case["est"], case["solver"], case["layout"]
    X, y = est.data(kind, rng)
    if kind == "logistic" and rng.random() < .3 and solver != "dedicated":
        X, y = est.data(kind, rng, classes=3)
    if kind == "weber" and how == "integers":
        y = y + 1.
    Xl = layout(X, how, mon)
    yl = None if y is None else (y.astype(int).tolist() if kind == "logistic" and how == "lists"
                                 else layout(y, how, mon))
    o = est.random_options(kind, rng, solver)
    if solver != "dedicated" and rng.random() < .06:   # the default schedule
        del o["n_iter"]
        mon.saw("default_schedule")
    for k in [k for k in ("cost", "n_zeta_samples", "random_state", "fit_intercept", "eta",
                          "alpha") if k in o and rng.random() < .15]:
        del o[k]
        mon.saw("omitted_options")
    if rng.random() < .3:
        o["rho"] = [1, np.float64(.25), np.float32(.25), 2][int(rng.integers(4))]
    if solver != "dedicated" and rng.random() < .4:
        o["opt_cond"] = None
    elif solver != "dedicated" and rng.random() < .6:
        from skwdro.solvers.optim_cond import OptCondTorch
        o["opt_cond"] = OptCondTorch(
            2, 1e-3, 1e-3, metric=str(rng.choice(["grad", "param"])),
            monitoring=str(rng.choice(["theta", "lambda", "both", "one"])))
    if kind == "portfolio" and solver == "dedicated" and rng.random() < .5:
        o["C"] = np.vstack([np.eye(X.shape[1]), -np.eye(X.shape[1])])
        o["d"] = np.full((2 * X.shape[1],), 50.)
    with mon.under_test("constructing an estimator"):
        e = est.make(kind, **o)
    given = {k: v for k, v in o.items() if k != "opt_cond"}
    got = e.get_params(deep=False)
    for k, v in given.items():
        mon.check(same_value(got[k], v), "an option differs from what was given", option=k)
    g = Guard(mon, e, [Xl, yl] + [v for v in o.values() if isinstance(v, np.ndarray)],
              "%s/%s" % (kind, solver))
    rule = e.opt_cond if hasattr(e, "opt_cond") else None
    unfitted = clone(e)
    same_options(mon, options(e), options(unfitted), "a clone has other options", est=kind)
    try:
        r = est.fit(e, Xl, yl)
    except RuntimeError as err:
        if "overflow" in str(err):
            raise Skip("the optimizer overflowed")
        raise
    mon.check(r is e, "fit does not return the estimator", est=kind)
    mon.saw("returned_self")
    g.verify("fit")
    if hasattr(e, "opt_cond"):
        mon.check(e.opt_cond is rule, "fit replaced the stopping rule", est=kind)
    if not np.isfinite(np.asarray(e.coef_, dtype=float)).all():
        raise Skip("diverged")
    with mon.under_test("predicting or scoring"):
        outs = outputs(e, kind, Xl, yl)
    if not all(np.isfinite(v.astype(float)).all() for v in outs if v.dtype.kind == "f"):
        raise Skip("diverged")
    g.verify("prediction")
    mon.saw("predictions")
    again = outputs(e, kind, Xl, yl)
    for a, b in zip(outs, again):
        mon.check(np.array_equal(a, b), "predicting twice gave two answers", est=kind)
    with mon.under_test("cloning"):
        c = clone(e)
    same_options(mon, options(e), options(c), "a clone has other options", est=kind)
    mon.check(not hasattr(c, "coef_"), "a clone is fitted")
    mon.saw("clones")
    for what, fn in (("pickle", lambda: pickle.loads(pickle.dumps(e))),
                     ("deep copy", lambda: copy.deepcopy(e))):
        try:
            p = fn()
        except RuntimeError as err:
            if kind == "portfolio" and "parametrized" in str(err):
                mon.check(False, "a fitted entropic portfolio cannot be pickled", solver=solver)
                continue
            raise
        same_options(mon, options(e), options(p), "a %s has other options" % what, est=kind)
        with mon.under_test("predicting from a " + what):
            po = outputs(p, kind, Xl, yl)
        for a, b in zip(outs, po):
            mon.check(np.array_equal(a, b), "a %s predicts differently" % what, est=kind,
                      solver=solver)
    mon.saw("pickles")
    g.verify("copying")
    mon.saw("est_" + kind)
    mon.nontrivial(kind, solver, how, outs[0].reshape(-1)[:3].astype(str).tolist())
