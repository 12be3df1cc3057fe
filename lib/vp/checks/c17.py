"""C17: fits are reproducible and independent of earlier work (state monitor)."""
import copy
import random

import numpy as np
import torch as pt

from vp import est
from vp.core import Skip

RULE = ("each case fits an estimator, then disturbs the global random states, fits other "
        "estimators and the same one on other data (sharing a stopping rule), and fits again with "
        "the same data and options; everything the fit produced must be bit-equal; non-trivial "
        "when the fit moved away from the other fits")
REQUIRED = ["refits_same", "refits_fresh", "interleaved", "global_state", "shared_rule", "support", "other_classes",
            "default_rule"] + ["est_" + k for k in est.KINDS]
MAX_SKIPPED = .4
FITTED = ["coef_", "intercept_", "dual_var_", "robust_loss_", "tau_", "result_"]


def cases(tier, seed):
    n = 4 if tier == "quick" else 50
    return [{"kind": "refit", "est": e, "solver": s, "cost": 3 if s != "dedicated" else 1}
            for _ in range(n) for e in est.KINDS for s in est.SOLVERS[e]]


def produced(e, kind, X, y):
    out = {}
    for k in FITTED:
        v = getattr(e, k, None)
        if v is not None:
            try:
                out[k] = np.array(v, dtype=np.float64).reshape(-1).copy()
            except (TypeError, ValueError):
                continue
    if kind == "logistic":
        out["predictions"] = np.asarray(e.predict_proba(X), dtype=float).reshape(-1).copy()
        out["classes"] = np.asarray(e.classes_, dtype=float).copy()
        out["labels"] = np.asarray(e.predict(X), dtype=float).reshape(-1).copy()
    elif kind == "linreg":
        out["predictions"] = np.asarray(e.predict(X), dtype=float).reshape(-1).copy()
    else:
        ev = e.eval(X) if y is None else e.eval(X, y)
        out["evaluation"] = np.array([float(ev)])
    return out


def compare(mon, a, b, what, **detail):
    mon.check(sorted(a) == sorted(b), what + ": other attributes", a=sorted(a), b=sorted(b))
    for k in a:
        if k in b:
            mon.check(a[k].shape == b[k].shape and np.array_equal(a[k], b[k], equal_nan=True),
                      what, attribute=k, first=a[k][:4], second=b[k][:4], **detail)


def disturb(mon, rng):
    s = int(rng.integers(2**31))
    pt.manual_seed(s)
    np.random.seed(s % 2**31)
    random.seed(s)
    pt.rand(int(rng.integers(1, 50)))
    mon.saw("global_state")


def quiet_fit(e, X, y):
    try:
        est.fit(e, X, y)
    except RuntimeError as err:
        if "overflow" in str(err):
            raise Skip("the optimizer overflowed")
        raise
    return e


def run(case, mon, rng):
    from skwdro.solvers.optim_cond import OptCondTorch
    kind, solver = case["est"], case["solver"]
    X, y = est.data(kind, rng, classes=3 if solver != "dedicated" and rng.random() < .2 else 2)
    n_iter = (int(rng.integers(0, 10)), int(rng.integers(5, 60)))
    o = est.random_options(kind, rng, solver, n_iter=n_iter)
    if kind == "portfolio" and solver == "dedicated" and rng.random() < .6:
        est.polyhedron(o, X, rng)
        mon.saw("support")
    shared = None
    if solver != "dedicated" and rng.random() < .6:
        shared = OptCondTorch(2, float(rng.choice([.02, .2])), .05,
                              monitoring=str(rng.choice(["theta", "lambda", "one", "both"])),
                              metric=str(rng.choice(["grad", "param"])),
                              mode=str(rng.choice(["rel", "abs"])))
        o["opt_cond"] = shared
        mon.saw("shared_rule")
    else:
        mon.saw("default_rule")
    disturb(mon, rng)
    first = quiet_fit(est.make(kind, **o), X, y)
    base = produced(first, kind, X, y)
    # other work in between
    for _ in range(int(rng.integers(1, 3))):
        other = str(rng.choice(est.KINDS))
        so = str(rng.choice([s for s in est.SOLVERS[other] if s != "dedicated"]))
        oo = est.random_options(other, rng, so)
        if shared is not None and rng.random() < .7:
            oo["opt_cond"] = shared
        try:
            est.fit(est.make(other, **oo), *est.data(other, rng))
        except RuntimeError:
            pass
        mon.saw("interleaved")
    disturb(mon, rng)
    fresh = quiet_fit(est.make(kind, **o), X, y)
    compare(mon, base, produced(fresh, kind, X, y), "a second estimator fitted differently",
            est=kind, solver=solver)
    mon.saw("refits_fresh")
    # the same instance, after a fit on other data of the same shape or another one
    disturb(mon, rng)
    classes = len(np.unique(y)) if kind == "logistic" else 2
    X2, y2 = est.data(kind, rng, m=X.shape[0] if rng.random() < .5 else None,
                      d=X.shape[1] if kind != "weber" else None, classes=classes)
    if kind == "logistic" and rng.random() < .6:
        # other labels, maybe another number of them
        if solver != "dedicated" and rng.random() < .5:
            y2 = np.arange(len(y2)) % (5 - classes)
        y2 = np.unique(y2, return_inverse=True)[1] * 2 + 7
        mon.saw("other_classes")
    try:
        quiet_fit(first, X2, y2)
    except ValueError:
        # the support constraints may not hold at the other data
        if "C" not in o:
            raise
        raise Skip("the other problem has no solution")
    other = produced(first, kind, X2, y2)
    disturb(mon, rng)
    quiet_fit(first, X, y)
    compare(mon, base, produced(first, kind, X, y), "fitting again gave another result",
            est=kind, solver=solver)
    mon.saw("refits_same")
    if rng.random() < .5:
        cp = copy.deepcopy(est.make(kind, **o))
        quiet_fit(cp, X.copy(), None if y is None else y.copy())
        compare(mon, base, produced(cp, kind, X, y), "a copied estimator fitted differently",
                est=kind, solver=solver)
    mon.saw("est_" + kind)
    if not all(np.array_equal(base[k], other[k]) for k in base if k in other):
        mon.nontrivial(kind, solver, base["coef_"], base.get("dual_var_"))
