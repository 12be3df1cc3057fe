"""C30: copies of robust models behave like the original (differential monitor)."""
import copy
import io
import pickle

import numpy as np
import torch as pt

from vp import est, gen, ref
from vp.core import Skip
from vp.watch import flat

RULE = ("robust models of every sampling mode and optimiser are trained a random number of steps, "
        "copied by deep copy, pickle, torch.save or through their parameter state, and both sides "
        "are then observed: values, gradients, draws and further training steps of the copy "
        "against those of the original, and the original while the copy is trained; fitted "
        "estimators are copied the same way; non-trivial when the model was trained before")
REQUIRED = ["deepcopy", "pickle", "save", "state", "values", "gradients", "post", "pre", "stepped",
            "prodigy", "mechanic", "adamw", "same_steps", "original_kept", "sampled_alike",
            "imp_samp", "labelled", "unlabelled", "zero_radius"] + \
    ["est_%s" % k for k in est.KINDS]
MAX_SKIPPED = .3


def cases(tier, seed):
    n = 128 if tier == "quick" else 2000
    e = 6 if tier == "quick" else 80
    return [{"kind": "model", "how": ["deepcopy", "pickle", "save", "state"][k % 4],
             "mode": ["adamw", "prodigy", "mechanic", "pre"][(k // 4) % 4]} for k in range(n)] + \
        [{"kind": "est", "est": k, "solver": s} for _ in range(e) for k in est.KINDS
         for s in est.SOLVERS[k] if s != "dedicated"]


def duplicate(obj, how):
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "pickle":
        return pickle.loads(pickle.dumps(obj))
    b = io.BytesIO()
    pt.save(obj, b)
    b.seek(0)
    return pt.load(b, weights_only=False)


def value_and_grads(model, args):
    for p in model.parameters():
        p.grad = None
    pt.manual_seed(7)
    v = model(*args)
    s = v.sum()
    gs = {}
    if s.requires_grad:
        s.backward()
    for k, p in model.named_parameters():
        gs[k] = None if p.grad is None else p.grad.detach().clone()
        p.grad = None
    return v.detach().clone(), gs


def equal(mon, a, b, what, **info):
    va, ga = a
    vb, gb = b
    mon.close(ref.np64(vb), ref.np64(va), 1e-6 * (1e-6 + float(va.abs().max())),
              "the value of %s differs" % what, **info)
    mon.saw("values")
    mon.check(set(ga) == set(gb), "the parameters of %s differ" % what, **info)
    for k in ga:
        if ga[k] is None or gb.get(k) is None:
            mon.check((ga[k] is None) == (gb.get(k) is None),
                      "a gradient of %s is missing" % what, name=k, **info)
            continue
        mon.close(ref.np64(gb[k]), ref.np64(ga[k]), 1e-5 * (1e-6 + float(ga[k].abs().max())),
                  "the gradient of %s differs" % what, name=k, **info)
        mon.saw("gradients")


def seeded_draws(model):
    pt.manual_seed(3)
    return model.generate_zetas(3)[0]


def train(model, args, k):
    opt = model.optimizer
    pt.manual_seed(11)
    for _ in range(k):
        def closure():
            opt.zero_grad()
            o = model(*args).sum()
            o.backward()
            return o.item()
        if model.presample:
            opt.step(closure)
        else:
            closure()
            opt.step()
        with pt.no_grad():
            model.lam.clamp_(0., None)


def model_case(case, mon, rng):
    name = str(rng.choice([k for k in gen.LABELLED + gen.UNLABELLED if k not in gen.SHIPPED]))
    d, m = int(rng.integers(1, 4)), int(rng.integers(2, 7))
    prob = gen.Problem(name, d, rng, spy=False)
    x = pt.tensor(rng.normal(size=(m, d)), dtype=pt.float32)
    y = gen.tens(prob.make_labels(rng, m), pt.float32)
    code = str(rng.choice(gen.CODES_PLAIN + (gen.CODES_LABEL if prob.labels else [])))
    post = case["mode"] != "pre"
    rho = 0. if rng.random() < .1 else gen.dyadic(rng, .05, 1.)
    if rho == 0:
        mon.saw("zero_radius")
    kw = dict(cost_spec=code, n_samples=int(rng.integers(1, 8)), seed=int(rng.integers(1000)),
              epsilon=gen.dyadic(rng, .1, 1.), sigma=gen.dyadic(rng, .05, 1.), post_sample=post,
              n_iter=[(10, 40), (1, 4), (2, 7)][int(rng.integers(3))], l2reg=float(rng.choice([0., .5])),
              reduction=[None, "sum", "none"][int(rng.integers(3))])
    if post:
        kw["adapt"] = None if case["mode"] == "adamw" else case["mode"]
        kw["imp_samp"] = bool(rng.random() < .5)
        mon.saw(case["mode"])
        mon.saw("post")
        if kw["imp_samp"]:
            mon.saw("imp_samp")
    else:
        mon.saw("pre")
    mon.saw("labelled" if prob.labels else "unlabelled")
    model = gen.robust(prob, pt.tensor(rho), x, y, **kw)
    gen.fill_lambda(model, 1.)
    args = (x, y)
    if not post:
        z, zy = model.generate_zetas()
        args = (x, y, z, zy)
    # the self-tuned optimisers need some steps before they move by a visible amount
    more = 4 if case["mode"] in ("prodigy", "mechanic") and rng.random() < .5 else 1
    steps = int(rng.integers(0, 5)) * more
    train(model, args, steps)
    if steps:
        mon.saw("stepped")
    info = dict(problem=name, code=code, mode=case["mode"], how=case["how"])
    if not bool(pt.isfinite(flat(model)).all()):
        raise Skip("diverged")
    if case["how"] == "state":
        twin = gen.Problem(name, d, np.random.default_rng(int(rng.integers(1 << 30))), spy=False)
        other = gen.robust(twin, pt.tensor(rho), x, y, **kw)
        with mon.under_test("loading a saved state"):
            other.load_state_dict(copy.deepcopy(model.state_dict()))
        mon.close(float(other.lam.detach()), float(model.lam.detach()), 0.,
                  "the dual variable is not restored", **info)
        mon.close(ref.np64(flat(other)), ref.np64(flat(model)), 0.,
                  "the parameters are not restored", **info)
        if not post:
            equal(mon, value_and_grads(model, args), value_and_grads(other, args),
                  "a restored model", **info)
        else:
            equal(mon, value_and_grads(model, args), value_and_grads(other, args),
                  "a restored model", **info)
    else:
        with mon.under_test("copying"):
            other = duplicate(model, case["how"])
    mon.saw(case["how"])
    if case["how"] == "state":
        mon.nontrivial("state", name, code, float(model.lam.detach()))
        return
    mon.check(not any(p is q for p in model.parameters() for q in other.parameters()),
              "the copy shares parameters with the original", **info)
    for attr in ("n_samples", "imp_samp", "presample", "n_iter", "reduction"):
        if hasattr(model, attr):
            mon.check(getattr(model, attr) == getattr(other, attr), "an option is not copied",
                      option=attr, **info)
    for attr in ("rho", "epsilon"):
        mon.close(float(getattr(other, attr).detach()), float(getattr(model, attr).detach()), 0.,
                  "an option is not copied", option=attr, **info)
    # the same stream of draws on both sides
    equal(mon, value_and_grads(model, args), value_and_grads(other, args), "a copy", **info)
    if post:
        za, zb = (seeded_draws(m) for m in (model, other))
        mon.close(ref.np64(zb), ref.np64(za), 0., "the draws of a copy differ", **info)
        mon.saw("sampled_alike")
        # further steps: the copy first, the original untouched meanwhile
        before, lam0 = flat(model), float(model.lam.detach())
        k = int(rng.integers(1, 4)) * more
        with mon.under_test("training a copy"):
            train(other, args, k)
        mon.close(ref.np64(flat(model)), ref.np64(before), 0.,
                  "training a copy changed the original", **info)
        mon.close(float(model.lam.detach()), lam0, 0.,
                  "training a copy changed the dual variable of the original", **info)
        mon.saw("original_kept")
        train(model, args, k)
        if bool(pt.isfinite(flat(model)).all()):
            a, b = flat(model), flat(other)
            mon.close(ref.np64(b), ref.np64(a), 1e-5 * (1e-3 + float(a.abs().max())),
                      "a copy does not train like the original", **info)
            mon.close(float(other.lam.detach()), float(model.lam.detach()),
                      1e-5 * (1e-3 + float(model.lam.detach())),
                      "the dual variable of a copy does not train like the original", **info)
            mon.saw("same_steps")
    else:
        for _ in range(2):
            with pt.no_grad():
                for p in other.parameters():
                    p.add_(1.)
        equal(mon, value_and_grads(model, args), value_and_grads(
            duplicate(model, case["how"]), args), "a second copy", **info)
        mon.saw("original_kept")
    if steps:
        mon.nontrivial("model", name, code, rho, steps, float(model.lam.detach()))


def outputs(kind, e, X, y):
    out = [np.asarray(e.coef_, float)]
    if kind == "logistic":
        out += [e.predict_proba(X), np.asarray(e.predict(X), float)]
    elif kind == "linreg":
        out += [e.predict(X)]
    else:
        out += [np.asarray(e.score(X) if y is None else e.score(X, y), float)]
    return out


def est_case(case, mon, rng):
    kind, solver = case["est"], case["solver"]
    X, y = est.data(kind, rng)
    o = est.random_options(kind, rng, solver)
    e = est.make(kind, **o)
    try:
        est.fit(e, X, y)
        base = outputs(kind, e, X, y)
    except (RuntimeError, ValueError) as err:
        raise Skip("diverged: %s" % str(err)[:60])
    if not all(np.isfinite(b).all() for b in base):
        raise Skip("diverged")
    info = dict(est=kind, solver=solver, options={k: str(v) for k, v in o.items()})
    # the objective of a portfolio cannot be pickled (known finding of C18)
    hows = ["deepcopy"] if kind == "portfolio" else ["deepcopy", "pickle"]
    for how in hows:
        with mon.under_test("copying a fitted estimator"):
            c = duplicate(e, how)
        mon.saw(how)
        for a, b in zip(base, outputs(kind, c, X, y)):
            mon.close(np.asarray(b, float), a, 1e-12 + 1e-9 * np.abs(a).max(),
                      "a copy of a fitted estimator answers differently", **info)
        mon.check(c.get_params(deep=False).keys() == e.get_params(deep=False).keys()
                  and all(str(v) == str(e.get_params(deep=False)[k])
                          for k, v in c.get_params(deep=False).items() if k != "opt_cond"),
                  "a copy of a fitted estimator has other options", **info)
        # refit of the copy on other data leaves the original alone
        try:
            est.fit(c, X[::-1] * 1.5, None if y is None else y[::-1].copy())
        except (RuntimeError, ValueError):
            pass
        for a, b in zip(base, outputs(kind, e, X, y)):
            mon.close(np.asarray(b, float), a, 0., "refitting a copy changed the original", **info)
        mon.saw("original_kept")
    mon.saw("est_%s" % kind)
    mon.nontrivial("est", kind, solver, base[0])


def run(case, mon, rng):
    (model_case if case["kind"] == "model" else est_case)(case, mon, rng)
