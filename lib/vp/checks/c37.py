"""C37: tensor helpers, step counts and empirical distributions (reference-model monitor)."""
import copy

import numpy as np
import torch as pt

RULE = ("the exported tensor helpers, the reading of step counts and the empirical distributions "
        "are called on random tensors and arrays of several ranks, types, layouts and gradient "
        "states; results, gradients through them and the untouched arguments are compared with "
        "numpy; non-trivial when a result was compared")
REQUIRED = ["detached", "differentiable", "absent", "unsqueezed", "normalised", "clipped",
            "not_clipped", "gradients", "no_gradient", "steps", "step_pairs", "steps_refused",
            "labelled_data", "plain_data", "data_refused", "copies", "tensors_of_data",
            "float32", "float64", "views"]
KINDS = ["detach", "diff", "unsqueeze", "normalise", "grad", "steps", "data"]


def cases(tier, seed):
    n = 210 if tier == "quick" else 4200
    return [{"kind": KINDS[k % len(KINDS)]} for k in range(n)]


def tensor(rng, mon, dims=None):
    dims = int(rng.integers(0, 4)) if dims is None else dims
    shape = tuple(int(k) for k in rng.integers(1, 5, size=dims))
    dtype = [pt.float32, pt.float64][int(rng.integers(2))]
    mon.saw("float32" if dtype == pt.float32 else "float64")
    t = pt.tensor(rng.normal(size=shape), dtype=dtype)
    if dims >= 2 and rng.random() < .4:
        t = t.transpose(0, -1)
        mon.saw("views")
    how = int(rng.integers(3))
    if how == 1:
        t.requires_grad_(True)
    elif how == 2:
        t = t.requires_grad_(True) * 1.
    return t


def run(case, mon, rng):
    from skwdro import solvers as U
    from skwdro.solvers.utils import interpret_steps_struct
    kind = case["kind"]
    if kind == "steps":
        n = int(rng.integers(0, 2000))
        split = float(rng.choice([0., .1, .25, .3, .5, 1.]))
        with mon.under_test("reading a number of steps"):
            got = interpret_steps_struct(n) if split == .3 else interpret_steps_struct(n, split)
        mon.check(tuple(got) == (int(n * split), n), "split of a number of steps", n=n,
                  split=split, got=got)
        mon.saw("steps")
        pair = (int(rng.integers(0, 99)), int(rng.integers(0, 99)))
        with mon.under_test("reading a pair of steps"):
            got = interpret_steps_struct(pair, split)
        mon.check(tuple(got) == pair, "a pair of steps is changed", pair=pair, got=got)
        mon.saw("step_pairs")
        bad = [-.1, 1.5, float("nan")][int(rng.integers(3))]
        mon.raises(lambda: interpret_steps_struct(n, bad), "an impossible split is accepted",
                   types=(AssertionError, ValueError), split=bad)
        mon.saw("steps_refused")
        mon.nontrivial(kind, n, split, pair)
        return
    if kind == "data":
        data(mon, rng)
        return
    t = tensor(rng, mon)
    before, flag = t.detach().clone(), t.requires_grad
    values = before.numpy().copy()
    if kind == "detach":
        with mon.under_test("detaching a tensor"):
            out = U.detach_tensor(t)
        mon.check(isinstance(out, np.ndarray) and out.dtype == values.dtype
                  and out.shape == (values.size,), "not a flat array of the same type",
                  got=str(getattr(out, "shape", None)))
        mon.check(np.array_equal(np.asarray(out), values.reshape(-1)),
                  "detaching changes the values")
        mon.saw("detached")
    elif kind == "diff":
        dim = [None, 0, -1, "default"][int(rng.integers(4))]
        f = U.diff_tensor if rng.random() < .5 else U.diff_opt_tensor
        with mon.under_test("making a tensor differentiable"):
            out = f(t) if dim == "default" else f(t, dim)
        want = before if dim is None else before.unsqueeze(0 if dim == "default" else dim)
        mon.check(out.shape == want.shape and pt.equal(out.detach(), want) and
                  out.dtype == t.dtype, "values or shape of the differentiable copy", dim=dim)
        mon.check(out.requires_grad, "the copy is not differentiable")
        if out.is_leaf:
            (out.detach()).add_(1.)
            mon.check(pt.equal(t.detach(), before), "the copy shares the caller's memory")
        g = pt.autograd.grad((out ** 2).sum(), out)[0]
        mon.check(pt.allclose(g, 2. * out.detach()), "gradient with respect to the copy")
        mon.check(U.diff_opt_tensor(None) is None and U.diff_opt_tensor(None, None) is None,
                  "an absent tensor becomes something")
        mon.saw("differentiable")
        mon.saw("absent")
    elif kind == "unsqueeze":
        dim = int(rng.integers(-t.dim() - 1, t.dim() + 1))
        with mon.under_test("adding an axis"):
            out = U.maybe_unsqueeze(t, dim) if rng.random() < .5 else U.maybe_unsqueeze(t, dim=dim)
            first = U.maybe_unsqueeze(t)
        mon.check(pt.equal(out.detach(), before.unsqueeze(dim)), "axis added elsewhere", dim=dim)
        mon.check(pt.equal(first.detach(), before.unsqueeze(0)), "axis not added first")
        mon.check(out.requires_grad == flag, "adding an axis loses the gradient")
        mon.check(U.maybe_unsqueeze(None, 1) is None, "an absent tensor becomes something")
        mon.saw("unsqueezed")
        mon.saw("absent")
    elif kind == "normalise":
        t = tensor(rng, mon, dims=int(rng.integers(1, 4)))
        if rng.random() < .3:
            t = t * float(10. ** rng.integers(-6, 7))
        before, flag = t.detach().clone(), t.requires_grad
        dim = int(rng.integers(-t.dim(), t.dim()))
        n = np.linalg.norm(before.double().numpy(), axis=dim, keepdims=True)
        threshold = float(rng.choice([.3, 1., 2., 1e3, float(np.median(n))]))
        scaling = float(rng.choice([.25, 1., 7.]))
        how = int(rng.integers(3))
        args = {0: {}, 1: {"threshold": threshold}, 2: {"threshold": threshold,
                                                       "scaling": scaling}}[how]
        f = U.normalize_just_vects if rng.random() < .5 else U.normalize_maybe_vects
        with mon.under_test("normalising vectors"):
            out = f(t, dim=dim, **args)
        th, sc = args.get("threshold", 1.), args.get("scaling", 1.)
        want = before.double().numpy() / n * np.minimum(th, n) / sc
        u = 1.2e-7 if t.dtype == pt.float32 else 2.3e-16
        mon.close(out.detach().double().numpy(), want, 50. * max(u, 1.2e-7) * np.abs(want).max(),
                  "clipped and scaled vectors", dim=dim, threshold=th, scaling=sc)
        mon.check(out.dtype == t.dtype, "normalising changes the type")
        if (n > th).any():
            mon.saw("clipped")
        if (n < th).any():
            mon.saw("not_clipped")
        mon.check(U.normalize_maybe_vects(None) is None, "an absent tensor becomes something")
        mon.saw("normalised")
        mon.saw("absent")
    else:
        leaf = t.detach().clone().requires_grad_(True)
        mon.raises(lambda: U.maybe_flatten_grad_else_raise(leaf),
                   "a missing gradient is not reported", types=(U.NoneGradError,))
        mon.check(issubclass(U.NoneGradError, ValueError), "kind of the missing gradient error")
        mon.saw("no_gradient")
        w = pt.tensor(rng.normal(size=tuple(leaf.shape)), dtype=leaf.dtype)
        (leaf * w).sum().backward()
        with mon.under_test("reading a gradient"):
            g = U.maybe_flatten_grad_else_raise(leaf)
        mon.check(g.shape == (leaf.numel(),) and pt.equal(g, w.flatten()),
                  "the gradient read is another one")
        mon.saw("gradients")
    mon.check(pt.equal(t.detach(), before) and t.requires_grad == flag,
              "the caller's tensor was changed", kind=kind)
    mon.nontrivial(kind, values)


def data(mon, rng):
    from skwdro.base.problems import (EmpiricalDistributionWithLabels,
                                      EmpiricalDistributionWithoutLabels)
    from skwdro.solvers.entropic_dual_torch import extract_data
    m, d = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    X = rng.normal(size=(m, d)).astype([np.float32, np.float64][int(rng.integers(2))])
    y = rng.normal(size=(m, 1)).astype(X.dtype)
    if rng.random() < .4:
        X = np.asfortranarray(X)
        mon.saw("views")
    labelled = bool(rng.random() < .6)
    with mon.under_test("building an empirical distribution"):
        P = EmpiricalDistributionWithLabels(m=m, samples_x=X, samples_y=y) if labelled \
            else EmpiricalDistributionWithoutLabels(m=m, samples=X)
    keep = copy.deepcopy((X, y))
    mon.check(P.m == m and P.with_labels is labelled and P.empirical is True,
              "description of the distribution")
    if labelled:
        mon.check(np.array_equal(P.samples_x, X) and np.array_equal(P.samples_y, y),
                  "the distribution holds other points")
        mon.raises(lambda: P.samples, "plain points of a labelled distribution",
                   types=(AttributeError,))
        X += 1.
        y -= 1.
        mon.check(np.array_equal(P.samples_x, keep[0]) and np.array_equal(P.samples_y, keep[1]),
                  "the labelled distribution follows later changes of the caller's arrays")
        X -= 1.
        y += 1.
        mon.saw("copies")
        mon.saw("labelled_data")
    else:
        mon.check(np.array_equal(P.samples, X), "the distribution holds other points")
        for a in ("samples_x", "samples_y"):
            mon.raises(lambda: getattr(P, a), "labels of a plain distribution",
                       types=(AttributeError,))
        mon.saw("plain_data")
    with mon.under_test("turning a distribution into tensors"):
        a, b = extract_data(P)
    mon.check(isinstance(a, pt.Tensor) and np.array_equal(a.numpy(), keep[0].astype(np.float32)),
              "tensors of the points")
    mon.check((b is None) if not labelled else np.array_equal(b.numpy(),
                                                              keep[1].astype(np.float32)),
              "tensors of the labels")
    mon.saw("tensors_of_data")
    names = ("samples_x", "samples_y") if labelled else ("samples",)
    for a in names:
        for bad in ([[1., 2.]], None, pt.ones(2, 2)):
            mon.raises(lambda: setattr(P, a, bad), "points that are not an array are accepted",
                       types=(TypeError,), given=type(bad).__name__)
        new = rng.normal(size=(m, d))
        with mon.under_test("replacing points"):
            setattr(P, a, new)
        mon.check(np.array_equal(getattr(P, a), new), "the new points are not held")
    mon.saw("data_refused")
    mon.nontrivial("data", keep[0], labelled)
