"""Generators shared by the checks: user losses, costs, batches, robust models."""
import copy

import numpy as np
import torch as pt
import torch.nn as nn
import torch.nn.functional as F

from vp import ref

DT = {"f32": pt.float32, "f64": pt.float64}

# Cost codes whose sampler is implemented, "L" marks label-aware ones.
CODES_PLAIN = ["t-NC-1-1", "t-NC-1-2", "t-NC-1-inf", "t-NC-2-2"]
CODES_LABEL = ["t-NLC-1-1-2.0", "t-NLC-1-2-0.5", "t-NLC-1-inf-4.0", "t-NLC-2-2-1.0",
               "t-NLC-2-2-8.0", "t-NLC-2-2"]


def is_batched(t):
    """True for the wrapped tensors seen inside functional transforms."""
    try:
        from torch._C._functorch import is_functorch_wrapped_tensor
        return is_functorch_wrapped_tensor(t)
    except ImportError:
        return False


# -- user modules ------------------------------------------------------------------------------

class Recorder:
    """Log of the points handed to the user's transform and loss.

    Evaluations made to differentiate with respect to the data are left out, however they are
    made: inside a functional transform, or on points that require a gradient.
    """

    def __init__(self):
        self.calls = []      # (x, y) pairs, None when absent
        self.clear()

    def x(self, x):
        self._probe = is_batched(x) or x.requires_grad
        self._x = None if self._probe else x.detach().clone()

    def y(self, y):
        if not self._probe and (y is None or not (is_batched(y) or y.requires_grad)):
            self.calls.append((self._x, None if y is None else y.detach().clone()))
        self._x, self._probe = None, False

    def clear(self):
        self.calls = []
        self._x, self._probe = None, False


class SpyTransform(nn.Module):
    """The user's transform, recording what it is applied to."""

    def __init__(self, inner, rec):
        super().__init__()
        self.inner = inner
        self.rec = [rec]

    def forward(self, x):
        self.rec[0].x(x)
        return self.inner(x)


class SpyLoss(nn.Module):
    """A user loss with the torch interface, recording its targets."""
    reduction = 'none'

    def __init__(self, inner, rec, labels):
        super().__init__()
        self.inner = inner
        self.rec = [rec]
        self.labels = labels

    def forward(self, pred, target=None):
        skip = is_batched(pred)
        if not skip:
            self.rec[0].y(target)
        return self.inner(pred, target) if self.labels else self.inner(pred)


class SpyFunction:
    """A user loss with the functional interface, recording its targets."""

    def __init__(self, fn, rec, labels):
        self.fn, self.rec, self.labels = fn, rec, labels

    def __call__(self, pred, *args, reduction='mean'):
        if not is_batched(pred):
            self.rec.y(args[0] if args else None)
        return self.fn(pred, *args, reduction=reduction)


class QuadPoint(nn.Module):
    """Unlabelled: weighted squared distance to a learnt point, one value per coordinate."""
    reduction = 'none'

    def __init__(self, d, w):
        super().__init__()
        self.theta = nn.Parameter(pt.zeros(d))
        self.w = w

    def forward(self, x):
        return self.w * (x - self.theta) ** 2


class LogCosh(nn.Module):
    """Unlabelled: log cosh of a learnt linear form, one value."""
    reduction = 'none'

    def __init__(self, d):
        super().__init__()
        self.lin = nn.Linear(d, 1)

    def forward(self, x):
        z = self.lin(x)
        return z.abs() + F.softplus(-2. * z.abs()) - np.log(2.)


class BiMargin(nn.Module):
    reduction = 'none'

    def forward(self, pred, target):
        return F.softplus(-target * pred)


class SoftCE(nn.Module):
    """Cross entropy against class-probability targets: drops the last axis."""
    reduction = 'none'

    def forward(self, pred, target):
        return -(target * F.log_softmax(pred, dim=-1)).sum(dim=-1)


def _randomise(mod, rng, scale):
    with pt.no_grad():
        for p in mod.parameters():
            p.copy_(pt.tensor(rng.normal(size=tuple(p.shape)) * scale, dtype=p.dtype))


# the losses the estimators are made of, with independent formulas
SHIPPED = ["soft_margin", "weber", "portfolio", "newsvendor"]
LABELLED = ["mse", "mse3", "l1", "huber", "margin", "bce", "mlp", "functional", "weighted", "ce",
            "soft_margin", "weber"]
UNLABELLED = ["quadpoint", "logcosh", "mlp_plain", "functional_plain", "portfolio", "newsvendor"]


def shipped(name, d, rng):
    """A loss module of the library and its formula f(params, x, y), one value per output."""
    from skwdro.base.losses_torch.logistic import BiDiffSoftMarginLoss
    from skwdro.base.losses_torch.portfolio import SimplePortfolio
    from skwdro.base.losses_torch.weber import SimpleWeber
    from skwdro.operations_research._newsvendor import CustomNewsvendorLoss
    if name == "soft_margin":
        return BiDiffSoftMarginLoss(), lambda ps, h, y: pt.logaddexp(0. * h, -y * h)
    if name == "weber":
        return SimpleWeber(d), lambda ps, h, y: y * ((h - ps[0]) ** 2).sum(-1, keepdim=True).sqrt()
    if name == "portfolio":
        eta, alpha = float(rng.choice([.25, .5, 2.])), float(rng.choice([.125, .25, .5]))
        mod = SimplePortfolio(d, eta, alpha)
        names = [k for k, _ in mod.named_parameters()]

        def f(ps, h, y):
            tau, = (q for k, q in zip(names, ps) if k == "tau")
            raw, = (q for k, q in zip(names, ps) if k != "tau")
            e = pt.exp(raw - raw.max())
            gain = (h * (e / e.sum()).reshape(-1)).sum(-1, keepdim=True)
            return -gain + eta * (tau + pt.clamp(-gain - tau, min=0.) / alpha)
        return mod, f
    k, u = float(rng.choice([1., 2.5])), float(rng.choice([3., 7.]))
    return CustomNewsvendorLoss(k, u), lambda ps, h, y: (
        k * ps[0] - u * pt.where(h < ps[0], h, ps[0] + 0. * h)).mean(-1, keepdim=True)


def functional_plain(x, reduction='mean'):
    v = x ** 2 + x
    return v if reduction == 'none' else v.mean()


class Problem:
    """A user problem: loss, transform, labels, and an independent per-point reference."""

    def __init__(self, name, d, rng, scale=0.7, spy=True):
        self.name, self.d = name, d
        self.rec = Recorder()
        self.reduces = False
        self.ydim = 1
        self.labels = name in LABELLED
        loss, transform = None, nn.Linear(d, 1)
        if name == "mse":
            loss = nn.MSELoss(reduction='none')
        elif name == "mse3":
            loss, transform, self.ydim = nn.MSELoss(reduction='none'), nn.Linear(d, 3), 3
        elif name == "l1":
            loss = nn.L1Loss(reduction='none')
        elif name == "huber":
            loss = nn.SmoothL1Loss(reduction='none')
        elif name == "margin":
            loss = BiMargin()
        elif name == "bce":
            loss = nn.BCEWithLogitsLoss(reduction='none')
        elif name == "mlp":
            loss = nn.MSELoss(reduction='none')
            transform = nn.Sequential(nn.Linear(d, 4), nn.Tanh(), nn.Linear(4, 1))
        elif name == "functional":
            loss = F.mse_loss
        elif name == "weighted":
            loss = nn.MSELoss(reduction='none')
            transform = nn.Linear(d, 1, bias=False)
        elif name == "ce":
            loss, self.ydim, self.reduces = SoftCE(), 3, True
            transform = nn.Linear(d, 3)
        elif name == "quadpoint":
            loss, transform = QuadPoint(d, 1.5), None
        elif name == "logcosh":
            loss, transform = LogCosh(d), nn.Linear(d, d)
        elif name == "mlp_plain":
            loss = LogCosh(3)
            transform = nn.Sequential(nn.Linear(d, 3), nn.Tanh())
        elif name == "functional_plain":
            loss, transform = functional_plain, nn.Linear(d, 2)
        elif name in SHIPPED:
            loss, self._formula = shipped(name, d, rng)
            if name != "soft_margin":
                transform = None
        else:
            raise KeyError(name)
        for mod in (loss, transform):
            if isinstance(mod, nn.Module):
                _randomise(mod, rng, scale)
        self.spied = spy
        if spy:
            self._raw_loss = loss
            loss = (SpyLoss if isinstance(loss, nn.Module) else SpyFunction)(
                loss, self.rec, self.labels)
            transform = SpyTransform(transform if transform is not None else nn.Identity(),
                                     self.rec)
        self.loss, self.transform = loss, transform

    def to(self, dtype):
        for mod in (self.loss, self.transform):
            if isinstance(mod, nn.Module):
                mod.to(dtype)
        return self

    def params(self):
        out = []
        for mod in (self.loss, self.transform):
            if isinstance(mod, nn.Module):
                out += list(mod.parameters())
        return out

    def make_labels(self, rng, m, scale=1.):
        if not self.labels:
            return None
        if self.name in ("margin", "soft_margin"):
            return rng.choice([-1., 1.], size=(m, 1))
        if self.name == "weber":
            return rng.uniform(.25, 2., size=(m, 1))
        if self.name == "bce":
            return rng.choice([0., 1.], size=(m, 1))
        if self.name == "ce":
            return np.eye(3)[rng.integers(0, 3, size=m)]
        return rng.normal(size=(m, self.ydim)) * scale

    def seen(self):
        """All points handed to the loss since the last clear, in order."""
        calls = self.rec.calls
        if not calls or any(x is None for x, _ in calls):
            return None, None
        x = pt.cat([x.reshape(-1, x.shape[-1]) for x, _ in calls])
        if not self.labels:
            return x, None
        return x, pt.cat([y.reshape(-1, y.shape[-1]) for _, y in calls])

    def magnitude(self, x, y=None):
        """Bound of the intermediate quantities of the loss, for rounding budgets."""
        w = 1. + sum(float(p.detach().abs().sum()) for p in self.params())
        b = w * (1. + float(x.abs().max()))
        if y is not None:
            b += float(y.abs().max())
        return b * b * (20. if self.name == "portfolio" else 7. if self.name == "newsvendor" else 1.)

    def reference(self):
        """Float64 twin: (params, f) with f(points, labels) -> one value per point."""
        loss = copy.deepcopy(self._raw_loss if self.spied else self.loss)
        tr = copy.deepcopy(self.transform.inner if self.spied else self.transform)
        ps = []
        for mod in (loss, tr):
            if isinstance(mod, nn.Module):
                mod.double()
                ps += list(mod.parameters())
        for p in ps:
            p.requires_grad_(True)
            p.grad = None

        own = len(list(loss.parameters())) if isinstance(loss, nn.Module) else 0

        def f(x, y):
            h = tr(x) if tr is not None else x
            if self.name in SHIPPED:
                v = self._formula(ps[:own], h, y)
            elif isinstance(loss, nn.Module):
                v = loss(h, y) if self.labels else loss(h)
            else:
                v = loss(h, y, reduction='none') if self.labels else loss(h, reduction='none')
            return v if self.reduces else v.mean(dim=-1)
        return ps, f


def dyadic(rng, lo, hi):
    """A number in [lo, hi] (log-uniform) exactly representable in single precision."""
    return float(np.float32(np.exp(rng.uniform(np.log(lo), np.log(hi)))))


def size(rng, lo, hi, big, p=.1):
    """Usually a small size in [lo, hi), now and then one up to big."""
    return int(rng.integers(big // 2, big) if rng.random() < p else rng.integers(lo, hi))


def tens(a, dtype):
    return None if a is None else pt.tensor(np.asarray(a), dtype=dtype)


def d64(t):
    return None if t is None else t.detach().double()


def fill_lambda(model, value):
    with pt.no_grad():
        model.lam.data.fill_(value)


def robust(problem, rho, xi, yi, **kw):
    """Build the robust model through the public builder."""
    from skwdro.torch import robustify
    return robustify(problem.loss, problem.transform, rho, xi, yi,
                     loss_reduces_spatial_dims=problem.reduces, **kw)


def draw_around(rng, code, x, y, n, sigma):
    """Samples shaped (n, m, .) for the pre-sampled models."""
    z = x[None] + sigma * rng.normal(size=(n,) + x.shape)
    if y is None:
        return z, None
    if "NLC" in code:
        zy = y[None] + sigma * rng.normal(size=(n,) + y.shape)
    else:
        zy = np.broadcast_to(y[None], (n,) + y.shape).copy()
    return z, zy


__all__ = [n for n in dir() if not n.startswith("_")] + ["ref"]
