"""Independent reference models (float64)."""
import math

import numpy as np
import torch as pt

DEFAULT_KAPPA = 1e8


def parse(code, labels):
    """(kind, power, norm order, kappa) of a cost code, from the documented grammar."""
    if code is None:
        return ("NLC" if labels else "NC", 2., 2., DEFAULT_KAPPA)
    f = code.split("-")
    if len(f) == 3:
        f = ["t"] + f
    return f[1], float(f[2]), float(f[3]), float(f[4]) if len(f) > 4 else DEFAULT_KAPPA


def norm(v, p):
    """p-norm over the last axis, torch float64."""
    a = v.abs()
    if p == 1:
        return a.sum(-1)
    if math.isinf(p):
        return a.max(-1).values
    top = a.max(-1).values
    safe = pt.where(top > 0, top, pt.ones_like(top))
    return ((a / safe.unsqueeze(-1)) ** p).sum(-1) ** (1. / p) * safe * (top > 0)


def cost(spec, x, z, y=None, zy=None):
    """Ground cost, broadcast over leading axes."""
    kind, power, p, kappa = spec
    if kind == "NC":
        return norm(x - z, p) ** power
    if math.isinf(kappa):
        return norm(y - zy, p) ** power
    dx = norm(x - z, p)
    if kappa == 0:
        return dx ** power
    return ((dx + kappa * norm(y - zy, p)) / (1. + kappa)) ** power


def dual_terms(L, C, lam, eps, logw=None):
    """eps * log mean_n exp((L - lam C)/eps [+ logw]) for every data point; L, C: (n, m)."""
    e = (L - lam * C) / eps
    if logw is not None:
        e = e + logw
    return eps * (pt.logsumexp(e, 0) - math.log(e.shape[0]))


def reduce(v, how):
    if how in (None, "mean"):
        return v.mean()
    if how == "sum":
        return v.sum()
    return v


def budget(L, C, lam, eps, rho_term, f32):
    """Rounding budget of a robust value (absolute)."""
    u = 1.2e-7 if f32 else 2.3e-16
    size = float(L.abs().max()) + abs(lam) * float(C.abs().max()) + abs(rho_term) \
        + eps * math.log(max(2, L.shape[0]))
    # the library's log(n) is single precision, hence the eps*1e-6 term
    return 60 * u * size + 2e-6 * eps + 1e-300


def np64(t):
    return t.detach().cpu().double().numpy() if hasattr(t, "detach") else np.asarray(t, float)
