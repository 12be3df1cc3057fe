"""C05: evaluating a robust model leaves the user's objects untouched (state monitor)."""
import copy

import numpy as np
import torch as pt
import torch.nn as nn

from vp import gen

RULE = ("networks with dropout and batch normalisation, random frozen parameters and random "
        "submodule modes; after every operation of a random history (evaluation with and without "
        "importance sampling, starting guess, backward, eval/train switches) a snapshot of data, "
        "parameters, accumulated gradients, buffers, gradient flags and modes is compared with the "
        "one before; "
        "non-trivial when some submodule is in evaluation mode or some parameter is frozen")
REQUIRED = ["snapshots", "evaluations", "guesses", "mode_switches", "frozen_seen", "eval_seen",
            "imp_samp", "kept_gradients", "robust_after_train"]


def cases(tier, seed):
    n = 120 if tier == "quick" else 1400
    return [{"kind": ["post", "pre"][k % 2], "net": ["bn", "drop", "plain"][(k // 2) % 3]}
            for k in range(n)]


class Net(nn.Module):
    def __init__(self, d, kind):
        super().__init__()
        h = 4
        self.a = nn.Linear(d, h)
        self.mid = nn.Sequential(nn.Tanh())
        if kind == "bn":
            # normalises over the whole sample axis, flattened
            self.norm = nn.LayerNorm(h)
            self.bn = nn.BatchNorm1d(h)
        elif kind == "drop":
            self.mid = nn.Sequential(nn.Tanh(), nn.Dropout(.5))
        self.kind = kind
        self.b = nn.Linear(h, 1)
        self.register_buffer("seen", pt.zeros(3))

    def forward(self, x):
        t = self.a(x)
        if self.kind == "bn":
            t = self.norm(t)
            s = t.shape
            t = self.bn(t.reshape(-1, s[-1])).reshape(s)
        return self.b(self.mid(t))


def snapshot(mods):
    out = {"p": [], "b": [], "r": [], "m": [], "g": []}
    for mod in mods:
        out["p"] += [p.detach().clone() for p in mod.parameters()]
        out["g"] += [None if p.grad is None else p.grad.clone() for p in mod.parameters()]
        out["r"] += [p.requires_grad for p in mod.parameters()]
        out["m"] += [s.training for s in mod.modules()]
        for s in mod.modules():
            tracked = isinstance(s, nn.BatchNorm1d) and s.training
            for b in s.buffers(recurse=False):
                out["b"].append(None if tracked else b.detach().clone())
    return out


def same(a, b):
    return len(a) == len(b) and all(
        (u is None or v is None) or pt.equal(u, v) for u, v in zip(a, b))


def run(case, mon, rng):
    dtype = pt.float64 if rng.random() < .7 else pt.float32
    d, m, n = int(rng.integers(1, 5)), int(rng.integers(2, 7)), int(rng.integers(2, 7))
    net = Net(d, case["net"]).to(dtype)
    loss = nn.MSELoss(reduction='none').to(dtype)
    x, y = rng.normal(size=(m, d)), rng.normal(size=(m, 1))
    xi, yi = gen.tens(x, dtype), gen.tens(y, dtype)
    code = str(rng.choice(["t-NC-2-2", "t-NLC-2-2-2.0", "t-NC-1-2", "t-NLC-1-1-1.0"]))
    rho = gen.dyadic(rng, 1e-2, 1.)
    imp = bool(rng.random() < .7)
    post = case["kind"] == "post"
    from skwdro.torch import robustify
    red = [None, "sum"][int(rng.integers(2))]
    sigma = .3
    model = robustify(loss, net, pt.tensor(rho, dtype=dtype), xi, yi, post_sample=post,
                      cost_spec=code, n_samples=n, reduction=red, epsilon=.25, sigma=sigma,
                      seed=int(rng.integers(50)), imp_samp=imp, n_iter=(1, 2))
    gen.fill_lambda(model, gen.dyadic(rng, .1, 3.))
    for p in net.parameters():
        p.requires_grad_(bool(rng.random() < .65))
    for p in list(net.parameters()) + [model.lam]:   # gradients the user accumulates
        p.grad = pt.tensor(rng.normal(size=tuple(p.shape)), dtype=dtype)
    if rng.random() < .3:
        model.lam.requires_grad_(False)
    z, zy = gen.draw_around(rng, code, x, y, n, sigma)
    z, zy = gen.tens(z, dtype), gen.tens(zy, dtype)
    inputs = [xi, yi, z, zy]
    watched = [net, loss]
    is22 = code.split("-")[2:4] == ["2", "2"]

    def shuffle_modes():
        for s in list(net.modules())[1:]:
            if rng.random() < .5:
                s.training = bool(rng.random() < .5)
        net.training = bool(rng.random() < .7)

    def value():
        return model(xi, yi) if post else model(xi, yi, z, zy)

    shuffle_modes()
    mixed = frozen = False
    for step in range(int(rng.integers(3, 7))):
        op = str(rng.choice(["value", "value", "guess", "backward", "train", "eval", "modes"]))
        if op == "modes":
            shuffle_modes()
            continue
        before, data = snapshot(watched), [t.clone() for t in inputs]
        lam, rg_lam = model.lam.detach().clone(), model.lam.requires_grad
        g_lam = model.lam.grad.clone()
        hyper = (model.rho.detach().clone(), model.epsilon.detach().clone())
        if not all(before["m"]):
            mixed = True
        if not all(before["r"]):
            frozen = True
        if op == "train":
            with mon.under_test("switching to training mode"):
                back = model.train()
            mon.saw("mode_switches")
            mon.check(all(s.training for s in model.modules()),
                      "train() left a submodule in evaluation mode")
            mon.check(back is model, "train() does not return the model")
        elif op == "eval":
            with mon.under_test("switching to evaluation mode"):
                model.eval()
            mon.saw("mode_switches")
            mon.check(not any(s.training for s in net.modules()),
                      "eval() left a submodule in training mode")
        else:
            with mon.under_test("evaluating a robust model"):
                if op == "guess":
                    model.get_initial_guess_at_dual(xi, yi)
                    mon.saw("guesses")
                else:
                    v = value()
                    mon.saw("evaluations")
                    if imp and is22:
                        mon.saw("imp_samp")
                    if op == "backward" and v.requires_grad:
                        v.backward()
        after = snapshot(watched)
        mon.saw("snapshots")
        for t, u, what in zip(inputs, data, ("data", "labels", "samples", "sample labels")):
            mon.check(pt.equal(t, u), "%s changed by %s" % (what, op), code=code)
        mon.check(same(before["p"], after["p"]), "parameter values changed by %s" % op, code=code)
        if op == "backward":     # backward adds to them, except where they are frozen
            pairs = [(a, b) for a, b, r in zip(before["g"], after["g"], before["r"]) if not r]
        else:
            pairs = list(zip(before["g"], after["g"])) + [(g_lam, model.lam.grad)]
            mon.saw("kept_gradients")
        mon.check(all(b is not None and pt.equal(a, b) for a, b in pairs),
                  "accumulated gradients changed by %s" % op, code=code)
        mon.check(before["r"] == after["r"], "gradient flags changed by %s" % op, code=code,
                  before=before["r"], after=after["r"])
        mon.check(model.lam.requires_grad == rg_lam,
                  "gradient flag of the dual variable changed by %s" % op)
        mon.check(pt.equal(hyper[0], model.rho) and pt.equal(hyper[1], model.epsilon),
                  "radius or epsilon changed by %s" % op)
        if op != "guess":
            mon.check(pt.equal(lam, model.lam), "the dual variable changed by %s" % op)
        if op not in ("train", "eval"):
            mon.check(before["m"] == after["m"], "submodule modes changed by %s" % op, code=code,
                      imp=imp)
            mon.check(same(before["b"], after["b"]), "buffers changed by %s" % op, code=code)
    if case["net"] != "drop":
        # the objective after train() is the robust one: same value as a model never switched
        model.train()
        if case["net"] == "bn":
            net.bn.eval()
        gen.fill_lambda(model, .7)
        twin = robustify(copy.deepcopy(loss), copy.deepcopy(net), pt.tensor(rho, dtype=dtype), xi,
                         yi, post_sample=False, cost_spec=code, n_samples=n, reduction=red,
                         epsilon=.25, sigma=sigma, imp_samp=False, n_iter=(1, 2))
        model.imp_samp = False
        gen.fill_lambda(twin, .7)
        if not post:
            mon.close(float(value().detach()), float(twin(xi, yi, z, zy).detach()),
                      1e-5 if dtype == pt.float32 else 1e-11,
                      "the objective is not the robust one after train()", red=red)
        else:
            a = float(value().detach())
            erm = float(loss(net(xi), yi).sum().detach() if red else
                        loss(net(xi), yi).mean().detach())
            mon.check(abs(a - erm) > 1e-9, "the objective is empirical risk after train()",
                      robust=a, erm=erm)
        mon.saw("robust_after_train")
    if mixed:
        mon.saw("eval_seen")
    if frozen:
        mon.saw("frozen_seen")
    if mixed or frozen:
        mon.nontrivial(case["kind"], case["net"], code, imp, d, m, n)
