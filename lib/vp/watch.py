"""Online observers attached through torch's global hooks (no change to the code under test).

``Watch`` logs every evaluation of a robust model (recognised by its public attributes) and every
outermost optimizer step while the context is open.
"""
import inspect

import torch as pt
from torch.nn.modules import module as _m
from torch.optim import optimizer as _o


def is_robust(mod):
    return all(hasattr(mod, a) for a in ("lam", "rho", "epsilon", "cost", "primal_loss"))


def flat(mod):
    return pt.cat([p.detach().reshape(-1).double().clone()
                   for p in mod.primal_loss.parameters()] or [pt.zeros(0)])


class Watch:
    """Event log: ('eval', {...}) and ('step', {...}) in execution order."""

    def __init__(self, keep_points=False, on_eval=None, grads=False, model=None):
        self.events = []
        self.models = []
        self.keep_points = keep_points
        self.on_eval = on_eval
        self.grads = grads          # also record gradients, at evaluations and at steps
        self.model = model
        self._depth = 0
        self._handles = []
        self._inside = 0

    # -- hooks ---------------------------------------------------------------------------------
    def _pre(self, mod, args):
        if is_robust(mod):
            self._inside += 1
            if not any(m is mod for m in self.models):
                self.models.append(mod)

    def _post(self, mod, args, kwargs, out):
        if not is_robust(mod):
            return None
        args = self._named(mod, args, kwargs)
        self._inside -= 1
        ev = {"lam": float(mod.lam.detach().reshape(-1)[0]),
              "rho": float(mod.rho.detach()),
              "value": out.detach().clone() if hasattr(out, "detach") else out,
              "grad": bool(getattr(out, "requires_grad", False)),
              "theta": flat(mod),
              "m": int(args[0].shape[0]) if args else None,
              "x": args[0].detach().clone() if args and self.keep_points else None,
              "y": args[1].detach().clone() if self.keep_points and len(args) > 1
              and args[1] is not None else None,
              "model": mod}
        if self.grads and ev["grad"]:
            ps = [p for p in mod.parameters() if p.requires_grad]
            gs = pt.autograd.grad(out, ps, retain_graph=True, allow_unused=True)
            ev["grads"] = [(p, None if g is None else g.detach().clone())
                           for p, g in zip(ps, gs)]
        ev["in_step"] = self._depth > 0
        self.events.append(("eval", ev))
        if self.on_eval is not None:
            new = self.on_eval(self, mod, ev, out)
            if new is not None:
                return new
        return None

    def _state(self, opt):
        ev = {"opt": type(opt).__name__}
        if self.model is not None:
            m = self.model
            ev["lam"] = float(m.lam.detach().reshape(-1)[0])
            ev["theta"] = flat(m)
            ev["grads"] = {id(p): None if p.grad is None else p.grad.detach().clone()
                           for p in m.parameters() if p.requires_grad}
        return ev

    def _step_pre(self, opt, args, kwargs):
        if self._depth == 0:
            self.events.append(("before", self._state(opt)))
        self._depth += 1

    def _step_post(self, opt, args, kwargs):
        self._depth -= 1
        if self._depth == 0:
            self.events.append(("step", self._state(opt)))

    @staticmethod
    def _named(mod, args, kwargs):
        """Positional view of the arguments, however they were passed."""
        if not kwargs:
            return args
        names = list(inspect.signature(mod.forward).parameters)
        given = dict(zip(names, args), **kwargs)
        return tuple(given.get(n) for n in names)

    # -- context -------------------------------------------------------------------------------
    def __enter__(self):
        self._handles = [
            _m.register_module_forward_pre_hook(self._pre),
            _m.register_module_forward_hook(self._post, with_kwargs=True),
            _o.register_optimizer_step_pre_hook(self._step_pre),
            _o.register_optimizer_step_post_hook(self._step_post)]
        return self

    def __exit__(self, *exc):
        for h in self._handles:
            h.remove()
        return False

    # -- queries -------------------------------------------------------------------------------
    def evals(self):
        return [e for k, e in self.events if k == "eval"]

    def steps(self):
        return sum(k == "step" for k, _ in self.events)
