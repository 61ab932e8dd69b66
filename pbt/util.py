"""Helpers shared by the property modules."""
import contextlib

import numpy as np
import torch

from pbt import core, ref
from pbt.core import Violation, sut


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def T(x):
    return torch.tensor(np.asarray(x, dtype=np.float32))


DEFAULTS = {
    "length": 2.0, "scale": 2.0, "rescale_output": False, "periodicity": None, "padding": 0,
    "stride": 1, "dilation": 1, "groups": 1, "output_padding": 0, "resnet": False,
    "normalization": None, "non_linearity": None, "dropout": 0.0, "layer_type_in": None,
    "n_in": None, "n_hidden": None, "n_out": None, "initialize": "constant_random",
    "initialization": "constant_random",
}


def given(**kw):
    """The arguments; in half of the cases without those at their default value."""
    if not core.OMIT:
        return kw
    return {k: v for k, v in kw.items()
            if k not in DEFAULTS or type(v) is not type(DEFAULTS[k]) or v != DEFAULTS[k]}


def arr(t):
    if t is None:
        fail("a gradient is missing")
    return t.detach().cpu().double().numpy()


def within(got, c, r, what, extra=0.0, need_finite=True):
    """got (tensor or array) within the ball; returns the fraction of outputs
    whose radius was small enough to mean something."""
    g = arr(got) if torch.is_tensor(got) else np.asarray(got, float)
    c = np.asarray(c, float)
    if g.shape != c.shape:
        fail(f"{what}: shape {g.shape}, expected {c.shape}")
    r = np.asarray(r, float) + 1e-35 + extra
    if g.size == 0:
        return 0.0
    bad = ~(np.abs(g - c) <= r)
    # float32 overflow is not what the property is about
    huge = ~(np.abs(c) + np.where(np.isfinite(r), r, 0) < 1e25) | ~np.isfinite(r)
    bad &= ~huge
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        fail(f"{what}: at {i} got {g[i]!r}, expected {c[i]!r} +- {r[i]:.3g}")
    tight = np.isfinite(r) & (r <= 1e-2 * (1 + np.abs(c)))
    return float(tight.mean())


def set_(p, w):
    with torch.no_grad():
        p.copy_(torch.tensor(np.asarray(w, dtype=np.float32)).reshape(p.shape))


def param_by_shape(layer, shape, what="layer"):
    """The parameter of the given shape (robust against renames)."""
    ps = [p for p in layer.parameters() if tuple(p.shape) == tuple(shape)]
    if len(ps) != 1:
        have = [tuple(p.shape) for p in layer.parameters()]
        fail(f"{what}: expected exactly one parameter of shape {tuple(shape)}, have {have}")
    return ps[0]


def weight_param(layer, shape, what="layer"):
    """As param_by_shape, but the first when several match (a 1-feature `result`
    buffer cannot collide since weights have three dimensions)."""
    ps = [p for p in layer.parameters() if tuple(p.shape) == tuple(shape)]
    if not ps:
        have = [tuple(p.shape) for p in layer.parameters()]
        fail(f"{what}: no parameter of shape {tuple(shape)}, have {have}")
    return ps[0]


def _no_modes(layer):
    """No submodule behaves differently in training mode."""
    odd = (torch.nn.modules.dropout._DropoutNd, torch.nn.modules.batchnorm._NormBase)
    return isinstance(layer, torch.nn.Module) and not any(
        isinstance(m, odd) for m in layer.modules())


def _warm(layer, x, backward):
    """An earlier call on other data, optionally with a backward pass."""
    z = (0.6 * x.detach() - 0.1).flip(0)
    z = z[: max(1, (z.shape[0] + 1) // 2)] if z.dim() > 1 else z
    if not backward:
        with torch.no_grad():
            layer(z)
        return
    y = layer(z)
    if y.requires_grad:
        y.sum().backward()
    for p in layer.parameters():
        p.grad = None


@contextlib.contextmanager
def training(layer, on):
    flags = [(m, m.training) for m in layer.modules()]
    layer.train(on)
    try:
        yield
    finally:
        for m, f in flags:
            m.training = f


def grad_state(layer, x):
    """Before a gradient is taken: the layer in evaluation mode or used before, depending on the
    case; x or a tensor computed from it."""
    mode = core.MODE
    with sut("forward and backward"):
        if mode == "eval" and _no_modes(layer):
            layer.eval()
        elif mode in ("used", "trained") and x.shape[0] > 0:
            _warm(layer, x, mode == "trained" and _no_modes(layer))
    return x * 1.0 if mode == "grad" else x


def call(layer, x, what="forward"):
    """Evaluate; depending on the case with gradients recorded, in training mode (if the module
    has no part that knows the mode) or after an earlier use - none of which matters."""
    mode = core.MODE
    isf = torch.is_tensor(x) and x.is_floating_point() and x.dim() > 0 and x.shape[0] > 0
    with sut(what):
        if mode == "grad":
            return layer(x).detach()
        if mode == "grad_x" and isf:
            return layer(x.detach().clone().requires_grad_(True)).detach()
        if mode in ("used", "trained") and isf and isinstance(layer, torch.nn.Module):
            _warm(layer, x, mode == "trained" and _no_modes(layer))
        if mode in ("train", "eval") and _no_modes(layer):
            with training(layer, mode == "train"), torch.no_grad():
                return layer(x)
        with torch.no_grad():
            return layer(x)


def grad_mode():
    """As call(): gradients recorded or not, depending on the case."""
    return torch.set_grad_enabled(core.MODE.startswith("grad"))
