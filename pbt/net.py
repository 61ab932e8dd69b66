"""Ball evaluation of whole multilayer networks."""
import numpy as np
import torch

from high_order_layers_torch.layers import (
    L2Normalization,
    LazyLayerNormLastDim,
    MaxAbsNormalization,
    MaxCenterNormalization,
)
from pbt import ref

KU = ref.K * ref.U
NORMS = {
    None: None,
    "max_abs": MaxAbsNormalization,
    "max_center": MaxCenterNormalization,
    "l2": L2Normalization,
    "layer_norm": LazyLayerNormLastDim,
}
NONLIN = {
    None: None,
    "relu": torch.nn.ReLU,
    "tanh": torch.nn.Tanh,
    "sigmoid": torch.nn.Sigmoid,
    "leaky": torch.nn.LeakyReLU,
}


def layer_norm(x, r, eps=1e-5):
    n = x.shape[-1]
    mu = x.mean(-1, keepdims=True)
    rmu = r.mean(-1, keepdims=True) + KU * np.abs(x).mean(-1, keepdims=True)
    d = x - mu
    rd = r + rmu
    var = (d * d).mean(-1, keepdims=True)
    rvar = (2 * np.abs(d) * rd + rd * rd).mean(-1, keepdims=True) + KU * n * var
    s = np.sqrt(var + eps)
    lo = var + eps - rvar
    bad = lo <= 0.1 * (var + eps)
    rs = rvar / np.where(bad, 1.0, np.sqrt(np.maximum(lo, 1e-300)))
    y = d / s
    ry = (rd + np.abs(y) * rs) / np.where(bad, 1.0, np.sqrt(np.maximum(lo, 1e-300)))
    return y, np.where(bad, np.inf, ry + KU * np.abs(y))


def norm(name, x, r):
    r = np.zeros_like(x) + r
    if name is None:
        return x, r
    if name == "layer_norm":
        return layer_norm(x, r)
    return {"max_abs": ref.max_abs, "max_center": ref.max_center, "l2": ref.l2}[name](x, r, 1)


def nonlin(name, x, r):
    if name is None:
        return x, r
    if name == "relu":
        return np.maximum(x, 0), r
    if name == "leaky":
        return np.where(x > 0, x, 0.01 * x), r + KU * np.abs(x)
    if name == "tanh":
        return np.tanh(x), np.minimum(r, 2.0) + KU
    if name == "sigmoid":
        return 1 / (1 + np.exp(-np.clip(x, -500, 500))), np.minimum(0.25 * r, 1.0) + KU
    raise ValueError(name)


def run(steps, x, rx=0.0, weights=None):
    """steps: list of ("layer", Flat) | ("res", Flat) | ("norm", name) | ("nonlin", name).
    weights: optional list, one per layer, of [(W, RW)…] overriding the bound tensors.
    Infinite or NaN centres/radii are kept as 'unknown'."""
    x = np.asarray(x, float)
    r = np.zeros_like(x) + rx
    k = 0
    with np.errstate(all="ignore"):
        for kind, what in steps:
            # an unknown coordinate poisons the sample; the segment lookup is an int64 cast, which
            # is meaningless from about 1e18 on
            lost = ~(np.isfinite(x) & np.isfinite(r) & (np.abs(x) + r < 1e15)).all(-1)
            x = np.where(lost[:, None], 0.0, x)
            r = np.where(lost[:, None], 0.0, r)
            if kind in ("layer", "res"):
                w = None if weights is None else weights[k]
                k += 1
                c, rc = what.eval(x, r, w)
                if kind == "res":
                    c, rc = c + x, rc + r + KU * (np.abs(c) + np.abs(x))
                x, r = c, rc
            elif kind == "scale":
                x, r = what * x, what * r + KU * np.abs(what * x)
            elif kind == "norm":
                x, r = norm(what, x, r)
            elif kind == "nonlin":
                x, r = nonlin(what, x, r)
            r = np.where(lost[:, None] | np.isnan(r) | np.isnan(x), np.inf, r)
    return x, r
