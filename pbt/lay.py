"""Uniform access to every dense layer type: build, fill, reference."""
import numpy as np
import torch

from high_order_layers_torch.layers import high_order_fc_layers
from pbt import gen, ref
from pbt.core import sut
from pbt.util import fail, given, set_

PIECE = ["continuous", "discontinuous", "continuous_prod", "discontinuous_prod"]
POLY = PIECE + ["polynomial", "polynomial_prod"]
DENSE2D = POLY + ["fourier", "product"]
BASELINE = ["baseline", "baseline_relu"]
SWITCH = ["switch_continuous", "switch_discontinuous"]


def base(kind):
    k = kind.replace("switch_", "")
    return k[:-5] if k.endswith("_prod") else k


def nbasis(kind, n, segs):
    return ref.num_basis(base(kind), n, segs)


def is_piece(kind):
    return base(kind) in ("continuous", "discontinuous")


def make(kind, n, i, o, segs=1, length=2.0, periodicity=None, **kw):
    with sut(f"construction of {kind}"):
        return high_order_fc_layers(
            layer_type=kind,
            **given(n=n, in_features=i, out_features=o, segments=segs, length=length,
                    periodicity=periodicity, **kw),
        )


def owners(module, x):
    """Modules that own parameters of two or more dimensions, in the order in
    which a forward pass first calls them.  An owner whose forward is called
    directly (bypassing hooks) takes the place of its innermost called ancestor."""
    fired, hooks = [], []
    seen = set()

    def hook(m, args):
        if id(m) not in seen:
            seen.add(id(m))
            fired.append(m)

    for m in module.modules():
        hooks.append(m.register_forward_pre_hook(hook))
    try:
        with sut("forward"), torch.no_grad():
            y = module(x)
    finally:
        for h in hooks:
            h.remove()
    pos = {id(m): k for k, m in enumerate(fired)}
    owns = [
        m for m in module.modules()
        if any(p is not None and not _uninit(p) and p.dim() >= 2 for p in m._parameters.values())
    ]
    paths = {}
    for name, m in module.named_modules(remove_duplicate=False):
        paths.setdefault(id(m), []).append(name)
    byname = {n: i for i, ns in paths.items() for n in ns}
    order = []
    for k, m in enumerate(owns):
        if id(m) in pos:
            order.append((pos[id(m)], k, m))
            continue
        best = (-1, -1)
        for name in paths[id(m)]:
            parts = name.split(".")
            for d in range(len(parts) - 1, -1, -1):
                i = byname.get(".".join(parts[:d]))
                if i in pos:
                    best = max(best, (d, pos[i]))
                    break
        # the root alone tells nothing about the order, nor that it was used
        if best[0] >= 1:
            order.append((best[1], k, m))
    order.sort(key=lambda t: t[:2])
    return [m for _, _, m in order], y


def _uninit(p):
    return isinstance(p, torch.nn.parameter.UninitializedParameter)


def param(m, shape, what):
    for p in m._parameters.values():
        if p is not None and tuple(p.shape) == tuple(shape):
            return p
    fail(
        f"{what}: no weights of shape {tuple(shape)}; has "
        f"{[tuple(p.shape) for p in m._parameters.values() if p is not None]}"
    )


class Flat:
    """One dense layer as seen by the oracle: kind, config, its weight tensors."""

    def __init__(self, kind, n, i, o, segs, length, periodicity, alpha=1.0):
        self.kind, self.n, self.i, self.o = kind, n, i, o
        self.segs = segs if is_piece(kind) else 1
        self.length, self.periodicity, self.alpha = length, periodicity, alpha
        self.ps = []
        self.mult = 2 if kind in SWITCH else 1
        self.prod = kind.endswith("_prod")

    def shape(self):
        if self.kind in ("product", "baseline", "baseline_relu"):
            return (self.o, self.i)
        return (self.o, self.i, nbasis(self.kind, self.n, self.segs))

    def bind(self, mods, what):
        """Take this layer's parameter owners from the front of mods."""
        self.ps = []
        for _ in range(self.mult):
            if not mods:
                fail(f"{what}: the network executed fewer layers than configured")
            m = mods.pop(0)
            w = param(m, self.shape(), f"{what} ({self.kind})")
            b = None
            if self.kind in ("product", "baseline", "baseline_relu"):
                bs = [p for p in m._parameters.values() if p is not None and p.dim() == 1]
                b = bs[0] if bs else None
                if b is None and self.kind != "product":
                    fail(f"{what}: the linear layer has no bias")
            self.ps.append((w, b))

    def smooth(self, rng):
        """Weights of links without steep slopes (jumps of discontinuous ones aside)."""
        o, i, nb = self.shape()
        u = lambda *s: rng.uniform(-1, 1, size=s)  # noqa
        if self.kind == "fourier":
            return (u(o, i, nb) / (1 + (np.arange(nb) + 1) // 2) ** 2).astype(np.float32)
        X = 0.5 * (ref.cheb(self.n) + 1) if self.n > 1 else np.array([0.5])
        disc = "discontinuous" in self.kind
        t = np.concatenate([s + (X if disc or s == self.segs - 1 else X[:-1])
                            for s in range(self.segs)]) / self.segs * 2 - 1
        if t.size != nb:
            t = np.linspace(-1, 1, nb)
        w = (u(o, i, 1) + u(o, i, 1) * t + u(o, i, 1) * np.sin(1 + 2 * u(o, i, 1) + 2 * t)) / 2
        if disc:
            w = w + 0.2 * np.repeat(u(o, i, self.segs), self.n, -1)
        return w.astype(np.float32)

    def fill(self, rng, scale=1.0, mode="normal"):
        for w, b in self.ps:
            if mode == "smooth" and len(self.shape()) == 3:
                set_(w, self.smooth(rng) * scale)
                if b is not None:
                    set_(b, gen.weights(rng, b.shape, "uniform") * scale)
                continue
            set_(w, gen.weights(rng, w.shape, "uniform" if mode == "smooth" else mode) * scale)
            if b is not None:
                set_(b, gen.weights(rng, b.shape, "uniform") * scale)

    def eval(self, x, rx, weights=None):
        """weights: optional list of (W, RW) to use instead of the bound tensors."""
        rx = np.zeros_like(x) + rx
        if weights is not None:
            outs = [
                ref.dense(x, W, base(self.kind), self.n, self.segs, self.length,
                          self.periodicity, self.kind.endswith("_prod"), rx, RW)
                for W, RW in weights
            ]
        else:
            outs = [self._one(x, rx, w, b) for w, b in self.ps]
        c, r = outs[0]
        for c2, r2 in outs[1:]:
            r = np.abs(c) * r2 + np.abs(c2) * r + r * r2 + ref.K * ref.U * np.abs(c * c2)
            c = c * c2
        return c, r

    def _one(self, x, rx, w, b):
        W = ref.f64(w)
        B = None if b is None else ref.f64(b)
        if self.kind in ("baseline", "baseline_relu"):
            c, r = ref.linear(x, rx, W, B)
            return (np.maximum(c, 0), r) if self.kind == "baseline_relu" else (c, r)
        if self.kind == "product":
            if self.periodicity is not None:
                x, rx, _, _ = ref.fold(x, rx, self.periodicity)
            f = x[:, None, :] * W[None]
            r = rx[:, None, :] * np.abs(W)[None] + ref.K * ref.U * np.abs(f)
            c, rad = ref.reduce_prod(f, r)
            s, rs = ref.reduce_sum(f, r)
            a = 1 - self.alpha
            c, rad = c - a * s, rad + abs(a) * rs
            if B is not None:
                c = c + B
                rad = rad + ref.K * ref.U * (np.abs(B) + np.abs(c))
            return c, rad
        return ref.dense(
            x, W, base(self.kind), self.n, self.segs, self.length, self.periodicity,
            self.kind.endswith("_prod"), rx,
        )


def standalone(c, **kw):
    """Layer + oracle for a case dict with type,n,in,out,segs,length[,periodicity]."""
    per = c.get("periodicity")
    layer = make(c["type"], c["n"], c["in"], c["out"], c["segs"], c["length"], per, **kw)
    fl = Flat(c["type"], c["n"], c["in"], c["out"], c["segs"], c["length"], per)
    fl.mult = kw.get("num_input_layers", fl.mult)
    mods = [
        m
        for m in layer.modules()
        if any(p is not None and p.dim() >= 2 for p in m._parameters.values())
    ]
    fl.bind(mods, "layer")
    if mods:
        fail(f"{c['type']}: more parameter tensors than documented")
    return layer, fl
