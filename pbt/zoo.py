"""Every layer and network type behind one interface.

case_strategy() draws a JSON case; build(case) returns a Model: the module, the
shape of one sample and the weight shapes its documentation promises.
"""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import attentions as A
from high_order_layers_torch import layers as L
from high_order_layers_torch import networks as NW
from high_order_layers_torch import positional_embeddings as PE
from high_order_layers_torch.utils import make_periodic
from pbt import gen, lay, net, ref
from pbt.core import sut

LAYERS = lay.POLY + ["fourier", "product", "baseline", "baseline_relu"] + lay.SWITCH
ND = ["polynomial_2d", "polynomial_3d", "continuous_nd"]
CONV = [f"{k}{d}d" for d in (1, 2) for k in ("continuous", "discontinuous", "polynomial", "fourier")]
SMOOTH = ["continuous", "continuous_prod", "polynomial", "polynomial_prod", "fourier", "product",
          "switch_continuous"]
FIRST = SMOOTH + ["discontinuous", "discontinuous_prod", "switch_discontinuous"]
NETS = ["mlp", "list", "multi", "low", "transform", "transform_low", "fcn", "deconv", "tail"]
GROUPS = {
    "layer": LAYERS, "nd": ND, "conv": CONV, "transpose": ["transpose"], "net": NETS,
    "sum": ["sum"], "embedding": ["sin", "fourier_e", "piece_e", "disc_e"],
    "normalisation": ["max_abs", "max_abs_dim2", "max_abs_last", "max_abs_nd", "max_center",
                      "max_center_last", "max_center_nd", "l2", "layer_norm", "periodic"],
    "rotation": ["rotation"],
    "attention": ["scaled", "dot", "additive", "location", "multi_location", "multi", "relative",
                  "custom"],
}
EVERY = ("layer", "layer", "nd", "conv", "transpose", "net", "net", "net", "sum", "embedding",
         "normalisation", "rotation", "attention")


@st.composite
def case_strategy(draw, groups=("layer", "layer", "nd", "conv", "transpose", "net", "net", "net",
                                "sum", "embedding")):
    g = draw(st.sampled_from(list(groups)))
    k = draw(st.integers(1, 3))
    return {
        "group": g,
        "what": draw(st.sampled_from(GROUPS[g])),
        "first": draw(st.sampled_from(FIRST)),
        "types": [draw(st.sampled_from(SMOOTH)) for _ in range(3)],
        "n": [draw(st.integers(2, 4)) for _ in range(4)],
        "segs": [draw(gen.size(1, 4, (9, 17, 40))) for _ in range(4)],
        "width": [draw(gen.size(1, 4, (7, 13))) for _ in range(5)],
        "depth": k,
        "k": [draw(st.integers(1, 3)) for _ in range(3)],
        "stride": draw(gen.pick(None, 1, 2)),
        "pad": draw(gen.pick(0, 0, 1)),
        "length": draw(gen.pick(2.0, 2.0, 4.0)),
        "periodicity": draw(gen.pick(None, None, None, 2.0, 2.0, 5.0)),
        "norm": draw(gen.pick(None, None, "max_abs", "max_center", "l2", "layer_norm")),
        "nonlin": draw(gen.pick(None, None, "tanh", "relu")),
        "resnet": draw(st.booleans()),
        "dropout": draw(gen.pick(0.0, 0.0, 0.4)),
        "rotations": draw(gen.size(1, 3, (4, 5, 7))),
        "alpha": draw(gen.pick(1.0, 1.0, 0.5, 0.0)),
        "bias": draw(st.booleans()),
        "pool": draw(st.booleans()),
        "bn": draw(gen.pick(None, "max_abs", "batch")),
        "rescale": draw(st.booleans()),
        "cin_first": draw(st.booleans()),
        "init": draw(gen.pick("constant_random", "uniform")),
    }


class Model:
    def __init__(self, module, sample, shapes, scale=1.0, frozen=()):
        self.m, self.sample, self.shapes, self.scale, self.frozen = (
            module, tuple(sample), list(shapes), scale, list(frozen))

    def inputs(self, rng, batch, spread=1.0):
        return (rng.uniform(-1, 1, size=(batch,) + self.sample) * spread * self.scale).astype(
            np.float32)


def _wshape(kind, n, i, o, s):
    if kind in ("product", "baseline", "baseline_relu"):
        return [(o, i)]
    one = (o, i, lay.nbasis(kind, n, s if lay.is_piece(kind) else 1))
    return [one] * (2 if kind in lay.SWITCH else 1)


def build(c):
    with sut(f"construction of {c['what']}"):
        return _build(c)


def _build(c):
    w, n, s, k = c["width"], c["n"], c["segs"], c["depth"]
    ln, per = c["length"], c["periodicity"]
    half = 0.5 * ln
    what = c["what"]
    if c["group"] == "layer":
        p = None if what in lay.SWITCH + ["fourier", "baseline", "baseline_relu"] else per
        m = L.high_order_fc_layers(
            layer_type=what, n=n[0], in_features=w[0], out_features=w[1], segments=s[0],
            length=ln, periodicity=p, initialize=c["init"],
            **(dict(alpha=c["alpha"], bias=c["bias"]) if what == "product" else {}))
        return Model(m, (w[0],), _wshape(what, n[0], w[0], w[1], s[0]), half)
    if c["group"] == "nd":
        d = 3 if what == "polynomial_3d" else 2
        ns, ss = n[:d], s[:d]
        kw = dict(segments=ss, dimensions=d) if what == "continuous_nd" else {}
        m = L.high_order_fc_layers(layer_type=what, n=ns, in_features=w[0], out_features=w[1],
                                   length=ln, **kw)
        nb = int(np.prod(ns))
        shape = (w[0], w[1], nb * int(np.prod(ss))) if kw else (w[1], w[0], nb)
        return Model(m, (w[0], d), [shape], half)
    if c["group"] == "conv":
        d = int(what[-2])
        kind = what[:-2]
        p = None if kind == "fourier" else per
        kw = {} if p is None else {"periodicity": p}
        m = L.high_order_convolution_layers(
            layer_type=what, n=n[0], in_channels=w[0], out_channels=w[1], kernel_size=c["k"][0],
            segments=s[0], length=ln, rescale_output=c["rescale"], stride=c["stride"] or 1,
            padding=c["pad"], **kw)
        nb = ref.num_basis(kind, n[0], s[0])
        size = (w[0], 6) if d == 1 else (w[0], 4, 5)
        return Model(m, size, [(w[1], w[0] * nb) + (c["k"][0],) * d], half)
    if c["group"] == "transpose":
        kw = {} if per is None else {"periodicity": per}
        m = L.high_order_convolution_transpose_layers(
            layer_type="continuous2d", n=n[0], in_channels=w[0], out_channels=w[1],
            kernel_size=c["k"][0], segments=s[0], length=ln, rescale_output=c["rescale"],
            stride=c["stride"] or 1, **kw)
        nb = ref.num_basis("continuous", n[0], s[0])
        return Model(m, (w[0], 3, 4), [(w[0] * nb, w[1]) + (c["k"][0],) * 2], half)
    if c["group"] == "sum":
        ls, shapes = [], []
        for i in range(2):
            t = c["types"][i]
            ls.append(L.high_order_fc_layers(layer_type=t, n=n[i], in_features=w[0],
                                             out_features=w[1], segments=s[i], length=ln))
            shapes += _wshape(t, n[i], w[0], w[1], s[i])
        return Model(L.SumLayer(layer_list=ls), (w[0],), shapes, half)
    if c["group"] == "embedding":
        if what == "sin":
            return Model(PE.ClassicSinusoidalEmbedding(2 * w[0]), (), [], 3.0)
        if what == "fourier_e":
            m = PE.FourierSeriesEmbedding(n=n[0], in_features=w[0], out_features=w[1], length=ln)
            return Model(m, (w[0],), [(w[1], w[0], n[0])], half)
        cls = PE.PiecewisePolynomialEmbedding if what == "piece_e" else (
            PE.PiecewiseDiscontinuousPolynomialEmbedding)
        m = cls(n=n[0], in_features=w[0], out_features=w[1], segments=s[0], length=ln,
                periodicity=per)
        kind = "continuous" if what == "piece_e" else "discontinuous"
        return Model(m, (w[0],), _wshape(kind, n[0], w[0], w[1], s[0]), half)
    if c["group"] == "normalisation":
        sizes = (w[1], w[2], w[3])[:k]
        if what == "max_abs_dim2":
            return Model(L.MaxAbsNormalization(dim=2), (w[1], w[2], w[3])[:max(k, 2)], [])
        if what == "periodic":
            return Model(Periodic(per or 0.5), sizes, [])
        m = {"max_abs": L.MaxAbsNormalization, "max_abs_last": L.MaxAbsNormalizationLast,
             "max_abs_nd": L.MaxAbsNormalizationND, "max_center": L.MaxCenterNormalization,
             "max_center_last": L.MaxCenterNormalizationLast,
             "max_center_nd": L.MaxCenterNormalizationND, "l2": L.L2Normalization,
             "layer_norm": L.LazyLayerNormLastDim}[what]()
        return Model(m, sizes[:1] if what == "l2" else sizes, [])
    if c["group"] == "rotation":
        m, _ = L.fixed_rotation_layer(n=w[0], rotations=c["rotations"], normalize=c["rescale"])
        return Model(m, (w[0],), [])
    if c["group"] == "attention":
        heads = k
        dim = w[0] * (heads if what in ("multi", "multi_location", "relative", "custom") else 1)
        m = {"scaled": lambda: A.ScaledDotProductAttention(dim),
             "dot": lambda: A.DotProductAttention(dim),
             "additive": lambda: A.AdditiveAttention(dim),
             "location": lambda: A.LocationAwareAttention(dim, smoothing=c["resnet"]),
             "multi_location": lambda: A.MultiHeadLocationAwareAttention(dim, heads),
             "multi": lambda: A.MultiHeadAttention(dim, heads),
             "relative": lambda: A.RelativeMultiHeadAttention(dim, heads, c["dropout"]),
             "custom": lambda: A.CustomizingAttention(dim, heads)}[what]()
        return Model(SelfAttention(what, m), (w[1] + 1, dim), [])
    return _net(c)


class Periodic(torch.nn.Module):
    def __init__(self, p):
        super().__init__()
        self.p = p

    def forward(self, x):
        return make_periodic(x, self.p)


class SelfAttention(torch.nn.Module):
    """An attention module as a function of one tensor; its result is context and weights."""

    def __init__(self, what, attention):
        super().__init__()
        self.what, self.a = what, attention

    def forward(self, x):
        w, a = self.what, self.a
        if w in ("scaled", "multi"):
            return a(x, x, x)[0]
        if w == "dot":
            return a(x, x)[0]
        if w == "additive":
            return a(x[:, :1], x, x)[0]
        if w == "relative":
            return a(x, x, x, x)
        return a(x[:, :1] if w in ("location", "multi_location") else x, x, None)[0]


class NormND(torch.nn.Module):
    """Takes the channel count like a batch norm does."""

    def __init__(self, channels):
        super().__init__()
        self.f = L.MaxAbsNormalizationND()

    def forward(self, x):
        return self.f(x)


def _conv_norm(c, d):
    if c["bn"] is None:
        return None
    if c["bn"] == "max_abs":
        return NormND
    return torch.nn.BatchNorm1d if d == 1 else torch.nn.BatchNorm2d


def _net(c):
    w, n, s, k = c["width"], c["n"], c["segs"], c["depth"]
    ln, per, what = c["length"], c["periodicity"], c["what"]
    norm = net.NORMS[c["norm"]]
    act = None if c["nonlin"] is None else net.NONLIN[c["nonlin"]]()
    t, tin = c["types"][0], c["first"]
    if "switch" in t + tin or "fourier" in t + tin:
        per = None
    half = 0.5 * ln
    if what in ("mlp", "multi"):
        kw = dict(layer_type=t, layer_type_in=tin if what == "mlp" else None, n=n[1], n_in=n[0],
                  n_hidden=n[1], n_out=n[2], in_width=w[0], out_width=w[2], hidden_layers=k,
                  hidden_width=w[1], scale=ln, periodicity=per, non_linearity=act,
                  in_segments=s[0], hidden_segments=s[1], out_segments=s[2], normalization=norm,
                  resnet=c["resnet"], dropout=c["dropout"], initialization=c["init"])
        if what == "mlp":
            m = NW.HighOrderMLP(**kw)
            shapes = _wshape(tin, n[0], w[0], w[1], s[0])
            shapes += _wshape(t, n[1], w[1], w[1], s[1]) * k
        else:
            m = NW.HighOrderMultiMLP(replicas=2, **kw)
            shapes = _wshape(t, n[0], w[0], w[1], s[0])
            shapes += _wshape(t, n[1], w[1], w[1], s[1]) * (k + 2) * 2
        shapes += _wshape(t, n[2], w[1], w[2], s[2])
        return Model(m, (w[0],), shapes, half)
    if what == "list":
        types = [tin] + c["types"][:k]
        kk = len(types)
        m = NW.HighOrderMLPList(
            layer_type=types, n=n[:kk], width=w[:kk + 1], segments=s[:kk], scale=ln,
            periodicity=None if any("switch" in q or "fourier" in q for q in types) else per,
            normalization=None if norm is None else [norm] * kk,
            non_linearity=None if act is None else [act] * kk)
        shapes = []
        for i, q in enumerate(types):
            shapes += _wshape(q, n[i], w[i], w[i + 1], s[i])
        return Model(m, (w[0],), shapes, half)
    if what == "low":
        m = NW.LowOrderMLP(in_width=w[0], out_width=w[2], hidden_layers=k, hidden_width=w[1],
                           non_linearity=act, normalization=norm)
        return Model(m, (w[0],), [(w[1], w[0])] + [(w[1], w[1])] * k + [(w[2], w[1])])
    rot = c["rotations"]
    fw = w[0] + w[0] * (w[0] - 1) * (rot - 1)
    if what == "transform":
        m = NW.transform_mlp(
            layer_type=t, in_width=w[0], hidden_width=w[1], out_width=w[2], n=n[1], n_in=n[0],
            n_hidden=n[1], n_out=n[2], in_segments=s[0], hidden_segments=s[1], out_segments=s[2],
            hidden_layers=k, rotations=rot, scale=ln, periodicity=per, normalization=norm,
            resnet=c["resnet"])
        shapes = _wshape(t, n[0], fw, w[1], s[0]) + _wshape(t, n[1], w[1], w[1], s[1]) * k
        shapes += _wshape(t, n[2], w[1], w[2], s[2])
        return Model(m, (w[0],), shapes, 1.0, [(fw, w[0])])
    if what == "transform_low":
        m = NW.transform_low_mlp(in_width=w[0], hidden_width=w[1], out_width=w[2],
                                 hidden_layers=k, non_linearity=act, normalization=norm,
                                 rotations=rot)
        return Model(m, (w[0],), [(w[1], fw)] + [(w[1], w[1])] * k + [(w[2], w[1])], 1.0,
                     [(fw, w[0])])
    # convolutional networks
    smooth = {"switch": "continuous"}
    d = 1 if what == "tail" or (what == "fcn" and c["cin_first"]) else 2
    kinds = []
    for i, q in enumerate([tin] + c["types"][:k - 1]):
        q = q.replace("switch_", "").replace("_prod", "")
        kinds.append("polynomial" if q == "product" else q)
    ch = w[:k + 1]
    ks = c["k"][:k]
    per = None if "fourier" in kinds else c["periodicity"]
    stride = c["stride"]
    if what == "deconv":
        m = NW.HighOrderFullyDeconvolutionalNetwork(
            layer_type="continuous2d", n=n[:k], channels=ch, segments=s[:k], kernel_size=ks,
            rescale_output=c["rescale"], periodicity=per, normalization=_conv_norm(c, 2),
            stride=None if stride is None else [stride] * k)
        shapes = [(ch[i] * ref.num_basis("continuous", n[i], s[i]), ch[i + 1], ks[i], ks[i])
                  for i in range(k)]
        return Model(m, (ch[0], 2, 2), shapes)
    shapes = [(ch[i + 1], ch[i] * ref.num_basis(kinds[i], n[i], s[i])) + (ks[i],) * d
              for i in range(k)]
    kw = dict(layer_type=[f"{q}{d}d" for q in kinds], n=n[:k], channels=ch, segments=s[:k],
              kernel_size=ks, rescale_output=c["rescale"], periodicity=per,
              normalization=_conv_norm(c, d), stride=stride, padding=c["pad"])
    if what == "fcn":
        m = NW.HighOrderFullyConvolutionalNetwork(pooling=f"{d}d" if c["pool"] else None, **kw)
        return Model(m, (ch[0], 18) if d == 1 else (ch[0], 18, 18), shapes)
    m = NW.HighOrderTailFocusNetwork(focus=[1 + (i % 3) for i in range(k)], **kw)
    return Model(m, (ch[0], 18), shapes)


def materialise(model, rng):
    """First call, so that lazy parameters exist."""
    with sut("forward"), torch.no_grad():
        model.m.eval()
        model.m(torch.tensor(model.inputs(rng, 2)))


def fill(model, rng):
    """Random weights that mostly keep values inside the polynomials' domain."""
    with torch.no_grad():
        for p in model.m.parameters():
            if not p.requires_grad:
                continue
            sh = tuple(p.shape)
            if len(sh) == 3 and not _is_conv(model, sh):
                v = rng.uniform(-1, 1, size=sh) * 0.8 / sh[1]
            elif len(sh) >= 2:
                v = rng.uniform(-1, 1, size=sh) * 1.5 / np.sqrt(np.prod(sh[1:]))
            else:
                v = rng.uniform(-0.5, 0.5, size=sh)
            p.copy_(torch.tensor(v.astype(np.float32)))
        for name, b in model.m.named_buffers():
            if b.is_floating_point() and b.dim() == 1:
                v = rng.uniform(0.5, 2.0, size=tuple(b.shape)) if "var" in name else (
                    rng.uniform(-0.5, 0.5, size=tuple(b.shape)))
                b.copy_(torch.tensor(v.astype(np.float32)))


def _is_conv(model, sh):
    return len(model.sample) == 2 and model.m.__class__.__name__ != "PolynomialND" and any(
        True for mod in model.m.modules() if isinstance(mod, torch.nn.Conv1d)
        and tuple(mod.weight.shape) == sh)
