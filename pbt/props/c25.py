"""C25 factories build what is named and refuse what they cannot."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import networks as NW
from high_order_layers_torch.layers import (
    fixed_rotation_layer,
    high_order_convolution_layers,
    high_order_convolution_transpose_layers,
    high_order_fc_layers,
)
from high_order_layers_torch.PolynomialLayers import PiecewiseND
from high_order_layers_torch.positional_embeddings import ClassicSinusoidalEmbedding
from pbt import cv, gen, lay, ndref, ref
from pbt.core import Sub, sut
from pbt.util import given, T, arr, call, check, fail, set_, weight_param, within

HEAVY = True
DENSE = lay.POLY + ["fourier", "product"] + lay.BASELINE + lay.SWITCH
NDN = ["polynomial_2d", "polynomial_3d", "polynomial_4d", "polynomial_5d", "continuous_nd"]
FC = DENSE + NDN
CONV = [f"{k}{d}d" for d in (1, 2) for k in cv.KINDS]
# accepted keys of the convolution table that stand for nothing
UNBUILT = ["continuous_prod2d", "discontinuous_prod2d", "polynomial_prod2d", "product2d"]
EXTRA = st.lists(
    gen.pick("device", "initialize", "weight_magnitude", "scale", "rescale_output",
             "normalization", "num_input_layers", "junk", "alpha", "bias", "kernel_size",
             "stride", "padding", "hidden_width"),
    max_size=5, unique=True,
)
VALUES = {
    "device": "cpu", "weight_magnitude": 2.5, "scale": 4.0, "rescale_output": False,
    "normalization": None, "num_input_layers": 2, "junk": "x", "alpha": 1.0, "bias": False,
    "kernel_size": 3, "stride": 1, "padding": 0, "hidden_width": 7,
}


@st.composite
def dense_case(draw):
    kind = draw(st.sampled_from(FC))
    d = draw(st.integers(1, 4)) if kind == "continuous_nd" else (
        int(kind[-2]) if kind in NDN else 1)
    return {
        "type": kind,
        "dims": d,
        "n": draw(st.integers(2, {1: 8, 2: 5, 3: 4, 4: 3, 5: 2}[d])),
        "in": draw(gen.size(1, 5, (9, 17))),
        "out": draw(gen.size(1, 5, (9, 17))),
        "segs": draw(st.integers(1, {1: 8, 2: 4, 3: 3, 4: 2, 5: 3}[d])),
        "length": draw(gen.LENGTH),
        "periodicity": draw(gen.pick(None, None, 2.0, 3.0)),
        "init": draw(gen.pick(None, "constant_random", "uniform")),
        "extra": draw(EXTRA),
        "batch": draw(st.integers(1, 5)),
        "xmode": draw(gen.pick("mix", "inside", "boundary", "outside")),
        "seed": draw(gen.SEED),
    }


def run_dense(c):
    kind, d = c["type"], c["dims"]
    rng = np.random.RandomState(c["seed"])
    kw = dict(n=c["n"], in_features=c["in"], out_features=c["out"], segments=c["segs"],
              length=c["length"])
    for k in c["extra"]:
        if k in VALUES:
            kw[k] = VALUES[k]
    if c["init"] is not None:
        kw["initialize"] = c["init"]
    per = c["periodicity"]
    if kind in lay.SWITCH + ["fourier", "continuous_nd"] + lay.BASELINE:
        per = None  # these have no periodicity of their own
    else:
        kw["periodicity"] = per
    if kind == "continuous_nd":
        kw["dimensions"] = d
    with sut(f"construction of {kind}"):
        if not (kind in lay.SWITCH and "scale" in kw):  # there scale stands in for length
            kw = given(**kw)
        layer = high_order_fc_layers(layer_type=kind, **kw)
    check(isinstance(layer, torch.nn.Module), f"{kind}: not a module: {type(layer)}")
    if kind in NDN:
        ns, segs = [c["n"]] * d, [c["segs"]] * d
        nb = math.prod(ns)
        if kind == "continuous_nd":
            p = weight_param(layer, (c["in"], c["out"], nb * math.prod(segs)), kind)
        else:
            p = weight_param(layer, (c["out"], c["in"], nb), kind)
            segs = None
        W = gen.weights(rng, p.shape, "normal")
        set_(p, W)
        x = np.stack([gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"],
                                 c["segs"] if segs else 1, c["length"], per)
                      for _ in range(d)], -1)
        e = ndref.expand_nd(x.astype(float), ns, c["length"], segs, per)
        f, r = ref.links(W.astype(float) if segs is None else W.astype(float).transpose(1, 0, 2), e)
        cen, rad = ref.reduce_sum(f, r)
    else:
        fl = lay.Flat(kind, c["n"], c["in"], c["out"], c["segs"], c["length"], per)
        mods = [m for m in layer.modules()
                if any(p is not None and p.dim() >= 2 for p in m._parameters.values())]
        fl.bind(mods, "factory layer")
        check(not mods, f"{kind}: more weight tensors than documented")
        for w, b in fl.ps:
            check(w.requires_grad, f"{kind}: weights not trainable")
        fl.fill(rng)
        x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"],
                       c["segs"] if lay.is_piece(kind) else 1, c["length"], per)
        cen, rad = fl.eval(x.astype(float), 0.0)
    y = call(layer, T(x), f"forward of {kind}")
    check(tuple(y.shape) == (c["batch"], c["out"]), f"{kind}: output shape {tuple(y.shape)}")
    tight = within(y, cen, rad, f"{kind} from the factory")
    return tight >= 0.5


@st.composite
def conv_case(draw):
    c = draw(cv.conv_case(modes=False))
    c["extra"] = draw(st.lists(gen.pick("device", "junk", "scale", "hidden_width", "alpha"),
                               max_size=3, unique=True))
    c["init"] = draw(gen.pick(None, "constant_random", "uniform"))
    c["xmode"] = draw(gen.pick("mix", "inside", "boundary"))
    return c


def run_conv(c):
    rng = np.random.RandomState(c["seed"])
    kw = {k: VALUES[k] for k in c["extra"]}
    if c["init"] is not None:
        kw["initialize"] = c["init"]
    layer, p, nb = cv.build(c, **kw)
    W = gen.weights(rng, p.shape, "normal")
    set_(p, W)
    x = cv.inputs(c, rng)
    y = call(layer, T(x), "convolution")
    check(y.shape[1] == c["out"], f"{y.shape[1]} output channels, requested {c['out']}")
    cen, rad = cv.oracle(c, x.astype(float), W.astype(float), nb)
    return within(y, cen, rad, f"{c['kind']}{c['dim']}d from the factory") >= 0.5


def run_transpose(c):
    rng = np.random.RandomState(c["seed"])
    layer, p, nb = cv.build_transpose(c)
    W = gen.weights(rng, p.shape, "normal")
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"]) + tuple(c["sizes"]), "mix", c["n"], c["segs"],
                   c["length"], c["periodicity"])
    y = call(layer, T(x), "transposed convolution")
    check(y.shape[1] == c["out"], f"{y.shape[1]} output channels, requested {c['out']}")
    cen, rad = cv.oracle_transpose(c, x.astype(float), W.astype(float), nb)
    return within(y, cen, rad, "continuous2d from the transposed factory") >= 0.5


KNOWN = {"fc": set(FC), "conv": set(CONV + UNBUILT), "transpose": {"continuous2d"}}


@st.composite
def unknown_case(draw):
    which = draw(gen.pick("fc", "conv", "transpose"))
    near = sorted(set(FC + CONV + UNBUILT + ["linear", "relu", "conv2d", "none", "None"]))
    s = draw(st.one_of(st.sampled_from(near), st.text(max_size=12)))
    m = draw(gen.pick("asis", "upper", "space", "suffix", "drop", "prefix", "under"))
    s = {"asis": s, "upper": s.upper(), "space": s + " ", "suffix": s + "d", "drop": s[:-1],
         "prefix": "x" + s, "under": s.replace("_", "")}[m]
    return {"which": which, "name": s, "n": draw(st.integers(1, 6)),
            "segs": draw(st.integers(1, 4))}


def rejects(what, fn, why):
    try:
        r = fn()
    except ValueError:
        return
    except Exception as e:  # noqa
        fail(f"{what}: {why} raised {type(e).__name__} instead of ValueError: {str(e)[:200]}")
    fail(f"{what}: {why} was accepted ({type(r).__name__})")


def run_unknown(c):
    if c["name"] in KNOWN[c["which"]]:
        return False
    f = {"fc": high_order_fc_layers, "conv": high_order_convolution_layers,
         "transpose": high_order_convolution_transpose_layers}[c["which"]]
    if c["which"] == "fc":
        kw = dict(n=c["n"], in_features=2, out_features=3, segments=c["segs"])
    else:
        kw = dict(n=c["n"], in_channels=2, out_channels=3, segments=c["segs"], kernel_size=2)
    rejects(f.__name__, lambda: f(layer_type=c["name"], **kw), f"unknown name {c['name']!r}")
    return True


@st.composite
def invalid_case(draw):
    what = draw(gen.pick("list", "fcn", "deconv", "tail", "nd_lists", "nd_missing", "rotation",
                         "odd", "hidden_unknown"))
    k = draw(st.integers(1, 4))
    return {
        "what": what,
        "k": k,
        "delta": draw(gen.pick(-3, -2, -1, 1, 2, 3)),
        "type": draw(st.sampled_from(DENSE)),
        "ctype": draw(st.sampled_from(CONV)),
        "n": draw(st.integers(1, 6)),
        "segs": draw(st.integers(1, 5)),
        "width": draw(st.integers(1, 5)),
        "aslist": draw(st.booleans()),
        "norm": draw(st.booleans()),
        "channels": draw(st.lists(st.integers(1, 4), max_size=1)),
        "rot": draw(st.integers(-4, 0)),
        "dim": draw(st.integers(0, 40)) * 2 + 1,
        "name": draw(gen.pick("", "linear", "Continuous", "cont", "continuous_")),
        "net": draw(gen.pick("mlp", "list", "fcn", "deconv", "tail", "multi", "transform")),
    }


def run_invalid(c):
    w, k, n, s = c["what"], c["k"], c["n"], c["segs"]
    many = (lambda v: [v] * k) if c["aslist"] else (lambda v: v)
    norm = torch.nn.LazyBatchNorm2d if c["norm"] else None
    if w == "list":
        m = k + 1 + c["delta"]
        if m < 0:
            return False
        rejects("HighOrderMLPList", lambda: NW.HighOrderMLPList(
            layer_type=[c["type"]] * k, n=[n] * k, width=[c["width"]] * m,
            segments=[s] * k), f"{m} widths for {k} layers")
    elif w == "fcn":
        rejects("fully convolutional network", lambda: NW.HighOrderFullyConvolutionalNetwork(
            layer_type=many(c["ctype"]), n=many(n), channels=c["channels"], segments=many(s),
            kernel_size=[2] * k, pooling=None, normalization=norm), f"channels {c['channels']}")
    elif w == "deconv":
        rejects("deconvolutional network", lambda: NW.HighOrderFullyDeconvolutionalNetwork(
            layer_type=many("continuous2d"), n=many(n), channels=c["channels"],
            segments=many(s), kernel_size=[2] * k, normalization=norm),
            f"channels {c['channels']}")
    elif w == "tail":
        rejects("tail focus network", lambda: NW.HighOrderTailFocusNetwork(
            layer_type=many(c["ctype"][:-2] + "1d"), n=many(n), channels=c["channels"],
            segments=many(s), kernel_size=[2] * k, focus=[1] * k, stride=[1] * k),
            f"channels {c['channels']}")
    elif w == "nd_lists":
        m = k + c["delta"]
        if m < 0:
            return False
        kw = dict(n=[2] * k, in_features=2, out_features=2, segments=[s] * m)
        if c["aslist"]:
            kw["dimensions"] = k
        f = PiecewiseND if c["norm"] else (
            lambda **q: high_order_fc_layers(layer_type="continuous_nd", **q))
        rejects("multidimensional piecewise layer", lambda: f(**kw),
                f"{k} orders and {m} segment counts")
    elif w == "nd_missing":
        segs = [s] * k if c["aslist"] else s
        f = PiecewiseND if c["norm"] else (
            lambda **q: high_order_fc_layers(layer_type="continuous_nd", **q))
        rejects("multidimensional piecewise layer",
                lambda: f(n=n, in_features=2, out_features=2, segments=segs),
                "scalar order without a dimension count")
    elif w == "rotation":
        if c["norm"]:
            rejects("transform_mlp", lambda: NW.transform_mlp(
                layer_type="continuous", in_width=c["width"], hidden_width=2, out_width=2, n=2,
                n_in=2, n_hidden=2, n_out=2, in_segments=1, hidden_segments=1, out_segments=1, hidden_layers=1,
                rotations=c["rot"]), f"rotations={c['rot']}")
        rejects("fixed_rotation_layer",
                lambda: fixed_rotation_layer(n=c["width"], rotations=c["rot"],
                                             normalize=c["aslist"]), f"rotations={c['rot']}")
    elif w == "odd":
        rejects("sinusoidal embedding", lambda: ClassicSinusoidalEmbedding(c["dim"]),
                f"dimension {c['dim']}")
    else:
        t = c["name"]
        base = dict(layer_type=t, n=n, in_width=2, out_width=2, hidden_layers=k, hidden_width=2,
                    in_segments=s, hidden_segments=s, out_segments=s)
        conv = dict(layer_type=many(t), n=many(n), channels=[2] * (k + 1), segments=many(s),
                    kernel_size=[1] * k)
        f = {
            "mlp": lambda: NW.HighOrderMLP(**base),
            "multi": lambda: NW.HighOrderMultiMLP(
                replicas=2, layer_type_in=None, n_in=n, n_hidden=n, n_out=n, **base),
            "transform": lambda: NW.transform_mlp(
                rotations=2, n_in=n, n_hidden=n, n_out=n, **base),
            "list": lambda: NW.HighOrderMLPList(
                layer_type=["continuous"] * (k - 1) + [t], n=[n] * k, width=[2] * (k + 1),
                segments=[s] * k),
            "fcn": lambda: NW.HighOrderFullyConvolutionalNetwork(**conv),
            "deconv": lambda: NW.HighOrderFullyDeconvolutionalNetwork(**conv),
            "tail": lambda: NW.HighOrderTailFocusNetwork(focus=[1] * k, stride=[1] * k, **conv),
        }[c["net"]]
        rejects(c["net"] + " network", f, f"unknown layer type {t!r}")
    return True


SUBS = [
    Sub("dense_names", dense_case(), run_dense, "outputs pinned by the representation named",
        quick=3000),
    Sub("conv_names", conv_case(), run_conv, "outputs pinned by the representation named",
        quick=800),
    Sub("transpose_names", cv.transpose_case(), run_transpose,
        "outputs pinned by the representation named", quick=300),
    Sub("unknown_names", unknown_case(), run_unknown, "a name the factory does not document",
        quick=1600),
    Sub("invalid_arguments", invalid_case(), run_invalid, "an inconsistent argument set",
        quick=1600),
]
ASSUMPTIONS = [
    "The four convolution table keys that map to nothing (…_prod2d, product2d) are not generated.",
]
QUICK_ROUNDS = 3
