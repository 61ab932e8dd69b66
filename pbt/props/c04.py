"""C04 Fourier layers."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch.layers import high_order_fc_layers
from high_order_layers_torch.PolynomialLayers import FourierSeries
from high_order_layers_torch.positional_embeddings import FourierSeriesEmbedding
from pbt import gen, lay, ref
from pbt.core import Sub, sut
from pbt.util import T, arr, call, check, set_, weight_param, within

LEN = gen.LENGTH


@st.composite
def case(draw):
    return {
        "how": draw(gen.pick("factory", "factory", "class", "embedding", "default_length")),
        "n": draw(gen.size(1, 9, (12, 20, 33, 64))),
        "in": draw(gen.WIDTH),
        "out": draw(gen.WIDTH),
        "length": draw(LEN),
        "batch": draw(gen.BATCH),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.pick("mix", "inside", "outside", "far")),
        "shift": draw(st.integers(-6, 6)),
        "seed": draw(gen.SEED),
    }


def build(c):
    kw = dict(n=c["n"], in_features=c["in"], out_features=c["out"])
    length = c["length"]
    with sut("construction of fourier"):
        if c["how"] == "factory":
            layer = high_order_fc_layers(layer_type="fourier", segments=3, length=length, **kw)
        elif c["how"] == "class":
            layer = FourierSeries(length=length, **kw)
        elif c["how"] == "default_length":
            layer, length = FourierSeries(**kw), 2.0
        else:
            layer = FourierSeriesEmbedding(length=length, segments=2, **kw)
    check(isinstance(layer, torch.nn.Module), f"{c['how']} did not produce a layer")
    return layer, length


def run(c):
    rng = np.random.RandomState(c["seed"])
    layer, length = build(c)
    p = weight_param(layer, (c["out"], c["in"], c["n"]), "fourier")
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], 3, 1, length)
    y = call(layer, T(x))
    cen, rad = ref.dense(x.astype(float), W.astype(float), "fourier", c["n"], length=length)
    tight = within(y, cen, rad, "fourier output")
    # shift single inputs by whole periods
    xs = x.astype(float) + length * c["shift"] * (rng.uniform(size=x.shape) < 0.5)
    x32 = xs.astype(np.float32)
    slack = np.abs(x32.astype(float) - xs) + ref.U * np.abs(xs)
    y2 = call(layer, T(x32))
    _, rad2 = ref.dense(x32.astype(float), W.astype(float), "fourier", c["n"],
                        length=length, rx=slack)
    within(y2, arr(y), rad + rad2, "fourier output after shifting inputs by whole periods")
    return tight >= 0.5 and c["n"] >= 2


@st.composite
def same_case(draw):
    c = draw(case())
    c["how"] = "embedding"
    return c


def run_same(c):
    """The embedding is the same function as the layer, weight by weight."""
    rng = np.random.RandomState(c["seed"])
    emb, _ = build(c)
    lay_, _ = build(dict(c, how="class"))
    p = weight_param(emb, (c["out"], c["in"], c["n"]), "embedding")
    q = weight_param(lay_, (c["out"], c["in"], c["n"]), "layer")
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    set_(q, W)
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], 3, 1, c["length"])
    a, b = call(emb, T(x)), call(lay_, T(x))
    v = arr(b)
    s = np.abs(W).sum(axis=(1, 2))[None]
    within(a, v, 16 * ref.U * (s * (c["n"] * c["in"]) + np.abs(v)), "embedding vs layer")
    return c["n"] >= 2


SUBS = [
    Sub("series", case(), run, "at least one harmonic and outputs pinned", quick=3000),
    Sub("bulk", gen.bulk(case(), {k: gen.SMALL[k] for k in ("batch", "in", "out", "n")},
                         {"batch": gen.BIG["batch"], "in": gen.BIG["in"],
                          "out": gen.BIG["out"], "n": (64, 101, 130, 257)}), run,
        "as series; one size in the hundreds or thousands", quick=120),
    Sub("embedding", same_case(), run_same, "at least one harmonic", quick=500),
]
QUICK_ROUNDS = 4
