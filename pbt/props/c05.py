"""C05 multidimensional layers."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch.layers import high_order_fc_layers
from high_order_layers_torch.PolynomialLayers import PiecewiseND, PolynomialND
from pbt import gen, ndref, ref
from pbt.core import Sub, sut
from pbt.util import given, T, arr, call, check, set_, weight_param, within

LEN = gen.LENGTH


@st.composite
def case(draw, kinds=("poly", "poly", "piece", "piece")):
    kind = draw(st.sampled_from(list(kinds)))
    d = draw(gen.size(2, 3, (4, 5) if kind == "poly" else (1, 4)))
    top = {1: 8, 2: 6, 3: 4, 4: 3, 5: 2}[d]
    ns = draw(st.lists(st.integers(1 if kind == "poly" else 2, top), min_size=d, max_size=d))
    smax = {1: 9, 2: 5, 3: 3, 4: 2, 5: 1}[d]
    segs = draw(st.lists(st.integers(1, smax), min_size=d, max_size=d))
    scalar_n = draw(st.booleans())
    scalar_s = draw(st.booleans())
    if scalar_n:
        ns = [ns[0]] * d
    if scalar_s:
        segs = [segs[0]] * d
    return {
        "kind": kind,
        "via": draw(gen.pick("factory", "class")),
        "ns": ns,
        "segs": segs,
        "scalar_n": scalar_n,
        "scalar_s": scalar_s,
        "in": draw(gen.size(1, 4, (6, 9, 17))),
        "out": draw(gen.size(1, 4, (6, 9, 17))),
        "length": draw(LEN),
        "batch": draw(gen.size(1, 6, (15, 33, 70))),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.pick("mix", "inside", "boundary", "nodes", "outside")),
        "seed": draw(gen.SEED),
    }


def build(c):
    d = len(c["ns"])
    n = c["ns"][0] if c["scalar_n"] else list(c["ns"])
    kw = given(n=n, in_features=c["in"], out_features=c["out"], length=c["length"])
    with sut(f"construction of {c['kind']} {d}-dimensional layer"):
        if c["kind"] == "poly":
            if c["via"] == "factory" and 2 <= d <= 5:
                layer = high_order_fc_layers(layer_type=f"polynomial_{d}d", **kw)
            else:
                layer = PolynomialND(dimensions=d, **kw)
        else:
            kw["segments"] = c["segs"][0] if c["scalar_s"] else list(c["segs"])
            if c["scalar_n"]:
                kw["dimensions"] = d
            if c["via"] == "factory":
                layer = high_order_fc_layers(layer_type="continuous_nd", **kw)
            else:
                layer = PiecewiseND(**kw)
    if c["kind"] == "poly":
        p = weight_param(layer, (c["out"], c["in"], math.prod(c["ns"])), "ND polynomial")
    else:
        p = weight_param(
            layer, (c["in"], c["out"], math.prod(c["ns"]) * math.prod(c["segs"])), "ND piecewise"
        )
    return layer, p


def points(c, rng):
    d = len(c["ns"])
    return np.stack(
        [
            gen.inputs(
                rng, (c["batch"], c["in"]), c["xmode"], c["ns"][k],
                c["segs"][k] if c["kind"] == "piece" else 1, c["length"],
            )
            for k in range(d)
        ],
        -1,
    )


def oracle(c, x, W):
    e = ndref.expand_nd(
        x.astype(float), c["ns"], c["length"], c["segs"] if c["kind"] == "piece" else None
    )
    Wo = W.astype(float) if c["kind"] == "poly" else W.astype(float).transpose(1, 0, 2)
    f, r = ref.links(Wo, e)
    return ref.reduce_sum(f, r)


def run(c):
    rng = np.random.RandomState(c["seed"])
    layer, p = build(c)
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    x = points(c, rng)
    y = call(layer, T(x))
    cen, rad = oracle(c, x, W)
    tight = within(y, cen, rad, f"{c['kind']} {len(c['ns'])}d output")
    return tight >= 0.5 and np.any(W != 0) and max(c["ns"]) > 1


def run_links(c):
    """Changing one link's weights changes only that output, by that input."""
    rng = np.random.RandomState(c["seed"])
    layer, p = build(c)
    W = gen.weights(rng, p.shape, "normal")
    set_(p, W)
    x = points(c, rng)
    y0 = arr(call(layer, T(x)))
    o, i = rng.randint(c["out"]), rng.randint(c["in"])
    W2 = W.copy()
    if c["kind"] == "poly":
        W2[o, i] = rng.normal(size=W2.shape[-1]) + 2
    else:
        W2[i, o] = rng.normal(size=W2.shape[-1]) + 2
    set_(p, W2)
    y1 = arr(call(layer, T(x)))
    others = [k for k in range(c["out"]) if k != o]
    check(np.array_equal(y0[:, others], y1[:, others]),
          "changing the weights of one link changed another output")
    cen, rad = oracle(c, x, W2)
    within(y1, cen, rad, "output after changing one link")
    # a common constant per link: output is the sum of the constants everywhere
    cst = rng.normal(size=(c["out"], c["in"])).astype(np.float32)
    Wc = np.broadcast_to((cst if c["kind"] == "poly" else cst.T)[..., None], W.shape)
    set_(p, Wc)
    cen, rad = oracle(c, x, np.ascontiguousarray(Wc))
    want = np.broadcast_to(cst.astype(float).sum(1)[None], (c["batch"], c["out"]))
    within(call(layer, T(x)), want, rad, "constant links")
    return c["in"] * c["out"] > 1


SUBS = [
    Sub("tensor_product", case(), run, "some order above constant and outputs pinned", quick=3000),
    Sub("bulk", gen.bulk(case(), {"batch": st.integers(1, 3), "in": st.integers(1, 2),
                                  "out": st.integers(1, 2)},
                         {"batch": (260, 520, 1030, 2050), "in": (40, 70, 130),
                          "out": (70, 130, 260)}), run,
        "as tensor_product; batch, inputs or outputs large", quick=120),
    Sub("independent_links", case(), run_links, "more than one link", quick=1200),
]
QUICK_ROUNDS = 4
