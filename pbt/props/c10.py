"""C10 gradients are the derivatives of the computed function."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch.layers import SwitchLayer, high_order_fc_layers
from pbt import cv, gen, grads, lay, ndref, ref
from pbt.core import Sub, sut
from pbt.util import given, T, arr, check, fail, grad_state, set_, weight_param, within


def backward(layer, x, g):
    xt = T(x).requires_grad_(True)
    with sut("forward and backward"):
        layer.zero_grad()
        y = layer(grad_state(layer, xt))
        layer.zero_grad()
        if tuple(y.shape) != tuple(g.shape):
            fail(f"output shape {tuple(y.shape)}, expected {tuple(g.shape)}")
        y.backward(T(g))
    # no gradient at all is the zero gradient (a constant function, n = 1)
    return arr(y), np.zeros(x.shape) if xt.grad is None else arr(xt.grad)


def finite(a, c, what, mag=1.0):
    """Everything finite unless a value (or, for products, an intermediate of size
    mag) approaches the float32 range."""
    if not (np.nanmax(np.abs(c), initial=0.0) * mag < 1e30):
        return
    ok = np.isfinite(a)
    check(ok.all(), lambda: f"{what} is not finite at {tuple(np.argwhere(~ok)[0])}")


@st.composite
def dense_case(draw):
    kind = draw(st.sampled_from(lay.POLY + lay.POLY + ["fourier"]))
    return {
        "type": kind,
        "n": draw(gen.N),
        "in": draw(gen.size(1, 4, (8, 17))),
        "out": draw(gen.size(1, 4, (8, 17))),
        "segs": draw(gen.size(1, 8, (12, 17, 33, 70))),
        "length": draw(gen.LENGTH),
        "periodicity": draw(st.one_of(st.none(), st.none(), gen.pick(2.0, 1.0, 3.0)))
        if kind != "fourier" else None,
        "batch": draw(gen.size(1, 5, (16, 65))),
        "wmode": draw(gen.pick("normal", "uniform", "ints", "scales", "zero_some", "const")),
        "xmode": draw(gen.pick("inside", "inside", "mix", "outside", "nodes", "boundary")),
        "seed": draw(gen.SEED),
    }


def run_dense(c):
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    p = fl.ps[0][0]
    segs, per = fl.segs, c["periodicity"]
    W = gen.weights(rng, p.shape, c["wmode"]).astype(float)
    prod = c["type"].endswith("_prod")
    if prod:
        W = (W * 0.5).astype(np.float32).astype(float)
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"], segs, c["length"], per)
    g = gen.weights(rng, (c["batch"], c["out"]), "normal")
    _, dx = backward(layer, x, g)
    (cx, rx), (cw, rw) = grads.dense(
        g.astype(float), 0.0 * g.astype(float), x.astype(float), 0.0, W, lay.base(c["type"]),
        c["n"], segs, c["length"], per, prod)
    mag = 1.0
    if prod:
        e = ref.expand(x.astype(float), lay.base(c["type"]), c["n"], segs, c["length"], per)
        f = np.einsum("oij,bij->boi", np.abs(W), np.abs(e.E))
        mag = (1 + f).prod(-1).max() * (1 + np.abs(e.D).max()) * (1 + np.abs(W).max())
    finite(dx, cx, "input gradient", mag)
    t1 = within(dx, cx, rx, "input gradient")
    check(p.grad is not None, "weights received no gradient")
    gw = arr(p.grad)
    finite(gw, cw, "weight gradient", mag)
    t2 = within(gw, cw, rw, "weight gradient")
    return t1 >= 0.3 and t2 >= 0.5 and np.any(W != 0)


@st.composite
def product_case(draw):
    return {
        "in": draw(gen.size(1, 6, (9, 12, 17, 33))),
        "out": draw(gen.size(1, 4, (8, 17))),
        "batch": draw(gen.size(1, 5, (16, 65))),
        "alpha": draw(gen.pick(1.0, 1.0, 0.0, 0.5, 2.0)),
        "bias": draw(st.booleans()),
        "zeros": draw(st.booleans()),
        "seed": draw(gen.SEED),
    }


def run_product(c):
    rng = np.random.RandomState(c["seed"])
    with sut("construction"):
        layer = high_order_fc_layers(layer_type="product", in_features=c["in"],
                                     out_features=c["out"], alpha=c["alpha"], bias=c["bias"])
    p = weight_param(layer, (c["out"], c["in"]), "product")
    W = gen.weights(rng, p.shape, "normal").astype(float)
    x = gen.weights(rng, (c["batch"], c["in"]), "normal").astype(float)
    if c["zeros"]:
        # factors that are exactly zero: 1 + w x = 0
        W[:, 0] = 1.0
        x[:, 0] = -1.0
        if c["in"] > 1 and rng.rand() < 0.5:
            W[:, 1], x[:, 1] = 1.0, -1.0
    set_(p, W)
    g = gen.weights(rng, (c["batch"], c["out"]), "normal").astype(float)
    _, dx = backward(layer, x, g)
    f = x[:, None, :] * W[None]
    r = grads.KU * np.abs(f)
    r = np.where(f == -1, 0.0, r)
    gf, rgf = grads.prod_links(g, 0 * g, f, r)
    a = 1 - c["alpha"]
    gf, rgf = gf - a * g[..., None], rgf + grads.KU * np.abs(a * g[..., None])
    cx, rx = grads.edot("boi,oi->bi", gf, rgf, W, 0 * W, c["out"])
    cw, rw = grads.edot("boi,bi->oi", gf, rgf, x, 0 * x, c["batch"])
    t1 = within(dx, cx, rx, "product input gradient")
    check(p.grad is not None, "product weights received no gradient")
    within(arr(p.grad), cw, rw, "product weight gradient")
    finite(dx, cx, "input gradient")
    for b in layer.parameters():
        if b.dim() == 1:
            check(b.grad is not None, "bias received no gradient")
            within(arr(b.grad), g.sum(0), grads.KU * 4 * np.abs(g).sum(0), "bias gradient")
    return t1 >= 0.5


@st.composite
def switch_case(draw):
    return {
        "type": draw(gen.pick("continuous", "discontinuous")),
        "n": draw(gen.size(2, 6, (8, 10))),
        "in": draw(gen.size(1, 4, (9,))),
        "out": draw(gen.size(1, 4, (9,))),
        "segs": draw(gen.size(1, 6, (12,))),
        "length": draw(gen.LENGTH),
        "layers": draw(gen.pick(1, 2, 2, 3, 3, 4, 5)),
        "batch": draw(gen.size(1, 5, (17,))),
        "xmode": draw(gen.pick("inside", "mix", "nodes")),
        "seed": draw(gen.SEED),
    }


def run_switch(c):
    rng = np.random.RandomState(c["seed"])
    with sut("construction"):
        layer = SwitchLayer(layer_type=c["type"], n=c["n"], in_features=c["in"],
                            out_features=c["out"], segments=c["segs"],
                            num_input_layers=c["layers"], **given(scale=c["length"]))
    shape = (c["out"], c["in"], ref.num_basis(c["type"], c["n"], c["segs"]))
    ps = [p for p in layer.parameters() if tuple(p.shape) == shape]
    check(len(ps) == c["layers"], f"{len(ps)} weight tensors for {c['layers']} component layers")
    Ws = []
    for p in ps:
        W = gen.weights(rng, shape, "normal")
        set_(p, W)
        Ws.append(W.astype(float))
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"], c["segs"], c["length"])
    g = gen.weights(rng, (c["batch"], c["out"]), "normal").astype(float)
    _, dx = backward(layer, x, g)
    args = (c["type"], c["n"], c["segs"], c["length"], None)
    ys = [ref.dense(x.astype(float), W, *args) for W in Ws]
    cx, rx = 0.0, 0.0
    tight = []
    total = np.abs(g)
    for c2, r2 in ys:
        total = total * (np.abs(c2) + r2)
    # the product itself overflows: an equivalent derivative may go through it
    over = np.where(total < 1e30, 0.0, np.inf)
    for k, W in enumerate(Ws):
        gk, rk = g, over
        for m, (c2, r2) in enumerate(ys):
            if m != k:
                gk, rk = ndref.mul(gk, rk, c2, r2)
        (a, ra), (w, rw) = grads.dense(gk, rk, x.astype(float), 0.0, W, *args, False)
        cx, rx = cx + a, rx + ra + grads.KU * np.abs(a)
        check(ps[k].grad is not None, f"switch component {k} received no gradient")
        tight.append(within(arr(ps[k].grad), w, rw, f"gradient of switch component {k}"))
    t = within(dx, cx, rx, "switch input gradient")
    if not over.any():
        finite(dx, cx, "input gradient")
    return t >= 0.3 and min(tight) >= 0.5


@st.composite
def nd_case(draw):
    d = draw(st.integers(1, 4))
    hi = {1: 7, 2: 5, 3: 4, 4: 3}[d]
    piece = draw(st.booleans()) or d == 1
    return {
        "piece": piece,
        "ns": [draw(st.integers(1, hi)) for _ in range(d)],
        "segs": [draw(st.integers(1, 3)) for _ in range(d)],
        "in": draw(gen.size(1, 3, (6,))),
        "out": draw(gen.size(1, 3, (6,))),
        "length": draw(gen.LENGTH),
        "batch": draw(gen.size(1, 4, (17,))),
        "xmode": draw(gen.pick("inside", "inside", "mix", "nodes")),
        "seed": draw(gen.SEED),
    }


def run_nd(c):
    rng = np.random.RandomState(c["seed"])
    d = len(c["ns"])
    segs = c["segs"] if c["piece"] else None
    kw = given(n=c["ns"], in_features=c["in"], out_features=c["out"], length=c["length"])
    with sut("construction"):
        if c["piece"]:
            layer = high_order_fc_layers(layer_type="continuous_nd", segments=segs,
                                         dimensions=d, **kw)
        else:
            layer = high_order_fc_layers(layer_type=f"polynomial_{d}d", **kw)
    nb = int(np.prod(c["ns"])) * (int(np.prod(segs)) if segs else 1)
    shape = (c["in"], c["out"], nb) if c["piece"] else (c["out"], c["in"], nb)
    p = weight_param(layer, shape, "nd layer")
    W = gen.weights(rng, shape, "normal").astype(float)
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"], d), c["xmode"], max(c["ns"]),
                   max(c["segs"]), c["length"])
    g = gen.weights(rng, (c["batch"], c["out"]), "normal").astype(float)
    _, dx = backward(layer, x, g)
    Wo = W.transpose(1, 0, 2) if c["piece"] else W
    e = ndref.expand_nd(x.astype(float), c["ns"], c["length"], segs)
    cw, rw = grads.edot("bo,biw->oiw", g, 0 * g, e.E, e.R, c["batch"])
    gw = arr(p.grad)
    within(gw.transpose(1, 0, 2) if c["piece"] else gw, cw, rw, "nd weight gradient")
    cx, rx = np.zeros(dx.shape), np.zeros(dx.shape)
    for k in range(d):
        dk = ndref.expand_nd(x.astype(float), c["ns"], c["length"], segs, diff=k)
        s, rs = grads.edot("oiw,biw->boi", Wo, 0 * Wo, dk.E, dk.R, nb)
        cx[..., k], rx[..., k] = grads.edot("bo,boi->bi", g, 0 * g, s, rs, c["out"])
    finite(dx, cx, "nd input gradient")
    return within(dx, cx, 4 * rx, "nd input gradient") >= 0.3


def run_conv(c):
    rng = np.random.RandomState(c["seed"])
    c = dict(c, pad_mode="zeros")
    layer, p, nb = cv.build(c)
    W = gen.weights(rng, p.shape, c["wmode"]).astype(float)
    set_(p, W)
    x = cv.inputs(c, rng)
    e = ref.expand(x.astype(float), c["kind"], c["n"], cv.segs_of(c), c["length"], c["periodicity"])
    outS = tuple(ref.conv_taps(s, c["k"], c["stride"], c["pad"], c["dil"]) for s in c["sizes"])
    g = gen.weights(rng, (c["batch"], c["out"]) + outS, "normal").astype(float)
    _, dx = backward(layer, x, g)
    gs = g / (c["in"] // c["groups"] * c["k"] ** c["dim"]) if c["rescale"] else g
    (cx, rx), (cw, rw) = grads.conv(gs, e, W, nb, c["dim"], c["stride"], c["pad"], c["dil"],
                                    c["groups"])
    finite(dx, cx, "conv input gradient")
    t = within(dx, cx, 2 * rx, "conv input gradient")
    check(p.grad is not None, "conv weights received no gradient")
    t2 = within(arr(p.grad), cw, 2 * rw, "conv weight gradient")
    return t >= 0.3 and t2 >= 0.5 and np.any(W != 0)


def run_transpose(c):
    rng = np.random.RandomState(c["seed"])
    layer, p, nb = cv.build_transpose(c)
    W = gen.weights(rng, p.shape, c["wmode"]).astype(float)
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"]) + tuple(c["sizes"]), c["xmode"], c["n"],
                   c["segs"], c["length"], c["periodicity"])
    e = ref.expand(x.astype(float), c["kind"], c["n"], c["segs"], c["length"], c["periodicity"])
    outS = tuple(c["stride"] * (s - 1) + c["dil"] * (c["k"] - 1) - 2 * c["pad"] + c["out_pad"] + 1
                 for s in c["sizes"])
    g = gen.weights(rng, (c["batch"], c["out"]) + outS, "normal").astype(float)
    _, dx = backward(layer, x, g)
    gs = g / (c["in"] * c["k"] ** 2) if c["rescale"] else g
    (cx, rx), (cw, rw) = grads.conv_transpose(gs, e, W, nb, 2, c["stride"], c["pad"], c["dil"])
    finite(dx, cx, "transposed input gradient")
    t = within(dx, cx, 2 * rx, "transposed input gradient")
    t2 = within(arr(p.grad), cw, 2 * rw, "transposed weight gradient")
    return t >= 0.3 and t2 >= 0.5 and np.any(W != 0)


SUBS = [
    Sub("dense", dense_case(), run_dense, "weights non-zero and gradients pinned by the error "
        "bound (30% of inputs, half of the weights)", quick=2400),
    Sub("product", product_case(), run_product, "gradients pinned", quick=600),
    Sub("switch", switch_case(), run_switch, "gradients pinned", quick=600),
    Sub("nd", nd_case(), run_nd, "gradients pinned", quick=700),
    Sub("conv", cv.conv_case(modes=False), run_conv, "gradients pinned", quick=900),
    Sub("transpose", cv.transpose_case(), run_transpose, "gradients pinned", quick=400),
]
ASSUMPTIONS = [
    "derivatives are only compared away from segment boundaries and fold points (both sides are "
    "valid there); finiteness is required everywhere",
]
QUICK_ROUNDS = 2
