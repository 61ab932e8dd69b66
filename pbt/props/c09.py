"""C09 only the active segment's weights matter."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch.layers import high_order_fc_layers
from pbt import cv, gen, lay, ndref, ref
from pbt.core import Sub, sut
from pbt.util import given, T, arr, call, check, fail, grad_state, set_, weight_param, within


@st.composite
def dense_case(draw):
    kind = draw(st.sampled_from(lay.PIECE + lay.PIECE[:2]))
    return {
        "type": kind,
        "n": draw(gen.N),
        "in": draw(gen.size(1, 4, (9, 17))),
        "out": draw(gen.size(1, 4, (9, 17))),
        "segs": draw(gen.size(2, 8, (1, 12, 17, 33, 64, 130))),
        "length": draw(gen.LENGTH),
        "periodicity": draw(st.one_of(st.none(), st.none(), gen.pick(2.0, 1.0, 3.0))),
        "batch": draw(gen.size(1, 5, (16, 65))),
        "wmode": draw(gen.pick("normal", "uniform", "ints", "scales")),
        "xmode": draw(gen.pick("inside", "mix", "outside", "nodes", "boundary")),
        "delta": draw(gen.pick(1.0, -1.0, 0.125, 7.0, 1000.0)),
        "seed": draw(gen.SEED),
    }


def run_dense(c):
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    p = fl.ps[0][0]
    W = gen.weights(rng, p.shape, c["wmode"]).astype(float)
    set_(p, W)
    per = c["periodicity"]
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"], c["segs"], c["length"], per)
    xt = T(x)
    args = (lay.base(c["type"]), c["n"], c["segs"], c["length"], per)
    prod = c["type"].endswith("_prod")
    e = ref.expand(x.astype(float), *args)
    active = (e.E != 0) | (e.R != 0)  # [b, i, j]
    y0 = arr(call(layer, xt))
    c0, r0 = ref.dense(x.astype(float), W, *args, prod)
    nontrivial = False

    # every weight that is inactive for all samples at once
    dead = ~active.any(0)  # [i, j]
    if dead.any():
        W1 = np.where(dead[None], W + rng.normal(size=W.shape) * c["delta"], W)
        set_(p, W1)
        y1 = arr(call(layer, xt))
        check(np.array_equal(y0, y1, equal_nan=True),
              "changing only weights of inactive segments changed the output")
        set_(p, W)
        nontrivial = True

    # one weight at a time, on a random link
    o, i = rng.randint(c["out"]), rng.randint(c["in"])
    nb = W.shape[-1]
    js = rng.permutation(nb)[:6]
    act = np.flatnonzero(active[:, i].any(0))
    js = list(dict.fromkeys(list(js) + list(rng.permutation(act)[:4])))
    for j in js:
        W1 = W.copy()
        W1[o, i, j] = np.float32(W1[o, i, j] + c["delta"])
        d = W1[o, i, j] - W[o, i, j]
        set_(p, W1)
        y1 = arr(call(layer, xt))
        same = np.ones_like(y0, bool)
        same[active[:, i, j], o] = False
        if not np.array_equal(y0[same], y1[same], equal_nan=True):
            b = tuple(np.argwhere(same & (y0 != y1))[0])
            fail(f"weight ({o},{i},{j}) changed output {b} that does not involve it")
        c1, r1 = ref.dense(x.astype(float), W1, *args, prod)
        within(y1 - y0, c1 - c0, r0 + r1, f"response to weight ({o},{i},{j})")
        if not prod:
            lin = d * e.E[:, i, j]
            rl = abs(d) * e.R[:, i, j] + r0[:, o] + r1[:, o]
            within((y1 - y0)[:, o], lin, rl, "response proportional to the basis function")
        nontrivial = nontrivial or (~same).any()
        set_(p, W)

    g = gen.weights(rng, y0.shape, "normal")
    xg = T(x).requires_grad_(True)
    with sut("forward and backward"):
        layer.zero_grad()
        (layer(grad_state(layer, xg)) * T(g)).sum().backward()
    check(p.grad is not None, "weights received no gradient")
    G = arr(p.grad)
    bad = (G != 0) & dead[None]
    check(not bad.any(), lambda: f"weight {tuple(np.argwhere(bad)[0])} of an inactive segment "
          f"has gradient {G[bad][0]!r}")
    if c["batch"] == 1:
        per_link = (G != 0).sum(-1)
        check((per_link <= c["n"]).all() or (e.R > 1e-3).any() or _amb(e),
              "more than n weights of a link have a gradient for one input")
    return nontrivial and c["segs"] > 1


def _amb(e):
    return np.isinf(e.RD).any()


def run_conv(c):
    c = dict(c, pad_mode="zeros")
    rng = np.random.RandomState(c["seed"])
    layer, p, nb = cv.build(c)
    W = gen.weights(rng, p.shape, "normal").astype(float)
    set_(p, W)
    x = cv.inputs(c, rng)
    y0 = arr(call(layer, T(x)))
    xd = x.astype(float)
    e = ref.expand(xd, c["kind"], c["n"], c["segs"], c["length"], c["periodicity"])
    act = ref.Exp(((e.E != 0) | (e.R != 0)).astype(float), np.zeros_like(e.E), None, None)
    c0, r0 = cv.oracle(c, xd, W, nb)
    nt = False
    for _ in range(4):
        idx = tuple(rng.randint(s) for s in W.shape)
        W1 = W.copy()
        W1[idx] = np.float32(W1[idx] + c["delta"])
        one = np.zeros_like(W)
        one[idx] = 1.0
        inv, _ = ref.conv(act, one, nb, c["dim"], c["stride"], c["pad"], c["dil"], c["groups"])
        involved = inv > 0
        set_(p, W1)
        y1 = arr(call(layer, T(x)))
        check(y1.shape == involved.shape, "shape")
        scale = 1e-6 * (1 + np.abs(c0) + r0)
        bad = ~involved & (np.abs(y1 - y0) > scale)
        check(not bad.any(), lambda: f"conv weight {idx} changed output "
              f"{tuple(np.argwhere(bad)[0])} that does not involve it")
        c1, r1 = cv.oracle(c, xd, W1, nb)
        within(y1 - y0, c1 - c0, r0 + r1, f"response to conv weight {idx}")
        nt = nt or ((~involved).any() and involved.any())
        set_(p, W)
    # gradient support
    g = gen.weights(rng, y0.shape, "normal")
    with sut("forward and backward"):
        layer.zero_grad()
        (layer(grad_state(layer, T(x))) * T(g)).sum().backward()
    G = arr(p.grad)
    sh = (c["out"], c["in"] // c["groups"], nb) + (c["k"],) * c["dim"]
    # a channel's basis function never active anywhere -> zero gradient
    any_act = act.E.reshape(act.E.shape[0], c["groups"], -1, *act.E.shape[2:]) > 0
    any_act = any_act.any(axis=(0,) + tuple(range(3, 3 + c["dim"])))  # [groups, cg, nb]
    og = c["out"] // c["groups"]
    G = G.reshape(sh)
    for gr in range(c["groups"]):
        dead = ~any_act[gr]
        sub = G[gr * og:(gr + 1) * og]
        sub = np.moveaxis(sub.reshape(sub.shape[:3] + (-1,)), -1, 1)
        check(not (np.abs(sub) * dead).any(), "conv weight of an inactive segment has a gradient")
    return nt and c["segs"] > 1


@st.composite
def nd_case(draw):
    d = draw(st.integers(1, 3))
    return {
        "ns": [draw(st.integers(2, 4)) for _ in range(d)],
        "segs": [draw(st.integers(1, 4)) for _ in range(d)],
        "in": draw(gen.size(1, 3, (5, 9))),
        "out": draw(gen.size(1, 3, (5, 9))),
        "length": draw(gen.LENGTH),
        "batch": draw(gen.size(1, 4, (17,))),
        "delta": draw(gen.pick(1.0, -2.0, 50.0)),
        "seed": draw(gen.SEED),
    }


def run_nd(c):
    rng = np.random.RandomState(c["seed"])
    d = len(c["ns"])
    with sut("construction"):
        layer = high_order_fc_layers(
            layer_type="continuous_nd", n=c["ns"], in_features=c["in"], out_features=c["out"],
            segments=c["segs"], dimensions=d, **given(length=c["length"]))
    total = int(np.prod(c["ns"]) * np.prod(c["segs"]))
    p = weight_param(layer, (c["in"], c["out"], total), "continuous_nd")
    W = gen.weights(rng, p.shape, "normal").astype(float)
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"], d), "mix", max(c["ns"]), max(c["segs"]), c["length"])
    e = ndref.expand_nd(x.astype(float), c["ns"], c["length"], c["segs"])
    active = (e.E != 0) | (e.R != 0)
    y0 = arr(call(layer, T(x)))
    nt = False
    for _ in range(5):
        i, o, j = rng.randint(c["in"]), rng.randint(c["out"]), rng.randint(total)
        if rng.rand() < 0.5:
            j = rng.choice(np.flatnonzero(active[:, i].any(0)))
        W1 = W.copy()
        W1[i, o, j] = np.float32(W1[i, o, j] + c["delta"])
        set_(p, W1)
        y1 = arr(call(layer, T(x)))
        same = np.ones_like(y0, bool)
        same[active[:, i, j], o] = False
        check(np.array_equal(y0[same], y1[same]), f"nd weight ({i},{o},{j}) changed an output "
              "that does not involve it")
        dl = W1[i, o, j] - W[i, o, j]
        mag = np.abs(y0[:, o]) + np.abs(y1[:, o])
        a = np.einsum("iw,biw->b", np.abs(W1[:, o]) + np.abs(W[:, o]), np.abs(e.E) + np.where(
            np.isfinite(e.R), e.R, 0))
        within((y1 - y0)[:, o], dl * e.E[:, i, j],
               abs(dl) * e.R[:, i, j] + ref.K * ref.U * (mag + 40 * a),
               "response of nd layer proportional to the basis function")
        nt = nt or (same.any() and (~same).any())
        set_(p, W)
    with sut("backward"):
        layer.zero_grad()
        (layer(grad_state(layer, T(x))) * T(gen.weights(rng, y0.shape, "normal"))).sum().backward()
    G = arr(p.grad)
    dead = ~active.any(0)
    check(not (np.abs(G) * dead[:, None, :]).any(), "nd weight of an inactive block has a gradient")
    return nt


@st.composite
def conv_cases(draw):
    c = draw(cv.conv_case(kinds=["continuous", "discontinuous"], modes=False))
    c["segs"] = draw(gen.size(2, 6, (9,)))
    c["delta"] = draw(gen.pick(1.0, -1.0, 0.25, 30.0))
    return c


SUBS = [
    Sub("dense", dense_case(), run_dense,
        "more than one segment and some weight perturbed that is active or inactive", quick=2400),
    Sub("bulk", gen.bulk(dense_case(), gen.SMALL, dict(gen.BIG, **{"in": (40, 70)})), run_dense,
        "as dense; one size in the hundreds or thousands", quick=120),
    Sub("conv", conv_cases(), run_conv,
        "more than one segment; a perturbed weight involved in some but not all outputs",
        quick=1200),
    Sub("nd", nd_case(), run_nd, "a perturbed weight involved in some but not all outputs",
        quick=900),
]
ASSUMPTIONS = ["inputs whose segment single precision cannot settle count as active in both"]
