"""C08 mirror periodicity."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch.layers import high_order_fc_layers
from high_order_layers_torch.ProductLayer import Product
from high_order_layers_torch.utils import make_periodic
from pbt import cv, gen, lay, ndref, ref
from pbt.core import Sub, sut
from pbt.props.c01 import limit
from pbt.util import given, T, arr, call, check, param_by_shape, set_, weight_param, within

PER = st.one_of(gen.pick(2.0, 2.0, 1.0, 0.5, 4.0), gen.pick(3.0, 1.5, 0.3, 7.0, 6.283185307179586))


@st.composite
def case(draw):
    L = draw(gen.LENGTH)
    return limit({
        "type": draw(st.sampled_from(lay.POLY + ["product"])),
        "n": draw(gen.N2),
        "in": draw(gen.size(1, 5, (17, 33))),
        "out": draw(gen.size(1, 5, (17,))),
        "segs": draw(gen.SEGS),
        "length": L,
        "periodicity": draw(st.one_of(st.just(L), PER)),
        "batch": draw(gen.BATCH),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.XMODE),
        "k": draw(st.integers(-3, 3)),
        "mirror": draw(st.booleans()),
        "seed": draw(gen.SEED),
    })


def run(c):
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    fl.fill(rng, 1.0, c["wmode"])
    p = c["periodicity"]
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"], fl.segs, c["length"], p)
    y = call(layer, T(x))
    cen, rad = fl.eval(x.astype(float), 0.0)
    tight = within(y, cen, rad, f"{c['type']} with periodicity {p}")
    # period 2p and reflection at p/2
    xs = x.astype(float) + 2 * p * c["k"]
    if c["mirror"]:
        xs = p - xs
    x32 = xs.astype(np.float32)
    slack = np.abs(x32 - xs) + ref.U * np.abs(xs)
    y2 = call(layer, T(x32))
    c2, r2 = fl.eval(x32.astype(float), slack)
    within(y2, arr(y), rad + r2, f"{c['type']} after a shift/reflection of the input")
    # without periodicity at the folded input
    plain, fp = lay.standalone(dict(c, periodicity=None))
    for (w, b), (w2, b2) in zip(fl.ps, fp.ps):
        with torch.no_grad():
            w2.copy_(w)
            if b is not None:
                b2.copy_(b)
    xf, rf, _, _ = ref.fold(x.astype(float), 0.0, p)
    xf32 = xf.astype(np.float32)
    y3 = call(plain, T(xf32))
    _, r3 = fp.eval(xf32.astype(float), np.abs(xf32 - xf) + rf)
    within(y3, arr(y), rad + r3, f"{c['type']} without periodicity at the folded input")
    outside = np.mean(np.abs(x) > 0.5 * p)
    return tight >= 0.5 and outside > 0 and bool(np.any(arr(y) != 0))


@st.composite
def fold_case(draw):
    return {
        "p": draw(PER),
        "shape": draw(st.one_of(*[st.lists(gen.size(1, 5, (9, 33)), min_size=1, max_size=4)] * 20,
                               gen.pick([3000], [70, 70], [2, 5000], [3, 4, 21, 40]))),
        "scale": draw(gen.pick(0.3, 1.0, 3.0, 30.0, 1000.0)),
        "seed": draw(gen.SEED),
    }


def run_fold(c):
    rng = np.random.RandomState(c["seed"])
    p = c["p"]
    m = int(np.prod(c["shape"]))
    x = rng.uniform(-1, 1, size=m) * p * c["scale"]
    special = rng.randint(-9, 10, size=m) * 0.5 * p
    x = np.where(rng.uniform(size=m) < 0.4, special, x)
    x = x.astype(np.float32).reshape(c["shape"])
    near = np.nextafter(x, np.float32(rng.choice([-np.inf, np.inf])))
    with sut("make_periodic"):
        y = make_periodic(T(x), p)
        y2 = make_periodic(T(near), p)
    cen, rad, _, _ = ref.fold(x.astype(float), 0.0, p)
    within(y, cen, rad, "make_periodic")
    g = arr(y)
    check(np.all(np.abs(g) <= 0.5 * p * (1 + 8 * ref.U)), "fold leaves the interval")
    # continuity: neighbouring floats stay neighbours
    step = np.abs(near.astype(float) - x.astype(float))
    within(y2, g, 2 * rad + 2 * step, "make_periodic is continuous")
    inside = np.abs(x) <= 0.5 * p
    if inside.any():
        within(g[inside], x.astype(float)[inside], 8 * ref.U * (np.abs(x[inside]) + p),
               "identity inside")
    return bool(np.any(np.abs(x) > 0.5 * p))


def run_conv(c):
    rng = np.random.RandomState(c["seed"])
    layer, p, nb = cv.build(c)
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    x = cv.inputs(c, rng)
    y = arr(call(layer, T(x)))
    cen, rad = cv.oracle(c, x.astype(float), W.astype(float), nb)
    tight = within(y, cen, rad, f"{c['kind']}{c['dim']}d convolution with periodicity")
    xs = x.astype(float) + 2 * c["periodicity"] * rng.randint(-2, 3, size=x.shape)
    xs = np.where(rng.uniform(size=x.shape) < 0.5, c["periodicity"] - xs, xs)
    x32 = xs.astype(np.float32)
    y2 = call(layer, T(x32))
    _, r2 = cv.oracle(c, x32.astype(float), W.astype(float), nb,
                      rx=np.zeros_like(padded_like(c, xs)) + (np.abs(x32 - xs) + ref.U * np.abs(xs)).max())
    within(y2, y, rad + r2, "convolution after mirror shifts of its input")
    return tight >= 0.5 and bool(np.any(np.abs(x) > 0.5 * c["periodicity"]))


def padded_like(c, x):
    return cv.padded(c, x)[0]


@st.composite
def conv_case(draw):
    c = draw(cv.conv_case(kinds=("continuous", "discontinuous", "polynomial")))
    c["periodicity"] = draw(st.one_of(st.just(c["length"]), PER))
    return c


@st.composite
def tr_case(draw):
    c = draw(cv.transpose_case())
    c["periodicity"] = draw(st.one_of(st.just(c["length"]), PER))
    return c


def run_tr(c):
    rng = np.random.RandomState(c["seed"])
    layer, p, nb = cv.build_transpose(c)
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"]) + tuple(c["sizes"]), c["xmode"], c["n"],
                   c["segs"], c["length"], c["periodicity"])
    y = call(layer, T(x))
    cen, rad = cv.oracle_transpose(c, x.astype(float), W.astype(float), nb)
    tight = within(y, cen, rad, "transposed convolution with periodicity")
    return tight >= 0.5 and bool(np.any(np.abs(x) > 0.5 * c["periodicity"]))


@st.composite
def seg_case(draw):
    L = draw(gen.LENGTH)
    return {
        "type": draw(st.sampled_from(lay.PIECE)),
        "n": draw(st.integers(2, 5)),
        "in": draw(st.integers(1, 3)),
        "out": 1,
        "segs": draw(gen.SEGS),
        "length": L,
        "periodicity": draw(st.one_of(st.just(L), PER)),
        "batch": draw(st.integers(1, 12)),
        "seed": draw(gen.SEED),
    }


def run_seg(c):
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    x = gen.inputs(rng, (c["batch"], c["in"]), "mix", c["n"], c["segs"], c["length"],
                   c["periodicity"])
    with sut("which_segment"):
        s = layer.which_segment(T(x))
    s = arr(s)
    xf, rf, _, _ = ref.fold(x.astype(float), 0.0, c["periodicity"])
    a, b, many = ref.segment(xf, rf, c["segs"], c["length"], False)
    check(s.shape == x.shape, f"which_segment shape {s.shape}")
    ok = (s == a) | (s == b) | many
    check(bool(ok.all()), lambda: f"which_segment({x[~ok][0]}) = {s[~ok][0]}, folded input lies in {a[~ok][0]}")
    return c["segs"] > 1 and bool(np.any(np.abs(x) > 0.5 * c["periodicity"]))


@st.composite
def nd_case(draw):
    from pbt.props import c05

    c = draw(c05.case(kinds=("poly",)))
    c["periodicity"] = draw(PER)
    return c


def run_nd(c):
    import math

    rng = np.random.RandomState(c["seed"])
    d = len(c["ns"])
    with sut("construction"):
        layer = high_order_fc_layers(
            layer_type=f"polynomial_{d}d",
            **given(n=list(c["ns"]), in_features=c["in"], out_features=c["out"],
                    length=c["length"], periodicity=c["periodicity"]))
    p = weight_param(layer, (c["out"], c["in"], math.prod(c["ns"])), "nd")
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"], d), c["xmode"], 3, 1, c["length"], c["periodicity"])
    y = call(layer, T(x))
    e = ndref.expand_nd(x.astype(float), c["ns"], c["length"], None, c["periodicity"])
    f, r = ref.links(W.astype(float), e)
    cen, rad = ref.reduce_sum(f, r)
    return within(y, cen, rad, "ND polynomial with periodicity") >= 0.5 and max(c["ns"]) > 1


NT = "some input outside [-p/2, p/2] and outputs pinned"
SUBS = [
    Sub("dense", case(), run, NT, quick=2500),
    Sub("bulk", gen.bulk(case(), gen.SMALL, dict(gen.BIG, **{"in": (40, 70)})), run, NT,
        quick=160),
    Sub("fold", fold_case(), run_fold, "some input outside [-p/2, p/2]", quick=1500),
    Sub("conv", conv_case(), run_conv, NT, quick=1000),
    Sub("transpose", tr_case(), run_tr, NT, quick=600),
    Sub("segment_lookup", seg_case(), run_seg, "several segments and an input outside", quick=800),
    Sub("nd", nd_case(), run_nd, "order above constant", quick=400),
]
QUICK_ROUNDS = 2
