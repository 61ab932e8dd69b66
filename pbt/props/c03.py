"""C03 product neurons."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch.layers import high_order_fc_layers
from high_order_layers_torch.ProductLayer import Product
from pbt import gen, lay, ref
from pbt.core import Sub, sut
from pbt.props.c01 import limit
from pbt.util import T, arr, call, check, param_by_shape, set_, within

PROD = ["continuous_prod", "discontinuous_prod", "polynomial_prod"]


@st.composite
def prod_case(draw):
    c = {
        "type": draw(st.sampled_from(PROD)),
        "n": draw(gen.N),
        "in": draw(gen.size(1, 6, (9, 17, 33))),
        "out": draw(gen.size(1, 6, (17, 65))),
        "segs": draw(gen.SEGS),
        "length": draw(gen.LENGTH),
        "batch": draw(gen.BATCH),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.XMODE),
        "seed": draw(gen.SEED),
    }
    return limit(c)


def run_prod(c):
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    fl.fill(rng, 1.0, c["wmode"])
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"], fl.segs, c["length"])
    y = call(layer, T(x))
    cen, rad = fl.eval(x.astype(float), 0.0)
    tight = within(y, cen, rad, f"{c['type']} output")
    return tight >= 0.5 and c["in"] > 1


@st.composite
def plain_case(draw):
    return {
        "in": draw(gen.size(1, 7, (12, 30, 65))),
        "out": draw(gen.size(1, 6, (20, 65))),
        "batch": draw(gen.BATCH),
        "bias": draw(st.booleans()),
        "alpha": draw(gen.pick(1.0, 1.0, 0.0, 0.5, 0.25, -1.0, 2.0, None)),
        "factory": draw(st.booleans()),
        "wmode": draw(gen.WMODE),
        "scale": draw(gen.pick(1.0, 0.3, 2.0)),
        "seed": draw(gen.SEED),
    }


def run_plain(c):
    rng = np.random.RandomState(c["seed"])
    kw = {"bias": c["bias"]}
    if c["alpha"] is not None:
        kw["alpha"] = c["alpha"]
    with sut("construction of product"):
        if c["factory"]:
            layer = high_order_fc_layers(
                layer_type="product", n=3, segments=2, in_features=c["in"],
                out_features=c["out"], **kw
            )
        else:
            layer = Product(in_features=c["in"], out_features=c["out"], **kw)
    fl = lay.Flat("product", 1, c["in"], c["out"], 1, 2.0, None,
                  1.0 if c["alpha"] is None else c["alpha"])
    w = param_by_shape(layer, (c["out"], c["in"]), "product")
    bs = [p for p in layer.parameters() if p.dim() == 1]
    check(len(bs) == (1 if c["bias"] else 0), "bias parameter present iff requested")
    fl.ps = [(w, bs[0] if bs else None)]
    fl.fill(rng, c["scale"], c["wmode"])
    if bs:
        set_(bs[0], rng.normal(size=c["out"]))
    x = rng.normal(size=(c["batch"], c["in"])).astype(np.float32)
    if c["batch"] > 1:
        x[0] = 0
    y = call(layer, T(x))
    cen, rad = fl.eval(x.astype(float), 0.0)
    tight = within(y, cen, rad, "product output")
    return tight >= 0.5 and (c["in"] > 1 or c["bias"])


@st.composite
def single_case(draw):
    return limit({
        "type": draw(st.sampled_from(["continuous", "discontinuous", "polynomial"])),
        "n": draw(gen.N),
        "in": 1,
        "out": draw(gen.size(1, 6, (17, 65))),
        "segs": draw(gen.SEGS),
        "length": draw(gen.LENGTH),
        "periodicity": draw(st.one_of(st.none(), gen.pick(2.0, 1.0, 3.0, 0.5, 7.0))),
        "batch": draw(gen.size(4, 20, (65, 257))),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.XMODE),
        "seed": draw(gen.SEED),
    })


def run_single(c):
    rng = np.random.RandomState(c["seed"])
    a, fa = lay.standalone(c)
    b, fb = lay.standalone(dict(c, type=c["type"] + "_prod"))
    fa.fill(rng, 1.0, c["wmode"])
    with torch.no_grad():
        fb.ps[0][0].copy_(fa.ps[0][0])
    x = gen.inputs(rng, (c["batch"], 1), c["xmode"], c["n"], fa.segs, c["length"],
                   c["periodicity"])
    ya, yb = call(a, T(x)), call(b, T(x))
    v = arr(ya)
    rad = fa.eval(x.astype(float), 0.0)[1]
    tight = within(yb, v, 2 * rad + 8 * ref.U * (1 + np.abs(v)), "single-input product vs sum neuron")
    return bool(np.any(np.abs(v) > 1e-3)) and tight > 0.5


SUBS = [
    Sub("prod", prod_case(), run_prod,
        "two or more inputs and at least half of the outputs pinned to 1%", quick=3000),
    Sub("plain_product", plain_case(), run_plain,
        "two or more inputs or a bias, outputs pinned", quick=2000),
    Sub("bulk", gen.bulk(prod_case(), gen.SMALL, dict(gen.BIG, **{"in": (40, 70)})), run_prod,
        "as prod; one size in the hundreds or thousands", quick=120),
    Sub("bulk_plain", gen.bulk(plain_case(), {k: gen.SMALL[k] for k in ("batch", "in", "out")},
                               {"batch": gen.BIG["batch"], "out": gen.BIG["out"],
                                "in": (40, 70)}), run_plain,
        "as plain_product; one size in the hundreds or thousands", quick=80),
    Sub("single_input", single_case(), run_single,
        "some output away from zero", quick=1500),
]
ASSUMPTIONS = ["alpha of the polynomial product layers is left at its default (its documented "
               "meaning is contradictory and no factory passes it)"]
QUICK_ROUNDS = 4
