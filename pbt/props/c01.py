"""C01 dense polynomial / continuous / discontinuous layers = documented interpolant."""
import numpy as np
from hypothesis import strategies as st

from high_order_layers_torch.layers import high_order_fc_layers
from pbt import gen, ref
from pbt.core import Sub, sut
from pbt.util import given, T, call, set_, weight_param, within

TYPES = ["continuous", "discontinuous", "polynomial"]


@st.composite
def dense_case(draw, types=TYPES, lengths=gen.LENGTH, n=gen.N, segs=gen.SEGS):
    kind = draw(st.sampled_from(types))
    c = {
        "type": kind,
        "n": draw(n),
        "in": draw(gen.WIDTH),
        "out": draw(gen.WIDTH),
        "segs": draw(segs),
        "length": draw(lengths),
        "batch": draw(gen.BATCH),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.XMODE),
        "seed": draw(gen.SEED),
    }
    return limit(c)


def limit(c):
    """Keep single cases cheap: large sizes come one at a time."""
    while c["batch"] * c["in"] * c["n"] * c["segs"] > 60000 and c["batch"] > 1:
        c["batch"] = (c["batch"] + 1) // 2
    while c["out"] * c["in"] * c["n"] * c["segs"] > 200000 and c["out"] > 1:
        c["out"] = (c["out"] + 1) // 2
    return c


def build(c):
    segs = 1 if c["type"] == "polynomial" else c["segs"]
    with sut("construction"):
        layer = high_order_fc_layers(
            layer_type=c["type"],
            **given(n=c["n"], in_features=c["in"], out_features=c["out"], segments=c["segs"],
                    length=c["length"]),
        )
    nb = ref.num_basis(c["type"], c["n"], segs)
    p = weight_param(layer, (c["out"], c["in"], nb), c["type"])
    return layer, p, segs, nb


def run_dense(c):
    rng = np.random.RandomState(c["seed"])
    layer, p, segs, nb = build(c)
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"], segs, c["length"])
    y = call(layer, T(x))
    cen, rad = ref.dense(
        x.astype(float), W.astype(float), c["type"], c["n"], segs, c["length"]
    )
    tight = within(y, cen, rad, f"{c['type']} layer output")
    return tight >= 0.5 and (segs > 1 or c["n"] > 2) and np.any(W != 0)


@st.composite
def single_case(draw):
    """One link, one input at a hand-picked place: the sharpest oracle."""
    kind = draw(st.sampled_from(TYPES))
    return {
        "type": kind,
        "n": draw(gen.N),
        "in": 1,
        "out": 1,
        "segs": draw(gen.SEGS),
        "length": draw(gen.LENGTH),
        "batch": 64,
        "wmode": draw(gen.pick("normal", "ints", "onehot")),
        "xmode": draw(gen.pick("boundary", "nodes", "outside", "mix")),
        "seed": draw(gen.SEED),
    }


SUBS = [
    Sub(
        "dense",
        dense_case(),
        run_dense,
        "more than one segment or order above linear, some weight non-zero, and at least "
        "half of the outputs pinned to within 1% by the error bound",
        quick=2400,
    ),
    Sub(
        "single_link",
        single_case(),
        run_dense,
        "as dense; 64 inputs at boundaries, their neighbouring floats, nodes or outside",
        quick=1600,
    ),
    Sub(
        "bulk",
        gen.bulk(dense_case(), gen.SMALL, gen.BIG),
        run_dense,
        "as dense; one of batch, inputs, outputs, segments is in the hundreds or thousands",
        quick=120,
    ),
]
ASSUMPTIONS = [
    "inputs are finite float32 with |x| <= about 300 half-lengths; weights finite",
    "at a boundary that float32 arithmetic cannot represent exactly either neighbouring "
    "segment is accepted",
]
QUICK_ROUNDS = 5
