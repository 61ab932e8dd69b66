"""Convolution cases: build, reference."""
import numpy as np
from hypothesis import strategies as st

from high_order_layers_torch.layers import (
    high_order_convolution_layers,
    high_order_convolution_transpose_layers,
)
from pbt import gen, ref
from pbt.core import sut
from pbt.util import given, weight_param

KINDS = ["continuous", "discontinuous", "polynomial", "fourier"]
NP_PAD = {"circular": "wrap", "replicate": "edge", "reflect": "reflect"}


@st.composite
def conv_case(draw, kinds=KINDS, groups=True, modes=True, periodic=True, dims=(1, 2),
              asym=False):
    dim = draw(st.sampled_from(list(dims)))
    kind = draw(st.sampled_from(list(kinds)))
    k = draw(gen.size(1, 3, (4, 5)) if dim == 1 else gen.size(1, 3))
    dil = draw(gen.pick(1, 1, 1, 2, 3) if dim == 1 else gen.pick(1, 1, 1, 2))
    pad = draw(gen.pick(0, 0, 1, 2))
    span = dil * (k - 1) + 1
    lo = max(1, span - 2 * pad)
    mode = draw(gen.pick("zeros", "zeros", "zeros", *NP_PAD)) if modes and pad else "zeros"
    if mode != "zeros":
        lo = max(lo, pad + 1)
    extra = 6 if dim == 1 else 3
    sizes = [draw(st.integers(lo, lo + extra)) for _ in range(dim)]
    g = draw(gen.pick(1, 1, 1, 2, 3)) if groups else 1
    c = {
        "dim": dim,
        "kind": kind,
        "n": draw(gen.size(2, 6, (1, 8, 10))),
        "segs": draw(gen.size(1, 5, (7, 8, 16, 40))),
        "length": draw(gen.LENGTH),
        "in": g * draw(gen.size(1, 3, (5,))),
        "out": g * draw(gen.size(1, 3, (5,))),
        "k": k,
        "stride": draw(gen.pick(1, 1, 2, 3)),
        "pad": pad,
        "pad_mode": mode,
        "dil": dil,
        "groups": g,
        "rescale": draw(st.booleans()),
        "periodicity": draw(st.one_of(st.none(), st.none(), gen.pick(2.0, 1.0, 3.0, 0.5, 7.0)))
        if periodic and kind != "fourier"
        else None,
        "sizes": sizes,
        "batch": draw(gen.size(1, 3, (5, 9))),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.XMODE),
        "seed": draw(gen.SEED),
    }
    if asym and dim == 2 and draw(st.integers(0, 3)) == 0:
        # per-axis stride, dilation and padding, as torch convolutions take them
        c["stride"] = [c["stride"], draw(gen.pick(1, 2, 3))]
        c["dil"] = [c["dil"], draw(gen.pick(1, 2))]
        c["pad"] = [c["pad"], draw(gen.pick(0, 1, 2))]
        lo = max(1, c["dil"][1] * (k - 1) + 1 - 2 * c["pad"][1])
        if mode != "zeros":
            lo = max(lo, c["pad"][1] + 1)
        c["sizes"] = [c["sizes"][0], draw(st.integers(lo, lo + 3))]
    return c


def _t(v):
    return tuple(v) if isinstance(v, list) else v


@st.composite
def conv_bulk(draw):
    """One size far beyond the usual ones."""
    c = draw(conv_case())
    c.update(k=draw(st.integers(1, 2)), dil=1, pad=0, pad_mode="zeros", stride=1, groups=1,
             n=draw(st.integers(2, 4)), segs=draw(st.integers(1, 3)), batch=2,
             sizes=[3] * c["dim"])
    c["in"], c["out"] = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    what = draw(gen.pick("batch", "size", "in", "out", "segs", "k"))
    if what == "batch":
        c["batch"] = draw(gen.pick(70, 260, 520, 1100))
        c["sizes"] = [2] * c["dim"]
    elif what == "size":
        c["sizes"] = [draw(gen.pick(70, 260, 520))] if c["dim"] == 1 else \
            draw(gen.pick([18, 17], [3, 130], [130, 2], [34, 9]))
    elif what == "in":
        c["in"] = draw(gen.pick(17, 40, 70, 130))
    elif what == "out":
        c["out"] = draw(gen.pick(17, 40, 70, 130, 260))
    elif what == "segs":
        c["segs"] = draw(gen.pick(64, 130, 257))
    else:
        c["k"] = draw(gen.pick(5, 7, 9)) if c["dim"] == 1 else draw(gen.pick(4, 5))
        c["sizes"] = [c["k"] + 1] * c["dim"]
    return c


def segs_of(c):
    return c["segs"] if c["kind"] in ("continuous", "discontinuous") else 1


def build(c, **kw):
    args = dict(
        n=c["n"], in_channels=c["in"], out_channels=c["out"], kernel_size=c["k"],
        segments=c["segs"], length=c["length"], rescale_output=c["rescale"],
        stride=_t(c["stride"]), padding=_t(c["pad"]), dilation=_t(c["dil"]),
        groups=c["groups"],
    )
    if c["pad_mode"] != "zeros":
        args["padding_mode"] = c["pad_mode"]
    if c["periodicity"] is not None:
        args["periodicity"] = c["periodicity"]
    args.update(kw)
    with sut(f"construction of {c['kind']}{c['dim']}d convolution"):
        layer = high_order_convolution_layers(layer_type=f"{c['kind']}{c['dim']}d", **given(**args))
    nb = ref.num_basis(c["kind"], c["n"], segs_of(c))
    shape = (c["out"], c["in"] // c["groups"] * nb) + (c["k"],) * c["dim"]
    return layer, weight_param(layer, shape, "convolution"), nb


def inputs(c, rng):
    return gen.inputs(
        rng, (c["batch"], c["in"]) + tuple(c["sizes"]), c["xmode"], c["n"], segs_of(c),
        c["length"], c["periodicity"],
    )


def padded(c, x):
    """Input after non-zero padding and the zero padding left to the convolution."""
    if c["pad_mode"] == "zeros":
        return x, c["pad"]
    w = [(0, 0), (0, 0)] + [(q, q) for q in ref.per_axis(c["pad"], c["dim"])]
    return np.pad(x, w, mode=NP_PAD[c["pad_mode"]]), 0


def oracle(c, x, W, nb, rx=0.0):
    x, pad = padded(c, x)
    e = ref.expand(x, c["kind"], c["n"], segs_of(c), c["length"], c["periodicity"], rx)
    cen, rad = ref.conv(e, W, nb, c["dim"], c["stride"], pad, c["dil"], c["groups"])
    if c["rescale"]:
        d = c["in"] // c["groups"] * c["k"] ** c["dim"]
        cen, rad = cen / d, rad / d + ref.K * ref.U * np.abs(cen / d)
    return cen, rad


@st.composite
def transpose_case(draw, periodic=True, asym=False, groups=False):
    k = draw(st.integers(1, 3))
    dil = draw(gen.pick(1, 1, 2))
    stride = draw(gen.pick(1, 1, 2, 3))
    pad = draw(gen.pick(0, 0, 1, 2))
    op = draw(st.integers(0, max(stride, dil) - 1))
    span = dil * (k - 1) + 1
    lo = 1
    while stride * (lo - 1) + span - 2 * pad + op < 1:
        lo += 1
    sizes = [draw(st.integers(lo, lo + 2)) for _ in range(2)]
    if asym and draw(st.integers(0, 3)) == 0:
        s2, p2, d2 = draw(gen.pick(1, 2, 3)), draw(gen.pick(0, 1, 2)), draw(gen.pick(1, 2))
        o2 = draw(st.integers(0, max(s2, d2) - 1))
        lo = 1
        while s2 * (lo - 1) + d2 * (k - 1) + 1 - 2 * p2 + o2 < 1:
            lo += 1
        sizes = [sizes[0], draw(st.integers(lo, lo + 2))]
        stride, pad, dil, op = [stride, s2], [pad, p2], [dil, d2], [op, o2]
    g = draw(gen.pick(1, 1, 1, 2, 3)) if groups else 1
    return {
        "dim": 2,
        "kind": "continuous",
        "n": draw(gen.size(2, 6, (1, 8))),
        "segs": draw(gen.size(1, 5, (8, 16, 40))),
        "length": draw(gen.LENGTH),
        "in": g * draw(gen.size(1, 3, (5,))),
        "out": g * draw(gen.size(1, 3, (5,))),
        "k": k,
        "stride": stride,
        "pad": pad,
        "out_pad": op,
        "dil": dil,
        "groups": g,
        "rescale": draw(st.booleans()) if g == 1 else False,
        "periodicity": draw(st.one_of(st.none(), gen.pick(2.0, 1.0, 3.0, 0.5, 7.0))) if periodic else None,
        "sizes": sizes,
        "batch": draw(gen.size(1, 3, (6,))),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.XMODE),
        "seed": draw(gen.SEED),
    }


@st.composite
def transpose_bulk(draw):
    c = draw(transpose_case())
    c.update(k=draw(st.integers(1, 2)), dil=1, pad=0, out_pad=0, stride=1, batch=2, sizes=[3, 3],
             n=draw(st.integers(2, 4)), segs=draw(st.integers(1, 3)))
    c["in"], c["out"] = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    what = draw(gen.pick("batch", "size", "in", "out", "segs", "k", "stride"))
    if what == "batch":
        c.update(batch=draw(gen.pick(70, 260, 520, 1100)), sizes=[2, 2])
    elif what == "size":
        c["sizes"] = draw(gen.pick([18, 17], [3, 130], [130, 2], [34, 9]))
    elif what == "in":
        c["in"] = draw(gen.pick(17, 40, 70, 130))
    elif what == "out":
        c["out"] = draw(gen.pick(17, 40, 70, 130, 260))
    elif what == "segs":
        c["segs"] = draw(gen.pick(64, 130, 257))
    elif what == "k":
        c["k"] = draw(gen.pick(4, 5, 7))
    else:
        c["stride"] = draw(gen.pick(5, 8, 17))
    return c


def build_transpose(c, **kw):
    args = dict(
        n=c["n"], in_channels=c["in"], out_channels=c["out"], kernel_size=c["k"],
        segments=c["segs"], length=c["length"], rescale_output=c["rescale"],
        stride=_t(c["stride"]), padding=_t(c["pad"]), output_padding=_t(c["out_pad"]),
        dilation=_t(c["dil"]),
    )
    if c["groups"] > 1:
        args["groups"] = c["groups"]
    if c["periodicity"] is not None:
        args["periodicity"] = c["periodicity"]
    args.update(kw)
    with sut("construction of transposed convolution"):
        layer = high_order_convolution_transpose_layers(layer_type="continuous2d",
                                                        **given(**args))
    nb = ref.num_basis(c["kind"], c["n"], c["segs"])
    return layer, weight_param(layer, (c["in"] * nb, c["out"] // c["groups"], c["k"], c["k"]),
                               "transposed"), nb


def oracle_transpose(c, x, W, nb, rx=0.0):
    e = ref.expand(x, c["kind"], c["n"], c["segs"], c["length"], c["periodicity"], rx)
    cen, rad = ref.conv_transpose(e, W, nb, 2, c["stride"], c["pad"], c["out_pad"], c["dil"],
                                  c["groups"])
    if c["rescale"]:
        d = c["in"] * c["k"] ** 2
        cen, rad = cen / d, rad / d + ref.K * ref.U * np.abs(cen / d)
    return cen, rad
