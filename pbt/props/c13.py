"""C13 initialisation gives constant, uniform or straight-line links as requested."""
import random

import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import networks
from high_order_layers_torch import positional_embeddings as PE
from high_order_layers_torch.PolynomialLayers import initialize_polynomial_layer
from high_order_layers_torch.layers import high_order_fc_layers
from pbt import cv, gen, lay, net, ref
from pbt.core import Sub, sut
from pbt.util import T, arr, call, check, weight_param, within

HEAVY = True
KU = ref.K * ref.U


def check_constant(L, bound, what):
    """L: [links, nodes]."""
    check(np.isfinite(L).all(), f"{what}: non-finite initial weights")
    check((L == L[:, :1]).all(), f"{what}: a fresh link is not constant")
    check((np.abs(L) <= bound * (1 + 1e-5)).all(),
          lambda: f"{what}: initial weight {np.abs(L).max()} beyond {bound}")
    m = L.shape[0]
    if m > 1:
        check(len(np.unique(L[:, 0])) >= 0.9 * m, f"{what}: links are not drawn independently")
    if m >= 24:
        check(np.abs(L).max() > 0.02 * bound, f"{what}: initial weights far below their bound")


def check_uniform(L, bound, what):
    check(np.isfinite(L).all(), f"{what}: non-finite initial weights")
    check((np.abs(L) <= bound * (1 + 1e-5)).all(),
          lambda: f"{what}: initial weight {np.abs(L).max()} beyond {bound}")
    if L.size >= 4:
        check(len(np.unique(L)) >= 0.9 * L.size, f"{what}: weights are not drawn independently")
    if L.size >= 40:
        check((L > 0).any() and (L < 0).any(), f"{what}: weights of one sign only")
        check(np.abs(L).max() > 0.2 * bound, f"{what}: initial weights far below their bound")


@st.composite
def dense_case(draw):
    return {
        "type": draw(st.sampled_from(lay.POLY + ["polynomial_2d", "polynomial_3d", "continuous_nd",
                                                 "switch_continuous", "switch_discontinuous"])),
        "n": draw(gen.size(2, 5, (1, 8, 12))),
        "in": draw(gen.WIDTH),
        "out": draw(gen.WIDTH),
        "segs": draw(gen.size(1, 5, (16, 40))),
        "length": draw(gen.LENGTH),
        "mag": draw(gen.pick(None, None, 1.0, 0.1, 10.0, 0.0, 3.5)),
        "init": draw(gen.pick(None, "constant_random", "uniform", "uniform")),
        "embedding": draw(gen.pick(0, 0, 1)),
        "batch": draw(st.integers(2, 5)),
        "seed": draw(gen.SEED),
    }


def run_dense(c):
    rng = np.random.RandomState(c["seed"])
    kw = {}
    switch = c["type"] in lay.SWITCH
    if c["mag"] is not None and not switch:
        kw["weight_magnitude"] = c["mag"]
    if c["init"] is not None:
        kw["initialize"] = c["init"]
    nd = c["type"] in ("polynomial_2d", "polynomial_3d", "continuous_nd")
    n = min(c["n"], 4) if nd else c["n"]
    d = {"polynomial_2d": 2, "polynomial_3d": 3, "continuous_nd": 2}.get(c["type"])
    if c["type"] == "continuous_nd":
        kw["dimensions"] = 2
    torch.manual_seed(c["seed"])
    emb = {"continuous": PE.PiecewisePolynomialEmbedding,
           "discontinuous": PE.PiecewiseDiscontinuousPolynomialEmbedding}.get(c["type"])
    if emb and c["embedding"]:
        kw.pop("initialize", None)
        c["init"] = None
        with sut("construction of an embedding"):
            layer = emb(n=n, in_features=c["in"], out_features=c["out"], segments=c["segs"],
                        length=c["length"], **kw)
    else:
        layer = lay.make(c["type"], n, c["in"], c["out"], c["segs"]
                         if c["type"] != "continuous_nd" else min(c["segs"], 3), c["length"], **kw)
    Ws = [arr(p) for p in layer.parameters() if p.dim() == 3]
    check(len(Ws) == (2 if switch else 1), "number of weight tensors")
    mag = 1.0 if c["mag"] is None or switch else c["mag"]
    bound = mag / c["in"]
    uniform = c["init"] == "uniform"
    links = np.concatenate([W.reshape(c["in"] * c["out"], -1) for W in Ws])
    if mag == 0:
        check(not links.any(), "weight_magnitude 0 must give zero weights")
    elif uniform:
        check_uniform(links, bound, c["type"])
    else:
        check_constant(links, bound, c["type"])
    if not uniform:
        shape = (c["batch"], c["in"]) + ((d,) if nd else ())
        x = (rng.uniform(-1, 1, size=shape) * (1 + 0.4 / c["segs"]) * c["length"] / 2).astype(np.float32)
        y = arr(call(layer, T(x)))
        tol = 1e-4 * max(1.0, mag) * 4 ** max(0, min(n, 8) - 3) * 4
        check((np.abs(y - y[:1]) <= tol).all(),
              lambda: f"the output of a fresh {c['type']} layer depends on its input "
              f"({np.abs(y - y[:1]).max():.3g})")
        if not c["type"].endswith("_prod") and not switch:
            W = Ws[0][..., 0]
            W = W.sum(0) if c["type"] == "continuous_nd" else W.sum(1)
            check((np.abs(y - W) <= tol).all(), "a fresh layer outputs the sum of its constants")
    return links.shape[0] > 1 and mag != 0 and links.shape[1] > 1


@st.composite
def conv_case(draw):
    g = draw(gen.pick(1, 1, 2))
    return {
        "dim": 2, "kind": draw(gen.pick("continuous", "discontinuous", "polynomial")),
        "n": draw(st.integers(2, 5)), "segs": draw(st.integers(1, 5)), "length": 2.0,
        "in": g * draw(st.integers(1, 4)), "out": g * draw(st.integers(1, 4)),
        "k": draw(st.integers(1, 4)), "stride": 1, "pad": draw(gen.pick(0, 0, 1)),
        "pad_mode": "zeros", "dil": 1, "groups": g, "rescale": draw(st.booleans()),
        "periodicity": None, "sizes": [5, 4],
        "mag": draw(gen.pick(None, 1.0, 0.25, 7.0)),
        "seed": draw(gen.SEED),
    }


def run_conv(c):
    rng = np.random.RandomState(c["seed"])
    torch.manual_seed(c["seed"])
    kw = {} if c["mag"] is None else {"weight_magnitude": c["mag"]}
    layer, p, nb = cv.build(c, **kw)
    cg = c["in"] // c["groups"]
    W = arr(p).reshape((c["out"], cg, nb) + (c["k"],) * 2)
    L = np.moveaxis(W, 2, -1).reshape(-1, nb)
    mag = 1.0 if c["mag"] is None else c["mag"]
    check_constant(L, mag / (cg * c["k"] ** 2), f"{c['kind']}2d convolution")
    x = rng.uniform(-1.2, 1.2, size=(3, c["in"], 5, 4)).astype(np.float32)
    y = arr(call(layer, T(x)))
    tol = 2e-4 * mag * 4 ** max(0, c["n"] - 3)
    check((np.abs(y - y[:1]) <= tol).all(),
          "the output of a fresh 2d convolution depends on its input")
    return L.shape[0] > 1 and nb > 1


@st.composite
def other_conv_case(draw):
    g = draw(gen.pick(1, 1, 2))
    dim, kind, tr = draw(st.sampled_from([(1, k, False) for k in cv.KINDS]
                                         + [(2, "fourier", False), (2, "continuous", True)]))
    return {
        "dim": dim, "kind": kind, "transpose": tr,
        "n": draw(st.integers(2, 5)), "segs": draw(st.integers(1, 5)), "length": 2.0,
        "in": g * draw(st.integers(1, 4)), "out": g * draw(st.integers(1, 4)),
        "k": draw(st.integers(1, 4)), "stride": 1, "pad": 0, "out_pad": 0,
        "pad_mode": "zeros", "dil": 1, "groups": g, "rescale": draw(st.booleans()),
        "periodicity": None, "sizes": [5, 4][:dim],
        "mag": draw(gen.pick(None, 1.0, 0.25, 7.0)),
        "seed": draw(gen.SEED),
    }


def run_other_conv(c):
    torch.manual_seed(c["seed"])
    kw = {} if c["mag"] is None else {"weight_magnitude": c["mag"]}
    _, p, nb = (cv.build_transpose if c["transpose"] else cv.build)(c, **kw)
    mag = 1.0 if c["mag"] is None else c["mag"]
    L = arr(p)
    # fan-in: expanded channels times kernel positions, the latter squared in 1d too
    bound = mag / (c["in"] * nb * c["k"] ** c["dim"])
    check(np.isfinite(L).all(), "non-finite initial weights")
    check((np.abs(L) <= bound * c["groups"] * (1 + 1e-5)).all(),
          lambda: f"initial weight {np.abs(L).max()} beyond {bound * c['groups']}")
    if L.size >= 4:
        check(len(np.unique(L)) >= 0.9 * L.size, "weights are not drawn independently")
    if L.size >= 40:
        check((L > 0).any() and (L < 0).any(), "weights of one sign only")
        check(np.abs(L).max() > 0.2 * bound / c["k"], "initial weights far below their bound")
    return L.size >= 40


@st.composite
def line_case(draw):
    return {
        "type": draw(gen.pick("continuous", "discontinuous", "discontinuous_prod")),
        "n": draw(gen.size(2, 7, (10,))),
        "in": draw(gen.size(1, 5, (9,))),
        "out": draw(gen.size(1, 5, (9,))),
        "segs": draw(gen.size(1, 6, (16, 33))),
        "length": draw(gen.LENGTH),
        "slope": draw(gen.pick(None, 1.0, 0.0, 0.1, 5.0)),
        "offset": draw(gen.pick(None, 0.0, 0.5, 3.0)),
        "xmode": draw(gen.pick("mix", "outside", "boundary")),
        "seed": draw(gen.SEED),
    }


def node_coords(kind, n, segs, length):
    half = 0.5 * length
    step = n - 1 if kind == "continuous" else n
    x = np.zeros(ref.num_basis(kind, n, segs))
    for s in range(segs):
        x[s * step:s * step + n] = -half + (s + 0.5 * (ref.cheb(n) + 1)) * length / segs
    return x


def check_lines(W, kind, n, segs, length, slope, offset, what):
    """Every link [o,i,:] lies on one line with bounded slope and offset."""
    X = node_coords(kind, n, segs, length)
    a = (W[..., -1] - W[..., 0]) / (X[-1] - X[0])
    b = 0.5 * (W[..., -1] + W[..., 0])
    fit = a[..., None] * X + b[..., None]
    tol = 2e-6 * (1 + slope * length + offset)
    check((np.abs(W - fit) <= tol).all(), f"{what}: a link is not a straight line")
    check((np.abs(a) <= slope * (1 + 1e-5) + 4e-6 * (1 + offset / length)).all(),
          lambda: f"{what}: slope {np.abs(a).max()} beyond {slope}")
    check((np.abs(b) <= offset * (1 + 1e-5) + 2e-6 * (1 + slope * length)).all(),
          lambda: f"{what}: offset {np.abs(b).max()} beyond {offset}")
    if a.size > 1 and slope > 1e-3:
        check(len(np.unique(np.round(a, 9))) >= 0.9 * a.size, f"{what}: slopes not independent")
    if a.size > 1 and offset > 1e-3:
        check(len(np.unique(np.round(b, 9))) >= 0.9 * a.size, f"{what}: offsets not independent")
    if a.size >= 24:
        check(np.abs(a).max() >= 0.02 * slope, f"{what}: slopes far below their maximum")
        check(np.abs(b).max() >= 0.02 * offset - 1e-5, f"{what}: offsets far below their maximum")
        if slope > 1e-3:
            check((a > 0).any() and (a < 0).any(), f"{what}: slopes of one sign only")
        if offset > 1e-3:
            check((b > 0).any() and (b < 0).any(), f"{what}: offsets of one sign only")
    return a, b


def run_line(c):
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    fl.fill(rng)
    kw = {}
    if c["slope"] is not None:
        kw["max_slope"] = c["slope"]
    if c["offset"] is not None:
        kw["max_offset"] = c["offset"]
    random.seed(c["seed"])
    with sut("initialize_polynomial_layer"):
        initialize_polynomial_layer(layer, **kw)
    slope = 1.0 if c["slope"] is None else c["slope"]
    offset = 0.0 if c["offset"] is None else c["offset"]
    W = arr(fl.ps[0][0])
    kind = lay.base(c["type"])
    a, b = check_lines(W, kind, c["n"], c["segs"], c["length"], slope, offset, c["type"])
    # as a function, everywhere
    x = gen.inputs(rng, (5, c["in"]), c["xmode"], c["n"], c["segs"], c["length"])
    y = call(layer, T(x))
    f = a[None] * x.astype(float)[:, None, :] + b[None]
    RW = np.full(W.shape, 2e-6 * (1 + slope * c["length"] + offset))
    _, rad = ref.dense(x.astype(float), W, kind, c["n"], c["segs"], c["length"], None,
                       c["type"].endswith("_prod"), 0.0, RW)
    if c["type"].endswith("_prod"):
        cen = np.prod(1 + f, -1) - 1
    else:
        cen = f.sum(-1)
    tight = within(y, cen, rad, "a line-initialised layer")
    return tight >= 0.3 and slope > 0 and a.size > 1


@st.composite
def net_case(draw):
    kinds = ["continuous", "discontinuous", "switch_continuous", "switch_discontinuous",
             "baseline", "fourier", "product", "baseline_relu"]
    k = draw(st.integers(1, 4))
    return {
        "form": draw(gen.pick("list", "seq", "mlp")),
        "types": [draw(st.sampled_from(kinds)) for _ in range(k)] if draw(gen.pick(1, 1, 0)) else
                 [draw(st.sampled_from(lay.SWITCH)) for _ in range(k)],
        "n": draw(st.integers(2, 5)),
        "segs": draw(st.integers(1, 5)),
        "width": [draw(st.integers(1, 4)) for _ in range(k + 1)],
        "slope": draw(gen.pick(1.0, 0.2, 4.0)),
        "offset": draw(gen.pick(0.0, 0.5)),
        "scale": draw(gen.pick("none", "inv", "sqrt")),
        "layer_norm": draw(st.booleans()),
        "resnet": draw(st.booleans()),
        "direct": draw(st.booleans()),
        "seed": draw(gen.SEED),
    }


def run_net(c):
    rng = np.random.RandomState(c["seed"])
    k = len(c["types"])
    types, width = list(c["types"]), list(c["width"])
    x = rng.uniform(-1, 1, size=(3, width[0])).astype(np.float32)
    conv = None
    with sut("network construction"):
        if c["form"] == "list":
            m = networks.HighOrderMLPList(
                layer_type=types, n=[c["n"]] * k, width=width, segments=[c["segs"]] * k,
                normalization=[net.NORMS["layer_norm"]] * k if c["layer_norm"] else None)
        elif c["form"] == "seq":
            m = torch.nn.Sequential(*[
                high_order_fc_layers(layer_type=t, n=c["n"], in_features=width[i],
                                     out_features=width[i + 1], segments=c["segs"])
                for i, t in enumerate(types)])
        else:
            types = [types[0]] * (k + 2)
            width = [width[0]] + [width[1]] * (k + 1) + [2]
            m = networks.HighOrderMLP(
                layer_type=types[0], n=c["n"], in_width=width[0], out_width=2, hidden_layers=k,
                hidden_width=width[1], in_segments=c["segs"], hidden_segments=c["segs"],
                out_segments=c["segs"], resnet=c["resnet"],
                normalization=net.NORMS["layer_norm"] if c["layer_norm"] else None)
    mods, _ = lay.owners(m, T(x))
    fls = []
    for i, t in enumerate(types):
        f = lay.Flat(t, c["n"], width[i], width[i + 1], c["segs"], 2.0, None)
        f.bind(mods, "network")
        f.fill(rng)
        fls.append(f)
    line = ("continuous", "discontinuous") + tuple(lay.SWITCH)
    touched = {id(w) for f in fls if f.kind in line for w, _ in f.ps}
    before = {n: p.detach().clone() for n, p in m.named_parameters()}
    fn = {"none": None, "inv": lambda s: 1 / s, "sqrt": lambda s: s ** -0.5}[c["scale"]]
    random.seed(c["seed"])
    if c["direct"] and c["form"] == "seq" and all(t in lay.SWITCH for t in types):
        fn = None
        for q in m:
            with sut("SwitchLayer.initialize"):
                q.initialize(max_slope=c["slope"], max_offset=c["offset"])
    else:
        with sut("initialize_network_polynomial_layers"):
            kw = {} if fn is None else {"scale_slope": fn}
            networks.initialize_network_polynomial_layers(
                m, max_slope=c["slope"], max_offset=c["offset"], **kw)
    for f in fls:
        if f.kind in line:
            s = c["slope"] * (1.0 if fn is None else fn(f.i))
            for w, _ in f.ps:
                check_lines(arr(w), lay.base(f.kind), f.n, f.segs, 2.0, s, c["offset"],
                            f"network layer {f.kind}")
    for n, p in m.named_parameters():
        if id(p) not in touched:
            a, b = torch.nan_to_num(p.detach()), torch.nan_to_num(before[n])
            check(torch.equal(a, b), f"line initialisation touched {n}")
    return bool(touched)


@st.composite
def fresh_net_case(draw):
    return {
        "type": draw(gen.pick(*(lay.PIECE + ["polynomial", "polynomial_prod"] + lay.SWITCH))),
        "n": [draw(st.integers(2, 5)) for _ in range(3)],
        "segs": [draw(st.integers(1, 4)) for _ in range(3)],
        "in": draw(st.integers(1, 4)), "hidden": draw(st.integers(1, 4)),
        "out": draw(st.integers(1, 3)), "layers": draw(st.integers(0, 3)),
        "init": draw(gen.pick(None, "constant_random", "uniform", "uniform")),
        "multi": draw(gen.pick(0, 0, 1, 2)),
        "resnet": draw(st.booleans()),
        "seed": draw(gen.SEED),
    }


def run_fresh_net(c):
    rng = np.random.RandomState(c["seed"])
    torch.manual_seed(c["seed"])
    kw = dict(layer_type=c["type"], n=c["n"][1], n_in=c["n"][0], n_hidden=c["n"][1],
              n_out=c["n"][2], in_width=c["in"], out_width=c["out"], hidden_layers=c["layers"],
              hidden_width=c["hidden"], in_segments=c["segs"][0], hidden_segments=c["segs"][1],
              out_segments=c["segs"][2], resnet=c["resnet"])
    if c["init"] is not None:
        kw["initialization"] = c["init"]
    with sut("construction"):
        if c["multi"]:
            m = networks.HighOrderMultiMLP(replicas=c["multi"], **kw)
        else:
            m = networks.HighOrderMLP(**kw)
    nontrivial = False
    tot = 0
    for name, p in m.named_parameters():
        if p.dim() != 3:
            continue
        tot += 1
        o, i, nb = p.shape
        L = arr(p).reshape(o * i, nb)
        if c["init"] == "uniform":
            check_uniform(L, 1.0 / i, f"{c['type']} network, {name}")
            if nb > 1:
                check((L != L[:, :1]).any(), f"{name}: uniform initialisation gave constant links")
        else:
            check_constant(L, 1.0 / i, f"{c['type']} network, {name}")
        nontrivial = nontrivial or o * i > 1
    check(tot >= c["layers"] + 2, "fewer weight tensors than layers")
    if c["init"] != "uniform":
        x = rng.uniform(-1, 1, size=(4, c["in"])).astype(np.float32)
        m.eval()
        y = arr(call(m, T(x)))
        scale = 1 + np.abs(y).max()
        check((np.abs(y - y[:1]) <= 1e-2 * scale).all(), "a fresh network's output depends on its input")
    return nontrivial


SUBS = [
    Sub("dense", dense_case(), run_dense,
        "several links of several nodes and non-zero magnitude", quick=1500),
    Sub("conv2d", conv_case(), run_conv, "several links of several nodes", quick=500),
    Sub("other_conv", other_conv_case(), run_other_conv, "40 weights or more", quick=500),
    Sub("line_layer", line_case(), run_line, "positive slope, several links, output pinned",
        quick=800),
    Sub("line_network", net_case(), run_net, "some layer is line-initialised", quick=700),
    Sub("fresh_network", fresh_net_case(), run_fresh_net, "some layer has several links",
        quick=600),
]
QUICK_ROUNDS = 4
