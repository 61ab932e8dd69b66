"""C14 smoothing shrinks exactly the jumps of discontinuous layers."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import networks
from high_order_layers_torch.PolynomialLayers import smooth_discontinuous_layer
from pbt import gen, lay, net, ref
from pbt.core import Sub, sut
from pbt.util import T, arr, call, check, within

HEAVY = True
KU = ref.K * ref.U

FACTOR = st.one_of(gen.pick(0.0, 1.0, 0.5, 1.0, 0.25, 0.1, 0.9, 1.0, 1.5, 2.0, -0.5),
                   st.integers(0, 1024).map(lambda k: k / 1024))


def model(W, RW, n, f):
    """Reference: jump times (1-f), mean kept."""
    W, RW = W.copy(), RW.copy()
    segs = W.shape[-1] // n
    for s in range(segs - 1):
        a, b = s * n + n - 1, (s + 1) * n
        l, r = W[..., a].copy(), W[..., b].copy()
        rl, rr = RW[..., a].copy(), RW[..., b].copy()
        m, j = 0.5 * (l + r), 0.5 * (l - r)
        W[..., a], W[..., b] = m + (1 - f) * j, m - (1 - f) * j
        rad = (1 + abs(f)) * (np.maximum(rl, rr) + KU * (np.abs(l) + np.abs(r)))
        RW[..., a], RW[..., b] = rad, rad
    return W, RW


@st.composite
def layer_case(draw):
    return {
        "type": draw(gen.pick("discontinuous", "discontinuous", "discontinuous_prod")),
        "n": draw(gen.size(2, 6, (9, 12, 20))),
        "in": draw(gen.size(1, 4, (7, 17))),
        "out": draw(gen.size(1, 4, (7, 17))),
        "segs": draw(gen.size(1, 7, (12, 33, 100))),
        "length": draw(gen.LENGTH),
        "factors": draw(st.lists(FACTOR, min_size=1, max_size=5)),
        "wmode": draw(gen.pick("normal", "ints", "scales", "zero_some", "uniform")),
        "seed": draw(gen.SEED),
    }


def run_layer(c):
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    p = fl.ps[0][0]
    fl.fill(rng, 1.0, c["wmode"])
    n, segs = c["n"], c["segs"]
    W0 = arr(p)
    W, RW = W0.copy(), np.zeros_like(W0)
    interior = np.zeros(n * segs, bool)
    for s in range(segs - 1):
        interior[[s * n + n - 1, (s + 1) * n]] = True
    keep = 1.0
    for k, f in enumerate(c["factors"]):
        with sut("smooth_discontinuous_layer"):
            smooth_discontinuous_layer(layer, f)
        W, RW = model(W, RW, n, f)
        got = arr(p)
        check(got.shape == W.shape, "smoothing changed the weight shape")
        check(np.array_equal(got[..., ~interior], W0[..., ~interior]),
              "smoothing changed a weight that is not at an interior boundary")
        within(got, W, RW, f"weights after factors {c['factors'][:k + 1]}")
        keep *= 1 - f
    # in closed form, over the whole history
    if segs > 1:
        L0, R0 = W0[..., n - 1:-1:n], W0[..., n::n]
        got = arr(p)
        L, R = got[..., n - 1:-1:n], got[..., n::n]
        mag = KU * 4 * len(c["factors"]) * (np.abs(L0) + np.abs(R0)) * np.prod(
            [1 + max(0.0, f - 1, -f) for f in c["factors"]])
        within(L - R, keep * (L0 - R0), mag, "jump after the whole history")
        within(L + R, L0 + R0, mag, "mean of the boundary values")
    # as a function: one-sided limits at the boundaries
    if c["factors"][-1] == 1.0 and segs > 1:
        half = 0.5 * c["length"]
        b = -half + c["length"] * np.arange(1, segs) / segs
        d = c["length"] / segs * 1e-3
        lo = np.repeat((b - d)[:, None], c["in"], 1).astype(np.float32)
        hi = np.repeat((b + d)[:, None], c["in"], 1).astype(np.float32)
        if c["type"] == "discontinuous":
            yl, yh = arr(call(layer, T(lo))), arr(call(layer, T(hi)))
            cl, rl = fl.eval(lo.astype(float), 0.0, [(W, RW)])
            ch, rh = fl.eval(hi.astype(float), 0.0, [(W, RW)])
            within(yh - yl, ch - cl, rl + rh, "variation across a smoothed boundary")
    check(p.requires_grad, "smoothed weights no longer trainable")
    return segs > 1 and any(f not in (0.0,) for f in c["factors"]) and np.any(
        W0[..., n - 1:-1:n] != W0[..., n::n])


@st.composite
def net_case(draw):
    kinds = ["discontinuous", "discontinuous", "discontinuous_prod", "switch_discontinuous",
             "continuous", "continuous_prod", "switch_continuous", "polynomial", "fourier",
             "product", "baseline"]
    k = draw(st.integers(1, 4))
    return {
        "form": draw(gen.pick("list", "mlp")),
        "types": [draw(st.sampled_from(kinds)) for _ in range(k)],
        "n": [draw(gen.size(2, 5, (8,))) for _ in range(k)],
        "segs": [draw(gen.size(1, 5, (9, 17))) for _ in range(k)],
        "width": [draw(gen.size(1, 4, (7,))) for _ in range(k + 1)],
        "factors": draw(st.lists(FACTOR, min_size=1, max_size=3)),
        "resnet": draw(st.booleans()),
        "norm": draw(gen.pick(None, "max_abs", "layer_norm")),
        "seed": draw(gen.SEED),
    }


def run_net(c):
    rng = np.random.RandomState(c["seed"])
    k = len(c["types"])
    types, width, ns, segs = list(c["types"]), list(c["width"]), list(c["n"]), list(c["segs"])
    with sut("network construction"):
        if c["form"] == "list":
            m = networks.HighOrderMLPList(
                layer_type=types, n=ns, width=width, segments=segs,
                normalization=None if c["norm"] is None else [net.NORMS[c["norm"]]] * k)
        else:
            t0 = types[0]
            m = networks.HighOrderMLP(
                layer_type=t0, layer_type_in=types[-1], n=ns[0], in_width=width[0], out_width=2,
                hidden_layers=k, hidden_width=width[1], in_segments=segs[0],
                hidden_segments=segs[0], out_segments=segs[0], resnet=c["resnet"],
                normalization=net.NORMS[c["norm"]])
            types = [types[-1]] + [t0] * (k + 1)
            width = [width[0]] + [width[1]] * (k + 1) + [2]
            ns, segs = [ns[0]] * (k + 2), [segs[0]] * (k + 2)
    x = rng.uniform(-1, 1, size=(3, width[0])).astype(np.float32)
    mods, _ = lay.owners(m, T(x))
    expect = {}
    other = {}
    for i, t in enumerate(types):
        f = lay.Flat(t, ns[i], width[i], width[i + 1], segs[i], 2.0, None)
        f.bind(mods, "network")
        f.fill(rng)
        for w, _ in f.ps:
            if lay.base(t) == "discontinuous":
                W = arr(w)
                RW = np.zeros_like(W)
                for fac in c["factors"]:
                    W, RW = model(W, RW, f.n, fac)
                expect[id(w)] = (w, W, RW, t)
    before = {n: p.detach().clone() for n, p in m.named_parameters()}
    for fac in c["factors"]:
        with sut("smooth_discontinuous_network"):
            networks.smooth_discontinuous_network(m, fac)
    for w, W, RW, t in expect.values():
        within(w, W, RW, f"weights of {t} layer after network smoothing {c['factors']}")
    for n, p in m.named_parameters():
        if id(p) not in expect:
            same = torch.equal(torch.nan_to_num(p.detach()), torch.nan_to_num(before[n]))
            check(same, f"network smoothing touched {n}")
    return bool(expect) and any(s > 1 for s in segs) and any(c["factors"])


SUBS = [
    Sub("layer_history", layer_case(), run_layer,
        "several segments, a non-zero factor and a jump to begin with", quick=2200),
    Sub("network_history", net_case(), run_net,
        "a discontinuous layer, several segments and a non-zero factor", quick=1000),
]
QUICK_ROUNDS = 3
