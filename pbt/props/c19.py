"""C19 convolutional networks chain their layers and report their sizes."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import layers as L
from high_order_layers_torch import networks as NW
from pbt import cv, gen, lay, ref
from pbt.core import Sub, sut
from pbt.util import given, T, call, check, fail, set_, within

HEAVY = True
KU = ref.K * ref.U


class AbsND(torch.nn.Module):
    def __init__(self, channels):
        super().__init__()
        self.channels = channels
        self.f = L.MaxAbsNormalizationND()

    def forward(self, x):
        if x.shape[1] != self.channels:
            fail(f"normalisation built for {self.channels} channels got {x.shape[1]}")
        return self.f(x)


class Scale(torch.nn.Module):
    """A per-channel shift and scale with fixed, distinguishable values."""

    def __init__(self, channels):
        super().__init__()
        self.register_buffer("a", torch.linspace(0.5, 1.0, channels))
        self.register_buffer("b", torch.linspace(-0.25, 0.25, channels))

    def forward(self, x):
        sh = (1, -1) + (1,) * (x.dim() - 2)
        return x * self.a.reshape(sh) + self.b.reshape(sh)


@st.composite
def case(draw, whats=("fcn", "fcn", "tail", "tail", "deconv")):
    what = draw(st.sampled_from(list(whats)))
    dim = 1 if what == "tail" else 2 if what == "deconv" else draw(gen.pick(1, 2))
    k = draw(gen.pick(1, 2, 2, 3, 3, 4, 6) if dim == 1 else gen.pick(1, 2, 2, 3, 5))
    deep = k > 4
    kinds = ["continuous"] if what == "deconv" else cv.KINDS
    scalar = {q: draw(gen.pick(False, False, True))
              for q in ("type", "n", "segs", "stride", "focus")}

    def some(strategy, name):
        if scalar[name]:
            return [draw(strategy)] * k
        return [draw(strategy) for _ in range(k)]

    ks = [draw(st.integers(1, 2 if deep else 3)) for _ in range(k)]
    pad = draw(gen.pick(0, 0, 0, 1, 2) if what != "deconv" else gen.pick(0, 0, 0, 1))
    stride = draw(st.booleans())
    strides = some(gen.pick(1, 1, 1, 2) if deep else
                   gen.pick(1, 1, 2, 3) if dim == 1 else gen.pick(1, 2), "stride") \
        if stride else None
    if not stride:
        scalar["stride"] = False
    sizes = []
    for _ in range(dim):
        if what == "deconv":
            s = 1 if deep else draw(st.integers(1, 3))
        else:
            s = 1 if deep else draw(st.integers(1, 3))
            # smallest input for which every level is non-empty, then some more
            for i in reversed(range(k)):
                s = max(1, (s - 1) * (strides[i] if stride else 1) + ks[i] - 2 * pad)
            s = min(s + draw(st.integers(0, 3)), 60 if dim == 1 else 24)
        sizes.append(s)
    return {
        "what": what, "dim": dim, "scalar": scalar,
        "types": some(st.sampled_from(kinds), "type"),
        "n": some(gen.size(1, 4, (6,)), "n"),
        "segs": some(gen.size(1, 4, (7,)), "segs"),
        "focus": some(gen.size(1, 4, (9,)), "focus"),
        "ch": [draw(st.integers(1, 3)) for _ in range(k + 1)],
        "k": ks, "stride": strides, "pad": pad,
        "pool": draw(st.booleans()),
        "norm": draw(gen.pick(None, None, "abs", "scale", "bn")),
        "rescale": draw(st.booleans()),
        "periodicity": draw(st.one_of(st.none(), st.none(), gen.pick(2.0, 1.0, 3.0))),
        "sizes": sizes,
        "batch": draw(gen.size(1, 3, (7,))),
        "spread": draw(gen.pick(0.95, 0.95, 1.4)),
        "seed": draw(gen.SEED),
    }


def layer_case(c, i, per):
    return {
        "dim": c["dim"], "kind": c["types"][i], "n": c["n"][i], "segs": c["segs"][i],
        "length": 2.0, "in": c["ch"][i], "out": c["ch"][i + 1], "k": c["k"][i],
        "stride": 1 if c["stride"] is None else c["stride"][i], "pad": c["pad"],
        "pad_mode": "zeros", "out_pad": 0, "dil": 1, "groups": 1, "rescale": c["rescale"],
        "periodicity": None if c["types"][i] == "fourier" else per,
    }


def out_size(c, i, s):
    st_ = 1 if c["stride"] is None else c["stride"][i]
    if c["what"] == "deconv":
        return st_ * (s - 1) + c["k"][i] - 2 * c["pad"]
    return (s + 2 * c["pad"] - c["k"][i]) // st_ + 1 if s + 2 * c["pad"] >= c["k"][i] else 0


def run(c):
    rng = np.random.RandomState(c["seed"])
    k, dim, what = len(c["k"]), c["dim"], c["what"]
    per = None if "fourier" in c["types"] else c["periodicity"]
    sizes = [list(c["sizes"])]
    for i in range(k):
        sizes.append([out_size(c, i, s) for s in sizes[-1]])
        if min(sizes[-1]) < 1 or np.prod(sizes[-1]) > 400:
            return False

    def maybe(name, v):
        return v[0] if c["scalar"][name] else list(v)

    suffix = f"{dim}d"
    bn = torch.nn.BatchNorm1d if dim == 1 else torch.nn.BatchNorm2d
    kw = given(
        layer_type=maybe("type", [t + suffix for t in c["types"]]), n=maybe("n", c["n"]),
        channels=list(c["ch"]), segments=maybe("segs", c["segs"]), kernel_size=list(c["k"]),
        rescale_output=c["rescale"], periodicity=per, padding=c["pad"],
        normalization={None: None, "abs": AbsND, "scale": Scale, "bn": bn}[c["norm"]])
    if c["stride"] is not None:
        kw["stride"] = maybe("stride", c["stride"])
    with sut(f"construction of {what}"):
        if what == "fcn":
            m = NW.HighOrderFullyConvolutionalNetwork(pooling=suffix if c["pool"] else None, **kw)
        elif what == "deconv":
            m = NW.HighOrderFullyDeconvolutionalNetwork(**kw)
        else:
            m = NW.HighOrderTailFocusNetwork(focus=maybe("focus", c["focus"]), **kw)
    m.eval()
    x = (rng.uniform(-1, 1, size=[c["batch"], c["ch"][0]] + c["sizes"]) * c["spread"]).astype(
        np.float32)
    mods, _ = lay.owners(m, T(x))
    levels = []
    for i in range(k):
        lc = layer_case(c, i, per)
        nb = ref.num_basis(lc["kind"], lc["n"], cv.segs_of(lc))
        shape = (lc["in"] * nb, lc["out"]) if what == "deconv" else (lc["out"], lc["in"] * nb)
        if not mods:
            fail(f"{what}: fewer convolutions executed than configured")
        w = lay.param(mods.pop(0), shape + (lc["k"],) * dim, f"level {i} of {what}")
        v = rng.uniform(-1, 1, size=w.shape) * rng.choice([1.0, 1.5])
        if not c["rescale"]:
            v = v / (lc["in"] * lc["k"] ** dim) ** rng.choice([0.5, 1.0])
        set_(w, v)
        levels.append((lc, w, nb))
    if mods:
        fail(f"{what}: more convolutions executed than configured")
    bns = [q for q in m.modules() if isinstance(q, torch.nn.modules.batchnorm._BatchNorm)]
    stats = []
    for i in range(k):
        ch = c["ch"][i + 1]
        if c["norm"] == "bn":
            q = bns[i]
            check(q.num_features == ch, f"normalisation {i} built for {q.num_features} channels")
            a, b = rng.uniform(0.3, 0.8, size=ch), rng.uniform(-0.2, 0.2, size=ch)
            mean, var = rng.uniform(-0.3, 0.3, size=ch), rng.uniform(0.5, 1.5, size=ch)
            for t, v in ((q.weight, a), (q.bias, b), (q.running_mean, mean), (q.running_var, var)):
                set_(t, v)
            f = [ref.f64(t) for t in (q.weight, q.bias, q.running_mean, q.running_var)]
            s = f[0] / np.sqrt(f[3] + q.eps)
            stats.append((s, f[1] - f[2] * s))
        elif c["norm"] == "scale":
            stats.append((np.linspace(0.5, 1.0, ch), np.linspace(-0.25, 0.25, ch)))
    if c["norm"] == "bn":
        check(len(bns) == k, f"{len(bns)} normalisations for {k} levels")
    cen, rad = x.astype(float), np.zeros(x.shape)
    tails = []
    axes = tuple(range(1, 2 + dim))
    for i, (lc, w, nb) in enumerate(levels):
        f = c["focus"][i]
        tails.append((cen[..., -f:], rad[..., -f:]))
        orc = cv.oracle_transpose if what == "deconv" else cv.oracle
        lost = ~(np.isfinite(cen) & np.isfinite(rad) & (np.abs(cen) + rad < 1e15)).all(
            axis=axes, keepdims=True)
        cen, rad = np.where(lost, 0.0, cen), np.where(lost, 0.0, rad)
        cen, rad = orc(lc, cen, ref.f64(w), nb, rad)
        check(list(cen.shape[2:]) == sizes[i + 1], "harness sizes")
        if c["norm"] == "abs":
            cen, rad = ref.max_abs(cen, rad, axes)
        elif c["norm"]:
            sh = (1, -1) + (1,) * dim
            s, o = (v.reshape(sh) for v in stats[i])
            new = cen * s + o
            rad = rad * np.abs(s) + KU * (np.abs(cen * s) + 2 * np.abs(o) + np.abs(new) + 1)
            cen = new
        rad = np.where(lost | np.isnan(rad) | np.isnan(cen), np.inf, rad)
    B = c["batch"]
    y = call(m, T(x))
    if what == "fcn":
        if c["pool"]:
            N = int(np.prod(sizes[-1]))
            sp = tuple(range(2, 2 + dim))
            rad = rad.mean(sp) + KU * min(N, 64) * np.abs(cen).mean(sp)
            cen = cen.mean(sp)
            with sut("output_size"):
                osz = m.output_size
            check(osz == c["ch"][-1] == y.shape[1],
                  f"output_size reports {osz}, output is {tuple(y.shape)}")
        cen, rad = cen.reshape(B, -1), rad.reshape(B, -1)
    elif what == "deconv":
        with sut("in_channels"):
            check(m.in_channels == c["ch"][0], f"in_channels reports {m.in_channels}")
    else:
        tails.append((cen, rad))
        cen = np.concatenate([t[0].reshape(B, -1) for t in tails], 1)
        rad = np.concatenate([t[1].reshape(B, -1) for t in tails], 1)
        with sut("compute_sizes"):
            widths, outs = m.compute_sizes(c["sizes"][0])
        check([int(v) for v in widths] == [s[0] for s in sizes],
              f"compute_sizes reports widths {widths}, actual {[s[0] for s in sizes]}")
        act = [t[0].reshape(B, -1).shape[1] for t in tails]
        check([int(v) for v in outs] == act, f"compute_sizes reports {outs}, actual {act}")
        check(sum(act) == y.shape[1], f"output width {y.shape[1]}, reported sizes {act}")
    return within(y, cen, rad, f"output of {what}") >= 0.5


@st.composite
def size_case(draw):
    k = draw(st.integers(1, 5))
    return {
        "k": [draw(gen.size(1, 5, (8,))) for _ in range(k)],
        "stride": draw(st.one_of(st.none(), st.integers(1, 4), st.lists(
            st.integers(1, 4), min_size=k, max_size=k))),
        "pad": draw(st.integers(0, 3)),
        "focus": draw(st.one_of(st.integers(1, 6), st.lists(
            gen.size(1, 6, (40,)), min_size=k, max_size=k))),
        "ch": [draw(st.integers(1, 3)) for _ in range(k + 1)],
        "norm": draw(st.booleans()),
        "size": draw(gen.size(1, 60, (100, 257))),
    }


def run_sizes(c):
    with sut("construction of the tail-focus network"):
        m = NW.HighOrderTailFocusNetwork(
            layer_type="polynomial1d", n=2, channels=c["ch"], segments=1, kernel_size=c["k"],
            stride=c["stride"], padding=c["pad"], focus=c["focus"],
            normalization=AbsND if c["norm"] else None)
    k = len(c["k"])
    st_ = c["stride"]
    st_ = [1] * k if st_ is None else [st_] * k if isinstance(st_, int) else st_
    w = [c["size"]]
    for i in range(k):
        if w[-1] + 2 * c["pad"] < c["k"][i]:
            return False
        w.append((w[-1] + 2 * c["pad"] - c["k"][i]) // st_[i] + 1)
    with sut("compute_sizes"):
        widths, outs = m.compute_sizes(c["size"])
    check([int(v) for v in widths] == w, f"widths {widths}, expected {w}")
    f = [c["focus"]] * k if isinstance(c["focus"], int) else c["focus"]
    want = [c["ch"][i] * min(f[i], w[i]) for i in range(k)] + [c["ch"][-1] * w[-1]]
    check([int(v) for v in outs] == want, f"sizes {outs}, expected {want}")
    y = call(m, torch.zeros(1, c["ch"][0], c["size"]))
    check(tuple(y.shape) == (1, sum(want)), f"output {tuple(y.shape)}, reported {want}")
    return k > 1


SUBS = [
    Sub("network", case(), run, "half of the outputs pinned to 1%", quick=5000),
    Sub("sizes", size_case(), run_sizes, "more than one level, all non-empty", quick=3000),
]
ASSUMPTIONS = [
    "segments of convolutional networks have length 2 (the networks take no other length)",
    "output_size describes the pooled network; per-layer lists have one entry per level and focus "
    "lengths are at least one",
]
QUICK_ROUNDS = 2
