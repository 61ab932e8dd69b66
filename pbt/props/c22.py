"""C22 coordinate features: rotations, mesh axes and embeddings."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import layers as L
from high_order_layers_torch import positional_embeddings as PE
from high_order_layers_torch import utils as UT
from pbt import gen, lay, ref
from pbt.core import Sub, sut
from pbt.util import given, T, arr, call, check, fail, within

KU = ref.K * ref.U


@st.composite
def rot_case(draw):
    return {
        "n": draw(gen.size(1, 6, (9,))),
        "rotations": draw(gen.size(1, 6, (9, 16))),
        "normalize": draw(gen.pick(None, True, False)),
        "by_default": draw(st.booleans()),
        "batch": draw(gen.size(1, 6, (30, 130))),
        "seed": draw(gen.SEED),
    }


def rows(n, rotations, normalize):
    """Expected rows: axes, then (rotated, orthogonal) pairs; the sign of the
    orthogonal ones is free."""
    out = [(np.eye(n)[i], False) for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            for r in range(1, rotations):
                t = 0.5 * math.pi * r / rotations
                d = math.cos(t) + math.sin(t) if normalize else 1.0
                a, b = np.zeros(n), np.zeros(n)
                a[i], a[j] = math.cos(t) / d, math.sin(t) / d
                b[i], b[j] = math.sin(t) / d, -math.cos(t) / d
                out += [(a, False), (b, True)]
    return out


def run_rot(c):
    rng = np.random.RandomState(c["seed"])
    n, R = c["n"], c["rotations"]
    kw = {} if c["normalize"] is None else {"normalize": c["normalize"]}
    if not (c["by_default"] and R == 2):
        kw["rotations"] = R
    with sut("fixed_rotation_layer"):
        layer, width = L.fixed_rotation_layer(n=n, **kw)
    norm = c["normalize"] is not False
    want = n + n * (n - 1) * (R - 1)
    check(int(width) == want, f"reported width {width}, expected {want}")
    # the linear map itself, read off by evaluating it
    M = arr(call(layer, torch.eye(n)))
    check(M.shape == (n, want), f"output of shape {M.shape}, expected {(n, want)}")
    check(float(call(layer, torch.zeros(1, n)).abs().max()) == 0.0, "not linear: offset")
    have = list(M.T)
    for v, either in rows(n, R, norm):
        hit = None
        for k, h in enumerate(have):
            if np.abs(h - v).max() <= 8 * ref.U or (either and np.abs(h + v).max() <= 8 * ref.U):
                hit = k
                break
        if hit is None:
            fail(f"no output computes {np.round(v, 4).tolist()} (or more are needed)")
        have.pop(hit)
    corner = rng.uniform(size=(c["batch"], n)) < 0.5
    x = T(np.where(corner, rng.choice([-1.0, 1.0], size=(c["batch"], n)),
                   rng.uniform(-1, 1, size=(c["batch"], n))))
    y = call(layer, x)
    within(y, arr(x) @ M, KU * (np.abs(arr(x)) @ np.abs(M)), "rotation features")
    if norm:
        check(float(y.abs().max()) <= 1 + 4 * ref.U, f"|output| reaches {float(y.abs().max())}")
    check(not any(p.requires_grad for p in layer.parameters()), "rotation weights are trainable")
    xg = x.clone().requires_grad_(True)
    with sut("backward"):
        layer(xg).sum().backward()
    check(all(p.grad is None for p in layer.parameters()), "rotation weights receive gradients")
    within(xg.grad, np.tile(M.sum(1), (c["batch"], 1)), KU * np.tile(np.abs(M).sum(1), (
        c["batch"], 1)) * 4, "gradient through the rotation layer")
    return n > 1 and R > 1


@st.composite
def mesh_case(draw):
    return {
        "width": draw(gen.size(2, 12, (31, 64, 101))),
        "height": draw(gen.size(2, 12, (31, 64, 101))),
        "rotations": draw(gen.size(1, 6, (9,))),
        "normalize": draw(gen.pick(None, True, True, False)),
    }


def run_mesh(c):
    w, h, R = c["width"], c["height"], c["rotations"]
    kw = {} if c["normalize"] is None else {"normalize": c["normalize"]}
    with sut("positions_from_mesh"):
        out = UT.positions_from_mesh(width=w, height=h, rotations=R, device="cpu", **kw)
    check(len(out) == 2 * R, f"{len(out)} axes for {R} rotations")
    xs, ys = np.meshgrid(np.arange(w), np.arange(h), indexing="ij")
    half = 1.0 if c["normalize"] else 0.5 * max(w, h)
    for i in range(R):
        t = 0.5 * math.pi * i / R
        for k, v in ((0, math.cos(t) * xs + math.sin(t) * ys),
                     (1, math.cos(t) * ys - math.sin(t) * xs)):
            e = -half + 2 * half * (v - v.min()) / (v.max() - v.min())
            g = arr(out[2 * i + k])
            check(g.shape == (w, h), f"axis of shape {g.shape}")
            tol = 64 * ref.U * half * (1 + max(w, h) / (v.max() - v.min()))
            check(np.abs(g.max() - half) <= tol and np.abs(g.min() + half) <= tol,
                  f"axis {2 * i + k} spans [{g.min()}, {g.max()}], expected +-{half}")
            ok = np.abs(g - e).max() <= tol or (k == 1 and np.abs(g + e).max() <= tol)
            check(ok, f"axis {2 * i + k} is not the coordinate along angle {t:.4f} "
                      f"({'orthogonal' if k else 'axis'})")
    return R > 1 and w != h


@st.composite
def sin_case(draw):
    return {
        "half": draw(gen.size(1, 8, (16, 64, 256))),
        "shape": draw(st.lists(gen.size(1, 5), min_size=1, max_size=3)),
        "mode": draw(gen.pick("normal", "steps", "int", "big", "zero")),
        "seed": draw(gen.SEED),
    }


def run_sin(c):
    rng = np.random.RandomState(c["seed"])
    h = c["half"]
    with sut("construction of ClassicSinusoidalEmbedding"):
        m = PE.ClassicSinusoidalEmbedding(2 * h)
    sh = tuple(c["shape"])
    x = rng.normal(size=sh)
    if c["mode"] in ("steps", "int"):
        x = rng.randint(0, 1000, size=sh)
    elif c["mode"] == "big":
        x = x * 1e4
    elif c["mode"] == "zero":
        x = x * 0
    t = torch.tensor(x) if c["mode"] == "int" else T(x)
    y = call(m, t)
    check(tuple(y.shape) == sh + (2 * h,), f"embedding of shape {tuple(y.shape)}")
    f = 10000.0 ** (-np.arange(h) / max(h - 1, 1))
    ph = arr(t)[..., None] * f
    want = np.concatenate([np.sin(ph), np.cos(ph)], -1)
    # exponent and product are rounded in float32
    tol = np.abs(ph) * 40 * ref.U + 8 * ref.U
    within(y, want, np.concatenate([tol, tol], -1), "sinusoidal embedding")
    return h > 1 and c["mode"] != "zero"


@st.composite
def emb_case(draw):
    return {
        "what": draw(gen.pick("continuous", "discontinuous", "fourier")),
        "n": draw(gen.size(2, 6, (9,))),
        "in": draw(gen.size(1, 4, (9,))),
        "out": draw(gen.size(1, 4, (9,))),
        "segs": draw(gen.size(1, 6, (16, 40))),
        "length": draw(gen.LENGTH),
        "default_length": draw(st.booleans()),
        "periodicity": draw(st.one_of(st.none(), gen.pick(2.0, 1.0, 3.0))),
        "extra": draw(st.booleans()),
        "wmode": draw(gen.WMODE),
        "xmode": draw(gen.XMODE),
        "batch": draw(gen.size(1, 6, (33,))),
        "seed": draw(gen.SEED),
    }


def run_emb(c):
    rng = np.random.RandomState(c["seed"])
    kind = c["what"]
    per = None if kind == "fourier" else c["periodicity"]
    ln = 2.0 if c["default_length"] else c["length"]
    kw = {} if c["default_length"] else {"length": ln}
    if c["extra"]:
        kw["unrelated"] = 3
    if kind != "fourier":
        kw["segments"] = c["segs"]
        kw.update(given(periodicity=per))
    elif c["extra"]:
        kw["segments"] = c["segs"]
    cls = {"continuous": PE.PiecewisePolynomialEmbedding,
           "discontinuous": PE.PiecewiseDiscontinuousPolynomialEmbedding,
           "fourier": PE.FourierSeriesEmbedding}[kind]
    with sut("construction of an embedding"):
        m = cls(n=c["n"], in_features=c["in"], out_features=c["out"], **kw)
    f = lay.Flat(kind, c["n"], c["in"], c["out"], c["segs"], ln, per)
    mods = [q for q in m.modules() if any(p is not None and p.dim() >= 2
                                          for p in q._parameters.values())]
    f.bind(mods, "embedding")
    f.fill(rng, 1.0, c["wmode"])
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["n"], c["segs"], ln, per)
    cen, rad = f.eval(x.astype(float), 0.0)
    tight = within(call(m, T(x)), cen, rad, f"{kind} embedding")
    same = lay.make(kind, c["n"], c["in"], c["out"], c["segs"], ln, per)
    with sut("loading the layer's state into the embedding"):
        same.load_state_dict(m.state_dict())
    within(call(same, T(x)), cen, rad, f"{kind} layer with the embedding's weights")
    return tight >= 0.5


SUBS = [
    Sub("rotation", rot_case(), run_rot, "more than one input and rotation", quick=1500),
    Sub("mesh", mesh_case(), run_mesh, "several rotations of a non-square mesh", quick=1500),
    Sub("sinusoidal", sin_case(), run_sin, "more than one frequency, non-zero input", quick=1200),
    Sub("embedding", emb_case(), run_emb, "half of the outputs pinned to 1%", quick=1200),
]
ASSUMPTIONS = ["mesh sides of at least two points", "the sign of an orthogonal axis is free"]
QUICK_ROUNDS = 4
