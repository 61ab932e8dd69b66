"""C26 segment lookup and local/global coordinates."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch.layers import high_order_fc_layers
from high_order_layers_torch.PolynomialLayers import PiecewiseND
from pbt import gen, lay, ndref, ref
from pbt.core import Sub, sut
from pbt.util import given, grad_mode, T, arr, call, check, fail, set_, weight_param, within

KU = ref.K * ref.U
SHAPE = st.lists(gen.size(1, 6, (17, 40)), min_size=1, max_size=3)


@st.composite
def case1(draw):
    return {
        "type": draw(st.sampled_from(lay.PIECE)),
        "n": draw(gen.N2),
        "in": draw(gen.size(1, 3, (7,))),
        "out": draw(gen.size(1, 3, (7,))),
        "segs": draw(gen.SEGS),
        "length": draw(gen.LENGTH),
        "periodicity": draw(gen.pick(None, None, None, 2.0, 1.0, 3.0, 0.7)),
        "shape": draw(SHAPE),
        "xmode": draw(gen.pick("mix", "inside", "boundary", "nodes", "outside", "far")),
        "seed": draw(gen.SEED),
    }


@st.composite
def case_nd(draw):
    d = draw(st.integers(1, 4))
    return {
        "dims": d,
        "ns": [draw(st.integers(2, 4)) for _ in range(d)],
        "segs": [draw(gen.size(1, 6, (10, 16))) for _ in range(d)] if d < 3
        else [draw(st.integers(1, 3)) for _ in range(d)],
        "in": draw(gen.size(1, 3, (7,))),
        "out": draw(gen.size(1, 3, (7,))),
        "length": draw(gen.LENGTH),
        "via": draw(gen.pick("factory", "class")),
        "shape": draw(SHAPE),
        "batch": draw(st.integers(1, 6)),
        "xmode": draw(gen.pick("mix", "inside", "boundary", "nodes", "outside", "far")),
        "seed": draw(gen.SEED),
    }


def t64(a):
    return torch.tensor(np.asarray(a), dtype=torch.long)


def lookup(layer, x, what):
    with sut(f"{what} which_segment"), grad_mode():
        i = layer.which_segment(T(x))
    check(torch.is_tensor(i) and not i.is_floating_point(),
          f"{what}: segment lookup does not return indices")
    check(tuple(i.shape) == x.shape, f"{what}: segment lookup shape {tuple(i.shape)} for {x.shape}")
    return i.numpy()


def check_segments(got, x, rx, segs, length, what):
    """got[...] is the segment containing x (x float64 with radius rx)."""
    s, alt, many = ref.segment(x, rx, segs, length, True)
    ok = (got == s) | (got == alt) | (many & (got >= 0) & (got < segs))
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        fail(f"{what}: segment of {x[i]!r} is {got[i]}, expected {s[i]} "
             f"({segs} segments of length {length / segs})")
    return s


def local_ball(x, i, segs, length):
    """Exact local coordinate of x in segment i, and its rounding radius."""
    lo = -0.5 * length + length * i / segs
    c = length * ((x - lo) / (length / segs)) - 0.5 * length
    r = KU * (segs * (np.abs(x) + length) + np.abs(c) * segs + np.abs(c) + length)
    return c, r


def global_ball(xl, i, segs, length):
    c = -0.5 * length + length * (i + (xl + 0.5 * length) / length) / segs
    r = KU * (np.abs(xl) + length + np.abs(c))
    return c, r


def maps(layer, rng, x, segs, length, what):
    """Local/global maps for arbitrary segments, their inverses and segment ends.
    segs: int or array broadcasting over the last dimension."""
    sg = np.zeros(x.shape) + segs
    i = (rng.uniform(size=x.shape) * sg).astype(int)
    with sut(f"{what} coordinate maps"), grad_mode():
        xl = arr(layer.x_local(T(x), t64(i)))
    xd = x.astype(float)
    c, r = local_ball(xd, i, sg, length)
    within(xl, c, r, f"{what}: local coordinate")
    l0 = (rng.uniform(-0.5, 0.5, size=x.shape) * length).astype(np.float32)
    ends = rng.choice([-0.5, 0.5], size=x.shape) * length
    l0 = np.where(rng.uniform(size=x.shape) < 0.4, ends, l0).astype(np.float32)
    with sut(f"{what} coordinate maps"), grad_mode():
        g = layer.x_global(T(l0), t64(i))
        back = arr(layer.x_local(g, t64(i)))
        xl_t = layer.x_local(T(x), t64(i))
        fwd = arr(layer.x_global(xl_t, t64(i)))
    gc, gr = global_ball(l0.astype(float), i, sg, length)
    within(g, gc, gr, f"{what}: global coordinate")
    _, r2 = local_ball(arr(g), i, sg, length)
    within(back, l0, gr * sg + r2, f"{what}: local -> global -> local")
    _, gr2 = global_ball(xl, i, sg, length)
    within(fwd, xd, r / sg + gr2, f"{what}: global -> local -> global")
    # ends of the segments
    for side in (0, 1):
        e = np.full(x.shape, (side - 0.5) * length, np.float32)
        with sut(f"{what} coordinate maps"), grad_mode():
            g = layer.x_global(T(e), t64(i))
        want = -0.5 * length + length * (i + side) / sg
        within(g, want, KU * 2 * length, f"{what}: segment end")


def run_1d(c):
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    fl.fill(rng)
    L, per, segs = c["length"], c["periodicity"], c["segs"]
    what = c["type"]
    x = gen.inputs(rng, tuple(c["shape"]), c["xmode"], c["n"], segs, L, per)
    xd, rx = x.astype(float), np.zeros(x.shape)
    if per is not None:
        xd, rx, _, _ = ref.fold(xd, rx, per)
    idx = lookup(layer, x, what)
    check_segments(idx, xd, rx, segs, L, what)
    maps(layer, rng, x, segs, L, what)
    # evaluating a link = its segment's polynomial at the local coordinate
    b = int(rng.randint(1, 5))
    x = gen.inputs(rng, (b, c["in"]), c["xmode"], c["n"], segs, L)
    if per is not None:
        x = np.clip(x, -0.49 * per, 0.49 * per).astype(np.float32)
    idx = lookup(layer, x, what)
    with sut(f"{what} coordinate maps"), grad_mode():
        xl = arr(layer.x_local(T(x), t64(idx)))
    step = c["n"] if lay.base(c["type"]) == "discontinuous" else c["n"] - 1
    W = ref.f64(fl.ps[0][0])
    _, r = local_ball(x.astype(float), idx, segs, L)
    if per is not None:
        r = r + KU * (np.abs(x) + 2 * per) * segs
    B, RB = ref.basis(xl, r, c["n"], 0.5 * L)[:2]
    take = idx[..., None] * step + np.arange(c["n"])  # [b, in, n]
    Ws = np.stack([W[:, k][:, take[:, k]] for k in range(c["in"])], 2)  # [out, b, in, n]
    f = np.einsum("obin,bin->boi", Ws, B)
    rr = np.einsum("obin,bin->boi", np.abs(Ws), RB + KU * np.abs(B))
    cen, rad = ref.reduce_prod(f, rr) if c["type"].endswith("_prod") else ref.reduce_sum(f, rr)
    if per is not None:
        # the fold may move a point across a boundary by rounding
        s, alt, many = ref.segment(x.astype(float), KU * (np.abs(x) + 2 * per), segs, L, False)
        rad = np.where(((s != alt) | many).any(1)[:, None], np.inf, rad)
    tight = within(call(layer, T(x)), cen, rad, f"{what}: value from the looked-up segment")
    return segs > 1 and tight >= 0.5


def run_nd(c):
    rng = np.random.RandomState(c["seed"])
    d, L, segs = c["dims"], c["length"], c["segs"]
    kw = given(n=list(c["ns"]), in_features=c["in"], out_features=c["out"], segments=list(segs),
              length=L, dimensions=d)
    with sut("construction of continuous_nd"):
        layer = (PiecewiseND(**kw) if c["via"] == "class"
                 else high_order_fc_layers(layer_type="continuous_nd", **kw))
    what = f"{d}-dimensional piecewise layer"

    def pts(shape):
        return np.stack([gen.inputs(rng, shape, c["xmode"], c["ns"][k], segs[k], L)
                         for k in range(d)], -1)

    x = pts(tuple(c["shape"]))
    idx = lookup(layer, x, what)
    for k in range(d):
        check_segments(idx[..., k], x[..., k].astype(float), np.zeros(x.shape[:-1]), segs[k], L,
                       f"{what}, dimension {k}")
    maps(layer, rng, x, np.array(segs), L, what)
    # evaluation from the looked-up block
    nb = int(np.prod(c["ns"]))
    p = weight_param(layer, (c["in"], c["out"], nb * int(np.prod(segs))), what)
    W = gen.weights(rng, p.shape, "normal")
    set_(p, W)
    x = pts((c["batch"], c["in"]))
    idx = lookup(layer, x, what)
    with sut(f"{what} coordinate maps"), grad_mode():
        xl = arr(layer.x_local(T(x), t64(idx)))
    flat = np.zeros(idx.shape[:2], int)
    E = np.ones(idx.shape[:2] + (1,))
    R = np.zeros_like(E)
    for k in range(d):
        flat = flat * segs[k] + idx[..., k]
        _, r = local_ball(x[..., k].astype(float), idx[..., k], segs[k], L)
        B, RB = ref.basis(xl[..., k], r, c["ns"][k], 0.5 * L)[:2]
        cc, rr = ndref.mul(E[..., :, None], R[..., :, None], B[..., None, :], RB[..., None, :])
        E, R = cc.reshape(E.shape[:2] + (-1,)), rr.reshape(E.shape[:2] + (-1,))
    take = flat[..., None] * nb + np.arange(nb)
    Wd = W.astype(float)
    Ws = np.stack([Wd[i][:, take[:, i]] for i in range(c["in"])], 2)  # [out, b, in, nb]
    f = np.einsum("obin,bin->boi", Ws, E)
    rr = np.einsum("obin,bin->boi", np.abs(Ws), R + KU * np.abs(E))
    cen, rad = ref.reduce_sum(f, rr)
    tight = within(call(layer, T(x)), cen, rad, f"{what}: value from the looked-up block")
    return max(segs) > 1 and tight >= 0.5


SUBS = [
    Sub("segments_1d", case1(), run_1d, "more than one segment and link values pinned",
        quick=3000),
    Sub("segments_nd", case_nd(), run_nd, "more than one segment and link values pinned",
        quick=1600),
]
ASSUMPTIONS = [
    "the coordinate maps themselves do not fold periodic inputs; with periodicity the looked-up "
    "segment is that of the folded input",
    "at a boundary that float32 arithmetic cannot represent exactly either neighbouring "
    "segment is accepted",
]
QUICK_ROUNDS = 3
