"""C02 weights are function values."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch.LagrangePolynomial import chebyshevLobatto, get_lagrange_basis
from pbt import cv, gen, lay, ndref, ref
from pbt.core import Sub, sut
from pbt.props import c05
from pbt.props.c01 import dense_case, limit
from pbt.util import T, arr, call, check, fail, set_, weight_param, within


def global_nodes(kind, n, segs, length):
    """Position of every weight of a link."""
    X = ref.cheb(n) * 0.5 + 0.5
    g = -0.5 * length + (np.arange(segs)[:, None] + X[None]) * length / segs
    if kind == "discontinuous":
        return g.reshape(-1)
    if kind == "polynomial":
        return g[0]
    if n == 1:
        return np.zeros(1)
    return np.concatenate([g[:, :-1].reshape(-1), g[-1:, -1]])


def poly(coef, u):
    """coef [..., deg+1] in powers of u, broadcast over u's trailing axes."""
    out = 0.0
    for k in range(coef.shape[-1] - 1, -1, -1):
        out = out * u + coef[..., k]
    return out


def run_reproduce(c):
    rng = np.random.RandomState(c["seed"])
    kind, n = c["type"], c["n"]
    layer, fl = lay.standalone(c)
    half = 0.5 * c["length"]
    deg = rng.randint(0, n)
    coef = rng.normal(size=(c["out"], c["in"], deg + 1))
    nodes = global_nodes(kind, n, fl.segs, c["length"])
    W = poly(coef[:, :, None, :], nodes[None, None] / half)
    set_(fl.ps[0][0], W)
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], n, fl.segs, c["length"])
    y = call(layer, T(x))
    e = ref.expand(x.astype(float), kind, n, fl.segs, c["length"])
    f, r = ref.links(W, e)
    # rounding of the weights to float32
    r = r + ref.links(np.abs(W) * ref.U * 2 + 1e-30, ref.Exp(np.abs(e.E), e.R, None, None))[0]
    _, rad = ref.reduce_sum(f, r)
    u = x.astype(float) / half
    want = poly(coef[None], u[:, None, :]).sum(-1)
    tight = within(y, want, rad + 1e-12 * (1 + np.abs(want)), f"{kind} layer on samples of a polynomial")
    return tight >= 0.5 and deg >= 1


def run_cardinal(c):
    """At every node the output is the weight of that node (dense, any weights)."""
    rng = np.random.RandomState(c["seed"])
    kind, n = c["type"], c["n"]
    layer, fl = lay.standalone(c)
    W = gen.weights(rng, fl.ps[0][0].shape, c["wmode"]).astype(float)
    set_(fl.ps[0][0], W)
    nodes = global_nodes(kind, n, fl.segs, c["length"])
    m = len(nodes)
    if kind == "discontinuous":
        # only nodes strictly inside a segment, the domain ends, and (if exactly
        # representable) left ends belong unambiguously to one weight
        loc = np.arange(m) % n
        keep = (loc != 0) & (loc != n - 1)
        keep[0] = keep[m - 1] = True
        if n == 1:
            keep[:] = True
        if ref.is_pow2(c["length"]) and ref.is_pow2(float(fl.segs)):
            keep |= loc == 0
        idx = np.nonzero(keep)[0]
    else:
        idx = np.arange(m)
    idx = idx[rng.permutation(len(idx))[:40]]
    x = np.tile(nodes[idx][:, None], (1, c["in"])).astype(np.float32)
    y = call(layer, T(x))
    want = W[:, :, idx].sum(1).T
    e = ref.expand(x.astype(float), kind, n, fl.segs, c["length"], rx=0.0)
    f, r = ref.links(W, e)
    dx = np.abs(x - nodes[idx][:, None]) + 1e-30
    slope = ref._absdot("oij,bij->boi", W, np.where(np.isinf(e.RD), 0, np.abs(e.D) + e.RD))
    _, rad = ref.reduce_sum(f, r + slope * dx[:, None, :] * 2)
    tight = within(y, want, rad, f"{kind} layer at its nodes")
    return tight >= 0.5 and np.any(W != 0)


def run_partition(c):
    rng = np.random.RandomState(c["seed"])
    kind, n = c["type"], c["n"]
    layer, fl = lay.standalone(c)
    cst = rng.normal(size=(c["out"], c["in"])).astype(np.float32).astype(float)
    W = np.repeat(cst[..., None], fl.shape()[-1], -1)
    set_(fl.ps[0][0], W)
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], n, fl.segs, c["length"])
    e = ref.expand(x.astype(float), kind, n, fl.segs, c["length"])
    f, r = ref.links(W, e)
    _, rad = ref.reduce_sum(f, r)
    want = np.broadcast_to(cst.sum(1)[None], rad.shape)
    tight = within(call(layer, T(x)), want, rad, f"{kind} layer with constant links")
    return tight >= 0.5 and n > 1


@st.composite
def cont_case(draw):
    return limit({
        "type": draw(gen.pick("continuous", "continuous", "continuous_prod")),
        "n": draw(gen.size(2, 8, (10, 12))),
        "in": draw(gen.size(1, 3)),
        "out": draw(gen.size(1, 4)),
        "segs": draw(gen.size(2, 10, (16, 33, 128))),
        "length": draw(gen.LENGTH),
        "batch": 1,
        "wmode": draw(gen.WMODE),
        "seed": draw(gen.SEED),
    })


def run_continuity(c):
    """No jump across any interior boundary, and the boundary weight is the value."""
    rng = np.random.RandomState(c["seed"])
    layer, fl = lay.standalone(c)
    fl.fill(rng, 1.0 if c["in"] == 1 else 0.5, c["wmode"])
    W = ref.f64(fl.ps[0][0])
    segs, L = c["segs"], c["length"]
    ks = rng.permutation(np.arange(1, segs))[:12]
    b = -0.5 * L + L * ks / segs
    b32 = b.astype(np.float32)
    xs = [b32]
    up, dn = b32, b32
    for _ in range(3):
        up = np.nextafter(up, np.float32(np.inf))
        dn = np.nextafter(dn, np.float32(-np.inf))
        xs += [up, dn]
    want = W[:, :, ks * (c["n"] - 1)]  # o,i,k
    ok = False
    for x in xs:
        xx = np.repeat(x[:, None], c["in"], 1)
        y = arr(call(layer, T(xx)))
        dx = np.abs(xx.astype(float) - b[:, None])
        rads = []
        for side in (0, 1):
            s = ks[:, None] - 1 + side + np.zeros_like(xx, int)
            xl, rl = ref.local(xx.astype(float), dx, s, segs, L)
            Lb, RL = ref.basis(xl, rl, c["n"], 0.5 * L)[:2]
            idx = s[..., None] * (c["n"] - 1) + np.arange(c["n"])
            Wl = np.abs(W)[:, np.arange(c["in"])[None, :, None], idx]  # o,k,i,j
            rads.append(np.einsum("okij,kij->koi", Wl, RL) + ref.K * ref.U * np.einsum("okij,kij->koi", Wl, np.abs(Lb)) * c["n"])
        r = np.maximum(*rads)
        f = np.transpose(want, (2, 0, 1))
        cen, rad = ref.reduce_prod(f, r) if c["type"].endswith("_prod") else ref.reduce_sum(f, r)
        t = within(y, cen, rad, "continuous link at a segment boundary")
        ok = ok or t >= 0.5
    return ok


def run_nodes(c):
    n = c["n"]
    with sut("chebyshevLobatto"):
        X = arr(chebyshevLobatto(n))
    check(X.shape == (n,), f"chebyshevLobatto({n}) has shape {X.shape}")
    check(np.all(np.abs(X - ref.cheb(n)) < 1e-5), f"chebyshevLobatto({n}) = {X}")
    if n > 1:
        check(X[0] == -1 and X[-1] == 1, f"ends {X[0]} {X[-1]}")
    check(np.all(np.diff(X) > 0), "nodes not strictly increasing")
    check(np.all(np.abs(X + X[::-1]) < 1e-6), "nodes not symmetric")
    if n <= 24:
        L = c["length"]
        with sut("get_lagrange_basis"):
            b = get_lagrange_basis(n, length=L)
            B = arr(b.X)
        check(np.all(np.abs(B - 0.5 * L * ref.cheb(n)) <= 1e-6 * L), "basis nodes not on the domain")
        rng = np.random.RandomState(c["seed"])
        x = gen.inputs(rng, (20,), c["xmode"], n, 1, L)
        E, R = ref.basis(x.astype(float), 0.0, n, 0.5 * L)[:2]
        for j in range(n):
            with sut("basis function"):
                v = b(T(x), j)
            within(v, E[:, j], R[:, j] + 1e-30, f"basis function {j}")
    return n >= 2


@st.composite
def nodes_case(draw):
    return {
        "n": draw(gen.size(1, 20, (25, 31, 40, 64, 100))),
        "length": draw(gen.LENGTH),
        "xmode": draw(gen.pick("mix", "inside", "nodes", "outside")),
        "seed": draw(gen.SEED),
    }


def run_conv(c):
    """Convolution weights sampled from polynomials reproduce them."""
    rng = np.random.RandomState(c["seed"])
    layer, p, nb = cv.build(c)
    n, half, segs = c["n"], 0.5 * c["length"], cv.segs_of(c)
    deg = rng.randint(0, n)
    cg = c["in"] // c["groups"]
    K = (c["k"],) * c["dim"]
    coef = rng.normal(size=(c["out"], cg) + K + (deg + 1,))
    nodes = global_nodes(c["kind"], n, segs, c["length"])
    W = poly(coef[..., None, :], nodes / half)  # o,c,*K,nb
    W = np.moveaxis(W, -1, 2).reshape(p.shape)
    set_(p, W)
    x = cv.inputs(c, rng)
    y = call(layer, T(x))
    cen0, rad = cv.oracle(c, x.astype(float), W, nb)
    _, rad2 = cv.oracle(dict(c), x.astype(float), np.abs(W), nb)
    e = ref.expand(x.astype(float), c["kind"], n, segs, c["length"], c["periodicity"])
    w32 = ref.conv(ref.Exp(np.abs(e.E), e.R, None, None), np.abs(W) * 2 * ref.U + 1e-30, nb,
                   c["dim"], c["stride"], c["pad"], c["dil"], c["groups"])[0]
    # the sum of polynomials over the window
    u = x.astype(float) / half
    want = np.zeros_like(cen0)
    S, outS = tuple(c["sizes"]), want.shape[2:]
    og = c["out"] // c["groups"]
    for pos in np.ndindex(*outS):
        for tap in np.ndindex(*K):
            src = tuple(pos[d] * c["stride"] + tap[d] * c["dil"] - c["pad"] for d in range(c["dim"]))
            if any(q < 0 or q >= S[d] for d, q in enumerate(src)):
                continue
            for o in range(c["out"]):
                g = o // og
                for i in range(cg):
                    want[(slice(None), o) + pos] += poly(
                        coef[(o, i) + tap], u[(slice(None), g * cg + i) + src]
                    )
    if c["rescale"]:
        want /= cg * c["k"] ** c["dim"]
    tight = within(y, want, rad + w32 + 1e-11 * (1 + np.abs(want)), "convolution of sampled polynomials")
    return tight >= 0.5 and deg >= 1


def run_nd(c):
    rng = np.random.RandomState(c["seed"])
    layer, p = c05.build(c)
    half = 0.5 * c["length"]
    d = len(c["ns"])
    x = c05.points(c, rng)
    coefs = [rng.normal(size=(c["out"], c["in"], rng.randint(1, n + 1))) for n in c["ns"]]
    segs = c["segs"] if c["kind"] == "piece" else [1] * d
    # samples of a product polynomial at every node of every block
    vals = []
    for k in range(d):
        g = global_nodes("discontinuous", c["ns"][k], segs[k], c["length"])
        vals.append(poly(coefs[k][:, :, None, :], g / half).reshape(
            c["out"], c["in"], segs[k], c["ns"][k]))
    W = vals[0]
    for k in range(1, d):
        W = W[:, :, :, None, :, None] * vals[k][:, :, None, :, None, :]
        W = W.reshape(c["out"], c["in"], W.shape[2] * W.shape[3], W.shape[4] * W.shape[5])
    W = W.reshape(c["out"], c["in"], -1)
    set_(p, W if c["kind"] == "poly" else W.transpose(1, 0, 2))
    y = call(layer, T(x))
    e = ndref.expand_nd(x.astype(float), c["ns"], c["length"], c["segs"] if c["kind"] == "piece" else None)
    f, r = ref.links(W, e)
    r = r + np.einsum("oij,bij->boi", np.abs(W) * 2 * ref.U + 1e-30, np.abs(e.E))
    # hull radii at block faces do not matter for a polynomial, but round-off does
    _, rad = ref.reduce_sum(f, r)
    want = 1.0
    for k in range(d):
        want = want * poly(coefs[k][None], x[..., k].astype(float)[:, None, :] / half)
    want = want.sum(-1)
    tight = within(y, want, rad + 1e-11 * (1 + np.abs(want)), "ND layer on samples of a polynomial")
    return tight >= 0.5 and max(v.shape[-1] for v in coefs) > 1


NT = "a non-constant polynomial / non-zero weights and outputs pinned to 1%"
SUBS = [
    Sub("reproduce", dense_case(n=gen.size(1, 8, (9, 10, 12))), run_reproduce, NT, quick=2400),
    Sub("bulk", gen.bulk(dense_case(), gen.SMALL, gen.BIG), run_reproduce, NT, quick=120),
    Sub("cardinal", dense_case(), run_cardinal, NT, quick=1500),
    Sub("partition_of_unity", dense_case(), run_partition, "n > 1 and outputs pinned", quick=1200),
    Sub("continuity", cont_case(), run_continuity, "values pinned", quick=1200),
    Sub("nodes", nodes_case(), run_nodes, "n >= 2", quick=600),
    Sub("conv_reproduce", cv.conv_case(kinds=("continuous", "discontinuous", "polynomial"), modes=False, periodic=False), run_conv, NT, quick=1200),
    Sub("nd_reproduce", c05.case(), run_nd, NT, quick=1000),
]
QUICK_ROUNDS = 2
