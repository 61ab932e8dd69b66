"""Reference models in float64 with rigorous-style error balls.

Every quantity is a pair (centre, radius): the centre is the exact-arithmetic
value (to float64), the radius bounds what single-precision evaluation, by any
reasonable ordering of operations, may deviate - including deviations already
present in the inputs.  Written from the documentation (Chebyshev-Lobatto nodes,
Lagrange basis, segments of [-length/2, length/2]), not from the code.
"""
import math

import numpy as np

U = 2.0**-24  # unit round-off of float32
K = 16.0  # slack factor on all round-off terms


def f64(t):
    return np.asarray(t.detach().cpu().double().numpy() if hasattr(t, "detach") else t,
                      dtype=np.float64)


def cheb(n):
    if n == 1:
        return np.zeros(1)
    return -np.cos(np.pi * np.arange(n) / (n - 1))


def num_basis(kind, n, segs):
    if kind == "continuous":
        return (n - 1) * segs + 1
    if kind == "discontinuous":
        return n * segs
    return n  # polynomial, fourier


def basis(xl, rl, n, half, rin=0.0):
    """Lagrange basis at xl (ball radius rl).  Returns value, its radius,
    derivative and its radius; each xl.shape + (n,).  Of rl, rin stems from the
    input, i.e. is common to all basis functions: also returned are the radius
    without that part and the bound of half the second derivative over the ball."""
    X = half * cheb(n)
    xl = np.asarray(xl, float)[..., None]
    rl = np.asarray(rl, float)[..., None]
    shape = np.broadcast_shapes(xl.shape[:-1], rl.shape[:-1]) + (n,)
    if n == 1:
        one = np.ones(shape)
        z = np.zeros(shape)
        return one, z, z.copy(), z.copy(), z.copy(), z.copy()
    L = np.ones(shape)
    D = np.zeros(shape)
    A0, A1, A2 = np.ones(shape), np.zeros(shape), np.zeros(shape)
    rel = np.zeros(n)
    far = np.abs(xl) + rl + half
    big = np.ones(shape)  # largest intermediate, whichever way the product is taken
    for k in range(n):
        d = X - X[k]
        d[k] = 1.0
        g = 1.0 / d
        f = (xl - X[k]) * g
        # round-off of the nodes themselves and of the subtraction
        rk = rl + K * U * (np.abs(xl) + half)
        fa = np.abs(f) + rk * np.abs(g)
        ga = np.abs(g)
        sel = np.arange(n) != k
        D = np.where(sel, D * f + L * g, D)
        L = np.where(sel, L * f, L)
        A2 = np.where(sel, A2 * fa + A1 * ga, A2)
        A1 = np.where(sel, A1 * fa + A0 * ga, A1)
        A0 = np.where(sel, A0 * fa, A0)
        rel = rel + np.where(sel, 3 + half * ga, 0)
        big = big * np.maximum(1.0, np.maximum(far, fa))
    r = rl + K * U * (np.abs(xl) + half)
    RL = A1 * r + K * U * rel * A0
    RD = 2 * A2 * r + K * U * rel * A1
    rr = np.maximum(r - np.asarray(rin, float)[..., None] if np.ndim(rin) else r - rin, 0.0)
    R0 = A1 * rr + K * U * rel * A0
    # float32 overflow on the way: nothing is known, whatever the weight (NaN radius)
    over = big > 1e34
    return (L, np.where(over, np.nan, RL), D, np.where(over, np.nan, RD),
            np.where(over, np.nan, R0), A2)


def fold(x, r, p):
    """Mirror periodicity: identity on [-p/2, p/2], reflected at its ends."""
    y = np.mod(x + 0.5 * p, 2 * p)
    sign = np.where(y > p, -1.0, 1.0)
    near = np.minimum(np.minimum(np.abs(y - p), np.abs(y)), np.abs(y - 2 * p))
    y = np.where(y > p, 2 * p - y, y) - 0.5 * p
    r = r + K * U * (np.abs(x) + 2 * p)
    return y, r, sign, near <= r


def is_pow2(v):
    m, _ = math.frexp(v)
    return m == 0.5


def segment(x, r, segs, length, exact_ok):
    """Centre segment, alternative segment (equal unless the ball straddles a
    boundary), and whether more than two segments are possible."""
    half = 0.5 * length
    t = (x + half) * segs / length
    s = np.clip(np.floor(t), 0, segs - 1)
    # float32 evaluation of the lookup
    rt = r * segs / length + K * U * segs * (np.abs(x) / length + 1)
    lo = np.clip(np.floor(t - rt), 0, segs - 1)
    hi = np.clip(np.floor(t + rt), 0, segs - 1)
    if exact_ok:
        # powers of two: every way of writing the lookup is exact there
        exact = (t == np.floor(t)) & (r == 0) & is_pow2(length) & is_pow2(segs)
        lo = np.where(exact, s, lo)
        hi = np.where(exact, s, hi)
    alt = np.where(lo != s, lo, hi)
    many = (hi - lo) > 1
    return s.astype(int), alt.astype(int), many


def local(x, r, s, segs, length):
    half = 0.5 * length
    xl = segs * (x + half) - s * length - half
    rl = segs * r + K * U * (
        segs * (np.abs(x) + half) * 3 + np.abs(xl) * (segs + 1) + half
    )
    return xl, rl


class Exp:
    """Expansion of inputs: values, radii, derivatives (…, basis).  Where given, R0 is the radius
    without the uncertainty rx of the input, Q the bound of half the second derivative, and
    `smooth` tells where the ball of the input lies in one segment."""

    def __init__(self, E, R, D, RD, R0=None, Q=None, rx=None, smooth=None):
        self.E, self.R, self.D, self.RD = E, R, D, RD
        self.R0, self.Q, self.rx, self.smooth = R0, Q, rx, smooth

    def at(self, idx):
        """The same at the given leading indices."""
        f = lambda a: None if a is None else a[idx]  # noqa
        return Exp(f(self.E), f(self.R), f(self.D), f(self.RD), f(self.R0), f(self.Q), f(self.rx),
                   f(self.smooth))


def expand(x, kind, n, segs=1, length=2.0, periodicity=None, rx=0.0):
    x = np.asarray(x, float)
    rx = np.zeros_like(x) + rx
    exact_ok = True
    sign = np.ones_like(x)
    kink = np.zeros_like(x, bool)
    if kind != "fourier" and periodicity is not None:
        inside = (np.abs(x) <= 0.5 * periodicity) & (rx == 0)
        y, r, sign, kink = fold(x, rx, periodicity)
        # the fold is not exact in float32 (x + p/2 - p/2), so no exact boundary
        x, rx = y, np.where(inside & (x == 0) & is_pow2(periodicity), 0.0, r)
    half = 0.5 * length
    if kind == "fourier":
        E = np.zeros(x.shape + (n,))
        R, D, RD = np.zeros_like(E), np.zeros_like(E), np.zeros_like(E)
        R0, Q = np.zeros_like(E), np.zeros_like(E)
        E[..., 0] = 0.5
        for j in range(1, n):
            i = (j + 1) // 2
            w = 2 * np.pi * i / length
            r = w * rx + K * U * (w * np.abs(x) + 1)
            if j % 2:
                E[..., j], D[..., j] = np.sin(w * x), w * np.cos(w * x)
            else:
                E[..., j], D[..., j] = np.cos(w * x), -w * np.sin(w * x)
            R[..., j], RD[..., j] = r, w * r
            R0[..., j], Q[..., j] = r - w * rx, 0.5 * w * w
        return Exp(E, R, D, RD, R0, Q, rx, np.ones(x.shape, bool))
    if kind == "polynomial":
        L, RL, DL, RDL, R0, Q = basis(x, rx, n, half, rx)
        D = DL * sign[..., None]
        RDL = np.where(kink[..., None], np.inf, RDL)
        return Exp(L, RL, D, RDL, R0, Q, rx, np.ones(x.shape, bool))
    nb = num_basis(kind, n, segs)
    step = n - 1 if kind == "continuous" else n
    s, alt, many = segment(x, rx, segs, length, exact_ok)

    def place(seg):
        xl, rl = local(x, rx, seg, segs, length)
        L, RL, DL, RDL, L0, LQ = basis(xl, rl, n, half, segs * rx)
        E = np.zeros(x.shape + (nb,))
        R, D, RD = np.zeros_like(E), np.zeros_like(E), np.zeros_like(E)
        R0, Q = np.zeros_like(E), np.zeros_like(E)
        idx = seg[..., None] * step + np.arange(n)
        np.put_along_axis(E, idx, L, -1)
        np.put_along_axis(R, idx, RL, -1)
        np.put_along_axis(D, idx, DL * segs * sign[..., None], -1)
        np.put_along_axis(RD, idx, (RDL + K * U * segs * np.abs(DL)) * segs, -1)
        np.put_along_axis(R0, idx, L0, -1)
        np.put_along_axis(Q, idx, LQ * segs * segs, -1)
        return E, R, D, RD, R0, Q

    E, R, D, RD, R0, Q = place(s)
    amb = alt != s
    if amb.any() or many.any() or kink.any():
        E2, R2 = place(alt)[:2]
        both = amb[..., None]
        # a thousandth more for the rounding of whatever is computed from it
        R = np.where(both, 1.001 * (np.maximum(R, R2) + np.abs(E - E2)), R)
        RD = np.where(both | kink[..., None], np.inf, RD)
        R = np.where(many[..., None], np.inf, R)
        RD = np.where(many[..., None], np.inf, RD)
    return Exp(E, R, D, RD, R0, Q, rx, ~amb & ~many)


def links(W, e, RW=None):
    """Link values f[b, o, i] = sum_j W[o,i,j] E[b,i,j] with radius; RW is the
    radius of the weights themselves."""
    f = np.einsum("oij,bij->boi", W, e.E)
    a = np.einsum("oij,bij->boi", np.abs(W), np.abs(e.E))
    if RW is None:
        r = _absdot("oij,bij->boi", W, e.R)
    else:
        r = _absdot("oij,bij->boi", np.abs(W) + RW, e.R)
        r = r + np.einsum("oij,bij->boi", RW, np.abs(e.E))
    n = W.shape[-1]
    if e.smooth is not None and np.any(e.rx > 0):
        # mean value form: the slope of the link itself instead of the basis functions' slopes
        Wa = np.abs(W) if RW is None else np.abs(W) + RW
        d = np.abs(np.einsum("oij,bij->boi", W, e.D)) * 1.001
        if RW is not None:
            d = d + np.einsum("oij,bij->boi", RW, np.abs(e.D))
        rx = e.rx[:, None, :]
        t = (_absdot("oij,bij->boi", Wa, e.R0) + d * rx
             + np.einsum("oij,bij->boi", Wa, np.where(np.isfinite(e.Q), e.Q, 0.0)) * rx * rx)
        if RW is not None:
            t = t + np.einsum("oij,bij->boi", RW, np.abs(e.E))
        ok = e.smooth[:, None, :] & np.isfinite(r) & (t < r) & np.isfinite(e.Q).all(-1)[:, None]
        r = np.where(ok, t, r)
    return f, r + K * U * min(n, 64) * a


def _absdot(spec, W, R):
    """sum |W| R with 0*inf = 0."""
    if np.isinf(R).any():
        fin = np.where(np.isinf(R), 0.0, R)
        big = np.isinf(R).astype(float)
        out = np.einsum(spec, np.abs(W), fin)
        bad = np.einsum(spec, (W != 0).astype(float), big)
        return np.where(bad > 0, np.inf, out)
    return np.einsum(spec, np.abs(W), R)


def reduce_sum(f, r, axis=-1):
    n = f.shape[axis]
    return f.sum(axis), r.sum(axis) + K * U * max(n, 1) * np.abs(f).sum(axis)


def reduce_prod(f, r):
    """-1 + prod(1 + f) over the last axis."""
    c, rad = np.ones(f.shape[:-1]), np.zeros(f.shape[:-1])
    mag = np.ones(f.shape[:-1])
    for i in range(f.shape[-1]):
        g = 1 + f[..., i]
        rg = r[..., i] + K * U * (np.abs(g) + 1)
        rad = rad * (np.abs(g) + rg) + np.abs(c) * rg
        c = c * g
        mag = mag * np.maximum(1.0, np.abs(g) + rg)
    rad = rad + K * U * (f.shape[-1] + 1) * (np.abs(c) + 1)
    # some partial product may overflow (or, symmetrically, underflow) float32
    return c - 1, np.where(mag > 1e36, np.inf, rad)


def dense(x, W, kind, n, segs=1, length=2.0, periodicity=None, prod=False, rx=0.0, RW=None):
    """x[b,i], W[o,i,basis] -> (centre, radius) [b,o]."""
    e = expand(x, kind, n, segs, length, periodicity, rx)
    f, r = links(W, e, RW)
    return reduce_prod(f, r) if prod else reduce_sum(f, r)


def linear(x, rx, W, b):
    c = x @ W.T + (0 if b is None else b)
    a = np.abs(x) @ np.abs(W).T + (0 if b is None else np.abs(b))
    return c, rx @ np.abs(W).T + K * U * (x.shape[-1] + 2) * a


def conv_taps(size, k, stride, pad, dil):
    out = (size + 2 * pad - dil * (k - 1) - 1) // stride + 1
    return out


def per_axis(v, spatial):
    return tuple(v) if isinstance(v, (list, tuple)) else (v,) * spatial


def conv(e, W, nb, spatial, stride=1, pad=0, dil=1, groups=1):
    """e: Exp over [B,C,*S,nb]; W [O, C/g*nb, *K] (channel major, basis minor).
    Returns centre, radius [B,O,*out]."""
    B, C = e.E.shape[:2]
    S = e.E.shape[2:-1]
    O = W.shape[0]
    Kk = W.shape[2:]
    cg = C // groups
    og = O // groups
    W = W.reshape((O, cg, nb) + Kk)
    st, pd, dl = (per_axis(v, spatial) for v in (stride, pad, dil))
    outS = tuple(conv_taps(S[d], Kk[d], st[d], pd[d], dl[d]) for d in range(spatial))
    c = np.zeros((B, O) + outS)
    r = np.zeros_like(c)
    a = np.zeros_like(c)
    for pos in np.ndindex(*outS):
        for tap in np.ndindex(*Kk):
            src = tuple(pos[d] * st[d] + tap[d] * dl[d] - pd[d] for d in range(spatial))
            if any(q < 0 or q >= S[d] for d, q in enumerate(src)):
                continue
            for g in range(groups):
                ee = e.at((slice(None), slice(g * cg, (g + 1) * cg)) + src)
                w = W[(slice(g * og, (g + 1) * og), slice(None), slice(None)) + tap]
                o = (slice(None), slice(g * og, (g + 1) * og)) + pos
                lc, lr = links(w, ee)
                c[o] += lc.sum(-1)
                a[o] += np.einsum("ocj,bcj->bo", np.abs(w), np.abs(ee.E))
                r[o] += lr.sum(-1)
    total = cg * nb * int(np.prod(Kk))
    return c, r + K * U * min(total, 256) * a


def conv_transpose(e, W, nb, spatial, stride=1, pad=0, out_pad=0, dil=1, groups=1):
    """W [C*nb, O/groups, *K]."""
    if groups > 1:
        cg = e.E.shape[1] // groups
        parts = [conv_transpose(e.at((slice(None), slice(g * cg, (g + 1) * cg))),
                                W[g * cg * nb:(g + 1) * cg * nb], nb, spatial, stride, pad,
                                out_pad, dil) for g in range(groups)]
        return tuple(np.concatenate(p, 1) for p in zip(*parts))
    B, C = e.E.shape[:2]
    S = e.E.shape[2:-1]
    O = W.shape[1]
    Kk = W.shape[2:]
    W = W.reshape((C, nb, O) + Kk)
    st, pd, dl, op = (per_axis(v, spatial) for v in (stride, pad, dil, out_pad))
    outS = tuple(
        st[d] * (S[d] - 1) + dl[d] * (Kk[d] - 1) - 2 * pd[d] + op[d] + 1
        for d in range(spatial)
    )
    c = np.zeros((B, O) + outS)
    r, a = np.zeros_like(c), np.zeros_like(c)
    for src in np.ndindex(*S):
        ee = e.at((slice(None), slice(None)) + src)
        for tap in np.ndindex(*Kk):
            dst = tuple(src[d] * st[d] + tap[d] * dl[d] - pd[d] for d in range(spatial))
            if any(q < 0 or q >= outS[d] for d, q in enumerate(dst)):
                continue
            w = W[(slice(None),) * 3 + tap]
            o = (slice(None), slice(None)) + dst
            lc, lr = links(w.transpose(2, 0, 1), ee)
            c[o] += lc.sum(-1)
            a[o] += np.einsum("cjo,bcj->bo", np.abs(w), np.abs(ee.E))
            r[o] += lr.sum(-1)
    return c, r + K * U * min(C * nb * int(np.prod(Kk)), 256) * a


def max_abs(x, r, axis, eps=1e-6):
    m = np.abs(x).max(axis=axis, keepdims=True)
    rm = r.max(axis=axis, keepdims=True) if np.ndim(r) else r
    y = x / (m + eps)
    den = np.maximum(m + eps - rm, 1e-300)
    bad = rm >= m + eps
    ry = (r + np.abs(y) * rm) / den + K * U * (np.abs(y) + 1e-30)
    return y, np.where(bad, np.inf, ry)


def max_center(x, r, axis, eps=1e-6):
    mx = x.max(axis=axis, keepdims=True)
    mn = x.min(axis=axis, keepdims=True)
    rm = r.max(axis=axis, keepdims=True) if np.ndim(r) else r
    mid = 0.5 * (mx + mn)
    mag = mx - mid
    ro = K * U * (np.abs(mx) + np.abs(mn))
    y = (x - mid) / (mag + eps)
    den = mag + eps - rm - ro
    bad = den <= 0.1 * (mag + eps)
    ry = (r + rm + 2 * ro + np.abs(y) * (rm + 2 * ro)) / np.where(bad, 1.0, den)
    return y, np.where(bad, np.inf, ry + K * U * np.abs(y))


def l2(x, r, axis, eps=1e-6):
    m = np.sqrt((x * x).sum(axis=axis, keepdims=True))
    rm = np.sqrt((r * r + 0 * x).sum(axis=axis, keepdims=True))
    rm = rm + K * U * x.shape[axis] * m + 1e-18
    y = x / (m + eps)
    den = m + eps - rm
    bad = den <= 0.1 * (m + eps)
    ry = (r + np.abs(y) * rm) / np.where(bad, 1.0, den) + K * U * np.abs(y)
    return y, np.where(bad, np.inf, ry)
