"""Reference derivatives with error balls."""
import numpy as np

from pbt import ref

KU = ref.K * ref.U


def edot(spec, a, ra, b, rb, terms):
    """Ball contraction sum a*b with 0*inf = 0."""
    c = np.einsum(spec, a, b)
    aa, ab = np.abs(a), np.abs(b)
    r = KU * min(terms, 256) * np.einsum(spec, aa, ab)
    r = r + _inf(spec, aa, rb) + _inf(spec, ra, ab) + _inf(spec, ra, rb)
    return c, r


def _inf(spec, a, b):
    ia, ib = np.isinf(a), np.isinf(b)
    if not ia.any() and not ib.any():
        return np.einsum(spec, a, b)
    out = np.einsum(spec, np.where(ia, 0, a), np.where(ib, 0, b))
    bad = np.einsum(spec, ia.astype(float), ((b != 0)).astype(float)) + np.einsum(
        spec, (a != 0).astype(float), ib.astype(float))
    return np.where(bad > 0, np.inf, out)


def zeros(a):
    return np.zeros_like(a)


def link_grads(gf, rgf, W, e):
    """gf[b,o,i]: gradient at the link values.  Returns (dx, rdx), (dW, rdW)."""
    B = gf.shape[0]
    s, rs = edot("oij,bij->boi", W, zeros(W), e.D, e.RD, W.shape[-1])
    dx, rdx = edot("boi,boi->bi", gf, rgf, s, rs, W.shape[0])
    dW, rdW = edot("boi,bij->oij", gf, rgf, e.E, e.R, B)
    return (dx, rdx), (dW, rdW)


def prod_links(g, rg, f, r):
    """Gradient at the links of -1 + prod_i(1 + f_i)."""
    I = f.shape[-1]
    out, rad = np.zeros_like(f), np.zeros_like(f)
    for i in range(I):
        idx = [k for k in range(I) if k != i]
        if idx:
            c, rr = ref.reduce_prod(f[..., idx], r[..., idx])
            c = c + 1
            rr = rr + KU * (np.abs(c) + 1)
        else:
            c, rr = np.ones(f.shape[:-1]), np.zeros(f.shape[:-1])
        out[..., i] = g * c
        with np.errstate(all="ignore"):
            v = np.abs(g) * rr + rg * np.abs(c) + rg * rr
        rad[..., i] = np.where(np.isnan(v), np.inf, v) + KU * np.abs(out[..., i])
    # torch evaluates the derivative of a product as prod / factor
    mag = np.maximum(1.0, np.abs(1 + f) + r).prod(-1)
    return out, np.where((mag > 1e34)[..., None], np.inf, rad)


def dense(g, rg, x, rx, W, kind, n, segs, length, per, prod):
    e = ref.expand(x, kind, n, segs, length, per, rx)
    if prod:
        f, r = ref.links(W, e)
        gf, rgf = prod_links(g, rg, f, r)
    else:
        gf = np.repeat(g[..., None], W.shape[1], -1)
        rgf = np.repeat((rg + zeros(g))[..., None], W.shape[1], -1)
    return link_grads(gf, rgf, W, e)


def conv(g, e, W, nb, spatial, stride, pad, dil, groups):
    """Gradients of ref.conv wrt the expansion (via e.D) and W; g exact."""
    B, C = e.E.shape[:2]
    S = e.E.shape[2:-1]
    O, Kk = W.shape[0], W.shape[2:]
    cg, og = C // groups, O // groups
    Wr = W.reshape((O, cg, nb) + Kk)
    dE, aE = zeros(e.E), zeros(e.E)
    dW, rW, aW = zeros(Wr), zeros(Wr), zeros(Wr)
    outS = g.shape[2:]
    for pos in np.ndindex(*outS):
        for tap in np.ndindex(*Kk):
            src = tuple(pos[d] * stride + tap[d] * dil - pad for d in range(spatial))
            if any(q < 0 or q >= S[d] for d, q in enumerate(src)):
                continue
            for gr in range(groups):
                ch = (slice(None), slice(gr * cg, (gr + 1) * cg)) + src
                os = slice(gr * og, (gr + 1) * og)
                w = Wr[(os, slice(None), slice(None)) + tap]
                gg = g[(slice(None), os) + pos]
                dE[ch] += np.einsum("bo,ocj->bcj", gg, w)
                aE[ch] += np.einsum("bo,ocj->bcj", np.abs(gg), np.abs(w))
                ws = (os, slice(None), slice(None)) + tap
                dW[ws] += np.einsum("bo,bcj->ocj", gg, e.E[ch])
                aW[ws] += np.einsum("bo,bcj->ocj", np.abs(gg), np.abs(e.E[ch]))
                rW[ws] += _inf("bo,bcj->ocj", np.abs(gg), e.R[ch])
    n1, n2 = og * int(np.prod(Kk)), B * int(np.prod(outS))
    dx, rdx = edot("...j,...j->...", dE, KU * min(n1, 256) * aE, e.D, e.RD, nb)
    return (dx, rdx), (dW.reshape(W.shape), (rW + KU * min(n2, 256) * aW).reshape(W.shape))


def conv_transpose(g, e, W, nb, spatial, stride, pad, dil):
    B, C = e.E.shape[:2]
    S = e.E.shape[2:-1]
    O, Kk = W.shape[1], W.shape[2:]
    Wr = W.reshape((C, nb, O) + Kk)
    dE, aE = zeros(e.E), zeros(e.E)
    dW, rW, aW = zeros(Wr), zeros(Wr), zeros(Wr)
    outS = g.shape[2:]
    for src in np.ndindex(*S):
        ch = (slice(None), slice(None)) + src
        for tap in np.ndindex(*Kk):
            dst = tuple(src[d] * stride + tap[d] * dil - pad for d in range(spatial))
            if any(q < 0 or q >= outS[d] for d, q in enumerate(dst)):
                continue
            w = Wr[(slice(None),) * 3 + tap]
            gg = g[(slice(None), slice(None)) + dst]
            dE[ch] += np.einsum("bo,cjo->bcj", gg, w)
            aE[ch] += np.einsum("bo,cjo->bcj", np.abs(gg), np.abs(w))
            ws = (slice(None),) * 3 + tap
            dW[ws] += np.einsum("bo,bcj->cjo", gg, e.E[ch])
            aW[ws] += np.einsum("bo,bcj->cjo", np.abs(gg), np.abs(e.E[ch]))
            rW[ws] += _inf("bo,bcj->cjo", np.abs(gg), e.R[ch])
    n1, n2 = O * int(np.prod(Kk)), B * int(np.prod(S))
    dx, rdx = edot("...j,...j->...", dE, KU * min(n1, 256) * aE, e.D, e.RD, nb)
    return (dx, rdx), (dW.reshape(W.shape), (rW + KU * min(n2, 256) * aW).reshape(W.shape))
