"""Tensor-product reference for the multidimensional layers."""
import numpy as np

from pbt import ref


def mul(a, ra, b, rb):
    c = a * b
    with np.errstate(all="ignore"):
        r = np.abs(a) * rb + np.abs(b) * ra + ra * rb + ref.K * ref.U * np.abs(c)
    return c, np.where(np.isnan(r), np.inf, r)


def expand_nd(x, ns, length, segs=None, periodicity=None, diff=None):
    """x [B,I,d] -> E,R [B,I,prod] ordered blocks (row-major), then basis
    functions (row-major, first dimension slowest); derivative along dimension
    `diff` if given."""
    d = len(ns)
    es = []
    for k in range(d):
        if segs is None:
            e = ref.expand(x[..., k], "polynomial", ns[k], 1, length, periodicity)
            E, R = (e.D, e.RD) if diff == k else (e.E, e.R)
            es.append((E[..., None, :], R[..., None, :]))
        else:
            e = ref.expand(x[..., k], "discontinuous", ns[k], segs[k], length, periodicity)
            sh = e.E.shape[:-1] + (segs[k], ns[k])
            E, R = (e.D, e.RD) if diff == k else (e.E, e.R)
            es.append((E.reshape(sh), R.reshape(sh)))
    E, R = es[0]
    B = E.shape[:2]
    for k in range(1, d):
        E2, R2 = es[k]
        c, r = mul(
            E[:, :, :, None, :, None], R[:, :, :, None, :, None],
            E2[:, :, None, :, None, :], R2[:, :, None, :, None, :],
        )
        s1, s2, n1, n2 = c.shape[2:]
        E = c.reshape(B + (s1 * s2, n1 * n2))
        R = r.reshape(B + (s1 * s2, n1 * n2))
    return ref.Exp(E.reshape(B + (-1,)), R.reshape(B + (-1,)), None, None)
