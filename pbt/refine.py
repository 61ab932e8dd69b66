"""Reference p- and h-refinement of link weights with error balls."""
import numpy as np

from pbt import ref

KU = ref.K * ref.U


def _apply(W, RW, E, R):
    """W [o,i,j]; E,R [node,j] -> [o,i,node]."""
    c = np.einsum("oij,kj->oik", W, E)
    r = np.einsum("oij,kj->oik", np.abs(W) + RW, R) + np.einsum("oij,kj->oik", RW, np.abs(E))
    a = np.einsum("oij,kj->oik", np.abs(W), np.abs(E))
    return c, r + KU * min(W.shape[-1], 32) * a + KU * np.abs(c)


def p_ref(W, RW, kind, n_in, n_out, segs, length, prod=False):
    half = 0.5 * length
    X = half * ref.cheb(n_out)
    L, RL = ref.basis(X, KU * half * np.ones(n_out), n_in, half)[:2]
    cont = kind == "continuous"
    si, so = (n_in - 1, n_out - 1) if cont else (n_in, n_out)
    nb_in, nb_out = ref.num_basis(kind, n_in, segs), ref.num_basis(kind, n_out, segs)
    out = np.zeros(W.shape[:2] + (nb_out,))
    rad = np.zeros_like(out)
    for s in range(segs):
        c, r = _apply(W[..., s * si:s * si + n_in], RW[..., s * si:s * si + n_in], L, RL)
        if prod:  # evaluated as -1 + (1 + f)
            r = r + KU
        sl = slice(s * so, s * so + n_out)
        old = rad[..., sl].copy()
        out[..., sl] = c
        # a shared node is written from both sides
        rad[..., sl] = np.maximum(r, old)
    return out, rad


def h_ref(W, RW, n_in, segs_in, n_out, segs_out, length):
    """Continuous layers, segs_out a multiple of segs_in."""
    half = 0.5 * length
    nb = ref.num_basis("continuous", n_out, segs_out)
    x = np.zeros(nb)
    for s in range(segs_out):
        x[s * (n_out - 1):s * (n_out - 1) + n_out] = (
            -half + (s + 0.5 * (ref.cheb(n_out) + 1)) * length / segs_out)
    e = ref.expand(x, "continuous", n_in, segs_in, length, None, KU * half)
    return _apply(W, RW, e.E, np.where(np.isinf(e.R), 1.0, e.R))
