"""Strategies and numeric fill."""
import numpy as np
from hypothesis import strategies as st

from pbt import ref

SEED = st.integers(0, 2**31 - 1)


def small(lo, hi):
    return st.integers(lo, hi)


def size(lo, common, rare=()):
    """Mostly lo..common, about one time in six one of rare."""
    base = list(range(lo, common + 1))
    if not rare:
        return st.integers(lo, common)
    rare = list(rare)
    k, r = len(base), len(rare)
    # repetitions such that base : rare is about 5 : 1
    m = max(1, round(5 * r / k))
    q = max(1, round(k * m / (5 * r)))
    return st.sampled_from(base * m + rare * q)


def pick(*xs):
    return st.sampled_from(list(xs))


N = size(2, 8, (1, 9, 10, 11, 12, 13, 16))
N2 = size(2, 8, (9, 10, 12))
SEGS = size(1, 10, (12, 16, 17, 33, 64, 65, 128, 257))
WIDTH = size(1, 6, (9, 17, 33, 70))
BATCH = size(1, 6, (7, 16, 33, 65, 130, 257))
LENGTH = st.sampled_from(
    [2.0] * 12
    + [1.0, 4.0, 0.5, 8.0, 3.0, 6.0, 1.5, 2.5, 10.0, 6.283185307179586] * 2
    + [0.01, 0.03, 0.1, 20.0, 100.0, 1000.0]
)
WMODE = pick("normal", "normal", "ints", "uniform", "onehot", "scales", "const", "zero_some")
XMODE = pick("mix", "mix", "mix", "inside", "boundary", "nodes", "outside", "far")


@st.composite
def bulk(draw, base, small_, big):
    """A case of `base` shrunk by `small_` with one of the sizes in `big` set large."""
    c = draw(base)
    for k, v in small_.items():
        c[k] = draw(v)
    k = draw(st.sampled_from(sorted(big)))
    c[k] = draw(st.sampled_from(list(big[k])))
    return c


SMALL = {"batch": st.integers(1, 3), "in": st.integers(1, 3), "out": st.integers(1, 3),
         "segs": st.integers(1, 4), "n": st.integers(2, 5)}
BIG = {"batch": (260, 520, 1030, 2050, 4100, 9000), "in": (130, 260, 520),
       "out": (130, 260, 520, 1030), "segs": (300, 520, 1030)}


def weights(rng, shape, mode="normal"):
    if mode == "normal":
        w = rng.normal(size=shape)
    elif mode == "ints":
        w = rng.randint(-3, 4, size=shape).astype(float)
    elif mode == "uniform":
        w = rng.uniform(-1, 1, size=shape)
    elif mode == "onehot":
        w = np.zeros(int(np.prod(shape)))
        w[rng.randint(0, w.size)] = 1.0
        w = w.reshape(shape)
    elif mode == "scales":
        w = rng.normal(size=shape) * 10.0 ** rng.uniform(-4, 3, size=shape)
    elif mode == "const":
        w = np.zeros(shape) + rng.normal()
    elif mode == "zero_some":
        w = rng.normal(size=shape) * (rng.uniform(size=shape) < 0.5)
    else:
        raise ValueError(mode)
    return w.astype(np.float32)


def inputs(rng, shape, mode="mix", n=3, segs=1, length=2.0, periodicity=None):
    """float32 inputs mixing interior points, nodes, segment boundaries and their
    neighbouring floats, domain ends, zeros and points outside the domain."""
    half = 0.5 * length
    m = int(np.prod(shape))
    u = rng.uniform(-half, half, size=m)
    seg = rng.randint(0, segs, size=m)
    bnd = -half + length * rng.randint(0, segs + 1, size=m) / segs
    X = ref.cheb(n)
    node = -half + (seg + 0.5 * (X[rng.randint(0, n, size=m)] + 1)) * length / segs
    out = rng.choice([-1.0, 1.0], size=m) * half * (1 + rng.exponential(0.7, size=m))
    far = rng.choice([-1.0, 1.0], size=m) * half * 10.0 ** rng.uniform(0, 2.5, size=m)
    zero = rng.choice([0.0, -0.0], size=m)
    ends = rng.choice([-half, half], size=m)
    tiny = rng.normal(size=m) * 1e-7
    b32 = bnd.astype(np.float32)
    up = np.nextafter(b32, np.float32(np.inf)).astype(float)
    dn = np.nextafter(b32, np.float32(-np.inf)).astype(float)
    pool = [u, bnd, node, out, zero, ends, up, dn, far, tiny]
    prob = {
        "mix": [0.4, 0.12, 0.1, 0.1, 0.04, 0.06, 0.06, 0.06, 0.02, 0.04],
        "inside": [1, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        "boundary": [0.1, 0.4, 0, 0, 0, 0.1, 0.2, 0.2, 0, 0],
        "nodes": [0.1, 0, 0.8, 0, 0.1, 0, 0, 0, 0, 0],
        "outside": [0.2, 0, 0, 0.8, 0, 0, 0, 0, 0, 0],
        "far": [0.2, 0, 0, 0.2, 0, 0, 0, 0, 0.6, 0],
    }[mode]
    which = rng.choice(len(pool), size=m, p=np.array(prob) / np.sum(prob))
    x = np.choose(which, pool)
    if n > 1:
        # keep local coordinate ** (n-1) inside float32
        lim = half * (1 + 10.0 ** (28.0 / (n - 1)) / (2.0 * segs))
        x = np.clip(x, -lim, lim)
    if periodicity is not None:
        k = rng.randint(-3, 4, size=m)
        pb = rng.choice([-0.5, 0.5, 1.5, -1.5, 1.0, -1.0, 2.0], size=m) * periodicity
        x = np.where(rng.uniform(size=m) < 0.3, x + 2 * periodicity * k, x)
        x = np.where(rng.uniform(size=m) < 0.15, pb, x)
        x = np.where(
            rng.uniform(size=m) < 0.2, rng.uniform(-3, 3, size=m) * periodicity, x
        )
    return x.astype(np.float32).reshape(shape)
