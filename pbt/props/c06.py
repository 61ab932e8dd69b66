"""C06 convolutions slide the link functions."""
import numpy as np
from hypothesis import strategies as st

from pbt import cv, gen, lay, ref
from pbt.core import Sub
from pbt.util import T, arr, call, check, set_, weight_param, within


def run(c):
    rng = np.random.RandomState(c["seed"])
    layer, p, nb = cv.build(c)
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    x = cv.inputs(c, rng)
    y = call(layer, T(x))
    cen, rad = cv.oracle(c, x.astype(float), W.astype(float), nb)
    tight = within(y, cen, rad, f"{c['kind']}{c['dim']}d convolution")
    return tight >= 0.5 and np.any(W != 0) and c["k"] * c["in"] > 1


def run_pointwise(c):
    """A 1x1 convolution is the dense layer at every position; no bias."""
    rng = np.random.RandomState(c["seed"])
    c = dict(c, k=1, dil=1, stride=1, pad=0, pad_mode="zeros", groups=1, rescale=False)
    layer, p, nb = cv.build(c)
    d = dict(c, type=c["kind"])
    dense, fl = lay.standalone(d)
    W = gen.weights(rng, (c["out"], c["in"], nb), c["wmode"])
    set_(p, W)
    set_(fl.ps[0][0], W)
    x = cv.inputs(c, rng)
    y = arr(call(layer, T(x)))
    flat = np.moveaxis(x, 1, -1).reshape(-1, c["in"])
    z = arr(call(dense, T(flat)))
    want = np.moveaxis(z.reshape((c["batch"],) + tuple(c["sizes"]) + (c["out"],)), -1, 1)
    _, rad = cv.oracle(c, x.astype(float), W.astype(float).reshape(p.shape), nb)
    tight = within(y, want, 2 * rad, "1x1 convolution vs dense layer")
    set_(p, np.zeros_like(W))
    check(not np.any(arr(call(layer, T(x)))), "zero weights must give zero output")
    return tight >= 0.5 and np.any(W != 0)


SUBS = [
    Sub("sliding", cv.conv_case(asym=True), run,
        "more than one channel-tap, some weight non-zero, at least half of outputs pinned",
        quick=2600),
    Sub("bulk", cv.conv_bulk(), run,
        "as sliding; one of batch, image, channels, kernel, segments is large", quick=96),
    Sub("pointwise", cv.conv_case(groups=False, modes=False), run_pointwise,
        "some weight non-zero and outputs pinned", quick=800),
]
QUICK_ROUNDS = 4
