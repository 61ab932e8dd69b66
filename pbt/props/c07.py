"""C07 transposed convolutions scatter the link functions."""
import numpy as np

from pbt import cv, gen
from pbt.core import Sub
from pbt.util import T, call, set_, within


def run(c):
    rng = np.random.RandomState(c["seed"])
    layer, p, nb = cv.build_transpose(c)
    W = gen.weights(rng, p.shape, c["wmode"])
    set_(p, W)
    x = gen.inputs(rng, (c["batch"], c["in"]) + tuple(c["sizes"]), c["xmode"], c["n"],
                   c["segs"], c["length"], c["periodicity"])
    y = call(layer, T(x))
    cen, rad = cv.oracle_transpose(c, x.astype(float), W.astype(float), nb)
    tight = within(y, cen, rad, "transposed convolution (size and values)")
    return tight >= 0.5 and np.any(W != 0)


SUBS = [
    Sub("scatter", cv.transpose_case(asym=True, groups=True), run, "some weight non-zero and outputs pinned",
        quick=3000),
    Sub("bulk", cv.transpose_bulk(), run,
        "as scatter; one of batch, image, channels, kernel, stride, segments is large", quick=96),
]
QUICK_ROUNDS = 4
