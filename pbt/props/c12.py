"""C12 h- and hp-refinement keep the network function, through any history."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import networks
from high_order_layers_torch.PolynomialLayers import (
    interpolate_polynomial_layer,
    refine_polynomial_layer,
)
from pbt import gen, lay, net, refine
from pbt.core import Sub, sut
from pbt.props.c11 import (
    bind,
    build_net,
    cast,
    flats,
    independent,
    snapshot,
    switch_kw,
    tame,
    unchanged,
)
from pbt.util import T, call, check, within

HEAVY = True
TYPES = ["continuous", "continuous", "switch_continuous"]


@st.composite
def history(draw, longest, segs_cap):
    """[(op, n, segs)...] starting with ("start", n, segs)."""
    n, s = draw(st.integers(1, 4)), draw(gen.size(1, 4, (5, 7)))
    out = [["start", n, s]]
    for _ in range(draw(st.integers(1, longest))):
        op = draw(gen.pick("h", "p", "hp"))
        if op in ("h", "hp") and s < segs_cap:
            s = s * min(draw(gen.size(1, 4, (5, 6, 8, 12))), max(1, segs_cap // s))
        if op in ("p", "hp"):
            n = min(9, n + draw(st.integers(0, 3)))
        out.append([op, n, s])
    return out


@st.composite
def layer_case(draw):
    kind = draw(st.sampled_from(TYPES))
    return {
        "type": kind,
        "hist": draw(history(4, 24)),
        "in": draw(st.integers(1, 3)),
        "out": draw(st.integers(1, 3)),
        "length": draw(gen.LENGTH),
        "periodicity": draw(st.one_of(st.none(), st.none(), gen.pick(2.0, 1.0, 3.0)))
        if kind not in lay.SWITCH else None,
        "copies": draw(gen.pick(2, 2, 2, 1, 3, 4)) if kind in lay.SWITCH else None,
        "via": draw(gen.pick("method", "function")),
        "double": draw(gen.pick(False, False, False, True)),
        "batch": draw(gen.size(2, 6, (20,))),
        "wmode": draw(gen.pick("normal", "normal", "ints", "uniform", "zero_some")),
        "xmode": draw(gen.pick("mix", "mix", "inside", "outside", "boundary", "nodes")),
        "seed": draw(gen.SEED),
    }


def step_ref(op, Ws, fi, fo):
    if op == "p":
        return [refine.p_ref(W, RW, "continuous", fi.n, fo.n, fi.segs, fi.length)
                for W, RW in Ws]
    return [refine.h_ref(W, RW, fi.n, fi.segs, fo.n, fo.segs, fi.length) for W, RW in Ws]


def run_layer(c):
    rng = np.random.RandomState(c["seed"])
    seq = []
    for _, n, s in c["hist"]:
        layer, fl = lay.standalone(dict(c, n=n, segs=s), **switch_kw(c))
        fl.fill(rng, 3.0)
        seq.append((layer, fl))
    f0 = seq[0][1]
    f0.fill(rng, 1.0, c["wmode"])
    dt = cast(c, *[layer for layer, _ in seq])
    n, s = c["hist"][-1][1:]
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], n, s, c["length"], c["periodicity"])
    Ws = [(w.detach().double().numpy().copy(), np.zeros(w.shape)) for w, _ in f0.ps]
    cen, _ = f0.eval(x.astype(float), 0.0, Ws)
    tight = 1.0
    for k in range(1, len(seq)):
        op = c["hist"][k][0]
        (li, fi), (lo, fo) = seq[k - 1], seq[k]
        snap = snapshot(li)
        direct = c["via"] == "function" and c["type"] not in lay.SWITCH
        with sut(f"{op}-refinement"):
            if op == "p":
                interpolate_polynomial_layer(li, lo) if direct else li.interpolate(lo)
            else:
                refine_polynomial_layer(li, lo) if direct else li.refine(lo)
        unchanged(li, snap, f"{op}-refinement")
        Ws = step_ref(op, Ws, fi, fo)
        for (w, _), (W, RW) in zip(fo.ps, Ws):
            within(w, W, RW, f"weights after step {k} ({op} to n={fo.n}, segments={fo.segs})")
        _, rad = fo.eval(x.astype(float), 0.0, Ws)
        tight = min(tight, within(call(lo, T(x).to(dt)), cen, rad,
                                  f"function after step {k} ({op})"))
        check(all(p.requires_grad for p in lo.parameters()), "refined weights no longer trainable")
        independent(li, lo, f"{op}-refinement")
    return tight >= 0.5 and c["hist"][0][1] > 1 and c["hist"][-1][1:] != c["hist"][0][1:]


@st.composite
def net_case(draw):
    kind = draw(st.sampled_from(TYPES))
    hs = [draw(history(1, 8)) for _ in range(3)]
    steps = draw(gen.pick(1, 1, 2, 3))
    states = [[[h[0][1], h[0][2]] for h in hs]]
    ops = []
    for _ in range(steps):
        op = draw(gen.pick("h", "p", "hp"))
        ops.append(op)
        nxt = []
        for n, s in states[-1]:
            if op in ("h", "hp") and s <= 6:
                s = s * draw(gen.size(1, 3, (5,)) if s < 3 else st.integers(1, 3))
            if op in ("p", "hp"):
                n = min(6, n + draw(st.integers(0, 2)))
            nxt.append([n, s])
        states.append(nxt)
    return {
        "type": kind,
        "type_in": draw(st.one_of(st.none(), st.none(), st.sampled_from(TYPES))),
        "ops": ops,
        "states": states,
        "in": draw(st.integers(1, 3)),
        "hidden": draw(st.integers(1, 3)),
        "out": draw(st.integers(1, 2)),
        "layers": draw(st.integers(0, 2)),
        "resnet": draw(st.booleans()),
        "norm": draw(gen.pick(None, None, "max_abs", "max_center", "l2")),
        "nonlin": draw(gen.pick(None, None, None, "tanh", "relu")),
        "dropout": draw(gen.pick(0.0, 0.0, 0.3)),
        "double": draw(gen.pick(False, False, False, True)),
        "scale": draw(gen.pick(2.0, 2.0, 4.0, 1.0)),
        "periodicity": draw(gen.pick(None, None, 2.0)) if kind not in lay.SWITCH else None,
        "batch": draw(st.integers(2, 8)),
        "seed": draw(gen.SEED),
    }


def run_net(c):
    rng = np.random.RandomState(c["seed"])
    chain = [build_net(c, [a[0] for a in st_], [a[1] for a in st_]) for st_ in c["states"]]
    x = (rng.uniform(-1.1, 1.1, size=(c["batch"], c["in"])) * 0.5 * c["scale"]).astype(np.float32)
    for m, steps in chain:
        bind(m, steps, T(x))
        for f in flats(steps):
            f.fill(rng, 2.0)
    m0, s0 = chain[0]
    for f in flats(s0):
        tame(f, rng)
    dt = cast(c, *[m for m, _ in chain])
    Ws = [[(w.detach().double().numpy().copy(), np.zeros(w.shape)) for w, _ in f.ps]
          for f in flats(s0)]
    cen, _ = net.run(s0, x, 0.0, Ws)
    y0 = call(m0, T(x).to(dt))
    tight = 1.0
    for k, op in enumerate(c["ops"]):
        (mi, si), (mo, so) = chain[k], chain[k + 1]
        snap = snapshot(mi)
        with sut(f"network {op}-refinement"):
            if op == "p":
                networks.interpolate_high_order_mlp(mi, mo)
            else:
                networks.hp_refine_high_order_mlp(mi, mo)
        unchanged(mi, snap, f"network {op}-refinement")
        Ws = [step_ref(op, ws, fi, fo) for ws, fi, fo in zip(Ws, flats(si), flats(so))]
        for d, (fo, ws) in enumerate(zip(flats(so), Ws)):
            for (w, _), (W, RW) in zip(fo.ps, ws):
                within(w, W, RW, f"layer {d} weights after step {k} ({op})")
        _, rad = net.run(so, x, 0.0, Ws)
        tight = min(tight, within(call(mo, T(x).to(dt)), cen, rad,
                                  f"network after step {k} ({op})"))
        independent(mi, mo, f"{op}-refinement")
    check(torch.equal(torch.nan_to_num(call(m0, T(x).to(dt))), torch.nan_to_num(y0)),
          "the source network's output changed")
    return tight >= 0.5 and c["states"][0] != c["states"][-1]


SUBS = [
    Sub("layer_history", layer_case(), run_layer,
        "source above constant, refined at least once to a different n or segment count, "
        "function pinned by the error bound", quick=1300),
    Sub("network_history", net_case(), run_net, "refined to a different shape, outputs pinned",
        quick=700),
]
