"""C18 MLP networks apply the configured layers in order."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import layers as L
from high_order_layers_torch import networks as NW
from pbt import gen, lay, net, ref
from pbt.core import Sub, Violation, sut
from pbt.util import given, T, call, check, fail, within

HEAVY = True
KU = ref.K * ref.U
TYPES = ["continuous", "continuous", "discontinuous", "polynomial", "fourier",
         "continuous_prod", "discontinuous_prod", "polynomial_prod", "product", "baseline",
         "baseline_relu", "switch_continuous", "switch_discontinuous"]
NOPER = ("fourier", "baseline", "baseline_relu") + tuple(lay.SWITCH)


def flat(kind, n, i, o, segs, length, per):
    return lay.Flat(kind, n, i, o, segs, length, None if kind in NOPER else per)


def usable_per(kinds, per):
    return None if any(k in lay.SWITCH or k == "fourier" for k in kinds) else per


def mid(c):
    s = []
    if c["norm"]:
        s.append(("norm", c["norm"]))
    if c["nonlin"]:
        s.append(("nonlin", c["nonlin"]))
    return s


def flats(steps):
    return [f for k, f in steps if k in ("layer", "res")]


def bind(mods, steps, what="network"):
    for f in flats(steps):
        f.bind(mods, what)


def fill(fs, c, rng, sc):
    """Weights that mostly keep the next layer inside its domain."""
    for f in fs:
        half = 0.5 * (f.length or 2.0)
        a = half / f.i ** rng.choice([0.5, 1.0])
        if f.kind in lay.SWITCH or f.prod or f.kind == "product":
            a = min(a, 1.2)
        f.fill(rng, a * sc, c["links"])


def distinct(f):
    """Weights of a layer as configured: not a constant function."""
    return any(w.numel() > 1 for w, _ in f.ps)


COMMON = {
    "batch": gen.size(1, 5, (12, 33, 70)),
    "norm": gen.pick(None, None, *[k for k in net.NORMS if k]),
    "nonlin": gen.pick(None, None, *[k for k in net.NONLIN if k]),
    "length": gen.pick(2.0, 2.0, 1.0, 4.0, 3.0),
    "periodicity": st.one_of(st.none(), st.none(), gen.pick(2.0, 1.0, 3.0)),
    "spread": gen.pick(0.95, 0.95, 1.3, 3.0),
    "links": gen.pick("smooth", "smooth", "uniform"),
    "wscale": gen.pick(1.0, 0.7, 1.5),
    "train_first": st.booleans(),
    "seed": gen.SEED,
}


def common(draw):
    return {k: draw(v) for k, v in COMMON.items()}


@st.composite
def mlp_case(draw, kinds=("mlp", "mlp", "multi", "transform")):
    c = common(draw)
    c.update({
        "what": draw(st.sampled_from(list(kinds))),
        "type": draw(st.sampled_from(TYPES)),
        "type_in": draw(st.one_of(st.none(), st.sampled_from(TYPES))),
        "n": draw(gen.size(2, 5, (6, 8))),
        "n3": [draw(st.one_of(st.none(), st.integers(2, 5))) for _ in range(3)],
        "segs": [draw(gen.size(1, 4, (6, 9, 17))) for _ in range(3)],
        "in": draw(gen.size(1, 3, (5, 9))),
        "out": draw(gen.size(1, 3, (5, 10))),
        "hidden": draw(gen.size(1, 4, (6, 9))),
        "layers": draw(gen.size(0, 4, (6, 9))),
        "resnet": draw(st.booleans()),
        "dropout": draw(gen.pick(0.0, 0.0, 0.3, 0.9)),
        "replicas": draw(gen.size(1, 3, (5,))),
        "rotations": draw(gen.size(1, 4, (7,))),
        "init": draw(gen.pick("constant_random", "uniform")),
    })
    return c


def column(c, t_in, t, n, segs, i, h, o, per):
    """Documented structure of HighOrderMLP."""
    steps = [("layer", flat(t_in, n[0], i, h, segs[0], c["length"], per))]
    for k in range(c["layers"]):
        res = "res" if c["resnet"] and k > 0 else "layer"
        steps += mid(c) + [(res, flat(t, n[1], h, h, segs[1], c["length"], per))]
    return steps + mid(c) + [("layer", flat(t, n[2], h, o, segs[2], c["length"], per))]


def run_mlp(c):
    rng = np.random.RandomState(c["seed"])
    what, t = c["what"], c["type"]
    t_in = (c["type_in"] or t) if what != "transform" else t
    if what == "transform":
        c["nonlin"], c["dropout"] = None, 0.0
    per = usable_per((t, t_in), c["periodicity"])
    n = [v or c["n"] for v in c["n3"]]
    act = None if c["nonlin"] is None else net.NONLIN[c["nonlin"]]()
    kw = dict(layer_type=t, n=c["n"], n_in=c["n3"][0], n_hidden=c["n3"][1], n_out=c["n3"][2],
              in_width=c["in"], out_width=c["out"], hidden_layers=c["layers"],
              hidden_width=c["hidden"], scale=c["length"], periodicity=per,
              in_segments=c["segs"][0], hidden_segments=c["segs"][1], out_segments=c["segs"][2],
              normalization=net.NORMS[c["norm"]], resnet=c["resnet"])
    x = (rng.uniform(-1, 1, size=(c["batch"], c["in"])) * c["spread"] * 0.5 * c["length"]).astype(
        np.float32)
    with sut(f"construction of {what}"):
        if what == "mlp":
            m = NW.HighOrderMLP(**given(non_linearity=act, layer_type_in=c["type_in"],
                                        dropout=c["dropout"], initialization=c["init"], **kw))
        elif what == "multi":
            m = NW.HighOrderMultiMLP(**given(
                non_linearity=act, replicas=c["replicas"], layer_type_in=c["type_in"],
                dropout=c["dropout"], initialization=c["init"], **kw))
        else:
            n3 = {k: kw.pop(k) for k in ("n_in", "n_hidden", "n_out", "periodicity")}
            m = NW.transform_mlp(rotations=c["rotations"], **n3, **given(**kw))
            feat, width = L.fixed_rotation_layer(n=c["in"], rotations=c["rotations"])
    if c["train_first"] and c["batch"] > 1:
        m.train()
        with sut("forward in training mode"):
            m(T(x))
    # without dropout nothing depends on the mode
    m.train(c["train_first"] and c["dropout"] == 0)
    mods, _ = lay.owners(m, T(x))
    mods = [q for q in mods if any(p is not None and p.requires_grad
                                   for p in q._parameters.values())]
    h = c["hidden"]
    x0, r0 = x.astype(float), np.zeros(x.shape)
    if what == "transform":
        x0 = call(feat, T(x)).double().numpy()
        r0 = np.zeros_like(x0) + 8 * KU * np.abs(x).sum(-1, keepdims=True)

    def attempt(first):
        """first: type of the first layer of each column."""
        if what == "multi":
            head = [("layer", flat(t_in, n[0], c["in"], h, c["segs"][0], c["length"], per))]
            cols = [column(c, first, t, [n[1]] * 3, [c["segs"][1]] * 3, h, h, h, per)
                    for _ in range(c["replicas"])]
            tail = [("layer", flat(t, n[2], h, c["out"], c["segs"][2], c["length"], per))]
            parts = [head] + cols + [tail]
        else:
            i = width if what == "transform" else c["in"]
            parts = [column(c, first, t, n, c["segs"], i, h, c["out"], per)]
        left = list(mods)
        for p in parts:
            bind(left, p)
        if left:
            fail(f"{what}: more layers executed than configured")
        fs = [f for p in parts for f in flats(p)]
        check(len({id(w) for f in fs for w, _ in f.ps}) == sum(len(f.ps) for f in fs),
              "layers share weights")
        fill(fs, c, np.random.RandomState(c["seed"] + 1), c["wscale"])
        with np.errstate(all="ignore"):
            if what == "multi":
                cen, rad = net.run(parts[0] + mid(c), x0, r0)
                tot, rt = 0.0, 0.0
                for col in parts[1:-1]:
                    a, b = net.run(col, cen, rad)
                    tot, rt = tot + a, rt + b + KU * (np.abs(a) + np.abs(tot))
                cen, rad = net.run(mid(c) + parts[-1], tot, rt)
            else:
                cen, rad = net.run(parts[0], x0, r0)
        return within(call(m, T(x)), cen, rad, f"output of {what}")

    try:
        tight = attempt(t_in)
    except Violation:
        # the documentation leaves open whether a column starts with the input layer's type
        if what != "multi" or t_in == t:
            raise
        tight = attempt(t)
    return tight >= 0.5


@st.composite
def list_case(draw):
    c = common(draw)
    k = draw(gen.size(1, 5, (8,)))
    c.update({
        "types": [draw(st.sampled_from(TYPES)) for _ in range(k)],
        "n": [draw(st.integers(2, 5)) for _ in range(k)],
        "segs": [draw(gen.size(1, 4, (6, 9))) for _ in range(k)],
        "width": [draw(st.integers(1, 4)) for _ in range(k + 1)],
        "norms": draw(st.one_of(st.none(), st.lists(
            gen.pick(None, *[q for q in net.NORMS if q]), min_size=k, max_size=k))),
        "nonlins": draw(st.one_of(st.none(), st.lists(
            gen.pick(None, *[q for q in net.NONLIN if q]), min_size=k, max_size=k))),
    })
    return c


def run_list(c):
    rng = np.random.RandomState(c["seed"])
    k = len(c["types"])
    per = usable_per(c["types"], c["periodicity"])
    with sut("construction of HighOrderMLPList"):
        m = NW.HighOrderMLPList(**given(
            layer_type=c["types"], n=c["n"], width=c["width"], segments=c["segs"],
            scale=c["length"], periodicity=per,
            normalization=None if c["norms"] is None else [net.NORMS[q] for q in c["norms"]],
            non_linearity=None if c["nonlins"] is None else [
                None if q is None else net.NONLIN[q]() for q in c["nonlins"]]))
    m.train(c["train_first"])
    steps = []
    for i in range(k):
        if i and c["norms"] and c["norms"][i]:
            steps.append(("norm", c["norms"][i]))
        if i and c["nonlins"] and c["nonlins"][i]:
            steps.append(("nonlin", c["nonlins"][i]))
        steps.append(("layer", flat(c["types"][i], c["n"][i], c["width"][i], c["width"][i + 1],
                                    c["segs"][i], c["length"], per)))
    x = (rng.uniform(-1, 1, size=(c["batch"], c["width"][0])) * c["spread"] * 0.5
         * c["length"]).astype(np.float32)
    mods, _ = lay.owners(m, T(x))
    bind(mods, steps, "list network")
    if mods:
        fail("list network: more layers executed than configured")
    fill(flats(steps), c, rng, c["wscale"])
    cen, rad = net.run(steps, x, 0.0)
    return within(call(m, T(x)), cen, rad, "output of the list network") >= 0.5 and k > 1


@st.composite
def low_case(draw):
    c = common(draw)
    c.update({
        "in": draw(st.integers(1, 4)), "out": draw(st.integers(1, 4)),
        "hidden": draw(st.integers(1, 6)), "layers": draw(st.integers(0, 4)),
        "rotations": draw(st.one_of(st.none(), st.integers(1, 4))),
    })
    return c


def run_low(c):
    rng = np.random.RandomState(c["seed"])
    kw = dict(in_width=c["in"], out_width=c["out"], hidden_layers=c["layers"],
              hidden_width=c["hidden"], normalization=net.NORMS[c["norm"]],
              non_linearity=None if c["nonlin"] is None else net.NONLIN[c["nonlin"]]())
    x = (rng.uniform(-1, 1, size=(c["batch"], c["in"])) * c["spread"]).astype(np.float32)
    x0, r0 = x.astype(float), np.zeros(x.shape)
    i = c["in"]
    with sut("construction"):
        if c["rotations"] is None:
            m = NW.LowOrderMLP(**given(**kw))
        else:
            m = NW.transform_low_mlp(rotations=c["rotations"], **kw)
            feat, i = L.fixed_rotation_layer(n=c["in"], rotations=c["rotations"])
    m.train(c["train_first"])
    if c["rotations"] is not None:
        x0 = call(feat, T(x)).double().numpy()
        r0 = np.zeros_like(x0) + 8 * KU * np.abs(x).sum(-1, keepdims=True)
    steps = [("layer", lay.Flat("baseline", 1, i, c["hidden"], 1, 2.0, None))]
    for _ in range(c["layers"]):
        steps += mid(c) + [("layer", lay.Flat("baseline", 1, c["hidden"], c["hidden"], 1, 2.0,
                                              None))]
    steps += mid(c) + [("layer", lay.Flat("baseline", 1, c["hidden"], c["out"], 1, 2.0, None))]
    mods, _ = lay.owners(m, T(x))
    mods = [q for q in mods if any(p is not None and p.requires_grad
                                   for p in q._parameters.values())]
    bind(mods, steps, "low order network")
    if mods:
        fail("low order network: more layers executed than configured")
    for f in flats(steps):
        check(f.ps[0][1] is not None, "a linear layer lost its bias")
        f.fill(rng, 1.5 / np.sqrt(f.i), "normal")
    cen, rad = net.run(steps, x0, r0)
    return within(call(m, T(x)), cen, rad, "output of the low order network") >= 0.5


@st.composite
def combo_case(draw):
    c = common(draw)
    c.update({
        "what": draw(gen.pick("switch", "switch", "sum")),
        "type": draw(gen.pick("continuous", "discontinuous", "polynomial", "fourier",
                              "continuous_prod", "baseline")),
        "types": [draw(st.sampled_from(TYPES)) for _ in range(2)],
        "n": draw(gen.size(2, 5, (6, 8))),
        "ns": [draw(st.integers(2, 5)) for _ in range(2)],
        "segs": draw(st.integers(1, 5)),
        "in": draw(st.integers(1, 4)),
        "out": draw(st.integers(1, 4)),
        "copies": draw(gen.pick(None, 1, 2, 3, 4)),
        "by_length": draw(st.booleans()),
    })
    return c


def run_combo(c):
    rng = np.random.RandomState(c["seed"])
    x = (rng.uniform(-1, 1, size=(c["batch"], c["in"])) * c["spread"] * 0.5 * c["length"]).astype(
        np.float32)
    if c["what"] == "switch":
        kw = {} if c["copies"] is None else {"num_input_layers": c["copies"]}
        kw["length" if c["by_length"] else "scale"] = c["length"]
        norm = net.NORMS[c["norm"]]
        with sut("construction of SwitchLayer"):
            m = L.SwitchLayer(layer_type=c["type"], n=c["n"], in_features=c["in"],
                              out_features=c["out"], segments=c["segs"],
                              normalization=None if norm is None else norm(), **kw)
        check(m.in_features == c["in"] and m.out_features == c["out"], "reported widths")
        m.eval()
        f = lay.Flat(c["type"], c["n"], c["in"], c["out"], c["segs"], c["length"], None)
        f.mult = c["copies"] or 2
        fs, post = [f], [("norm", c["norm"])] if c["norm"] else []
    else:
        ls = []
        fs = []
        for t, n in zip(c["types"], c["ns"]):
            ls.append(lay.make(t, n, c["in"], c["out"], c["segs"], c["length"], None))
            fs.append(lay.Flat(t, n, c["in"], c["out"], c["segs"], c["length"], None))
        m = L.SumLayer(layer_list=ls)
        post = []
    mods, _ = lay.owners(m, T(x))
    for f in fs:
        f.bind(mods, c["what"])
    if mods:
        fail(f"{c['what']}: more layers executed than configured")
    fill(fs, c, rng, c["wscale"])
    cen, rad = fs[0].eval(x.astype(float), 0.0)
    if len(fs) == 2:
        c2, r2 = fs[1].eval(x.astype(float), 0.0)
        rad = rad + r2 + KU * (np.abs(cen) + np.abs(c2))
        cen = cen + c2
    cen, rad = net.run(post, cen, rad)
    return within(call(m, T(x)), cen, rad, c["what"]) >= 0.5


@st.composite
def drop_case(draw):
    c = common(draw)
    c.update({
        "what": draw(gen.pick("mlp", "mlp", "multi")),
        "type": draw(st.sampled_from(TYPES)),
        "n": draw(st.integers(2, 4)),
        "segs": draw(st.integers(1, 3)),
        "in": draw(st.integers(1, 3)),
        "out": draw(st.integers(1, 3)),
        "layers": draw(st.integers(0, 2)),
        "resnet": draw(st.booleans()),
        "p": draw(gen.pick(0.4, 0.6)),
    })
    return c


def run_drop(c):
    """Hidden width one, dropout p: a row's output is that of the network with a factor
    0 or 1/(1-p) on the input of each hidden layer and of the output layer, all of them turning up."""
    rng = np.random.RandomState(c["seed"])
    what, t, h = c["what"], c["type"], 1
    if what == "multi":  # where its dropout stands relative to these is not documented
        c["norm"] = c["nonlin"] = None
        c["layers"] = min(c["layers"], 1)
    act = None if c["nonlin"] is None else net.NONLIN[c["nonlin"]]()
    kw = dict(layer_type=t, n=c["n"], in_width=c["in"], out_width=c["out"],
              hidden_layers=c["layers"], hidden_width=h, scale=c["length"],
              in_segments=c["segs"], hidden_segments=c["segs"], out_segments=c["segs"],
              normalization=net.NORMS[c["norm"]], resnet=c["resnet"], non_linearity=act,
              dropout=c["p"])
    with sut(f"construction of {what}"):
        m = NW.HighOrderMLP(**kw) if what == "mlp" else NW.HighOrderMultiMLP(replicas=1, **kw)
    row = (rng.uniform(-1, 1, size=(1, c["in"])) * 0.95 * 0.5 * c["length"]).astype(np.float32)
    x = np.repeat(row, 512, 0)
    m.eval()
    mods, _ = lay.owners(m, T(x))
    mods = [q for q in mods if any(p is not None and p.requires_grad
                                   for p in q._parameters.values())]
    steps = column(c, t, t, [c["n"]] * 3, [c["segs"]] * 3, c["in"], h, c["out"], None)
    if what == "multi":
        mid_ = column(c, t, t, [c["n"]] * 3, [c["segs"]] * 3, h, h, h, None)
        steps = [steps[0]] + mid_ + [steps[-1]]
    bind(mods, steps)
    fill(flats(steps), c, np.random.RandomState(c["seed"] + 1), 0.7)
    points = [k for k, (kind, _) in enumerate(steps) if kind in ("layer", "res") and k > 0]
    if what == "multi":
        points = points[1:]  # a column's first layer has none before it
    m.train()
    with sut("forward in training mode"):
        y = m(T(x)).detach().double().numpy()
    m.eval()
    known = np.zeros(512, bool)
    tight = 0
    for mask in range(2 ** len(points)):
        s = list(steps)
        for b, k in reversed(list(enumerate(points))):
            s.insert(k, ("scale", (mask >> b & 1) / (1 - c["p"])))
        cen, rad = net.run(s, row.astype(float), 0.0)
        rad = np.where(np.isfinite(rad), rad, np.inf)
        hit = (np.abs(y - cen) <= rad).all(-1)
        check(hit.any(), f"{what}: in training mode no row shows dropout pattern {mask:b} of "
              f"{len(points)} layers")
        known |= hit
        tight += float((rad <= 0.01 * (1 + np.abs(cen))).all())
    check(known.all(), f"{what}: in training mode a row is not explained by dropout")
    return tight >= 2 ** len(points) / 2


SUBS = [
    Sub("mlp", mlp_case(), run_mlp, "half of the outputs pinned to 1%", quick=5000),
    Sub("bulk", gen.bulk(mlp_case(), {"layers": st.integers(0, 2), "hidden": st.integers(1, 3)},
                         {"batch": (260, 520, 1030, 2050), "layers": (10, 12, 16),
                          "hidden": (33, 70, 130), "in": (17, 40), "out": (33, 70, 130),
                          "replicas": (8, 12, 17)}), run_mlp,
        "as mlp; one of batch, depth, widths, columns large", quick=160),
    Sub("list", list_case(), run_list, "more than one layer and outputs pinned", quick=900),
    Sub("low_order", low_case(), run_low, "outputs pinned", quick=500),
    Sub("combination", combo_case(), run_combo, "outputs pinned", quick=900),
    Sub("dropout", drop_case(), run_drop, "half of the patterns pinned", quick=400),
]
ASSUMPTIONS = [
    "periodicity only where every layer of the network takes it (switch layers and Fourier layers "
    "ignore it)",
    "weights are read off the modules by shape in the order in which they are executed",
]
