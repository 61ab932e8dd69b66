"""C11 p-refinement keeps the network function."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import networks
from high_order_layers_torch.PolynomialLayers import interpolate_polynomial_layer
from pbt import gen, lay, net, refine
from pbt.core import Sub, Violation, sut
from pbt.util import given, T, arr, call, check, fail, set_, within

HEAVY = True
TYPES = lay.PIECE + lay.SWITCH


def snapshot(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def unchanged(m, snap, what):
    for k, v in m.state_dict().items():
        a, b = v.detach(), snap[k]
        same = torch.equal(torch.nan_to_num(a, nan=7.25), torch.nan_to_num(b, nan=7.25))
        check(same, f"{what} modified {k}")


def independent(a, b, what):
    """Training either of the two afterwards leaves the other as it is."""
    for first, second, name in ((a, b, "target"), (b, a, "source")):
        snap = snapshot(second)
        saved = snapshot(first)
        with torch.no_grad():
            for q in first.parameters():
                q.add_(1.0)
        unchanged(second, snap, f"changing the weights on one side of the {what} (the {name}'s),")
        with torch.no_grad():
            for k, q in first.state_dict().items():
                q.copy_(saved[k])


def cast(c, *models):
    """Double precision cases: converts the models, returns the type of the inputs."""
    if c.get("double"):
        for m in models:
            m.double()
        return torch.float64
    return torch.float32


def switch_kw(c):
    return {"num_input_layers": c["copies"]} if c["copies"] else {}


@st.composite
def chain_case(draw):
    kind = draw(st.sampled_from(TYPES))
    ns = [draw(st.integers(1, 5))]
    for _ in range(draw(gen.pick(1, 1, 2, 3))):
        ns.append(min(12, ns[-1] + draw(st.integers(0, 4))))
    return {
        "type": kind,
        "ns": ns,
        "in": draw(gen.size(1, 3, (5, 9))),
        "out": draw(gen.size(1, 3, (5, 9))),
        "segs": draw(gen.size(1, 5, (8, 11, 20))),
        "length": draw(gen.LENGTH),
        "periodicity": draw(st.one_of(st.none(), st.none(), gen.pick(2.0, 1.0)))
        if kind not in lay.SWITCH else None,
        "copies": draw(gen.pick(2, 2, 2, 1, 3, 4)) if kind in lay.SWITCH else None,
        "via": draw(gen.pick("method", "function")),
        "double": draw(gen.pick(False, False, False, True)),
        "batch": draw(gen.size(2, 6, (20,))),
        "wmode": draw(gen.pick("normal", "normal", "ints", "uniform", "zero_some", "scales")),
        "xmode": draw(gen.pick("mix", "mix", "inside", "outside", "boundary", "nodes")),
        "seed": draw(gen.SEED),
    }


def run_chain(c):
    rng = np.random.RandomState(c["seed"])
    layers = []
    for n in c["ns"]:
        layer, fl = lay.standalone(dict(c, n=n), **switch_kw(c))
        fl.fill(rng, 3.0)
        layers.append((layer, fl))
    l0, f0 = layers[0]
    f0.fill(rng, 1.0, c["wmode"])
    dt = cast(c, *[layer for layer, _ in layers])
    kind, per = lay.base(c["type"]), c["periodicity"]
    x = gen.inputs(rng, (c["batch"], c["in"]), c["xmode"], c["ns"][-1], c["segs"], c["length"], per)
    Ws = [(w.detach().double().numpy().copy(), np.zeros(w.shape)) for w, _ in f0.ps]
    cen, _ = f0.eval(x.astype(float), 0.0, Ws)
    tight = 1.0
    for k in range(1, len(layers)):
        (li, fi), (lo, fo) = layers[k - 1], layers[k]
        snap = snapshot(li)
        with sut("p-refinement"):
            if c["via"] == "function" and c["type"] not in lay.SWITCH:
                interpolate_polynomial_layer(li, lo)
            else:
                li.interpolate(lo)
        unchanged(li, snap, "p-refinement")
        Ws = [refine.p_ref(W, RW, kind, fi.n, fo.n, c["segs"], c["length"],
                           fo.prod) for W, RW in Ws]
        for (w, _), (W, RW) in zip(fo.ps, Ws):
            within(w, W, RW, f"weights after p-refinement {fi.n}->{fo.n}")
        _, rad = fo.eval(x.astype(float), 0.0, Ws)
        tight = min(tight, within(call(lo, T(x).to(dt)), cen, rad,
                                  "function after p-refinement"))
        check(all(p.requires_grad for p in lo.parameters()), "refined weights no longer trainable")
        independent(li, lo, "p-refinement")
    return tight >= 0.5 and c["ns"][0] > 1 and c["ns"][-1] > c["ns"][0]


@st.composite
def reject_case(draw):
    return {
        "type": draw(st.sampled_from(TYPES)),
        "n_in": draw(st.integers(2, 4)),
        "n_out": draw(st.integers(2, 6)),
        "in": draw(st.integers(1, 3)),
        "out": draw(st.integers(1, 3)),
        "s1": draw(st.integers(1, 6)),
        "s2": draw(st.integers(1, 6)),
        "net": draw(st.booleans()),
        "seed": draw(gen.SEED),
    }


def run_reject(c):
    if c["s1"] == c["s2"]:
        return False
    try:
        if c["net"]:
            def mk(n, s):
                return networks.HighOrderMLP(
                    layer_type=c["type"], n=n, in_width=c["in"], out_width=c["out"],
                    hidden_layers=1, hidden_width=2, in_segments=s, hidden_segments=s,
                    out_segments=s)
            with sut("construction"):
                a, b = mk(c["n_in"], c["s1"]), mk(c["n_out"], c["s2"])
            networks.interpolate_high_order_mlp(a, b)
        else:
            a = lay.make(c["type"], c["n_in"], c["in"], c["out"], c["s1"])
            b = lay.make(c["type"], c["n_out"], c["in"], c["out"], c["s2"])
            a.interpolate(b)
    except ValueError:
        return True
    except Violation:
        raise
    except Exception as e:
        fail(f"differing segments raised {type(e).__name__} instead of ValueError")
    fail("p-refinement accepted a different number of segments")


@st.composite
def net_case(draw, types=TYPES, chain=True):
    kind = draw(st.sampled_from(types))
    steps = draw(gen.pick(1, 1, 1, 2))
    n0 = [draw(st.integers(1 if kind in ("continuous", "discontinuous") else 2, 4))
          for _ in range(3)]
    ns = [n0]
    for _ in range(steps):
        ns.append([n + draw(st.integers(0, 3)) for n in ns[-1]])
    return {
        "type": kind,
        "type_in": draw(st.one_of(st.none(), st.none(), st.sampled_from(types))),
        "ns": ns,
        "segs": [draw(gen.size(1, 4, (7, 10))) for _ in range(3)],
        "in": draw(gen.size(1, 4, (7,))),
        "hidden": draw(gen.size(1, 4, (7,))),
        "out": draw(st.integers(1, 3)),
        "layers": draw(gen.size(0, 3, (5,))),
        "resnet": draw(st.booleans()),
        "norm": draw(gen.pick(None, None, "max_abs", "max_center", "l2")),
        "nonlin": draw(gen.pick(None, None, None, "tanh", "relu")),
        "dropout": draw(gen.pick(0.0, 0.0, 0.3)),
        "double": draw(gen.pick(False, False, False, True)),
        "scale": draw(gen.pick(2.0, 2.0, 4.0, 1.0)),
        "periodicity": draw(gen.pick(None, None, None, 2.0))
        if kind not in lay.SWITCH else None,
        "batch": draw(gen.size(2, 8, (33,))),
        "seed": draw(gen.SEED),
    }


def build_net(c, n, segs):
    tin = c["type_in"]
    if tin in lay.SWITCH and c["periodicity"] is not None:
        tin = None
    with sut("construction of HighOrderMLP"):
        m = networks.HighOrderMLP(**given(
            layer_type=c["type"], layer_type_in=tin, n=n[1], n_in=n[0], n_hidden=n[1],
            n_out=n[2], in_width=c["in"], out_width=c["out"], hidden_layers=c["layers"],
            hidden_width=c["hidden"], scale=c["scale"], periodicity=c["periodicity"],
            normalization=net.NORMS[c["norm"]],
            non_linearity=None if c["nonlin"] is None else net.NONLIN[c["nonlin"]](),
            in_segments=segs[0], hidden_segments=segs[1], out_segments=segs[2],
            resnet=c["resnet"], dropout=c["dropout"]))
    m.eval()
    steps = mlp_steps(c, n, segs, tin or c["type"])
    return m, steps


def mlp_steps(c, n, segs, tin):
    """The documented structure of HighOrderMLP as oracle steps."""
    def flat(kind, nn, i, o, s):
        return lay.Flat(kind, nn, i, o, s, c["scale"],
                        None if kind in lay.SWITCH else c["periodicity"])

    mid = []
    if c["norm"]:
        mid.append(("norm", c["norm"]))
    if c["nonlin"]:
        mid.append(("nonlin", c["nonlin"]))
    steps = [("layer", flat(tin, n[0], c["in"], c["hidden"], segs[0]))]
    for i in range(c["layers"]):
        res = "res" if c["resnet"] and i > 0 else "layer"
        steps += mid + [(res, flat(c["type"], n[1], c["hidden"], c["hidden"], segs[1]))]
    return steps + mid + [("layer", flat(c["type"], n[2], c["hidden"], c["out"], segs[2]))]


def bind(m, steps, x, what="network"):
    mods, _ = lay.owners(m, x)
    for kind, f in steps:
        if kind in ("layer", "res"):
            f.bind(mods, what)
    if mods:
        fail(f"{what} executed more layers than configured")


def tame(f, rng):
    """Random weights that mostly keep the next layer's input inside its domain."""
    s = 0.5 * f.length * (0.5 if f.prod else 1.0)
    f.fill(rng, s * rng.choice([0.9, 0.9, 1.3]) / f.i ** rng.choice([0.5, 1.0]),
           rng.choice(["smooth", "smooth", "uniform"]))


def flats(steps):
    return [f for k, f in steps if k in ("layer", "res")]


def run_net(c, refine_step=None):
    rng = np.random.RandomState(c["seed"])
    chain = [build_net(c, n, c["segs"]) for n in c["ns"]]
    x = (rng.uniform(-1.1, 1.1, size=(c["batch"], c["in"])) * 0.5 * c["scale"]).astype(np.float32)
    for m, steps in chain:
        bind(m, steps, T(x))
        for f in flats(steps):
            f.fill(rng, 2.0)
    m0, s0 = chain[0]
    for f in flats(s0):
        tame(f, rng)
    dt = cast(c, *[m for m, _ in chain])
    Ws = [[(w.detach().double().numpy().copy(), np.zeros(w.shape)) for w, _ in f.ps]
          for f in flats(s0)]
    cen, _ = net.run(s0, x, 0.0, Ws)
    y0 = call(m0, T(x).to(dt))
    tight = 1.0
    for k in range(1, len(chain)):
        (mi, si), (mo, so) = chain[k - 1], chain[k]
        snap = snapshot(mi)
        with sut("interpolate_high_order_mlp"):
            networks.interpolate_high_order_mlp(mi, mo)
        unchanged(mi, snap, "interpolate_high_order_mlp")
        Ws = [[refine.p_ref(W, RW, lay.base(fi.kind), fi.n, fo.n, fi.segs, fi.length,
                            fi.prod)
               for W, RW in ws] for ws, fi, fo in zip(Ws, flats(si), flats(so))]
        for d, (fo, ws) in enumerate(zip(flats(so), Ws)):
            for (w, _), (W, RW) in zip(fo.ps, ws):
                within(w, W, RW, f"layer {d} weights after interpolation")
        _, rad = net.run(so, x, 0.0, Ws)
        tight = min(tight, within(call(mo, T(x).to(dt)), cen, rad,
                                  "network after p-refinement"))
        independent(mi, mo, "p-refinement")
    check(torch.equal(torch.nan_to_num(call(m0, T(x).to(dt))), torch.nan_to_num(y0)), "the source network's output changed")
    return tight >= 0.5 and any(a < b for a, b in zip(c["ns"][0], c["ns"][-1]))


@st.composite
def list_case(draw):
    k = draw(st.integers(1, 4))
    types = [draw(st.sampled_from(TYPES)) for _ in range(k)]
    return {
        "types": types,
        "n1": [draw(st.integers(2, 4)) for _ in range(k)],
        "dn": [draw(st.integers(0, 3)) for _ in range(k)],
        "segs": [draw(gen.size(1, 4, (7, 10))) for _ in range(k)],
        "width": [draw(st.integers(1, 4)) for _ in range(k + 1)],
        "scale": draw(gen.pick(2.0, 2.0, 4.0)),
        "norm": draw(gen.pick(None, "max_abs")),
        "batch": draw(st.integers(2, 6)),
        "seed": draw(gen.SEED),
    }


def run_list(c):
    rng = np.random.RandomState(c["seed"])
    k = len(c["types"])

    def mk(ns):
        with sut("construction of HighOrderMLPList"):
            m = networks.HighOrderMLPList(**given(
                layer_type=c["types"], n=ns, width=c["width"], segments=c["segs"],
                scale=c["scale"],
                normalization=None if c["norm"] is None else [net.NORMS[c["norm"]]] * k))
        steps = []
        for i in range(k):
            if i and c["norm"]:
                steps.append(("norm", c["norm"]))
            steps.append(("layer", lay.Flat(c["types"][i], ns[i], c["width"][i],
                                            c["width"][i + 1], c["segs"][i], c["scale"], None)))
        return m, steps

    a, sa = mk(c["n1"])
    b, sb = mk([n + d for n, d in zip(c["n1"], c["dn"])])
    x = (rng.uniform(-1.2, 1.2, size=(c["batch"], c["width"][0])) * c["scale"] / 2).astype(np.float32)
    for m, s in ((a, sa), (b, sb)):
        bind(m, s, T(x))
        for f in flats(s):
            tame(f, rng)
    with sut("interpolate_high_order_mlp"):
        networks.interpolate_high_order_mlp(a, b)
    Ws = [[(w.detach().double().numpy().copy(), np.zeros(w.shape)) for w, _ in f.ps]
          for f in flats(sa)]
    cen, _ = net.run(sa, x, 0.0, Ws)
    Ws = [[refine.p_ref(W, RW, lay.base(fi.kind), fi.n, fo.n, fi.segs, fi.length,
                            fi.prod)
           for W, RW in ws] for ws, fi, fo in zip(Ws, flats(sa), flats(sb))]
    _, rad = net.run(sb, x, 0.0, Ws)
    return within(call(b, T(x)), cen, rad, "list network after p-refinement") >= 0.5 and any(c["dn"])


SUBS = [
    Sub("layer_chain", chain_case(), run_chain,
        "source order above constant, order increased, function pinned", quick=1400),
    Sub("network_chain", net_case(), run_net, "some layer's order increased and outputs pinned",
        quick=900),
    Sub("list_network", list_case(), run_list, "some order increased and outputs pinned", quick=400),
    Sub("rejects_segments", reject_case(), run_reject, "segment counts differ", quick=300),
]
