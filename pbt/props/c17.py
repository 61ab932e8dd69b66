"""C17 every weight that shapes the output is trainable and saved."""
import copy
import io
from collections import Counter

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import gen, zoo
from pbt.core import Sub, sut
from pbt.util import arr, call, check, fail
from pbt.props.c16 import close

HEAVY = True


def trainable(m):
    return [p for p in m.parameters() if p.requires_grad]


def roundtrip(obj):
    buf = io.BytesIO()
    torch.save(obj, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


def new(c, rng):
    model = zoo.build(c["model"])
    zoo.materialise(model, rng)
    zoo.fill(model, rng)
    return model


@st.composite
def save_case(draw):
    return {
        "model": draw(zoo.case_strategy()),
        "batch": draw(gen.size(1, 5, (33,))),
        "warm": draw(st.booleans()),
        "via": draw(gen.pick("dict", "file", "twice")),
        "seed": draw(gen.SEED),
    }


def run_save(c):
    rng = np.random.RandomState(c["seed"])
    a = new(c, rng)
    x = torch.tensor(a.inputs(rng, c["batch"]))
    y = call(a.m, x).clone()
    s = a.m.state_dict()
    if c["via"] != "dict":
        with sut("saving the state"):
            s = roundtrip(s)
    b = zoo.build(c["model"])
    if c["warm"]:
        zoo.materialise(b, rng)
        zoo.fill(b, rng)
        call(b.m, x)
    b.m.eval()
    yb = None
    if c["warm"]:
        yb = call(b.m, x).clone()
    with sut("loading a saved state into a fresh instance"):
        b.m.load_state_dict(s)
    close(call(b.m, x), y, "fresh instance with the loaded state")
    if c["via"] == "twice":
        d = zoo.build(c["model"])
        with sut("loading a state saved from a loaded instance"):
            d.m.load_state_dict(roundtrip(b.m.state_dict()))
        d.m.eval()
        close(call(d.m, x), y, "instance loaded from a loaded instance")
        # the copies do not share memory
        before = call(b.m, x).clone()
        zoo.fill(d, rng)
        close(call(b.m, x), before, "changing one loaded instance changed another")
    close(call(a.m, x), y, "loading changed the source")
    return yb is None or not torch.allclose(torch.nan_to_num(yb), torch.nan_to_num(y))


@st.composite
def params_case(draw):
    return {"model": draw(zoo.case_strategy()), "batch": draw(st.integers(2, 5)),
            "mode": draw(gen.pick("eval", "train")), "seed": draw(gen.SEED)}


def run_params(c):
    rng = np.random.RandomState(c["seed"])
    a = new(c, rng)
    want = Counter(tuple(s) for s in a.shapes)
    have = Counter(tuple(p.shape) for p in trainable(a.m))
    sd = a.m.state_dict()
    saved = Counter(tuple(v.shape) for v in sd.values())
    for s, k in want.items():
        check(have[s] >= k, f"{k} weight tensors of shape {s} expected among the trainable "
              f"parameters, {have[s]} found")
        check(saved[s] >= k, f"{k} weight tensors of shape {s} expected in the state, "
              f"{saved[s]} found")
    for s in a.frozen:
        s = tuple(s)
        check(have[s] == want[s], f"the fixed rotation of shape {s} is handed to the optimizer")
        check(saved[s] >= want[s] + 1, f"the fixed rotation of shape {s} is not saved")
    x = torch.tensor(a.inputs(rng, c["batch"]))
    # parameters excluded from training do not shape the output, the fixed rotations apart
    y = call(a.m, x).clone()
    fixed = Counter(tuple(s) for s in a.frozen)
    for name, p in a.m.named_parameters():
        if p.requires_grad:
            continue
        if fixed[tuple(p.shape)] > 0:
            fixed[tuple(p.shape)] -= 1
            continue
        keep = p.detach().clone()
        with torch.no_grad():
            p.copy_(p + torch.tensor(rng.normal(size=tuple(p.shape)).astype(np.float32)))
        z = call(a.m, x)
        with torch.no_grad():
            p.copy_(keep)
        check(torch.equal(torch.nan_to_num(y), torch.nan_to_num(z)),
              f"{name} shapes the output but is not trainable")
    if not a.shapes:
        return False
    a.m.train(c["mode"] == "train")
    with sut("forward and backward"):
        a.m.zero_grad()
        y = a.m(x)
        (y * torch.tensor(rng.normal(size=tuple(y.shape)).astype(np.float32))).sum().backward()
    got = Counter(tuple(p.shape) for p in a.m.parameters() if p.grad is not None)
    for s, k in want.items():
        check(got[s] >= k, f"{k} weight tensors of shape {s} expected, gradient reached {got[s]}")
    return True


@st.composite
def copy_case(draw):
    return {
        "model": draw(zoo.case_strategy()),
        "how": draw(gen.pick("deepcopy", "pickle")),
        "used": draw(gen.pick("eval", "train", "grad")),
        "change": draw(gen.pick("copy", "original")),
        "seed": draw(gen.SEED),
    }


def run_copy(c):
    rng = np.random.RandomState(c["seed"])
    a = new(c, rng)
    x = torch.tensor(a.inputs(rng, 3))
    if c["used"] == "grad" and trainable(a.m):
        with sut("forward and backward"):
            (a.m(x) ** 2).sum().backward()
        a.m.zero_grad()
    elif c["used"] == "train":
        a.m.train()
        with sut("forward in training mode"):
            a.m(x)
        a.m.eval()
    y = call(a.m, x).clone()
    with sut(c["how"]):
        b = copy.deepcopy(a.m) if c["how"] == "deepcopy" else roundtrip(a.m)
    close(call(b, x), y, c["how"])
    check(Counter(tuple(p.shape) for p in trainable(b))
          == Counter(tuple(p.shape) for p in trainable(a.m)),
          f"{c['how']} has other trainable parameters")
    ids = {id(p) for p in a.m.parameters()}
    check(not any(id(p) in ids for p in b.parameters()), f"{c['how']} shares parameters")
    first, second = (b, a.m) if c["change"] == "copy" else (a.m, b)
    with torch.no_grad():
        for p in first.parameters():
            if p.requires_grad:
                p.copy_(torch.tensor(rng.normal(size=tuple(p.shape)).astype(np.float32)))
    call(first, x)
    close(call(second, x), y, f"changing the weights of the {c['change']} changed the other one")
    # and both go on being trainable
    ps = trainable(second)
    if ps:
        with sut("training after copying"):
            (second(x) ** 2).sum().backward()
        check(any(p.grad is not None for p in ps), f"no gradient after {c['how']}")
    return len(ps) > 0 and bool((call(first, x) - y).abs().max() > 1e-3)


@st.composite
def descent_case(draw):
    return {"model": draw(zoo.case_strategy(("layer", "nd", "conv", "transpose", "net", "net",
                                             "net", "sum"))),
            "seed": draw(gen.SEED)}


def loss_of(m, x, t):
    return ((m(x).double() - t) ** 2).mean()


def run_descent(c):
    rng = np.random.RandomState(c["seed"])
    a = new(c, rng)
    tried = 0
    for _ in range(4):
        zoo.fill(a, rng)
        x = torch.tensor(a.inputs(rng, 4, 0.9))
        with sut("forward and backward"):
            y = a.m(x)
            t = y.detach().double() + torch.tensor(
                rng.normal(size=tuple(y.shape)) + 1.5 * rng.normal())
            a.m.zero_grad()
            loss = loss_of(a.m, x, t)
            loss.backward()
        l0 = float(loss.detach())
        ps = trainable(a.m)
        g2 = sum(float((p.grad.double() ** 2).sum()) for p in ps if p.grad is not None)
        if not np.isfinite(g2) or g2 < 1e-6 * (1 + l0):
            continue
        s0 = {k: v.clone() for k, v in a.m.state_dict().items()}
        sizes = 0
        for e in range(0, 16):
            lr = 0.5 ** (2 * e) / max(1.0, g2)
            pred = lr * g2
            if pred < 2e-4 * (1 + l0):
                break
            sizes += 1
            opt = torch.optim.SGD(a.m.parameters(), lr=lr)
            opt.step()
            with torch.no_grad(), sut("forward"):
                l1 = float(loss_of(a.m, x, t))
            a.m.load_state_dict(s0)
            if l1 <= l0 - 0.1 * pred:
                return True
        tried += sizes >= 5  # down to 1/256 of the first: the curvature is accounted for
    if tried >= 2:
        fail("no optimizer step along the gradient lowers the loss, at any of several points")
    return False


@st.composite
def resume_case(draw):
    return {
        "model": draw(zoo.case_strategy(("layer", "nd", "conv", "transpose", "net", "net", "net",
                                         "sum"))),
        "opt": draw(gen.pick("sgd", "momentum", "adam", "decay")),
        "k1": draw(st.integers(1, 3)),
        "k2": draw(st.integers(1, 3)),
        "via": draw(gen.pick("state", "module")),
        "seed": draw(gen.SEED),
    }


def optimizer(c, m):
    kw = {"sgd": (torch.optim.SGD, {"lr": 0.01}),
          "momentum": (torch.optim.SGD, {"lr": 0.01, "momentum": 0.9}),
          "adam": (torch.optim.Adam, {"lr": 0.01}),
          "decay": (torch.optim.SGD, {"lr": 0.01, "weight_decay": 0.1})}[c["opt"]]
    return kw[0](m.parameters(), **kw[1])


def train(m, opt, data, k, seed):
    m.train()
    for j in range(k):
        x, t = data[j % len(data)]
        torch.manual_seed(seed + j)
        with sut("training step"):
            opt.zero_grad()
            loss_of(m, x, t).backward()
            torch.nn.utils.clip_grad_norm_(m.parameters(), 1.0)
            opt.step()
    m.eval()


def run_resume(c):
    rng = np.random.RandomState(c["seed"])
    a = new(c, rng)
    x = torch.tensor(a.inputs(rng, 4, 0.9))
    y0 = call(a.m, x).clone()
    data = []
    for _ in range(3):
        xx = torch.tensor(a.inputs(rng, 4, 0.9))
        data.append((xx, torch.tensor(rng.normal(size=tuple(y0.shape)))))
    frozen0 = [v.clone() for p, v in a.m.named_parameters() if not v.requires_grad]
    w0 = [p.detach().clone() for p in trainable(a.m)]
    oa = optimizer(c, a.m)
    train(a.m, oa, data, c["k1"], c["seed"] % 1000)
    frozen1 = [v for p, v in a.m.named_parameters() if not v.requires_grad]
    check(len(frozen0) == len(frozen1) and all(
        torch.equal(p, q) for p, q in zip(frozen0, frozen1)), "training changed a frozen tensor")
    moved = any(not torch.equal(p.detach(), q) for p, q in zip(trainable(a.m), w0))
    with sut("save and load"):
        if c["via"] == "state":
            b = zoo.build(c["model"])
            b.m.eval()
            b.m.load_state_dict(roundtrip(a.m.state_dict()))
            b = b.m
        else:
            b = roundtrip(a.m)
        ob = optimizer(c, b)
        ob.load_state_dict(roundtrip(oa.state_dict()))
    close(call(b, x), call(a.m, x), "restored model")
    train(a.m, oa, data[::-1], c["k2"], 77)
    train(b, ob, data[::-1], c["k2"], 77)
    close(call(b, x), call(a.m, x), "restored model trained on")
    return moved


SUBS = [
    Sub("save_load", save_case(), run_save,
        "the fresh instance computed something else before loading, or had never been called",
        quick=1500),
    Sub("parameters", params_case(), run_params, "the model has documented weights", quick=1500),
    Sub("copy", copy_case(), run_copy, "trainable, and the change is visible", quick=1200),
    Sub("descent", descent_case(), run_descent, "a step lowered the loss", quick=1000),
    Sub("resume", resume_case(), run_resume, "training moved the weights", quick=700),
]
for s_ in SUBS:
    s_.plain = True
ASSUMPTIONS = [
    "a gradient step is said to fail only if no step size lowers the loss at two or more of four "
    "random points (kinks of the model can defeat a single point)",
]
QUICK_ROUNDS = 2
