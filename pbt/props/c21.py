"""C21 sparse Lion is Lion on touched entries and inert elsewhere."""
import copy
import io

import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import layers as L
from high_order_layers_torch.sparse_optimizers.sparse_lion import SparseLion
from pbt import gen, ref
from pbt.core import Sub, sut
from pbt.util import check, fail

KU = 16 * ref.U
LR = gen.pick(1e-4, 1e-3, 0.01, 0.1, 1.0)
BETA = gen.pick(0.9, 0.99, 0.5, 0.0, 0.95, 1.0)
WD = gen.pick(0.0, 0.0, 0.01, 0.5, 1.0)


@st.composite
def group(draw):
    first = [draw(st.integers(2, 6))] + draw(st.lists(st.integers(1, 4), max_size=2))
    g = {"shapes": [first] + draw(st.lists(st.lists(gen.size(1, 4, (0,)), max_size=3),
                                           max_size=2))}
    if draw(st.booleans()):
        g["lr"] = draw(LR)
    if draw(st.booleans()):
        g["betas"] = [draw(BETA), draw(BETA)]
    if draw(st.booleans()):
        g["weight_decay"] = draw(WD)
    return g


OPS = ["step"] * 12 + ["set_lr", "set_wd", "set_betas", "zero_none", "zero_fill", "save",
                       "save_fresh", "add_group", "set_param"]


@st.composite
def case(draw):
    defaults = {}
    if draw(st.booleans()):
        defaults["lr"] = draw(LR)
    if draw(st.booleans()):
        defaults["betas"] = [draw(BETA), draw(BETA)]
    if draw(gen.pick(True, True, False)):
        defaults["weight_decay"] = draw(WD)
    return {
        "defaults": defaults,
        "groups": draw(st.lists(group(), min_size=1, max_size=3)),
        "plain": draw(st.booleans()),
        "ops": draw(st.lists(st.sampled_from(OPS), min_size=3, max_size=16)),
        "grad": draw(gen.pick("mix", "mix", "mix", "mix", "sparse", "sparse", "dense", "constant_mask", "big_small")),
        "layout": draw(gen.pick("contiguous", "contiguous", "transposed")),
        "closure": draw(gen.pick("none", "none", "set", "autograd")),
        "seed": draw(gen.SEED),
    }


@st.composite
def long_case(draw):
    """Hundreds of steps with the occasional other operation, or large tensors."""
    c = draw(case())
    if draw(st.booleans()):
        n = draw(gen.pick(60, 110, 130, 260, 520))
        at = draw(st.dictionaries(st.integers(0, n - 1), st.sampled_from(OPS), max_size=6))
        c["ops"] = [at.get(i, "step") for i in range(n)]
        c["groups"] = c["groups"][:2]
        for g in c["groups"]:
            g["shapes"] = g["shapes"][:1]
    else:
        c["ops"] = ["step"] * draw(st.integers(2, 5)) + c["ops"][:3]
        c["groups"] = [{"shapes": [draw(gen.pick([70000], [260, 130], [3, 17, 1030], [2050, 2]))]}]
        c["plain"] = True
    return c


class Entry:
    """The recurrence for one parameter tensor."""

    def __init__(self, p):
        self.p = p
        self.c = p.detach().double().numpy().copy()
        self.r = np.zeros_like(self.c)
        self.m = np.zeros_like(self.c)
        self.rm = np.zeros_like(self.c)
        self.touched = np.zeros(self.c.shape, dtype=int)

    def step(self, g, s, before):
        """g float32 gradient or None; s settings; before the exact values."""
        now = self.p.detach().numpy()
        if g is None:
            check(np.array_equal(now, before), "a parameter without gradient changed")
            return
        lr, wd = s["lr"], s["weight_decay"]
        b1, b2 = s["betas"]
        hit = g != 0
        if not np.array_equal(now[~hit], before[~hit]):
            fail("an entry with zero gradient changed")
        g64 = g.astype(float)
        a, b = b1 * self.m, (1 - b1) * g64
        u = a + b
        ru = b1 * self.rm + KU * (np.abs(a) + np.abs(b)) + 1e-40
        ru = np.where((np.abs(a) + self.rm == 0) & (b == 0), 0.0, ru)
        c0 = self.c * (1 - lr * wd)
        r = self.r * abs(1 - lr * wd) + KU * (np.abs(self.c) + lr) + 1e-38
        c = c0 - lr * np.sign(u)
        # an interpolated momentum that rounding may turn to either side
        amb = np.abs(u) <= ru
        cand = [c0 - lr, c0, c0 + lr]
        act = now.astype(float)
        for q in cand:
            c = np.where(amb & (ru > 0) & (np.abs(act - q) <= r), q, c)
        self.c = np.where(hit, c, self.c)
        self.r = np.where(hit, r, self.r)
        self.rm = np.where(hit, abs(b2) * self.rm + KU * (np.abs(b2 * self.m) + np.abs(
            (1 - b2) * g64)) + 1e-40, self.rm)
        self.m = np.where(hit, b2 * self.m + (1 - b2) * g64, self.m)
        self.touched += hit
        bad = ~(np.abs(act - self.c) <= self.r)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            fail(f"entry {i}: {act[i]!r}, recurrence gives {self.c[i]!r} +- {self.r[i]:.2g} "
                 f"(touched {self.touched[i]} times)")
        # the value was just verified; follow it so that radii stay small
        self.c = act.copy()
        self.r = np.zeros_like(self.r)

    def momentum(self, opt):
        for v in opt.state.get(self.p, {}).values():
            if torch.is_tensor(v) and v.shape == self.p.shape and v.is_floating_point():
                d = np.abs(v.detach().double().numpy() - self.m)
                check(bool((d <= self.rm + 1e-38).all()), "momentum differs from the recurrence")
                return


def new_param(shape, rng, layout):
    w = torch.tensor(rng.normal(size=shape).astype(np.float32))
    if layout == "transposed" and len(shape) >= 2:
        w = w.permute(*range(len(shape))[::-1]).contiguous().permute(*range(len(shape))[::-1])
    return torch.nn.Parameter(w)


def gradient(shape, rng, mode, fixed):
    g = rng.normal(size=shape) * 10.0 ** rng.uniform(-3, 3)
    z = np.asarray(rng.uniform(size=shape))
    if mode == "dense":
        if rng.uniform() < 0.15:
            return None
    elif mode == "constant_mask":
        g = np.where(fixed, g, 0.0)
    elif mode == "big_small":
        g = np.where(z < 0.3, 0.0, np.sign(g) * 10.0 ** rng.uniform(-38, 30, size=shape))
    else:
        k = rng.randint(6)
        if k == 0:
            return None
        frac = {1: 1.0, 2: 0.0}.get(k, 0.5 if mode == "mix" else 0.85)
        g = np.where(z < frac, rng.choice([0.0, -0.0]), g)
    return np.asarray(g).astype(np.float32)


def run(c):
    rng = np.random.RandomState(c["seed"])
    params, settings = [], []
    base = {"lr": 1e-4, "betas": [0.9, 0.99], "weight_decay": 0.0}
    base.update(c["defaults"])

    def mk(g):
        ps = [new_param(s, rng, c["layout"]) for s in g["shapes"]]
        s = {k: g.get(k, base[k]) for k in base}
        d = {"params": list(ps)}
        d.update({k: (tuple(g[k]) if k == "betas" else g[k]) for k in base if k in g})
        return ps, s, d

    kw = dict(c["defaults"])
    if "betas" in kw:
        kw["betas"] = tuple(kw["betas"])
    groups = []
    if c["plain"]:
        ps, s, d = mk({"shapes": c["groups"][0]["shapes"]})
        params.append(ps)
        settings.append(s)
        arg = list(ps)
    else:
        for g in c["groups"]:
            ps, s, d = mk(g)
            params.append(ps)
            settings.append(s)
            groups.append(d)
        arg = groups
    with sut("construction of SparseLion"):
        opt = SparseLion(arg, **kw)
    entries = [[Entry(p) for p in ps] for ps in params]
    fixed, alive = {}, []
    steps = 0
    mixed = False
    for op in c["ops"]:
        k = rng.randint(len(params))
        if op == "step":
            grads = []
            for ps in params:
                row = []
                for p in ps:
                    f = fixed.setdefault(id(p), np.asarray(rng.uniform(size=tuple(p.shape)) < 0.5))
                    row.append(gradient(tuple(p.shape), rng, c["grad"], f))
                grads.append(row)
            before = [[p.detach().numpy().copy() for p in ps] for ps in params]
            kept = []

            def assign():
                for ps, row in zip(params, grads):
                    for p, g in zip(ps, row):
                        p.grad = None if g is None else torch.tensor(g)
                        if p.grad is not None:
                            kept.append((p.grad, p.grad.clone()))

            def by_autograd():
                check(torch.is_grad_enabled(), "closure called without gradients enabled")
                loss = sum((p * torch.tensor(g)).sum() for ps, row in zip(params, grads)
                           for p, g in zip(ps, row) if g is not None)
                for ps in params:
                    for p in ps:
                        p.grad = None
                if torch.is_tensor(loss) and loss.requires_grad:
                    loss.backward()
                return loss

            calls = []
            if c["closure"] == "none":
                assign()
                with sut("step"):
                    out = opt.step()
                check(out is None, f"step without closure returned {out!r}")
            else:
                def closure():
                    calls.append(1)
                    if c["closure"] == "autograd":
                        by_autograd()
                    else:
                        assign()
                    return 42.5

                with sut("step with closure"):
                    out = opt.step(closure)
                check(len(calls) == 1, f"closure called {len(calls)} times")
                check(out == 42.5, f"step returned {out!r}, not the closure's loss")
            for g, g0 in kept:
                check(torch.equal(g, g0), "the optimizer modified a gradient")
            for es, row, bs, s in zip(entries, grads, before, settings):
                for e, g, b in zip(es, row, bs):
                    e.step(g, s, b)
                    if g is not None:
                        mixed = mixed or (bool((g == 0).any()) and bool((g != 0).any()))
            for es in entries:
                for e in es:
                    e.momentum(opt)
            steps += 1
        elif op in ("set_lr", "set_wd", "set_betas"):
            key = {"set_lr": "lr", "set_wd": "weight_decay", "set_betas": "betas"}[op]
            v = {"lr": lambda: float(rng.choice([1e-3, 0.02, 0.3])),
                 "weight_decay": lambda: float(rng.choice([0.0, 0.1, 0.7])),
                 "betas": lambda: (float(rng.choice([0.5, 0.9])), float(rng.choice([0.3, 0.99])))
                 }[key]()
            opt.param_groups[k][key] = v
            settings[k] = dict(settings[k], **{key: v})
        elif op == "zero_none":
            with sut("zero_grad"):
                opt.zero_grad()
        elif op == "zero_fill":
            with sut("zero_grad"):
                opt.zero_grad(set_to_none=False)
        elif op == "save":
            with sut("saving and loading the optimizer state"):
                buf = io.BytesIO()
                torch.save(opt.state_dict(), buf)
                buf.seek(0)
                opt.load_state_dict(torch.load(buf, weights_only=False))
        elif op == "save_fresh":
            buf = io.BytesIO()
            with sut("saving the optimizer state"):
                torch.save(opt.state_dict(), buf)
            buf.seek(0)
            fresh = []
            for ps, es in zip(params, entries):
                for i, e in enumerate(es):
                    q = torch.nn.Parameter(e.p.detach().clone())
                    alive.append(e.p)
                    fixed[id(q)] = fixed.get(id(e.p), np.ones(tuple(q.shape), bool))
                    e.p = q
                    ps[i] = q
                fresh.append({"params": list(ps)})
            base.update({"lr": 0.37, "betas": [0.1, 0.2], "weight_decay": 0.9})
            with sut("restoring the optimizer state in a fresh optimizer"):
                opt = SparseLion(fresh, lr=0.37, betas=(0.1, 0.2), weight_decay=0.9)
                opt.load_state_dict(torch.load(buf, weights_only=False))
        elif op == "add_group":
            g = {"shapes": [[int(v) for v in rng.randint(1, 4, size=rng.randint(0, 3))]],
                 "lr": float(rng.choice([0.003, 0.2])), "weight_decay": 0.25}
            ps, s, d = mk(g)
            with sut("add_param_group"):
                opt.add_param_group(d)
            params.append(ps)
            settings.append(s)
            entries.append([Entry(p) for p in ps])
        elif op == "set_param":
            for e in entries[k]:
                v = rng.normal(size=tuple(e.p.shape)).astype(np.float32)
                with torch.no_grad():
                    e.p.copy_(torch.tensor(v))
                e.c = e.p.detach().double().numpy().copy()
                e.r = np.zeros_like(e.c)
    return steps >= 2 and mixed


@st.composite
def layer_case(draw):
    return {
        "type": draw(gen.pick("continuous", "discontinuous", "switch_continuous")),
        "n": draw(st.integers(2, 4)),
        "segs": draw(st.integers(2, 6)),
        "in": draw(st.integers(1, 3)), "out": draw(st.integers(1, 3)),
        "lr": draw(gen.pick(0.001, 0.01, 0.1)),
        "wd": draw(gen.pick(0.0, 0.1, 1.0)),
        "steps": draw(st.integers(1, 6)),
        "batch": draw(st.integers(1, 3)),
        "seed": draw(gen.SEED),
    }


def run_layer(c):
    """Training a piecewise layer on points of one segment leaves the weights of
    all other segments alone."""
    rng = np.random.RandomState(c["seed"])
    with sut("construction"):
        m = L.high_order_fc_layers(layer_type=c["type"], n=c["n"], in_features=c["in"],
                                   out_features=c["out"], segments=c["segs"], length=2.0)
        opt = SparseLion(m.parameters(), lr=c["lr"], weight_decay=c["wd"])
    ps = [p for p in m.parameters() if p.dim() == 3]
    entries = [Entry(p) for p in ps]
    s = {"lr": c["lr"], "weight_decay": c["wd"], "betas": [0.9, 0.99]}
    w0 = [p.detach().clone() for p in ps]
    seg = rng.randint(c["segs"])
    moved = False
    for _ in range(c["steps"]):
        u = rng.uniform(0.1, 0.9, size=(c["batch"], c["in"]))
        x = torch.tensor((-1 + (seg + u) * 2 / c["segs"]).astype(np.float32))
        opt.zero_grad()
        with sut("training step"):
            ((m(x) - torch.tensor(rng.normal(size=(c["batch"], c["out"])).astype(np.float32)))
             ** 2).mean().backward()
        before = [p.detach().numpy().copy() for p in ps]
        grads = [None if p.grad is None else p.grad.numpy().copy() for p in ps]
        with sut("step"):
            opt.step()
        for e, g, b in zip(entries, grads, before):
            e.step(g, s, b)
    for p, w in zip(ps, w0):
        n = c["n"]
        if "discontinuous" in c["type"]:
            own = list(range(seg * n, seg * n + n))
        else:
            own = list(range(seg * (n - 1), seg * (n - 1) + n))
        other = [j for j in range(p.shape[2]) if j not in own]
        d = (p.detach() - w).abs()
        check(float(d[:, :, other].max() if other else 0) == 0.0,
              "training inside one segment changed the weights of another")
        moved = moved or float(d[:, :, own].max()) > 0
    return moved


SUBS = [
    Sub("history", case(), run, "two or more steps, gradients with zero and non-zero entries",
        quick=3000),
    Sub("long", long_case(), run, "as history; 60 to 520 operations or thousands of entries",
        quick=64),
    Sub("layer", layer_case(), run_layer, "the visited segment's weights moved", quick=600),
]
ASSUMPTIONS = [
    "where the interpolated momentum is within rounding of zero any of the three signs is accepted",
    "gradients are finite; momentum is compared if the optimizer's state holds one tensor of the "
    "parameter's shape",
]
QUICK_ROUNDS = 2
