"""C24 configured models, losses and optimizers are the ones described."""
import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st
from omegaconf import OmegaConf

from high_order_layers_torch import layers as L
from high_order_layers_torch import modules as MD
from pbt import gen, lay, ref
from pbt.core import Sub, sut
from pbt.util import T, arr, call, check, fail, set_, within

HEAVY = True
KU = ref.K * ref.U
DENSE = ["continuous", "discontinuous", "polynomial", "fourier", "continuous_prod",
         "discontinuous_prod", "polynomial_prod", "switch_continuous", "switch_discontinuous"]
CONV = ["continuous1d", "discontinuous1d", "polynomial1d", "fourier1d"]


@st.composite
def dense_cfg(draw):
    return {
        "kind": draw(gen.pick("high_order", "high_order", "high_order_input")),
        "type": draw(st.sampled_from(DENSE)),
        "n": draw(st.integers(2, 5)),
        "n3": [draw(st.one_of(st.none(), st.integers(2, 5))) for _ in range(3)],
        "segs": [draw(gen.size(1, 4, (9, 17))) for _ in range(3)],
        "in": draw(gen.size(1, 4, (7,))), "hidden": draw(gen.size(1, 5, (9, 17))),
        "out": draw(gen.size(1, 4, (9,))), "layers": draw(gen.size(1, 4, (6, 9))),
        "normalize": draw(gen.pick(True, False)),
    }


@st.composite
def conv_cfg(draw, kinds=("high_order_conv", "high_order_tail_focus")):
    k = draw(gen.size(1, 3, (4, 5)))
    ks = [draw(st.integers(1, 3)) for _ in range(k)]
    stride = draw(gen.pick(None, "list", "int"))
    st_ = [draw(st.integers(1, 2)) if k < 4 else draw(gen.pick(1, 1, 1, 2)) for _ in range(k)]
    lists = draw(st.booleans())
    return {
        "kind": draw(st.sampled_from(list(kinds))),
        "type": draw(st.sampled_from(CONV)),
        "types": [draw(st.sampled_from(CONV)) for _ in range(k)],
        "lists": lists,
        "n": [draw(st.integers(2, 4)) for _ in range(k)],
        "segs": [draw(st.integers(1, 4)) for _ in range(k)],
        "ch": [draw(st.integers(1, 3)) for _ in range(k + 1)],
        "k": ks,
        "stride": None if stride is None else st_ if stride == "list" else st_[0],
        "focus": draw(st.one_of(st.integers(1, 4), st.lists(st.integers(1, 5), min_size=k,
                                                            max_size=k))),
        "periodicity": draw(gen.pick(None, None, 2.0, 1.0)),
        "features": draw(st.integers(20, 30)) * (1 if k < 4 else 3),
        "out": draw(st.integers(1, 4)),
        "normalize": draw(gen.pick(True, False)),
    }


OPT = {
    "name": gen.pick("adam", "lion"),
    "lr": gen.pick(1e-3, 1e-4, 0.1, 0.05),
    "scheduler": gen.pick(None, "plateau", "exponential", "none"),
    "patience": st.integers(0, 4),
    "factor": gen.pick(0.1, 0.5, 0.25),
    "gamma": gen.pick(0.9, 0.5, 0.99),
}


@st.composite
def opt_cfg(draw):
    return {k: draw(v) for k, v in OPT.items()}


def to_cfg(c, opt=None, classes=None):
    net = {"model_type": c["kind"], "normalize": c["normalize"]}
    if "hidden" in c:
        net.update(layer_type=c["type"], n=c["n"], n_in=c["n3"][0], n_hidden=c["n3"][1],
                   n_out=c["n3"][2], input={"segments": c["segs"][0], "width": c["in"]},
                   hidden={"segments": c["segs"][1], "layers": c["layers"],
                           "width": c["hidden"]},
                   output={"segments": c["segs"][2], "width": c["out"]})
    else:
        net.update(layer_type=c["types"] if c["lists"] else c["type"],
                   n=c["n"] if c["lists"] else c["n"][0],
                   channels=c["ch"], segments=c["segs"] if c["lists"] else c["segs"][0],
                   kernel_size=c["k"], periodicity=c["periodicity"], stride=c["stride"],
                   focus=c["focus"], features=c["features"], out_features=c["out"])
    cfg = {"net": net, "data": {"classes": classes or max(2, c["out"])}}
    if opt is not None:
        cfg["optimizer"] = opt
    return OmegaConf.create(cfg)


def tidy(c):
    """Fourier layers take no periodicity."""
    if "ch" in c:
        types = c["types"] if c["lists"] else [c["type"]] * len(c["k"])
        if "fourier1d" in types:
            c["periodicity"] = None
    return c


def reference(c):
    """The described network from the package's own layers: list of stages,
    each a module or 'bn' or 'relu' or 'level'."""
    if "hidden" in c:
        n = [v or c["n"] for v in c["n3"]]
        mk = lambda n_, i, o, s: lay.make(c["type"], n_, i, o, s)  # noqa
        bn = ["bn"] if c["normalize"] else []
        h = c["hidden"]
        if c["kind"] == "high_order":
            st_ = [mk(n[0], c["in"], h, c["segs"][0])]
            for _ in range(c["layers"]):
                st_ += bn + [mk(n[1], h, h, c["segs"][1])]
            return st_ + bn + [mk(n[2], h, c["out"], c["segs"][2])]
        st_ = [mk(c["n"], c["in"], h, c["segs"][0])] + bn
        st_ += [torch.nn.Linear(h, h)]
        for _ in range(c["layers"] - 1):
            st_ += bn + ["relu", torch.nn.Linear(h, h)]
        return st_ + bn + ["relu", torch.nn.Linear(h, c["out"])]
    k = len(c["k"])
    types = c["types"] if c["lists"] else [c["type"]] * k
    n = c["n"] if c["lists"] else [c["n"][0]] * k
    segs = c["segs"] if c["lists"] else [c["segs"][0]] * k
    s = c["stride"]
    s = [1] * k if s is None else [s] * k if isinstance(s, int) else s
    st_ = []
    for i in range(k):
        kw = {} if c["periodicity"] is None else {"periodicity": c["periodicity"]}
        with sut("construction of a convolution"):
            layer = L.high_order_convolution_layers(
                layer_type=types[i], n=n[i], in_channels=c["ch"][i], out_channels=c["ch"][i + 1],
                kernel_size=c["k"][i], segments=segs[i], length=2.0, rescale_output=False,
                stride=s[i], **kw)
        st_ += [layer, "bn", "level"]
    return st_


def owner_weights(m, x):
    mods, y = lay.owners(m, x)
    ws = []
    for q in mods:
        for p in q._parameters.values():
            if p is not None and p.dim() >= 2:
                b = [v for v in q._parameters.values() if v is not None and v.dim() == 1
                     and isinstance(q, torch.nn.Linear)]
                ws.append((p, b[0] if b else None))
    return ws, y


def evaluate(stages, x, eps, c):
    tails, k = [], 0
    level = 0
    focus = c.get("focus")
    for s in stages:
        if s == "bn":
            x = x / np.sqrt(1 + eps[k])
            k += 1
        elif s == "relu":
            x = torch.relu(x)
        elif s == "level":
            level += 1
        else:
            if c["kind"] == "high_order_tail_focus":
                f = focus if isinstance(focus, int) else focus[level]
                tails.append(x[:, :, -f:].flatten(1))
            x = call(s, x)
    if c["kind"] == "high_order_tail_focus":
        return torch.cat(tails + [x.flatten(1)], 1)
    return x.flatten(1)


def run_select(c):
    tidy(c["net"])
    n = c["net"]
    rng = np.random.RandomState(c["seed"])
    cfg = to_cfg(n)
    with sut("select_network"):
        m = MD.select_network(cfg)
    m.eval()
    x = torch.tensor(rng.uniform(-0.95, 0.95, size=(
        (c["batch"], n["in"]) if "hidden" in n else (c["batch"], n["ch"][0], n["features"]))
    ).astype(np.float32))
    ws, y = owner_weights(m, x)
    check(tuple(y.shape) == (c["batch"], n["out"]), f"output of shape {tuple(y.shape)}, expected "
          f"{(c['batch'], n['out'])}")
    stages = reference(n)
    rw = []
    for s in stages:
        if isinstance(s, torch.nn.Module):
            for q in s.modules():
                for p in q._parameters.values():
                    if p is not None and p.dim() >= 2:
                        b = q.bias if isinstance(q, torch.nn.Linear) else None
                        rw.append((p, b))
    head = None
    if "ch" in n:
        if not ws:
            fail("no weights executed")
        head = ws[-1]
        ws = ws[:-1]
    check(len(ws) == len(rw), f"{len(ws)} weight tensors executed, {len(rw)} configured")
    for (p, b), (q, d) in zip(ws, rw):
        check(tuple(p.shape) == tuple(q.shape), f"weights of shape {tuple(p.shape)}, configured "
              f"{tuple(q.shape)}")
        v = rng.uniform(-1, 1, size=tuple(p.shape)) / np.sqrt(max(1, p.shape[1]))
        set_(p, v)
        set_(q, v)
        check((b is None) == (d is None), "bias present where none is configured, or missing")
        if b is not None:
            v = rng.uniform(-0.3, 0.3, size=tuple(b.shape))
            set_(b, v)
            set_(d, v)
    bns = [q for q in m.modules() if isinstance(q, torch.nn.modules.batchnorm._NormBase)]
    want = sum(1 for s in stages if isinstance(s, str) and s == "bn")
    check(len(bns) == want, f"{len(bns)} normalisations, {want} configured")
    out = evaluate(stages, x, [q.eps for q in bns], n)
    if head is not None:
        W, b = head
        check(tuple(W.shape) == (n["out"], out.shape[1]), f"final layer {tuple(W.shape)} for "
              f"{out.shape[1]} features")
        v = rng.normal(size=tuple(W.shape)) / np.sqrt(W.shape[1])
        set_(W, v)
        if b is not None:
            set_(b, np.linspace(-1, 1, n["out"]))
        out = out @ W.detach().T + (0 if b is None else b.detach())
    got = call(m, x)
    a, b = arr(got), arr(out)
    fin = np.isfinite(a) & np.isfinite(b) & (np.abs(b) < 1e6)
    if not fin.all() or np.abs(b).max() > 20:
        return False
    disc = "discontinuous" in str(n["type"]) + str(n.get("types"))
    bad = np.abs(a - b) > 2e-3 * (1 + np.abs(b).max())
    if disc and bad.any(axis=1).mean() <= 0.34:
        bad[:] = False  # rounding may select the neighbouring segment for a sample
    check(not bad.any(), lambda: f"output {a[bad][0]!r}, the described network gives {b[bad][0]!r}")
    return True


@st.composite
def select_case(draw):
    return {"net": draw(st.one_of(dense_cfg(), conv_cfg())), "batch": draw(st.integers(3, 6)),
            "seed": draw(gen.SEED)}


@st.composite
def reject_case(draw):
    which = draw(gen.pick("model", "optimizer"))
    text = draw(st.one_of(gen.pick("", "high-order", "HIGH_ORDER", "conv", "adamw", "Adam", "sgd",
                                   "sophia", "adahessian", "none", "high_order_input "),
                          st.text("abcdefghijklmnopqrstuvwxyz_0123456789", max_size=12)))
    return {"which": which, "name": text, "net": draw(dense_cfg()), "opt": draw(opt_cfg()),
            "seed": 0}


def run_reject(c):
    n = dict(c["net"])
    if c["which"] == "model":
        if c["name"] in ("high_order", "high_order_input", "high_order_conv",
                         "high_order_tail_focus"):
            return False
        n["kind"] = c["name"]
        with sut("select_network", allow=(ValueError,)):
            try:
                MD.select_network(to_cfg(n))
            except ValueError:
                return True
        fail(f"model type {c['name']!r} accepted")
    if c["name"] in ("adam", "lion"):
        return False
    with sut("construction"):
        m = MD.RegressionNet(to_cfg(n, dict(c["opt"], name=c["name"])))
    with sut("configure_optimizers", allow=(ValueError,)):
        try:
            m.configure_optimizers()
        except ValueError:
            return True
    fail(f"optimizer {c['name']!r} accepted")


class Stub(torch.nn.Module):
    """Logits are the input; remembers that it was called."""

    def __init__(self):
        super().__init__()
        self.calls = 0

    def forward(self, x):
        self.calls += 1
        return x


@st.composite
def step_case(draw):
    return {
        "task": draw(gen.pick("class", "class", "regression")),
        "stage": draw(gen.pick("training", "validation", "test")),
        "stub": draw(gen.pick(True, True, False)),
        "net": draw(dense_cfg()),
        "opt": draw(opt_cfg()),
        "batch": draw(gen.size(2, 6, (1, 20, 65, 257))),
        "classes": draw(gen.size(2, 6, (12, 130, 300, 600))),
        "label_shape": draw(gen.pick("flat", "column")),
        "scale": draw(gen.pick(1.0, 1.0, 20.0, 1e-2, 1e3)),
        "extra": draw(gen.pick((), (3,), (2, 2))),
        "seed": draw(gen.SEED),
    }


def run_step(c):
    rng = np.random.RandomState(c["seed"])
    n = c["net"]
    B = c["batch"]
    n["out"] = c["classes"] if c["task"] == "class" else n["out"]
    cls = MD.ClassificationNet if c["task"] == "class" else MD.RegressionNet
    with sut("construction of the training module"):
        m = cls(to_cfg(n, c["opt"], c["classes"]))
    logged = {}
    m.log = lambda name, value, *a, **k: logged.__setitem__(name, value)
    m.log_dict = lambda d, *a, **k: logged.update(d)
    m.eval()
    if c["stub"]:
        m.model = Stub()
        shape = (B, c["classes"]) if c["task"] == "class" else (B, 1) + tuple(c["extra"])
        x = T(rng.normal(size=shape) * c["scale"])
        pred = x
    else:
        x = T(rng.uniform(-0.9, 0.9, size=(B, n["in"])))
        pred = call(m, x)
    same = call(m, x)
    check(torch.equal(torch.nan_to_num(same), torch.nan_to_num(call(m.model, x))),
          "forward is not the model's output")
    p = arr(pred)
    if not np.isfinite(p).all() or np.abs(p).max() > 1e4:
        return False
    if c["task"] == "class":
        lab = rng.randint(c["classes"], size=B)
        near = p.argmax(1) + rng.choice([0, 0, 0, 1, -1, 128, 256], size=B)
        lab = np.where(rng.uniform(size=B) < 0.6, near % c["classes"], lab)
        y = torch.tensor(lab if c["label_shape"] == "flat" else lab[:, None])
    else:
        t = rng.normal(size=p.shape) * c["scale"]
        y = T(t)
        if c["label_shape"] == "flat":
            y = y.flatten()
    name = {"training": "train", "validation": "val", "test": "test"}[c["stage"]]
    with sut(f"{c['stage']}_step"):
        loss = getattr(m, f"{c['stage']}_step")((x, y), 0)
    if c["task"] == "class":
        mx = p.max(1, keepdims=True)
        lse = mx[:, 0] + np.log(np.exp(p - mx).sum(1))
        want = (lse - p[np.arange(B), lab]).mean()
        tol = KU * 8 * (1 + np.abs(p).max())
    else:
        d = p.flatten() - arr(y).flatten()
        want = (d ** 2).mean()
        tol = KU * 8 * ((d ** 2).mean() + (np.abs(d) * (np.abs(p.flatten()) + np.abs(
            arr(y).flatten()))).mean())
    within(loss.detach().reshape(1), [want], [tol + KU * abs(want)], f"{c['stage']} loss")
    check(f"{name}_loss" in logged, f"{c['stage']} step logged {sorted(logged)}")
    within(torch.as_tensor(logged[f"{name}_loss"]).detach().reshape(1), [want],
           [tol + KU * abs(want)], "logged loss")
    other = [k for k in logged if not k.startswith(name)]
    check(not other, f"{c['stage']} step logged {other}")
    if c["task"] == "class":
        check(f"{name}_acc" in logged, f"{c['stage']} step logged {sorted(logged)}")
        acc = float(logged[f"{name}_acc"])
        top = np.sort(p, axis=1)
        sure = top[:, -1] > top[:, -2]
        hit = p.argmax(1) == lab
        lo, hi = (hit & sure).sum() / B, (hit | ~sure).sum() / B
        check(lo - 1e-6 <= acc <= hi + 1e-6, f"accuracy {acc}, {hit.mean()} of the predictions "
              "are correct")
        return 0 < hit.mean() < 1
    return True


@st.composite
def optimizer_case(draw):
    return {"task": draw(gen.pick("class", "regression")),
            "net": draw(st.one_of(dense_cfg(), dense_cfg(), conv_cfg())),
            "opt": draw(opt_cfg()), "seed": draw(gen.SEED)}


def run_optimizer(c):
    rng = np.random.RandomState(c["seed"])
    n, o = tidy(c["net"]), c["opt"]
    if c["task"] == "class":
        n["out"] = max(2, n["out"])
    cls = MD.ClassificationNet if c["task"] == "class" else MD.RegressionNet
    with sut("construction of the training module"):
        m = cls(to_cfg(n, o, max(2, n["out"])))
    x = T(rng.uniform(-0.9, 0.9, size=(4, n["in"]) if "hidden" in n else (
        4, n["ch"][0], n["features"])))
    m.eval()
    call(m, x)
    with sut("configure_optimizers"):
        res = m.configure_optimizers()
    sched = None
    if isinstance(res, (tuple, list)):
        check(len(res) == 2 and len(res[0]) == 1 and len(res[1]) == 1, "one optimizer, one scheduler")
        opt, sched = res[0][0], res[1][0]
    else:
        opt = res
    kinds = {q.__name__.lower() for q in type(opt).__mro__}
    check(o["name"] in kinds, f"optimizer {type(opt).__name__} for {o['name']!r}")
    check(all(abs(g["lr"] - o["lr"]) <= 1e-12 for g in opt.param_groups),
          f"learning rates {[g['lr'] for g in opt.param_groups]}, configured {o['lr']}")
    have = sorted(id(p) for g in opt.param_groups for p in g["params"])
    check(have == sorted(id(p) for p in m.parameters()),
          "the optimizer does not cover exactly the model's parameters")
    if o["scheduler"] not in ("plateau", "exponential"):
        check(sched is None, "scheduler without configuration")
        return True
    check(sched is not None, f"no scheduler for {o['scheduler']!r}")
    s = sched["scheduler"] if isinstance(sched, dict) else sched
    check(s.optimizer is opt, "the scheduler drives another optimizer")
    # one real step, then follow the learning rate
    m.train()
    with sut("optimizer step"):
        (m(x) ** 2).mean().backward()
        opt.step()
    lr = o["lr"]
    if o["scheduler"] == "exponential":
        for k in range(3):
            s.step()
            lr *= o["gamma"]
            check(abs(opt.param_groups[0]["lr"] - lr) <= 1e-9 * lr,
                  f"learning rate {opt.param_groups[0]['lr']} after {k + 1} epochs, expected {lr}")
        return True
    check(isinstance(sched, dict) and sched.get("monitor") == "train_loss",
          "the plateau scheduler does not watch train_loss")
    s.step(1.0)
    for k in range(1, 2 * (o["patience"] + 1) + 1):
        s.step(1.0)
        drops = k // (o["patience"] + 1)
        e = max(o["lr"] * o["factor"] ** drops, 0.0)
        check(abs(opt.param_groups[0]["lr"] - e) <= 1e-9 * o["lr"] + 1.01e-8,
              f"learning rate {opt.param_groups[0]['lr']} after {k} epochs without improvement, "
              f"expected {e}")
    return True


SUBS = [
    Sub("select", select_case(), run_select, "bounded output compared with the described network",
        quick=1500),
    Sub("reject", reject_case(), run_reject, "an unknown name was rejected", quick=400),
    Sub("steps", step_case(), run_step, "some but not all predictions correct, or regression",
        quick=1200),
    Sub("optimizer", optimizer_case(), run_optimizer, "always", quick=500),
]
ASSUMPTIONS = [
    "batch normalisation is compared at its initial statistics and with the epsilon it carries",
    "a network with discontinuous layers may deviate for a third of the samples (segment choice "
    "under rounding)",
]
QUICK_ROUNDS = 2
