"""C16 evaluation is per sample, layout-independent and free of side effects."""
import copy
import io
import random

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import gen, zoo
from pbt.core import Sub, sut
from pbt.util import arr, call, check

HEAVY = True


def wobble(m, x, y):
    """How much the output moves when the input is perturbed by a few roundings: an
    ill-conditioned model may amplify the rounding differences of another batch size."""
    if not x.is_floating_point() or not x.numel():
        return 0.0
    w = 0.0
    for s in (1, -1):
        z = x * (1 + s * 4e-7) + s * 4e-7 * float(x.abs().max())
        d = (call(m, z) - y).abs()
        if d.numel():
            w = max(w, float(torch.nan_to_num(d, nan=1e30, posinf=1e30).max()))
    return 20 * w


def close(a, b, what, scale=None, extra=0.0):
    a, b = arr(a), arr(b)
    check(a.shape == b.shape, f"{what}: shapes {a.shape} and {b.shape}")
    if a.size == 0:
        return
    s = scale if scale is not None else 1 + max(np.nanmax(np.abs(a), initial=0), np.nanmax(
        np.abs(b), initial=0))
    # evaluation orders may differ by rounding only
    bad = ~(np.abs(a - b) <= 2e-4 * s + extra) & ~(np.isnan(a) & np.isnan(b)) & (a != b)
    bad &= ~(np.abs(a) + np.abs(b) > 1e34)  # beyond single precision
    check(not bad.any(), lambda: f"{what}: {a[bad][0]!r} vs {b[bad][0]!r}")


def ready(c):
    rng = np.random.RandomState(c["seed"])
    model = zoo.build(c["model"])
    zoo.materialise(model, rng)
    zoo.fill(model, rng)
    return rng, model


def state(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def same_state(m, s, what):
    for k, v in m.state_dict().items():
        check(torch.equal(torch.nan_to_num(v), torch.nan_to_num(s[k])), f"{what} changed {k}")


@st.composite
def batch_case(draw):
    return {
        "model": draw(zoo.case_strategy(zoo.EVERY)),
        "batch": draw(gen.size(2, 6, (16, 33, 65, 130, 257))),
        "big": draw(st.booleans()),
        "poison": draw(gen.pick(None, "0", "nan", "inf", "-inf", "1e30")),
        "seed": draw(gen.SEED),
    }


def surroundings():
    return {"random generator": torch.get_rng_state().numpy().tobytes(),
            "numpy random generator": (np.random.get_state()[1].tobytes(),
                                        np.random.get_state()[2]),
            "python random generator": random.getstate(),
            "default dtype": torch.get_default_dtype(),
            "gradient mode": torch.is_grad_enabled(),
            "number of threads": torch.get_num_threads()}


def run_batch(c):
    rng, model = ready(c)
    m = model.m
    B = c["batch"]
    x = torch.tensor(model.inputs(rng, B))
    before = state(m)
    x0 = x.clone()
    world = surroundings()
    y = call(m, x)
    for k, v in surroundings().items():
        check(v == world[k], f"evaluation changed the {k}")
    check(y.shape[0] == B, f"batch of {B} gave {tuple(y.shape)}")
    check(torch.equal(x, x0), "evaluation modified its input")
    same_state(m, before, "evaluation")
    close(call(m, x), y, "second evaluation of the same input")
    y0 = y.clone()
    with torch.no_grad():
        y.fill_(123.0)  # the caller owns the result
    close(call(m, x), y0, "evaluation after the caller overwrote an earlier result")
    check(torch.equal(x, x0), "the result shares memory with the input")
    y = y0
    if not torch.isfinite(y).all():
        return False
    e = wobble(m, x, y)
    perm = torch.tensor(rng.permutation(B))
    close(call(m, x[perm]), y[perm], "permuted batch", extra=e)
    cut = rng.randint(1, B)
    close(torch.cat([call(m, x[:cut]), call(m, x[cut:])]), y, "split batch", extra=e)
    b = rng.randint(B)
    scale = 1 + float(y[b].abs().max()) if y[b].numel() else 1.0
    close(call(m, x[b:b + 1])[0], y[b], "single sample", scale, e)
    # other samples replaced
    z = torch.tensor(model.inputs(rng, B, 40.0 if c["big"] else 1.0))
    z[b] = x[b]
    close(call(m, z)[b], y[b], "a sample's output depends on other samples", scale, e)
    if x.is_floating_point() and c["poison"] is not None:
        z = x.clone()
        z[[k for k in range(B) if k != b and rng.randint(2)]] = float(c["poison"])
        close(call(m, z)[b], y[b], f"a sample's output beside samples of {c['poison']}", scale, e)
    # duplicated samples
    idx = torch.tensor(rng.randint(B, size=B + 3))
    close(call(m, x[idx]), y[idx], "repeated samples", extra=e)
    with sut("forward with gradients"):
        yg = m(x.clone().requires_grad_(True)) if x.is_floating_point() else m(x)
    close(yg, y, "evaluation with gradient recording", extra=e)
    return bool((y - y[:1]).abs().max() > 1e-3) if y.numel() else False


@st.composite
def layout_case(draw):
    return {
        "model": draw(zoo.case_strategy(zoo.EVERY)),
        "batch": draw(gen.size(1, 5, (17, 65))),
        "layouts": draw(st.lists(gen.pick("transpose", "stride", "offset", "expand", "flip",
                                          "channels_last", "narrow"), min_size=1, max_size=3,
                                 unique=True)),
        "seed": draw(gen.SEED),
    }


def relayout(x, how, rng):
    """Same values, other memory layout."""
    if how == "transpose":
        dims = list(range(x.dim()))[::-1]
        return x.permute(*dims).contiguous().permute(*dims)
    if how == "stride":
        z = torch.full(tuple(x.shape[:-1]) + (2 * x.shape[-1],), 9.0)
        z[..., ::2] = x
        return z[..., ::2]
    if how == "offset":
        z = torch.full((x.numel() + 7,), 9.0)
        z[7:] = x.flatten()
        return z[7:].view(x.shape)
    if how == "narrow":
        z = torch.full(tuple(s + 2 for s in x.shape), 9.0)
        sl = tuple(slice(1, 1 + s) for s in x.shape)
        z[sl] = x
        return z[sl]
    if how == "flip":
        return x.flip(0).contiguous().flip(0)
    if how == "channels_last":
        if x.dim() == 4:
            return x.contiguous(memory_format=torch.channels_last)
        return x
    raise ValueError(how)


def run_layout(c):
    rng, model = ready(c)
    m = model.m
    x = torch.tensor(model.inputs(rng, c["batch"]))
    y = call(m, x).clone()
    e = wobble(m, x, y)
    nt = False
    for how in c["layouts"]:
        if how == "expand":
            one = x[:1].expand(c["batch"], *x.shape[1:])
            close(call(m, one), y[:1].expand(c["batch"], *y.shape[1:]), "expanded input",
                  extra=e)
            continue
        z = relayout(x, how, rng)
        z0 = z.clone()
        close(call(m, z), y, f"input layout {how}", extra=e)
        check(torch.equal(z, z0), f"evaluation modified its input (layout {how})")
        nt = nt or not z.is_contiguous() or how == "offset"
    return nt


OPS = ["eval", "eval", "eval_other", "train_forward", "backward", "sgd", "set_weights", "reload",
       "deepcopy", "pickle", "mode", "zero_grad", "half_batch", "refill", "refill"]


@st.composite
def history_case(draw):
    return {
        "model": draw(zoo.case_strategy(zoo.EVERY)),
        "ops": draw(st.lists(gen.pick(*OPS), min_size=2, max_size=8)),
        "seed": draw(gen.SEED),
    }


def fresh_like(c, m, rng):
    f = zoo.build(c["model"])
    zoo.materialise(f, rng)
    with sut("load_state_dict"):
        f.m.load_state_dict(copy.deepcopy(m.state_dict()))
    f.m.eval()
    return f.m


def run_history(c):
    rng, model = ready(c)
    m = model.m
    xs = [torch.tensor(model.inputs(rng, b)) for b in (3, 1, 5)]
    changed = False
    for op in c["ops"]:
        x = xs[rng.randint(len(xs))]
        if op == "eval":
            m.eval()
            s = state(m)
            y = call(m, x)
            same_state(m, s, "evaluation")
        elif op == "eval_other":
            m.eval()
            call(m, torch.tensor(model.inputs(rng, rng.randint(1, 7), 30.0)))
        elif op == "refill":  # the caller reuses its input buffer
            m.eval()
            call(m, x)
            x.copy_(torch.tensor(model.inputs(rng, len(x))))
            call(m, x)
        elif op == "half_batch":
            m.eval()
            call(m, x[: max(1, len(x) // 2)])
        elif op == "train_forward":
            if not (len(x) == 1 and any(isinstance(q, torch.nn.modules.batchnorm._BatchNorm)
                                        for q in m.modules())):
                m.train()
                with sut("forward in training mode"):
                    m(x)
                m.eval()
        elif op in ("backward", "sgd"):
            ps = [p for p in m.parameters() if p.requires_grad]
            if not ps:
                continue
            m.eval()
            with sut("forward and backward"):
                (m(x) ** 2).mean().backward()
            if op == "sgd":
                with torch.no_grad():
                    for p in ps:
                        if p.grad is not None:
                            p -= 0.05 * p.grad.clamp(-1, 1)
                            p.grad = None
                changed = True
        elif op == "set_weights":
            zoo.fill(model, rng)
            changed = True
        elif op == "reload":
            buf = io.BytesIO()
            with sut("save and load"):
                torch.save(m.state_dict(), buf)
                buf.seek(0)
                m.load_state_dict(torch.load(buf, weights_only=True))
        elif op == "deepcopy":
            with sut("deepcopy"):
                m = copy.deepcopy(m)
            model.m = m
        elif op == "pickle":
            buf = io.BytesIO()
            with sut("pickling"):
                torch.save(m, buf)
                buf.seek(0)
                m = torch.load(buf, weights_only=False)
            model.m = m
        elif op == "mode":
            m.train()
            m.eval()
        elif op == "zero_grad":
            m.zero_grad()
    m.eval()
    f = fresh_like(c, m, rng)
    for x in xs:
        close(call(m, x), call(f, x), "a model with a history differs from a fresh one with the "
              "same weights")
    xs[0].copy_(torch.tensor(model.inputs(rng, len(xs[0]))))
    close(call(m, xs[0]), call(f, xs[0].clone()), "an input buffer was filled anew")
    # the oldest input once more: nothing remembered
    close(call(m, xs[0]), call(f, xs[0]), "evaluation depends on earlier calls")
    return changed


@st.composite
def precision_case(draw):
    return {
        "model": draw(zoo.case_strategy(zoo.EVERY)),
        "batch": draw(gen.size(1, 5, (17,))),
        "back": draw(st.booleans()),
        "seed": draw(gen.SEED),
    }


def run_precision(c):
    """Converted to double precision, a model computes the same function."""
    rng, model = ready(c)
    m = model.m
    x = torch.tensor(model.inputs(rng, c["batch"]))
    if not x.is_floating_point():
        return False
    y = call(m, x).clone()
    s0 = state(m)
    with sut("conversion to double precision"):
        d = copy.deepcopy(m).double()
    z = x.double()
    y2 = call(d, z)
    check(y2.dtype == torch.float64, f"double precision model returned {y2.dtype}")
    check(torch.equal(z, x.double()), "evaluation modified its input")
    if not torch.isfinite(y).all():
        return False
    # conditioning: roundings of the input and of the weights
    e = wobble(d, z, y2)
    for _ in range(2):
        q = copy.deepcopy(d)
        with torch.no_grad():
            for p in list(q.parameters()) + list(q.buffers()):
                if p.is_floating_point():
                    p += 4e-7 * (p.abs() + float(p.abs().max())) * torch.tensor(
                        rng.uniform(-1, 1, size=tuple(p.shape)))
        v = (call(q, z) - y2).abs()
        if v.numel():
            e = max(e, 20 * float(torch.nan_to_num(v, nan=1e30, posinf=1e30).max()))
    close(y2, y, "double precision against single precision", extra=e)
    if any(p.requires_grad for p in d.parameters()):
        with sut("backward in double precision"):
            (d(z) ** 2).mean().backward()
        for n, p in d.named_parameters():
            check(p.grad is None or p.grad.dtype == torch.float64, f"gradient of {n}")
    if c["back"]:
        with sut("conversion back to single precision"):
            d = d.float()
        for k, v in d.state_dict().items():
            check(torch.equal(torch.nan_to_num(v), torch.nan_to_num(s0[k])),
                  f"conversion to double precision and back changed {k}")
        close(call(d, x), y, "after conversion to double precision and back", extra=e)
    scale = 1 + float(y.abs().max()) if y.numel() else 1.0
    return e < 1e-2 * scale


SUBS = [
    Sub("batch", batch_case(), run_batch, "samples of the batch have different outputs",
        quick=2500),
    Sub("bulk", gen.bulk(batch_case(), {}, {"batch": (400, 520, 1030, 2050)}), run_batch,
        "as batch; hundreds or thousands of samples", quick=100),
    Sub("layout", layout_case(), run_layout, "the input's layout was not the contiguous default",
        quick=1600),
    Sub("history", history_case(), run_history, "the history changes the weights", quick=1500),
    Sub("precision", precision_case(), run_precision, "well conditioned model", quick=1000),
]
for s_ in SUBS:
    s_.plain = True
ASSUMPTIONS = [
    "discontinuous layers only as first layer of a generated network (their input is exact there)",
]
