"""C23 attention weights form a distribution and masks are respected."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import attentions as A
from pbt import gen, ref
from pbt.core import Sub, sut
from pbt.util import grad_mode, T, arr, check, fail

KU = ref.K * ref.U
ALL = ["scaled", "dot", "additive", "location", "multi_location", "multi", "relative", "custom"]
ONE_QUERY = ["additive", "location", "multi_location"]
MASKED = ["scaled", "multi", "relative"]
RECURRENT = ["location", "multi_location", "custom"]


@st.composite
def case(draw, kinds=ALL):
    kind = draw(st.sampled_from(list(kinds)))
    heads = draw(gen.size(1, 4, (6, 8)))
    q = 1 if kind in ONE_QUERY else draw(gen.size(1, 4, (7, 17, 33)))
    k = draw(gen.size(1, 5, (8, 17, 33)))
    return {
        "kind": kind, "heads": heads, "dim": draw(gen.size(1, 4, (8, 16))),
        "batch": draw(gen.size(1, 4, (7, 17))), "q": q, "k": k,
        "smoothing": draw(gen.pick(None, True, False)),
        "conv": draw(gen.pick(None, 1, 3, 12)),
        "scale": draw(gen.pick(1.0, 1.0, 1.0, 0.1, 3.0, 12.0)),
        "mask": draw(gen.pick(None, "random", "random", "causal", "padding", "one_left"))
        if kind in MASKED else None,
        "mask_rows": draw(gen.pick("full", "full", "one")),
        "steps": draw(st.integers(1, 4)),
        "layout": draw(gen.pick("contiguous", "transposed")),
        "dropout": draw(gen.pick(0.0, 0.3)),
        "seed": draw(gen.SEED),
    }


def width(c):
    return c["dim"] * (c["heads"] if c["kind"] in ("multi", "multi_location", "custom",
                                                   "relative") else 1)


def build(c, rng):
    d = width(c)
    kind = c["kind"]
    ckw = {} if c["conv"] is None else {"conv_out_channel": c["conv"]}
    with sut(f"construction of {kind} attention"):
        m = {
            "scaled": lambda: A.ScaledDotProductAttention(d),
            "dot": lambda: A.DotProductAttention(d),
            "additive": lambda: A.AdditiveAttention(d),
            "location": lambda: A.LocationAwareAttention(
                d, **({} if c["smoothing"] is None else {"smoothing": c["smoothing"]})),
            "multi_location": lambda: A.MultiHeadLocationAwareAttention(d, c["heads"], **ckw),
            "multi": lambda: A.MultiHeadAttention(d, c["heads"]),
            "relative": lambda: A.RelativeMultiHeadAttention(d, c["heads"], c["dropout"]),
            "custom": lambda: A.CustomizingAttention(d, c["heads"], **ckw),
        }[kind]()
    m.eval()
    with torch.no_grad():
        for p in m.parameters():
            fan = max(1, int(np.prod(p.shape[1:])))
            p.copy_(T(rng.normal(size=tuple(p.shape)) / np.sqrt(fan) * c["scale"]))
    return m


def data(c, rng):
    d, B = width(c), c["batch"]
    mk = lambda L: rng.normal(size=(B, L, d)).astype(np.float32) * np.float32(c["scale"])  # noqa
    x = {"query": mk(c["q"]), "key": mk(c["k"]), "value": mk(c["k"]), "pos": mk(c["k"])}
    x["mask"] = mask(c, rng)
    return x


def mask(c, rng):
    """True where masked; every query keeps at least one position."""
    if c["mask"] is None:
        return None
    B, q, k = c["batch"], c["q"], c["k"]
    if c["kind"] == "relative" and c["mask_rows"] == "one":
        q = 1
    if c["mask"] == "random":
        m = rng.uniform(size=(B, q, k)) < 0.5
    elif c["mask"] == "causal":
        m = np.tile(np.triu(np.ones((q, k), bool), 1), (B, 1, 1))
    elif c["mask"] == "padding":
        m = np.arange(k)[None, None, :] >= rng.randint(1, k + 1, size=(B, 1, 1))
        m = np.tile(m, (1, q, 1))
    else:
        m = np.ones((B, q, k), bool)
    full = m.all(-1)
    keep = rng.randint(k, size=(B, q))
    for b, i in np.argwhere(full):
        m[b, i, keep[b, i]] = False
    return m


def laid(t, how):
    if how == "transposed" and t.dim() == 3:
        return t.transpose(1, 2).contiguous().transpose(1, 2)
    return t


def run(c, m, x, last=None, how="contiguous"):
    """-> context, attn (None if the module does not return it)"""
    t = {k: None if v is None else (torch.tensor(v) if k == "mask" else laid(T(v), how))
         for k, v in x.items()}
    keep = {k: v.clone() for k, v in t.items() if v is not None}
    kind = c["kind"]
    with sut(f"{kind} attention"), grad_mode():
        if kind == "scaled":
            out = m(t["query"], t["key"], t["value"]) if t["mask"] is None else m(
                t["query"], t["key"], t["value"], t["mask"])
        elif kind == "dot":
            out = m(t["query"], t["value"])
        elif kind == "additive":
            out = m(t["query"], t["key"], t["value"])
        elif kind in RECURRENT:
            out = m(t["query"], t["value"], last)
        elif kind == "multi":
            out = m(t["query"], t["key"], t["value"], t["mask"])
        else:
            out = (m(t["query"], t["key"], t["value"], t["pos"], t["mask"]), None)
    for k, v in keep.items():
        check(torch.equal(t[k], v), f"{kind} attention modified its {k}")
    return out


def per_head(c, attn, B):
    """attn as [B, heads or 1, q, k]"""
    a = arr(attn)
    kind = c["kind"]
    if kind in ("scaled", "dot"):
        return a[:, None]
    if kind in ("additive", "location"):
        return a[:, None, None]
    if kind == "multi_location":
        return a[:, :, None]
    return a.reshape(c["heads"], B, c["q"], c["k"]).transpose(1, 0, 2, 3)


def lin(q, x):
    """float64 affine map and its abs-sum (None when the parts are not there)"""
    W = ref.f64(q.weight)
    b = 0.0 if q.bias is None else ref.f64(q.bias)
    return x @ W.T + b


def softmax(s):
    e = np.exp(s - s.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def conv3(w, b, x):
    """x [B, Cin, L] -> [B, L, Cout], kernel 3, zero padding 1"""
    p = np.pad(x, [(0, 0), (0, 0), (1, 1)])
    L = x.shape[2]
    return sum(np.einsum("oc,bcl->blo", w[:, :, t], p[:, :, t:t + L]) for t in range(3)) + b


def split(z, heads):
    """[B, L, H*D] -> [B, H, L, D]"""
    B, L, D = z.shape
    return z.reshape(B, L, heads, D // heads).transpose(0, 2, 1, 3)


def merge(z):
    B, H, L, D = z.shape
    return z.transpose(0, 2, 1, 3).reshape(B, L, H * D)


def expected(c, m, x, last):
    """(context, weights [B,H,q,k], score magnitude), or None if the module's
    parts carry other names."""
    Q, K, V, P = (x[k].astype(float) for k in ("query", "key", "value", "pos"))
    kind, H, d = c["kind"], c["heads"], width(c)
    M = x["mask"]
    try:
        if kind == "scaled":
            s = (Q @ K.transpose(0, 2, 1) / np.sqrt(d))[:, None]
            vals = V[:, None]
        elif kind == "dot":
            s = (Q @ V.transpose(0, 2, 1))[:, None]
            vals = V[:, None]
        elif kind == "additive":
            h = np.tanh(lin(m.key_proj, K) + lin(m.query_proj, Q) + ref.f64(m.bias))
            s = lin(m.score_proj, h)[..., 0][:, None, None]
            vals = V[:, None]
        elif kind == "location":
            la = np.zeros((c["batch"], c["k"])) if last is None else arr(last)
            cv = conv3(ref.f64(m.conv1d.weight), ref.f64(m.conv1d.bias), la[:, None])
            h = np.tanh(lin(m.query_proj, Q) + lin(m.value_proj, V) + cv + ref.f64(m.bias))
            s = lin(m.score_proj, h)[..., 0]
            if c["smoothing"] is not False:
                g = 1 / (1 + np.exp(-s))
                a = (g / g.sum(-1, keepdims=True))[:, None, None]
                return (a[:, 0] @ V)[:, 0], a, np.abs(s).max()
            s = s[:, None, None]
            return (softmax(s)[:, 0] @ V)[:, 0], softmax(s), np.abs(s).max()
        elif kind == "multi_location":
            la = np.zeros((c["batch"], H, c["k"])) if last is None else arr(last)
            e = np.tanh(lin(m.loc_proj, conv3(ref.f64(m.conv1d.weight), ref.f64(m.conv1d.bias),
                                              la)))
            q, v = split(lin(m.query_proj, Q), H), split(lin(m.value_proj, V), H)
            h = np.tanh(v + q + e[:, None] + ref.f64(m.bias))
            s = lin(m.score_proj, h)[..., 0][:, :, None]
            vals = v
        elif kind == "multi":
            q, k, v = (split(lin(p, z), H) for p, z in (
                (m.query_proj, Q), (m.key_proj, K), (m.value_proj, V)))
            s = q @ k.transpose(0, 1, 3, 2) / np.sqrt(d // H)
            vals = v
        elif kind == "relative":
            q, k, v, p = (split(lin(a, z), H) for a, z in (
                (m.query_proj, Q), (m.key_proj, K), (m.value_proj, V), (m.pos_proj, P)))
            u, w = ref.f64(m.u_bias)[None, :, None], ref.f64(m.v_bias)[None, :, None]
            s = ((q + u) @ k.transpose(0, 1, 3, 2)
                 + shift((q + w) @ p.transpose(0, 1, 3, 2))) / np.sqrt(d)
            vals = v
        else:
            la = np.zeros((c["batch"] * H, c["k"])) if last is None else arr(last)
            e = lin(m.loc_proj, conv3(ref.f64(m.conv1d.weight), ref.f64(m.conv1d.bias),
                                      la[:, None]))
            e = e.reshape(H, c["batch"], c["k"], -1).transpose(1, 0, 2, 3)
            q = split(lin(m.query_proj, Q), H)
            vals = split(lin(m.value_proj, V), H) + e + ref.f64(m.bias).reshape(1, H, 1, -1)
            s = q @ vals.transpose(0, 1, 3, 2) / np.sqrt(d // H)
        mag = np.abs(s).max()
        if M is not None:
            s = np.where(M[:, None], -np.inf, s)
        w = softmax(s)
        ctx = merge(w @ vals)
        if kind == "relative":
            ctx = lin(m.out_proj, ctx)
        return ctx, w, mag
    except AttributeError:
        return None


def shift(p):
    """Relative shift: the padded scores read with one row less."""
    B, H, q, k = p.shape
    pad = np.concatenate([np.zeros((B, H, q, 1)), p], -1).reshape(B, H, -1)
    return pad[:, :, q:].reshape(B, H, q, k)


def distribution(c, attn, M, B):
    w = per_head(c, attn, B)
    check((w >= 0).all(), f"negative attention weight {w.min()}")
    check(np.abs(w.sum(-1) - 1).max() <= 1e-5, f"attention weights sum to {w.sum(-1).min()} .. "
          f"{w.sum(-1).max()}")
    if M is not None:
        z = np.where(np.broadcast_to(M[:, None], w.shape), w, 0.0)
        check(z.max() == 0.0, f"a masked position has weight {z.max()}")
    return w


def feed(c, attn):
    """attn of this step as the next step's last_attn"""
    if c["kind"] == "custom" and c["q"] > 1:
        return None
    return attn


def run_formula(c):
    rng = np.random.RandomState(c["seed"])
    m = build(c, rng)
    last = None
    B = c["batch"]
    steps = c["steps"] if c["kind"] in RECURRENT else 1
    named = True
    for _ in range(steps):
        x = data(c, rng)
        ctx, attn = run(c, m, x, last, c["layout"])
        e = expected(c, m, x, last)
        w = None
        if attn is not None:
            w = distribution(c, attn, x["mask"], B)
        if c["kind"] in ("scaled", "dot", "additive", "location"):
            g = arr(ctx).reshape(B, c["q"], -1)
            want = (w[:, 0] @ x["value"].astype(float))
            check(np.abs(g - want).max() <= 1e-5 * (1 + np.abs(x["value"]).max() * c["k"]),
                  "the context is not the weighted sum of the values")
        if e is None:
            named = False
        else:
            cen, ww, mag = e
            tol = 2e-5 * (1 + mag) * (4 + width(c)) ** 0.5
            if w is not None:
                check(np.abs(w - ww).max() <= tol, lambda: "attention weights differ from the "
                      f"documented score by {np.abs(w - ww).max():.3g} (tolerance {tol:.3g})")
            g = arr(ctx)
            check(g.shape == cen.shape, f"context of shape {g.shape}, expected {cen.shape}")
            vm = 1 + np.abs(cen).max() + np.abs(x["value"]).max() * c["scale"] * 4
            check(np.abs(g - cen).max() <= tol * vm * 4, lambda: "context differs from the "
                  f"documented attention by {np.abs(g - cen).max():.3g}")
        last = feed(c, attn)
    return named and c["k"] > 1


def pick(x, b):
    return {k: None if v is None else v[b:b + 1] for k, v in x.items()}


def one_attn(c, attn, b, B):
    if attn is None:
        return None
    if c["kind"] in ("multi", "custom"):
        return attn.reshape((c["heads"], B) + tuple(attn.shape[1:]))[:, b]
    return attn[b:b + 1]


def close(a, b, what):
    a, b = arr(a), arr(b)
    check(a.shape == b.shape, f"{what}: {a.shape} and {b.shape}")
    s = 1 + np.abs(a).max()
    check(np.abs(a - b).max() <= 2e-4 * s, f"{what}: {np.abs(a - b).max():.3g}")


def run_batch(c):
    """Samples evaluated together, alone and permuted, over fed-back steps."""
    rng = np.random.RandomState(c["seed"])
    m = build(c, rng)
    B = c["batch"]
    steps = c["steps"] if c["kind"] in RECURRENT else 1
    xs = [data(c, rng) for _ in range(steps)]
    last, outs = None, []
    for x in xs:
        out = run(c, m, x, last)
        outs.append(out)
        last = feed(c, out[1])
    order = rng.permutation(B)
    last = None
    for t, x in enumerate(xs):
        px = {k: None if v is None else v[order] for k, v in x.items()}
        out = run(c, m, px, last)
        last = feed(c, out[1])
        close(out[0], outs[t][0][torch.tensor(order)], f"permuted batch, step {t}")
    b = rng.randint(B)
    cb = dict(c, batch=1)
    last = None
    for t, x in enumerate(xs):
        out = run(cb, m, pick(x, b), last)
        last = feed(c, out[1])
        close(out[0], outs[t][0][b:b + 1], f"a sample alone, step {t}")
        if out[1] is not None:
            close(out[1].reshape(-1), one_attn(c, outs[t][1], b, B).reshape(-1),
                  f"weights of a sample alone, step {t}")
    # other samples replaced from the start
    last = None
    for t, x in enumerate(xs):
        o = data(c, rng)
        y = {}
        for k, v in x.items():
            if v is None or o[k] is None:
                y[k] = v
                continue
            y[k] = o[k]
            y[k][b] = v[b]
        out = run(c, m, y, last)
        last = feed(c, out[1])
        close(out[0][b], outs[t][0][b], f"other samples influence a sample, step {t}")
    return B > 1


def run_mask(c):
    """Contents of masked positions have no influence, unmasked ones do."""
    rng = np.random.RandomState(c["seed"])
    if c["mask"] is None:
        c["mask"] = "random"
    m = build(c, rng)
    x = data(c, rng)
    M = x["mask"]
    ctx, attn = run(c, m, x, None)
    w = None if attn is None else distribution(c, attn, M, c["batch"])
    Mf = np.broadcast_to(M, (c["batch"], c["q"], c["k"]))
    b, i = rng.randint(c["batch"]), rng.randint(c["q"])
    hidden = np.argwhere(Mf[b, i])[:, 0]
    y = {k: None if v is None else v.copy() for k, v in x.items()}
    for j in hidden:
        # changes other queries of this sample, and nothing for this one
        y["key"][b, j] = rng.normal(size=width(c)) * 5
        y["value"][b, j] = rng.normal(size=width(c)) * 50
    c2, a2 = run(c, m, y, None)
    close(c2[b, i], ctx[b, i], "a masked position influenced its query")
    if w is not None:
        close(torch.tensor(per_head(c, a2, c["batch"])[b, :, i]), torch.tensor(w[b, :, i]),
              "a masked position influenced its query's weights")
    rest = [q for q in range(c["batch"]) if q != b]
    if rest:
        close(c2[rest], ctx[rest], "another sample changed")
    # masking nothing is the same as no mask
    z = dict(x, mask=np.zeros_like(M))
    n = dict(x, mask=None)
    close(run(c, m, z)[0], run(c, m, n)[0], "an empty mask")
    return len(hidden) > 0 and c["batch"] > 1


SUBS = [
    Sub("formula", case(), run_formula, "more than one position, all parts found", quick=2500),
    Sub("bulk", gen.bulk(case(), {"heads": st.integers(1, 3), "dim": st.integers(1, 3),
                                  "batch": st.integers(1, 2), "k": st.integers(1, 6)},
                         {"batch": (40, 130, 300), "k": (70, 130, 300), "dim": (33, 64, 130),
                          "heads": (12, 16)}), run_formula,
        "as formula; one size large", quick=120),
    Sub("batch", case(), run_batch, "more than one sample", quick=1500),
    Sub("mask", case(MASKED), run_mask, "a query with masked positions in a batch", quick=1500),
]
ASSUMPTIONS = [
    "additive and location-aware attention are used with one query per sample; each query keeps at "
    "least one unmasked position; dropout is off (evaluation mode)",
    "the relative shift is the documented padded reshape",
]
QUICK_ROUNDS = 4
