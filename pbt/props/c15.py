"""C15 normalisations are per sample, bounded and follow their formula."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import layers as L
from high_order_layers_torch import utils as U
from pbt import gen, net, ref
from pbt.core import Sub, sut
from pbt.util import T, arr, call, check, within

KU = ref.K * ref.U

# form -> (kind, axis rule)
FORMS = {
    "f_max_abs": ("max_abs", "dim"),
    "f_max_abs_last": ("max_abs", "last"),
    "f_max_abs_nd": ("max_abs", "all"),
    "f_max_center": ("max_center", "dim"),
    "f_max_center_last": ("max_center", "last"),
    "f_max_center_nd": ("max_center", "all"),
    "f_l2": ("l2", "one"),
    "m_max_abs": ("max_abs", "dim"),
    "m_max_abs_last": ("max_abs", "last"),
    "m_max_abs_nd": ("max_abs", "all"),
    "m_max_center": ("max_center", "one"),
    "m_max_center_last": ("max_center", "last"),
    "m_max_center_nd": ("max_center", "all"),
    "m_l2": ("l2", "one"),
}


def make(form, eps, dim):
    kw = {} if eps is None else {"eps": eps}
    dk = dict(kw) if dim is None else dict(kw, dim=dim)
    return {
        "f_max_abs": lambda: (lambda x: U.max_abs_normalization(x, **dk)),
        "f_max_abs_last": lambda: (lambda x: U.max_abs_normalization_last(x, **kw)),
        "f_max_abs_nd": lambda: (lambda x: U.max_abs_normalization_nd(x, **kw)),
        "f_max_center": lambda: (lambda x: U.max_center_normalization(x, **dk)),
        "f_max_center_last": lambda: (lambda x: U.max_center_normalization_last(x, **kw)),
        "f_max_center_nd": lambda: (lambda x: U.max_center_normalization_nd(x, **kw)),
        "f_l2": lambda: (lambda x: U.l2_normalization(x, **kw)),
        "m_max_abs": lambda: L.MaxAbsNormalization(**dk),
        "m_max_abs_last": lambda: L.MaxAbsNormalizationLast(**kw),
        "m_max_abs_nd": lambda: L.MaxAbsNormalizationND(**kw),
        "m_max_center": lambda: L.MaxCenterNormalization(**kw),
        "m_max_center_last": lambda: L.MaxCenterNormalizationLast(**kw),
        "m_max_center_nd": lambda: L.MaxCenterNormalizationND(**kw),
        "m_l2": lambda: L.L2Normalization(**kw),
    }[form]()


@st.composite
def case(draw):
    form = draw(st.sampled_from(sorted(FORMS)))
    nd = draw(gen.pick(2, 2, 3, 4))
    rule = FORMS[form][1]
    return {
        "form": form,
        "shape": [draw(gen.size(1, 4, (9, 33)))] + [draw(gen.size(1, 5, (17, 40)))
                                                   for _ in range(nd - 1)],
        "eps": draw(gen.pick(None, None, 1e-6, 1e-3, 0.0, 1.0, 1e-9)),
        "dim": draw(st.one_of(st.none(), st.integers(1, nd - 1), st.just(-1)))
        if rule == "dim" else None,
        "mode": draw(gen.pick("normal", "normal", "huge", "tiny", "negative", "ties", "ints",
                              "const", "offset", "mixed_scale", "one_big")),
        "zero_rows": draw(st.booleans()),
        "seed": draw(gen.SEED),
    }


@st.composite
def bulk_case(draw):
    c = draw(case())
    c["shape"] = [min(s, 3) for s in c["shape"]]
    c["shape"][draw(st.integers(0, len(c["shape"]) - 1))] = draw(
        gen.pick(130, 260, 520, 1030, 2050, 4100))
    return c


def values(rng, shape, mode, l2):
    x = rng.normal(size=shape)
    if mode == "huge":
        x = x * (1e15 if l2 else 1e33)
    elif mode == "tiny":
        x = x * (1e-12 if l2 else 1e-20)
    elif mode == "negative":
        x = -np.abs(x) - 0.1
    elif mode == "ties":
        x = rng.choice([-1.0, 1.0, 0.5, -0.5], size=shape)
    elif mode == "ints":
        x = rng.randint(-3, 4, size=shape).astype(float)
    elif mode == "const":
        x = np.zeros(shape) + rng.normal()
    elif mode == "offset":
        x = x + rng.choice([-1, 1]) * 10.0 ** rng.uniform(0, 3)
    elif mode == "mixed_scale":
        x = x * 10.0 ** rng.uniform(-5, 5, size=(shape[0],) + (1,) * (len(shape) - 1))
    elif mode == "one_big":
        x = x * 1e-3
        flat = x.reshape(shape[0], -1)
        flat[np.arange(shape[0]), rng.randint(flat.shape[1], size=shape[0])] = rng.choice(
            [-5.0, 5.0], size=shape[0])
    return x.astype(np.float32)


def oracle(kind, rule, dim, x, eps):
    r = np.zeros_like(x)
    fn = {"max_abs": ref.max_abs, "max_center": ref.max_center, "l2": ref.l2}[kind]
    if rule == "all":
        s = x.shape
        c, rad = fn(x.reshape(s[0], -1), r.reshape(s[0], -1), 1, eps)
        return c.reshape(s), rad.reshape(s)
    axis = {"one": 1, "last": x.ndim - 1, "dim": 1 if dim is None else dim}[rule]
    return fn(x, r, axis, eps)


def run(c):
    rng = np.random.RandomState(c["seed"])
    kind, rule = FORMS[c["form"]]
    with sut("construction"):
        f = make(c["form"], c["eps"], c["dim"])
    shape = tuple(c["shape"])
    x = values(rng, shape, c["mode"], kind == "l2")
    if c["zero_rows"]:
        x[rng.uniform(size=shape[0]) < 0.5] = 0.0
    eps = 1e-6 if c["eps"] is None else c["eps"]
    xd = x.astype(float)
    cen, rad = oracle(kind, rule, c["dim"], xd, eps)
    xt = T(x)
    y = call(f, xt)
    check(tuple(y.shape) == shape, f"{c['form']} changed the shape to {tuple(y.shape)}")
    check(torch.equal(xt, T(x)), f"{c['form']} modified its input")
    ok = np.isfinite(cen)
    g = arr(y)
    # eps 0 and a zero denominator is the caller's choice
    tight = within(np.where(ok, g, 0.0), np.where(ok, cen, 0.0), np.where(ok, rad, np.inf),
                   c["form"])
    if eps > 0:
        check(np.isfinite(g).all(), f"{c['form']}: non-finite result")
    if kind != "l2":
        bound = 1 + np.where(np.isfinite(rad), rad, np.inf) + KU
        check((np.abs(np.where(ok, g, 0)) <= bound).all(), f"{c['form']}: result outside [-1, 1]")
    # no influence between samples
    b = rng.randint(shape[0])
    other = values(rng, shape, "normal", False) * 50
    other[b] = x[b]
    y2 = arr(call(f, T(other)))
    y3 = arr(call(f, T(x[b:b + 1])))
    r = 2 * np.where(np.isfinite(rad[b]), rad[b], np.inf) + 1e-30
    for z, what in ((y2[b], "other samples"), (y3[0], "the batch size")):
        d = np.where(ok[b], np.abs(z - g[b]), 0)
        check((d <= r).all(), f"{c['form']}: a sample's result depends on {what}")
    return tight >= 0.5 and x.any() and max(shape[1:]) > 1


@st.composite
def ln_case(draw):
    nd = draw(gen.pick(2, 2, 3, 4))
    return {
        "shape": [draw(st.integers(1, 5)) for _ in range(nd - 1)] + [draw(gen.size(1, 6, (33, 130)))],
        "bias": draw(st.booleans()),
        "mode": draw(gen.pick("normal", "negative", "ties", "offset", "const", "mixed_scale")),
        "affine": draw(st.booleans()),
        "via": draw(gen.pick("class", "table")),
        "seed": draw(gen.SEED),
    }


def run_ln(c):
    rng = np.random.RandomState(c["seed"])
    with sut("construction"):
        m = (L.normalization_layers["layer_norm"] if c["via"] == "table"
             else L.LazyLayerNormLastDim)(bias=c["bias"])
    shape = tuple(c["shape"])
    x = values(rng, shape, c["mode"], False)
    y = call(m, T(x))
    cen, rad = net.layer_norm(x.astype(float), np.zeros(shape))
    within(y, cen, rad, "lazy layer norm (fresh)")
    ps = [p for p in m.parameters() if tuple(p.shape) == (shape[-1],)]
    check(len(ps) == (2 if c["bias"] else 1), f"lazy layer norm has {len(ps)} parameters")
    ws = [rng.normal(size=shape[-1]).astype(np.float32) for _ in ps]
    if c["affine"]:
        with torch.no_grad():
            for p, w in zip(ps, ws):
                p.copy_(torch.tensor(w))
        w, b = ws[0].astype(float), (ws[1].astype(float) if c["bias"] else 0.0)
        cen, rad = cen * w + b, rad * np.abs(w) + KU * (np.abs(cen * w) + np.abs(b))
        y = call(m, T(x))
    tight = within(y, cen, rad, "lazy layer norm")
    with sut("torch layer norm"):
        want = torch.nn.functional.layer_norm(
            T(x), shape[-1:], T(ws[0]) if c["affine"] else None,
            T(ws[1]) if c["affine"] and c["bias"] else None)
    within(y, arr(want), 2 * rad, "lazy layer norm vs torch layer norm")
    # per sample
    b = rng.randint(shape[0])
    y1 = arr(call(m, T(x[b:b + 1])))
    r = 2 * rad[b] + 1e-30
    check((np.abs(y1[0] - arr(y)[b]) <= np.where(np.isfinite(r), r, np.inf)).all(),
          "lazy layer norm: a sample's result depends on the batch")
    return tight >= 0.5 and shape[-1] > 1


@st.composite
def table_case(draw):
    return {"seed": draw(gen.SEED), "which": draw(st.sampled_from(
        ["max_abs", "max_center", "l2", "t_max_abs", "t_l2"])),
        "shape": [draw(st.integers(1, 4)), draw(st.integers(2, 6))]}


def run_table(c):
    """The name tables select the function of that name."""
    rng = np.random.RandomState(c["seed"])
    x = rng.normal(size=c["shape"]).astype(np.float32)
    if c["which"].startswith("t_"):
        f, kind = U.norm_type[c["which"][2:]], c["which"][2:]
    else:
        f, kind = L.normalization_layers[c["which"]](), c["which"]
    cen, rad = oracle(kind, "one", None, x.astype(float), 1e-6)
    return within(call(f, T(x)), cen, rad, f"table entry {c['which']}") >= 0.5


SUBS = [
    Sub("formula", case(), run, "non-zero sample with an axis longer than one, result pinned",
        quick=5000),
    Sub("bulk", bulk_case(), run, "as formula; one axis in the hundreds or thousands", quick=160),
    Sub("layer_norm", ln_case(), run_ln, "last dimension longer than one, result pinned",
        quick=1500),
    Sub("tables", table_case(), run_table, "result pinned", quick=400),
]
ASSUMPTIONS = ["max-center is not judged where single precision cannot resolve the sample's range"]
QUICK_ROUNDS = 4
