"""C20 the variational autoencoder encodes, samples and scores as specified."""
import numpy as np
import torch
from hypothesis import strategies as st

from high_order_layers_torch import networks as NW
from pbt import gen, ref
from pbt.core import Sub, sut
from pbt.util import grad_mode, T, arr, check, fail, set_, within

HEAVY = True
KU = ref.K * ref.U


class Enc(torch.nn.Module):
    """Returns its input unflattened; output_size is what flattening gives."""

    def __init__(self, shape):
        super().__init__()
        self.output_size = int(np.prod(shape))

    def forward(self, x):
        return x


class Dec(torch.nn.Module):
    """Records what it decodes; upsamples every channel to a 2x2 image."""

    def __init__(self, channels):
        super().__init__()
        self.in_channels = channels
        self.seen = []

    def forward(self, x):
        self.seen.append(x)
        w = torch.tensor([[1.0, 2.0], [3.0, 4.0]])
        return x * w


def stub(c, rng):
    shape = c["shape"]
    with sut("construction of VanillaVAE"):
        m = NW.VanillaVAE(latent_dim=c["latent"], encoder=Enc(shape), decoder=Dec(c["channels"]))
    m.eval()
    with torch.no_grad():
        for p in m.parameters():
            set_(p, rng.normal(size=tuple(p.shape)))
    return m


def linears(m, shape):
    """name -> (W, b) of the affine maps of the given shape."""
    out = {}
    for name, q in m.named_modules():
        w = [p for p in q._parameters.values() if p is not None and tuple(p.shape) == shape]
        b = [p for p in q._parameters.values() if p is not None and tuple(p.shape) == shape[:1]]
        if len(w) == 1 and len(b) >= 1 and "encoder" not in name and "decoder." not in name:
            out[name] = (ref.f64(w[0]), ref.f64(b[0]))
    return out


def affine(x, W, b):
    return x @ W.T + b, KU * (x.shape[1] + 2) * (np.abs(x) @ np.abs(W).T + np.abs(b))


CONF = {
    "latent": gen.size(1, 5, (12, 33)),
    "channels": gen.size(1, 5, (12,)),
    "shape": st.lists(st.integers(1, 4), min_size=1, max_size=3),
    "batch": gen.size(1, 5, (17, 65)),
    "seed": gen.SEED,
}


@st.composite
def conf(draw, **more):
    c = {k: draw(v) for k, v in CONF.items()}
    c.update({k: draw(v) for k, v in more.items()})
    return c


def fits(got, x, W, b):
    c, r = affine(x, W, b)
    g = arr(got)
    return g.shape == c.shape and bool((np.abs(g - c) <= r + 1e-30).all())


def run_encode(c):
    rng = np.random.RandomState(c["seed"])
    m = stub(c, rng)
    x = (rng.normal(size=[c["batch"]] + c["shape"]) * c["scale"]).astype(np.float32)
    with sut("encode"):
        out = m.encode(T(x))
    check(len(out) == 2, f"encode returned {len(out)} values")
    mu, lv = out
    want = (c["batch"], c["latent"])
    check(tuple(mu.shape) == want and tuple(lv.shape) == want,
          f"mean {tuple(mu.shape)} and log variance {tuple(lv.shape)}, expected {want}")
    flat = x.reshape(c["batch"], -1).astype(float)
    lin = {k: v for k, v in linears(m, (c["latent"], flat.shape[1])).items()
           if "decoder" not in k}
    if "fc_mu" in lin and "fc_var" in lin:
        check(fits(mu, flat, *lin["fc_mu"]), "the mean is not the affine map fc_mu of the encoding")
        check(fits(lv, flat, *lin["fc_var"]),
              "the log variance is not the affine map fc_var of the encoding")
    else:
        names = list(lin)
        ok = any(fits(mu, flat, *lin[a]) and fits(lv, flat, *lin[b])
                 for a in names for b in names if a != b)
        check(ok, "mean and log variance are not two affine maps of the flattened encoding")
    return True


def run_sample(c):
    rng = np.random.RandomState(c["seed"])
    m = stub(c, rng)
    shape = (c["batch"], c["latent"])
    mu = T(rng.normal(size=shape) * c["mscale"])
    lv = T(rng.normal(size=shape) * c["vscale"])
    s = c["seed"] % 100003
    mu0, lv0 = mu.clone(), lv.clone()

    def draw(a, b):
        torch.manual_seed(s)
        with sut("reparameterize"), grad_mode():
            return m.reparameterize(a, b)

    eps = arr(draw(torch.zeros(shape), torch.zeros(shape)))
    check(eps.shape == shape, f"noise of shape {eps.shape}, expected {shape}")
    z = draw(mu, lv)
    sd = np.exp(0.5 * arr(lv))
    rad = KU * (np.abs(arr(mu)) + np.abs(eps) * sd * (4 + np.abs(arr(lv))))
    within(z, arr(mu) + sd * eps, rad, "sample against mean plus scaled noise of the same seed")
    check(torch.equal(mu, mu0) and torch.equal(lv, lv0), "sampling modified its arguments")
    if c["batch"] * c["latent"] > 1:
        check(len(np.unique(eps)) >= 0.9 * eps.size, "latent entries share their noise")
    with sut("reparameterize"), grad_mode():
        e2 = arr(m.reparameterize(torch.zeros(shape), torch.zeros(shape)))
    check((eps == e2).mean() < 0.1, "two draws share their noise")
    quiet = draw(mu, torch.full(shape, -300.0))
    check(torch.equal(quiet, mu), "no variance, but the sample is not the mean")
    return True


def run_normal(c):
    """The noise is standard normal."""
    rng = np.random.RandomState(c["seed"])
    m = stub(dict(c, latent=c["latent"]), rng)
    k = c["chunk"] if c["via"] == "reparameterize" else 6000
    n = min(6000, 1500 * k) // k * k
    torch.manual_seed(c["seed"])
    with sut("sampling"), grad_mode():
        if c["via"] == "reparameterize":
            z = torch.zeros(k, c["latent"])
            e = np.concatenate([arr(m.reparameterize(z, z)) for _ in range(n // k)])
        else:
            e = invert(m, c, n)
    check(e.shape == (n, c["latent"]), f"{e.shape} noise values for {n} samples")
    # exact sample moments of standard normal noise, 7 standard deviations
    for k, mean, var in ((1, 0.0, 1.0), (2, 1.0, 2.0), (3, 0.0, 15.0), (4, 3.0, 96.0)):
        got = (e ** k).mean(0)
        tol = 7 * np.sqrt(var / n)
        bad = np.abs(got - mean) > tol
        check(not bad.any(), lambda: f"moment {k} of the noise is {got[bad][0]}, not {mean}")
    if c["latent"] > 1:
        cor = np.corrcoef(e.T) - np.eye(c["latent"])
        check(np.abs(cor).max() < 7 / np.sqrt(n), "latent coordinates are correlated")
    lag = (e[1:] * e[:-1]).mean(0)
    check(np.abs(lag).max() < 7 / np.sqrt(n), "samples are correlated")
    return True


def invert(m, c, n):
    """sample() with a decoder input that copies the latents."""
    lin = None
    for name, q in m.named_modules():
        w = [p for p in q._parameters.values()
             if p is not None and tuple(p.shape) == (c["channels"], c["latent"])]
        if w and "fc_" not in name and "encoder" not in name:
            lin = q
    if lin is None:
        fail("no affine map from the latents to the decoder's input")
    L = c["latent"]
    assert c["channels"] >= L
    for p in lin._parameters.values():
        if p is None:
            continue
        if p.dim() == 2:
            w = np.zeros(tuple(p.shape))
            w[:L, :L] = np.eye(L)
            set_(p, w)
        else:
            set_(p, np.zeros(tuple(p.shape)))
    dec = m.decoder
    dec.seen.clear()
    y = m.sample(n)
    check(tuple(y.shape) == (n, c["channels"], 2, 2), f"sample returned {tuple(y.shape)}")
    check(len(dec.seen) == 1, "decoder called more than once")
    return arr(dec.seen[0]).reshape(n, -1)[:, :L]


def run_decode(c):
    rng = np.random.RandomState(c["seed"])
    m = stub(c, rng)
    z = (rng.normal(size=(c["batch"], c["latent"])) * c["scale"]).astype(np.float32)
    m.decoder.seen.clear()
    with sut("decode"), grad_mode():
        y = m.decode(T(z))
    lin = linears(m, (c["channels"], c["latent"]))
    check(tuple(y.shape) == (c["batch"], c["channels"], 2, 2), f"decoded {tuple(y.shape)}")
    got = y[:, :, 0, 0]
    check(any(fits(got, z.astype(float), W, b) for W, b in lin.values()),
          "the decoder's input is not the affine image of the latents")
    w = torch.tensor([[1.0, 2.0], [3.0, 4.0]])
    check(torch.equal(y, y[:, :, :1, :1] * w), "the decoder's output was altered")
    return c["batch"] > 1


def real(c, rng):
    with sut("construction"):
        enc = NW.HighOrderFullyConvolutionalNetwork(
            layer_type="continuous2d", n=c["n"], channels=[c["cin"], 3, c["eout"]], segments=2,
            kernel_size=[2, 2], pooling="2d")
        dec = NW.HighOrderFullyDeconvolutionalNetwork(
            layer_type="continuous2d", n=c["n"], channels=[c["din"], 2, c["cin"]], segments=2,
            kernel_size=[2, 2], stride=[1, 2] if c["stride"] else None)
        m = NW.VanillaVAE(latent_dim=c["latent"], encoder=enc, decoder=dec)
    m.eval()
    with torch.no_grad():
        for p in m.parameters():
            k = np.prod(p.shape[1:]) if p.dim() > 1 else 4
            set_(p, rng.uniform(-1, 1, size=tuple(p.shape)) / np.sqrt(k))
    size = 4 if c["stride"] else 3
    x = T(rng.uniform(-1, 1, size=(c["batch"], c["cin"], size, size)))
    return m, x


def close(a, b, what):
    a, b = arr(a), arr(b)
    check(a.shape == b.shape, f"{what}: {a.shape} and {b.shape}")
    s = 1 + max(np.abs(a).max(), np.abs(b).max())
    check((np.abs(a - b) <= 1e-3 * s).all(), f"{what}: differ by {np.abs(a - b).max()}")


def run_forward(c):
    rng = np.random.RandomState(c["seed"])
    if c["real"]:
        m, x = real(c, rng)
    else:
        m = stub(c, rng)
        x = T(rng.normal(size=[c["batch"]] + c["shape"]))
    if c["double"]:
        m, x = m.double(), x.double()
    seed = c["seed"] % 99991
    with torch.no_grad():
        with sut("encode and decode"):
            mu, lv = m.encode(x)
            torch.manual_seed(seed)
            eps = m.reparameterize(torch.zeros_like(mu), torch.zeros_like(lv))
            z = mu + torch.exp(0.5 * lv) * eps
            rec = m.decode(z)
            one = m.decode(z[:1])
            parts = torch.cat([m.decode(q.unsqueeze(0)) for q in z])
        torch.manual_seed(seed)
        with sut("forward"):
            out = m(x)
        torch.manual_seed(seed)
        with sut("generate"):
            gen_ = m.generate(x)
        with sut("sample"):
            smp = m.sample(c["num"])
    check(out[0].dtype == x.dtype and smp.dtype == x.dtype, f"samples of type {smp.dtype}")
    check(len(out) == 4, f"forward returned {len(out)} values")
    if not torch.isfinite(rec).all() or float(z.abs().max()) > (4 if c["real"] else 50):
        return False  # extrapolated far outside the polynomials' domain
    close(out[0], rec, "reconstruction against decoding of the sampled latents")
    check(torch.equal(out[1], x), "forward does not return the input second")
    close(out[2], mu, "mean returned by forward")
    close(out[3], lv, "log variance returned by forward")
    close(gen_, rec, "generate against the reconstruction")
    close(one, rec[:1], "decoding one latent")
    close(parts, rec, "decoding latents one by one")
    check(tuple(smp.shape) == (c["num"],) + tuple(rec.shape[1:]),
          f"sample returned {tuple(smp.shape)}")
    if c["num"] > 1:
        check(float((smp - smp[:1]).abs().max()) > 0, "all samples are equal")
    if c["real"]:
        with sut("forward"):
            loss = m.loss_function(*m(x), M_N=0.3)["loss"] if out[0].shape == x.shape else None
        if loss is not None:
            loss.backward()
            miss = [k for k, p in m.named_parameters() if p.requires_grad and p.dim() >= 2
                    and p.grad is None]
            check(not miss, f"no gradient reaches {miss}")
    return True


@st.composite
def loss_case(draw):
    return {
        "batch": draw(gen.size(1, 5, (33, 130))),
        "latent": draw(gen.size(1, 5, (20, 65))),
        "rshape": draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)),
        "weight": draw(gen.pick(0.0, 1.0, 0.005, 2.5, 100.0)),
        "mscale": draw(gen.pick(0.0, 1.0, 1.0, 10.0, 1e-3)),
        "vscale": draw(gen.pick(0.0, 1.0, 1.0, 5.0, 1e-3)),
        "rscale": draw(gen.pick(0.0, 1.0, 10.0)),
        "seed": draw(gen.SEED),
    }


def run_loss(c):
    rng = np.random.RandomState(c["seed"])
    m = stub({"latent": c["latent"], "channels": 2, "shape": [2]}, rng)
    B, L = c["batch"], c["latent"]
    x = T(rng.normal(size=[B] + c["rshape"]))
    rec = (x + T(rng.normal(size=[B] + c["rshape"]) * c["rscale"])).requires_grad_(True)
    mu = T(rng.normal(size=(B, L)) * c["mscale"]).requires_grad_(True)
    lv = T(rng.normal(size=(B, L)) * c["vscale"]).requires_grad_(True)
    with sut("loss_function"):
        out = m.loss_function(rec, x, mu, lv, M_N=c["weight"])
    check("loss" in out, f"loss dictionary has {sorted(out)}")
    r, xx, a, b = arr(rec), arr(x), arr(mu), arr(lv)
    mse = ((r - xx) ** 2).mean()
    rm = KU * 8 * ((r - xx) ** 2).mean() \
        + KU * (np.abs(r - xx) * (np.abs(r) + np.abs(xx))).mean()
    kl = 0.5 * (a ** 2 + np.exp(b) - 1 - b).sum(1).mean()
    rk = KU * 8 * 0.5 * (a ** 2 + np.exp(b) * (1 + np.abs(b)) + 1 + np.abs(b)).sum(1).mean()
    tot = mse + c["weight"] * kl
    within(out["loss"].detach().reshape(1), [tot], [rm + abs(c["weight"]) * rk + KU * abs(tot)],
           "loss")
    if "Reconstruction_Loss" in out:
        within(out["Reconstruction_Loss"].detach().reshape(1), [mse], [rm + KU * mse],
               "Reconstruction_Loss")
    with sut("loss_function"):
        k1 = m.loss_function(x, x, mu, lv, M_N=1.0)["loss"].detach()
    check(float(k1) >= -rk - 1e-30, f"negative divergence {float(k1)}")
    if kl > 4 * rk + 1e-12:
        check(float(k1) > 0, "zero divergence away from the standard normal")
    if c["mscale"] == 0 and c["vscale"] == 0:
        check(abs(float(k1)) <= rk, f"divergence {float(k1)} of the standard normal")
    if "KLD" in out:
        within(out["KLD"].detach().abs().reshape(1), [abs(kl)], [rk + KU * abs(kl)], "KLD magnitude")
    # what training follows
    with sut("backward"):
        out["loss"].backward()
    w = c["weight"]
    if w:
        within(mu.grad, w * a / B, KU * 4 * np.abs(w * a / B), "gradient in the mean")
        g = 0.5 * w * (np.exp(b) - 1) / B
        within(lv.grad, g, KU * 4 * 0.5 * w * (np.exp(b) * (1 + np.abs(b)) + 1) / B,
               "gradient in the log variance")
    g = 2 * (r - xx) / r.size
    within(rec.grad, g, KU * 4 * np.abs(g), "gradient in the reconstruction")
    return bool(w and (c["mscale"] or c["vscale"]))


SUBS = [
    Sub("encode", conf(scale=gen.pick(1.0, 1.0, 100.0)), run_encode, "always", quick=800),
    Sub("reparameterize", conf(mscale=gen.pick(0.0, 1.0, 100.0), vscale=gen.pick(0.0, 1.0, 5.0)),
        run_sample, "always", quick=800),
    Sub("noise", st.builds(lambda c: dict(c, channels=max(c["channels"], c["latent"])),
                           conf(via=gen.pick("reparameterize", "sample"),
                                chunk=gen.pick(6000, 1, 2, 7, 100))),
        run_normal, "moments up to the fourth were compared", quick=120),
    Sub("decode", conf(scale=gen.pick(1.0, 1.0, 100.0)), run_decode, "batch of more than one",
        quick=800),
    Sub("forward", conf(real=st.booleans(), cin=st.integers(1, 2), eout=st.integers(1, 4),
                        din=st.integers(1, 4), n=st.integers(2, 4), stride=st.booleans(),
                        num=st.integers(1, 6), double=gen.pick(False, False, False, True)),
        run_forward, "latents of moderate size", quick=1000),
    Sub("loss", loss_case(), run_loss, "weighted divergence that is not zero", quick=1200),
]
ASSUMPTIONS = [
    "latent noise is compared through the same torch seed; its distribution through moments at "
    "seven standard deviations",
    "the reported KLD entry is compared in magnitude only",
]
QUICK_ROUNDS = 3
