"""P14: outputs depend on nothing outside the reported receptive field"""
from .common import *
from .p16 import streams, time_slice, to

BOUNDS = ("every member of the conv, pool, container, residual, delay and attention families (also larger ones: kernel up to 9, delay up to 8); every step of a stream of receptive field + 4 steps: all "
          "inputs outside the reported window (past and future) are replaced by fresh values and the output may not change; the oldest and "
          "newest sample of the window do change some output (not vacuous, convolutions and pools); symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: kernels to 19, delay 20"
OUTSIDE = "recurrent networks (unbounded receptive field), training-mode batch statistics"


def swap_window(env, x, y, lo, hi):
    """x inside [lo, hi), y outside (time axis 2)"""
    parts = []
    if lo > 0:
        parts.append(y[:, :, :lo])
    parts.append(x[:, :, lo:hi])
    if hi < x.shape[2]:
        parts.append(y[:, :, hi:])
    return torch.cat(parts, dim=2)


def window(env, spec, tight):
    rf, D, s, p = (int(spec.build().receptive_field), delay_of(spec.build()), stride_of(spec.build()), int(spec.build().padding[0]))
    T = rf + 4
    x, y = spec.x(env, T=T), spec.x(env, "y", T=T)
    outs = steps(spec.make(env), x)
    seen = 0
    for t in range(T):
        if not present(outs[t]):
            continue
        lo, hi = max(0, t + 1 - rf), t + 1
        o = steps(spec.make(env), swap_window(env, x, y, lo, hi)[:, :, : t + 1])[-1]
        env.eq(f"step {t}: past beyond the window", o, outs[t])
        seen += 1
        if tight and t + 1 >= rf:
            o = steps(spec.make(env), swap_window(env, x, y, t + 2 - rf, t + 1)[:, :, : t + 1])[-1] if rf > 1 else None
            if o is not None:
                env.refute(f"step {t}: oldest sample matters", o, outs[t])
            o = steps(spec.make(env), swap_window(env, x, y, 0, t)[:, :, : t + 1])[-1]
            env.refute(f"step {t}: newest sample matters", o, outs[t])
    env.true("some outputs", seen > 0)
    F = spec.make(env).forward(x)
    for i in range(F.shape[2]):
        t = D + i * s
        lo, hi = max(0, t + 1 - rf), min(T, t + 1)
        G = spec.make(env).forward(swap_window(env, x, y, lo, hi))
        env.eq(f"offline output {i}", G[:, :, i], F[:, :, i])
    n = min(T, rf + 1)
    k = spec.make(env).forward_steps(x, pad_end=True)
    env.eq("padded block", k, F)


def attention(env, cls, N, layout, q=None):
    E = 2
    kw = dict(query_index=q) if q is not None else {}
    bf, ed2 = {"NET": (True, True), "NTE": (True, False), "TNE": (False, False)}[layout]
    mk = lambda: env.symbolize(cls(E, 1, batch_first=bf, embed_dim_second=ed2, sequence_len=N, forward_returns_attn_mask=False, **kw), "m", shared=True).eval()
    env.true("receptive field is the window", int(mk().receptive_field) == N, f"{mk().receptive_field}")
    T = N + 2
    x = [env.tensor(f"x{t}", 1, E) for t in range(T)]
    y = [env.tensor(f"y{t}", 1, E) for t in range(T)]
    outs = [mk_step(m, x[: t + 1]) for t, m in enumerate(mk() for _ in range(T))]
    for t in range(T):
        if not (present(outs[t])):
            continue
        lo = max(0, t + 1 - N)
        o = mk_step(mk(), y[:lo] + x[lo : t + 1])
        env.eq(f"step {t}: past beyond the window", o, outs[t])
    env.true("some outputs", any(present(o) for o in outs))


def mk_step(m, xs):
    for v in xs:
        o = m.forward_step(v)
    return o


def scenarios(tier):
    th = tier == "thorough"
    specs = conv_specs(tier)[:: (4 if not th else 1)] + pool_specs(tier)[:: (3 if not th else 1)] + small_zoo(tier)
    specs += [s for s in large_zoo() if "shrink" not in s.tags]
    for spec in uniq(specs):
        tight = spec.name.startswith(("conv", "avgpool")) and not spec.name.startswith("conv3d[")
        yield spec.name, (lambda env, spec=spec, tight=tight: window(env, spec, tight)), {}
    for name, spec, T, B in far_of("delay(20)", "conv1d(k=17", "conv1d(k=12", "c17p8", "c=9>5", "pool1d(k=17", "c19p9"):
        yield name, (lambda env, spec=spec: window(env, spec, False)), {}
    for N in (2, 3):
        for layout in ("NET", "NTE", "TNE"):
            for q in (-1, 0):
                yield f"single-output N={N} {layout} q={q}", (lambda env, N=N, l=layout, q=q: attention(env, co.SingleOutputMultiheadAttention, N, l, q)), {"hide": True}
            if N == 2 or th:
                yield f"retroactive N={N} {layout}", (lambda env, N=N, l=layout: attention(env, co.RetroactiveMultiheadAttention, N, l)), {"hide": True}
