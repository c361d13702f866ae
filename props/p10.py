"""P10: cleaning the state gives a fresh module"""
from .common import *
from .p25 import encoder_spec

BOUNDS = ("larger modules (kernel up to 9, delay up to 8) with histories up to 12 steps and 12 steps after; history of 0..4 steps (any mixture of step and block), clean, then 5 steps and a block compared with a fresh module, also with another "
          "batch size; whole module zoo; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: histories to 70 steps, kernels to 19, delay 20, batch 9"
OUTSIDE = "longer histories"


def clean(env, spec, B2, T=5, H=4):
    h = env.choose("history", H + 1) if H <= 12 else (1, H // 2 + 1, H)[env.choose("history", 3)]
    x = spec.x(env, T=H)
    m = spec.make(env)
    if h == H:
        m.forward_steps(x)
        m.forward_steps(x[:, :, :2])
    else:
        for t in range(h):
            m.forward_step(x[:, :, t])
    m.clean_state()
    y = spec.x(env, "y", B=B2, T=T)
    fresh = spec.make(env)
    if env.flag("block after"):
        a, b = m.forward_steps(y), fresh.forward_steps(y)
        env.eq("block", a if present(a) else None, b if present(b) else None)
        z = spec.x(env, "z", B=B2, T=1)
        a, b = m.forward_step(z[:, :, 0]), fresh.forward_step(z[:, :, 0])
        env.eq("next", a if present(a) else None, b if present(b) else None)
    else:
        for t in range(T):
            a, b = m.forward_step(y[:, :, t]), fresh.forward_step(y[:, :, t])
            env.eq(f"step {t}", a if present(a) else None, b if present(b) else None)


def zoo(tier):
    return small_zoo(tier) + shrink_specs()[:4] + rnn_specs() + extra(tier, 10)


def scenarios(tier):
    for name, spec, T, B in far_of(""):
        yield name, (lambda env, spec=spec, T=T, B=B: clean(env, spec, B, min(T, 24), T)), {}
    for spec in large_zoo():
        yield f"{spec.name} large", (lambda env, spec=spec: clean(env, spec, 1, 12, 12)), {}
    for spec in zoo(tier):
        for B2 in (1, 2):
            if B2 == 2 and "reshape" in spec.name:
                continue  # a Reshape fixes the batch size
            rnn = recurrent(spec)
            T = 3 if rnn else 5
            yield f"{spec.name} batch {B2}", (lambda env, spec=spec, B2=B2, T=T: clean(env, spec, B2, T)), {"hide": True} if rnn else {}
    for spec in att_specs():
        yield f"{spec.name}", (lambda env, spec=spec: clean(env, spec, 2, 5)), {"hide": True}
    for L in (1, 2):
        yield f"encoder {L}", (lambda env, L=L: clean(env, encoder_spec(L, 2), 1, 3)), {"hide": True}
