"""P09: probing calls leave the stream untouched"""
from .common import *
from .p25 import encoder_spec

BOUNDS = ("larger modules (kernel up to 9, delay up to 8) with up to 10 steps of history; 0..3 steps of history, then one or two probing calls out of {step, block, padded block (all without update), offline forward}, then 3 "
          "more steps; whole module zoo; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: histories to 66 steps, kernels to 19, delay 20"
OUTSIDE = "longer histories; Skip-like modules' padded probing"


def probe(env, spec, h, train=False, two=False, more=3):
    x = spec.x(env, T=h + more)
    y = spec.x(env, "y", T=max(3, spec.minT))
    ref = spec.make(env, train=train)
    refs = steps(ref, x)
    m = spec.make(env, train=train)
    for t in range(h):
        m.forward_step(x[:, :, t])
    for r in range(2 if two else 1):
        kinds = (0, 1, 3) if "nopad" in spec.tags else (0, 1, 2, 3)
        k = kinds[env.choose(f"probe{r}", len(kinds))]
        twin = spec.make(env, train=train)  # same history, really updated
        for t in range(h):
            twin.forward_step(x[:, :, t])
        if k == 0:
            a, b = m.forward_step(y[:, :, 0], update_state=False), twin.forward_step(y[:, :, 0])
        elif k == 1:
            a, b = m.forward_steps(y, update_state=False), twin.forward_steps(y)
        elif k == 2:
            a, b = m.forward_steps(y, pad_end=True, update_state=False), twin.forward_steps(y, pad_end=True)
        else:
            a, b = m.forward(y), twin.forward(y)
        a, b = plain(a), plain(b)
        env.eq(f"probe {r} kind {k} tells what an update would", a, b)
    for t in range(h, h + more):
        o = m.forward_step(x[:, :, t])
        env.eq(f"stream at {t}", o if present(o) else None, refs[t] if present(refs[t]) else None)


def plain(a):
    if isinstance(a, (tuple, list)):
        return list(a)
    return a if present(a) and (a.dim() < 3 or a.shape[2] > 0 or True) else None


def zoo(tier):
    return small_zoo(tier) + shrink_specs()[:4] + rnn_specs() + [s for s in extra(tier, 10) if "rpe" not in s.name] + [
        # by default an offline pass moves the position of a positional encoding: P19
        Spec("rpe", lambda: co.RecyclingPositionalEncoding(2, 9, forward_update_index_steps=0), sp(1, 2)),
        Spec("seq(rpe,c3)", lambda: co.Sequential(co.RecyclingPositionalEncoding(2, 9, forward_update_index_steps=0), C1(3, i=2)), sp(1, 2), minT=3)]


def scenarios(tier):
    for name, spec, T, B in far_of(""):
        if B == 1:
            yield name, (lambda env, spec=spec, T=T: probe(env, spec, T - 4)), {}
    for spec in large_zoo():
        for h in (1, 6, 10):
            yield f"{spec.name} after {h} large", (lambda env, spec=spec, h=h: probe(env, spec, h, more=6)), {}
    for spec in zoo(tier):
        for h in (0, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5):
            yield f"{spec.name} after {h}", (lambda env, spec=spec, h=h: probe(env, spec, h)), {}
        yield f"{spec.name} after 2 twice", (lambda env, spec=spec: probe(env, spec, 2, two=True)), {}
        if "bn" not in spec.name:
            yield f"{spec.name} after 3 train", (lambda env, spec=spec: probe(env, spec, 3, train=True)), {}
    for spec in att_specs():
        for h in (0, 2, 4):
            yield f"{spec.name} after {h}", (lambda env, spec=spec, h=h: probe(env, spec, h, two=h == 4)), {"hide": True}
    for L in (1, 2):
        for h in (0, 2):
            yield f"encoder {L} after {h}", (lambda env, L=L, h=h: probe(env, encoder_spec(L, 2), h)), {"hide": True}
