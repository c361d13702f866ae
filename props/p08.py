"""P08: end padding completes the offline result and leaves no trace"""
from .common import *

BOUNDS = ("larger modules (kernel up to 9, delay up to 8) with histories of 0..12 steps and padded blocks of 1..minT; history of 0..2 single steps, then one padded block of 2..3 steps, then 3 more steps; whole module zoo; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: histories to 66 steps, kernels to 19, delay 20"
OUTSIDE = "longer histories; modules whose padding exceeds kernel-1"


def padded(env, spec, h, n, more=3, update=True):
    T = h + n + more
    x = spec.x(env, T=T)
    m = spec.make(env)
    for t in range(h):
        m.forward_step(x[:, :, t])
    out = m.forward_steps(x[:, :, h : h + n], pad_end=True, update_state=update)
    # value: the offline result on everything seen, minus what was delivered before
    D, s = delay_of(m), stride_of(m)
    if h + n >= spec.minT:
        F = spec.make(env).forward(x[:, :, : h + n])
        seen = sum(1 for t in range(h) if t >= D and (t - D) % s == 0)
        if F.shape[2] > seen:
            env.true("outputs due", present(out), kind(out))
            env.eq("padded block = rest of the offline result", out, F[:, :, seen:])
        else:
            env.true("nothing due", not present(out) or out.shape[2] == 0, kind(out))
    # no trace: the stream continues as if the padding had never happened
    ref = spec.make(env)
    for t in range(h):
        ref.forward_step(x[:, :, t])
    if update:
        ref.forward_steps(x[:, :, h : h + n])
    for t in range(h + n, T):
        a, b = m.forward_step(x[:, :, t]), ref.forward_step(x[:, :, t])
        env.eq(f"continued at {t}", a if present(a) else None, b if present(b) else None)


def zoo(tier):
    return small_zoo(tier) + shrink_specs()[:4]


def scenarios(tier):
    for name, spec, T, B in far_of("", no=(" of 9", "wide image")):
        yield name, (lambda env, spec=spec, T=T: padded(env, spec, T - 4, max(4, spec.minT))), {}
    for spec in large_zoo():
        for h in (0, 1, 5, 8, 12):
            for n in sorted({max(1, spec.minT - h), max(2, spec.minT - h), max(5, spec.minT - h)}):
                yield f"{spec.name} after {h} block {n} large", (lambda env, spec=spec, h=h, n=n: padded(env, spec, h, n, more=6)), {}
        yield f"{spec.name} after 7 probing", (lambda env, spec=spec: padded(env, spec, 7, max(2, spec.minT - 7), more=6, update=False)), {}
    for spec in zoo(tier):
        for h in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4):
            n = 3 if tier == "quick" else 4
            yield f"{spec.name} after {h}", (lambda env, spec=spec, h=h, n=n: padded(env, spec, h, max(n, spec.minT - h))), {}
        for h in (0, 1, 3):
            yield f"{spec.name} after {h} probing", (
                lambda env, spec=spec, h=h: padded(env, spec, h, max(2, spec.minT - h), update=False)), {}
