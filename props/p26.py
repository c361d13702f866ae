"""P26: every batch element is an independent stream"""
from .common import *
from .p25 import encoder_spec

BOUNDS = ("two (selected: three) streams processed as one batch against each processed alone: offline, step by step, in blocks cut at every point and with end padding, 6 steps; "
          "whole module zoo, shrinking residuals, positional encodings, conditionals, recurrent networks, attention (1..4 heads) and encoders; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: batches of 9"
OUTSIDE = "training-mode batch statistics and reshapes that name the batch size (both mix elements by definition), predicates that look across the batch"


def both(env, label, o, a, b):
    if not present(o):
        env.true(f"{label}: same presence", not present(a) and not present(b), f"{kind(o)} {kind(a)} {kind(b)}")
        return
    env.true(f"{label}: same presence", present(a) and present(b), f"{kind(o)} {kind(a)} {kind(b)}")
    env.true(f"{label}: batch size", o.shape[0] == 2, kind(o))
    env.eq(f"{label}: first", o[:1], a)
    env.eq(f"{label}: second", o[1:], b)


def batch(env, spec, T):
    x = spec.x(env, B=2, T=T)
    xs = [x, x[:1], x[1:]]
    run = lambda f: [f(spec.make(env), z) for z in xs]
    if T >= spec.minT:
        both(env, "offline", *run(lambda m, z: m.forward(z)))
    outs = run(lambda m, z: steps(m, z))
    for t, (o, a, b) in enumerate(zip(*outs)):
        both(env, f"step {t}", o, a, b)
    cut = env.choose("cut", T)

    def blocks(m, z):
        o1 = m.forward_steps(z[:, :, :cut]) if cut else None
        return o1, m.forward_steps(z[:, :, cut:])

    for t, (o, a, b) in enumerate(zip(*run(blocks))):
        both(env, f"block {t}", o, a, b)
    if "padded" not in spec.tags:
        both(env, "padded", *run(lambda m, z: m.forward_steps(z, pad_end=True)))


def three(env, spec, T):
    """three streams at once, and each alone"""
    x = spec.x(env, B=3, T=T)
    m = spec.make(env)
    outs, F = steps(m, x), m.forward(x)
    P = spec.make(env).forward_steps(x, pad_end=True)
    for b in range(3):
        z = x[b : b + 1]
        alone = spec.make(env)
        for t, (o, a) in enumerate(zip(outs, steps(alone, z))):
            env.true(f"stream {b} same presence {t}", present(o) == present(a), f"{kind(o)} {kind(a)}")
            if present(o):
                env.eq(f"stream {b} step {t}", o[b : b + 1], a)
        env.eq(f"stream {b} offline", F[b : b + 1], alone.forward(z))
        env.eq(f"stream {b} padded", P[b : b + 1], spec.make(env).forward_steps(z, pad_end=True))


def many(env, spec, T, B):
    """many streams at once, against the first, the middle and the last alone"""
    x = spec.x(env, B=B, T=T)
    m = spec.make(env)
    outs, F = steps(m, x), m.forward(x)
    P = spec.make(env).forward_steps(x, pad_end=True)
    for b in (0, B // 2, B - 1):
        z = x[b : b + 1]
        alone = spec.make(env)
        for t, (o, a) in enumerate(zip(outs, steps(alone, z))):
            env.true(f"stream {b} same presence {t}", present(o) == present(a), f"{kind(o)} {kind(a)}")
            if present(o):
                env.eq(f"stream {b} step {t}", o[b : b + 1], a)
        env.eq(f"stream {b} offline", F[b : b + 1], alone.forward(z))
        env.eq(f"stream {b} padded", P[b : b + 1], spec.make(env).forward_steps(z, pad_end=True))


def attention(env, kind_, N, own, layout, T, E=2, h=1, qi=-1):
    from .p16 import build, time_slice, to

    cls = {"single": co.SingleOutputMultiheadAttention, "retro": co.RetroactiveMultiheadAttention}[kind_]
    q = env.tensor("q", 2, E, T)
    k, v = (env.tensor("k", 2, E, T), env.tensor("v", 2, E, T)) if own else (q, q)
    sel = [slice(0, 2), slice(0, 1), slice(1, 2)]
    n = 3 if own else 1
    mk = lambda: env.symbolize(build(N, E, h, True, qi if kind_ == "single" else None, layout, cls=cls), "w", shared=True).eval()
    mv = (lambda o: o.transpose(0, 1) if present(o) else o) if layout == "TNE" else (lambda o: o)
    ms = [mk() for _ in sel]
    for t in range(T):
        o = [m.forward_step(*[z[s, :, t] for z in (q, k, v)][:n]) for m, s in zip(ms, sel)]
        both(env, f"step {t}", *([mv(z) for z in o] if kind_ == "retro" else o))
    if kind_ == "retro" and layout == "TNE":
        mv = lambda o: o.movedim(2, 0) if present(o) else o
    ms = [mk() for _ in sel]
    cut = env.choose("cut", T)
    if cut:
        both(env, "block 1", *[mv(m.forward_steps(*[time_slice(layout, to(layout, z[s]), 0, cut) for z in (q, k, v)][:n])) for m, s in zip(ms, sel)])
    both(env, "block 2", *[mv(m.forward_steps(*[time_slice(layout, to(layout, z[s]), cut, T) for z in (q, k, v)][:n])) for m, s in zip(ms, sel)])


def zoo(tier):
    return [s for s in small_zoo(tier) + shrink_specs()[:4] + extra(tier, 10) if "reshape" not in s.name]


def scenarios(tier):
    th = tier == "thorough"
    for spec in zoo(tier):
        rnn = any(k in spec.name for k in ("gru", "lstm", "rnn"))
        o = {"hide": True} if rnn else {}
        T = 3 if rnn else 6 if not th else 9
        yield spec.name, (lambda env, spec=spec, T=T: batch(env, spec, max(T, spec.minT) if spec.minT < 99 else T)), o
    for spec in large_zoo():
        yield f"{spec.name} three streams", (lambda env, spec=spec: three(env, spec, max(9, spec.minT))), {}
    for name, spec, T, B in far_of(""):
        if B > 1:
            yield name, (lambda env, spec=spec, T=T, B=B: many(env, spec, T, B)), {}
    for spec in rnn_specs():
        yield spec.name, (lambda env, spec=spec: batch(env, Spec(spec.name, spec.build, spec.shape, tags={"padded"}), 3)), {"hide": True}
    for L in (1, 2):
        spec = encoder_spec(L, 2)
        spec.tags = {"padded"}
        spec.minT = 999
        yield spec.name, (lambda env, spec=spec: batch(env, spec, 4)), {"hide": True}
    for kind_ in ("single", "retro"):
        for layout in ("NET", "NTE", "TNE"):
            for own in (False, True):
                yield f"mha {kind_} {layout} own={own}", (lambda env, k=kind_, l=layout, o=own: attention(env, k, 2, o, l, 4)), {"hide": True}
            for N, E, h, qi in ((2, 2, 2, 0), (2, 3, 3, -1), (3, 4, 4, -2)):
                yield f"mha {kind_} {layout} {h} heads of {E}, window {N}", (lambda env, k=kind_, l=layout, a=(E, h, qi), N=N: attention(env, k, N, False, l, N + 1, *a)), {"hide": True}
