"""P07: how a stream is cut into step and block calls does not matter"""
from .common import *

BOUNDS = ("larger modules (kernel up to 9, delay up to 8, nesting up to 4): streams of 13 steps in any three block or single-step segments; every cutting of a stream of 5 steps (thorough 6) into calls, single steps by either call, for the whole module zoo (conv/pool/delay/"
          "elementwise/sequential/parallel/residual/rnn); weights and inputs symbolic reals")
BOUNDS += "; selected members far beyond the families: streams of 70 steps in six cuttings, kernels to 19, delay 20, 33 channels, batch 9"
BOUNDS += "; empty blocks at any point of a stream of 6 steps (not recurrent: torch refuses empty sequences)"
OUTSIDE = "longer streams; empty blocks with end padding"


def cut(env, spec, T, train=False):
    x = spec.x(env, T=T)
    ref = steps(spec.make(env, train=train), x)
    m = spec.make(env, train=train)
    t = 0
    while t < T:
        c = env.choose(f"call@{t}", T - t + 1)
        if c == 0:
            env.eq(f"step {t}", norm(m.forward_step(x[:, :, t])), norm(ref[t]))
            t += 1
        else:
            check_block(env, f"block {t}+{c}", m.forward_steps(x[:, :, t : t + c]), ref[t : t + c])
            t += c


def far_cut(env, spec, T, B):
    """a long stream in a few fixed cuttings, and single steps after a long block"""
    x = spec.x(env, B=B, T=T)
    ref = steps(spec.make(env), x)
    plans = [(T,), (1, T - 1), (T - 1, 1), (T // 2, 1, T - T // 2 - 1), (5,) * (T // 5), (T // 3, 0, 0, 0, T - T // 3 - 3)]
    m = spec.make(env)
    t = 0
    for c in plans[env.choose("cutting", len(plans))]:
        if c == 0:
            env.eq(f"step {t}", norm(m.forward_step(x[:, :, t])), norm(ref[t]))
            t += 1
        elif c > 0 and t + c <= T:
            check_block(env, f"block {t}+{c}", m.forward_steps(x[:, :, t : t + c]), ref[t : t + c])
            t += c


def segments(env, spec, T, train=False):
    """any three segments of a longer stream, the middle one by single steps or as a block"""
    x = spec.x(env, T=T)
    ref = steps(spec.make(env, train=train), x)
    m = spec.make(env, train=train)
    a = env.choose("first", T)
    b = a + env.choose("second", T - a)
    single = env.flag("single steps in the middle")
    if a:
        check_block(env, f"block 0+{a}", m.forward_steps(x[:, :, :a]), ref[:a])
    if single:
        for t in range(a, b):
            env.eq(f"step {t}", norm(m.forward_step(x[:, :, t])), norm(ref[t]))
    elif b > a:
        check_block(env, f"block {a}+{b - a}", m.forward_steps(x[:, :, a:b]), ref[a:b])
    check_block(env, f"block {b}+{T - b}", m.forward_steps(x[:, :, b:]), ref[b:])


def empties(env, spec, T):
    """blocks without a single step deliver nothing and are as if they had not been there"""
    x = spec.x(env, T=T)
    ref = steps(spec.make(env), x)
    m = spec.make(env)
    at = env.choose("at", T + 1)
    if at:
        check_block(env, f"block 0+{at}", m.forward_steps(x[:, :, :at]), ref[:at])
    for n in range(1 + env.flag("twice")):
        check_block(env, f"empty block {n}", m.forward_steps(x[:, :, at:at]), [])
    for t in range(at, min(T, at + 2)):
        env.eq(f"step {t}", norm(m.forward_step(x[:, :, t])), norm(ref[t]))
    if at + 2 < T:
        check_block(env, f"block {at + 2}+{T - at - 2}", m.forward_steps(x[:, :, at + 2 :]), ref[at + 2 :])


def norm(o):
    return o if present(o) else None


def check_block(env, label, out, ref):
    want = [o for o in ref if present(o)]
    if not want:
        env.true(f"{label}: nothing due", not present(out) or out.shape[2] == 0, kind(out))
    else:
        env.true(f"{label}: outputs due", present(out), kind(out))
        if present(out):
            env.eq(label, out, torch.stack(want, 2))


def zoo(tier):
    return small_zoo(tier) + shrink_specs()[:4] + rnn_specs() + extra(tier, 10)


def scenarios(tier):
    for name, spec, T, B in far_of(""):
        yield name, (lambda env, spec=spec, T=T, B=B: far_cut(env, spec, T, B)), {}
    for spec in large_zoo():
        yield f"{spec.name} segments", (lambda env, spec=spec: segments(env, spec, 13 if tier == "quick" else 18)), {}
    for spec in small_zoo(tier) + shrink_specs()[:4]:
        if spec.name == "lambda":  # applied step by step: without a step there is no result to take the shape from
            continue
        yield f"{spec.name} empty blocks", (lambda env, spec=spec: empties(env, spec, 6)), {}
    for spec in att_specs():
        yield f"{spec.name} T=5", (lambda env, spec=spec: cut(env, spec, 5)), {"hide": True}
    for spec in zoo(tier):
        T = 5 if tier == "quick" else 6
        yield f"{spec.name} T={T}", (lambda env, spec=spec, T=T: cut(env, spec, T)), {}
        if "conv" in spec.name:
            yield f"{spec.name} T={T} train", (lambda env, spec=spec, T=T: cut(env, spec, T, True)), {}
