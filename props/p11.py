"""P11: a captured state resumes the stream"""
from .common import *


BOUNDS = ("larger modules (kernel up to 9, delay up to 8) captured after up to 12 steps; capture (copied) after 0..4 steps (0: the uninitialised state, which get_state reports as None), divergence of 0..2 steps on other data, restore into the same or another instance, 3 more steps; every "
          "stateful module of the zoo incl. containers (state of every submodule); symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: captures after up to 66 steps, kernels to 19, delay 20"
OUTSIDE = "uncopied aliases of the state (a captured state shares memory with the module in eval mode)"


def capture(m):
    """state of every stateful submodule, copied (None: not initialised yet)"""
    return {n: cp(s.get_state()) for n, s in m.named_modules() if getattr(s, "get_state", None)}


def parts_of(s):
    """a captured state for comparison (None: not initialised)"""
    return None if s is None else list(s)


def cp(s):
    if isinstance(s, torch.Tensor):
        return s.clone()
    if isinstance(s, (tuple, list)):
        return type(s)(cp(i) for i in s)
    return s


def restore(m, snap):
    for n, s in m.named_modules():
        if n in snap:
            s.set_state(cp(snap[n]))


def resume(env, spec, h, more=3):
    x = spec.x(env, T=h + more)
    refs = steps(spec.make(env), x)
    m = spec.make(env)
    for t in range(h):
        m.forward_step(x[:, :, t])
    snap = capture(m)
    env.cover("nonempty" if any(v is not None for v in snap.values()) else "empty")
    if env.flag("other instance"):
        m = spec.make(env)
        y = spec.x(env, "y", T=1)
        if env.flag("already used"):
            m.forward_step(y[:, :, 0])
    else:
        k = env.choose("diverge", 3)
        y = spec.x(env, "y", T=2)
        for t in range(k):
            m.forward_step(y[:, :, t])
    restore(m, snap)
    for t in range(h, h + more):
        o = m.forward_step(x[:, :, t])
        env.eq(f"resumed at {t}", o if present(o) else None, refs[t] if present(refs[t]) else None)


def zoo(tier):
    return [s for s in small_zoo(tier) if "elementwise" not in s.tags] + shrink_specs()[:4] + rnn_specs() + extra(tier, 10)


def scenarios(tier):
    for name, spec, T, B in far_of(""):
        if B == 1:
            yield name, (lambda env, spec=spec, T=T: guard(env, spec, T - 4, 6)), {}
    for spec in large_zoo():
        for h in (0, 3, 7, 12):
            yield f"{spec.name} after {h} large", (lambda env, spec=spec, h=h: guard(env, spec, h, 8)), {}
    for spec in att_specs():
        for h in (0, 1, 3, 5):
            yield f"{spec.name} after {h}", (lambda env, spec=spec, h=h: guard(env, spec, h)), {"hide": True}
    for spec in zoo(tier):
        for h in (0, 1, 2, 4) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6):
            yield f"{spec.name} after {h}", (lambda env, spec=spec, h=h: guard(env, spec, h)), {}


def guard(env, spec, h, more=3):
    resume(env, spec, h, more)
    env.true("completed", True)
