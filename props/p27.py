"""P27: tensors handed in or out are never changed, nor watched, by the module"""
from .common import *
from .p25 import encoder_spec

BOUNDS = ("streams of 6 steps (larger modules, delay up to 8: 16) by single steps, blocks of two, padded blocks and probes (thorough: 9), evaluation and training mode; every given input and every returned "
          "output is compared with its value at the time of the call once the stream has ended; and every input and output is overwritten by the caller right "
          "after the call, which may not change any later output; whole module zoo, recurrent networks, attention, encoders; symbolic weights and inputs")
OUTSIDE = "captured states (see the state property), modules that return their input itself are exempt from the overwriting of both by construction of the check"


def call(m, how, x, t):
    """-> (input given, output, steps consumed)"""
    if how == "step":
        i = x[:, :, t].clone()
        return i, m.forward_step(i), 1
    if how == "block":
        i = x[:, :, t : t + 2].clone()
        return i, m.forward_steps(i), 2
    if how == "padded":
        i = x[:, :, t : t + 2].clone()
        return i, m.forward_steps(i, pad_end=True), 2
    if how == "probe":
        i = x[:, :, t : t + 2].clone()
        return i, m.forward_steps(i, update_state=False), 0
    i = x[:, :, t].clone()
    return i, m.forward_step(i, update_state=False), 0


def leaves(o):
    return [o] if present(o) else []


def kept(env, spec, plan, train, T):
    x = spec.x(env, B=1, T=T)
    m = spec.make(env, train=train)
    log = []
    t = 0
    for how in plan:
        if t + 2 > T:
            break
        i, o, n = call(m, how, x, t)
        log.append((how, t, i, x[:, :, t] if i.dim() < x.dim() else x[:, :, t : t + 2], [(y, y.clone()) for y in leaves(o)]))
        t += n
    if T >= spec.minT:
        m.forward(x)
    m.clean_state()
    for k, (how, t, i, was, outs) in enumerate(log):
        env.eq(f"input of call {k} ({how}) unchanged", i, was)
        for y, was in outs:
            env.eq(f"output of call {k} ({how}) unchanged", y, was)
    env.cover("calls")
    env.true("completed", True)


def overwritten(env, spec, plan, T, which):
    x = spec.x(env, B=1, T=T)
    g = env.tensor("g", 4)
    m, r = spec.make(env), spec.make(env)
    t = 0
    for k, how in enumerate(plan):
        if t + 2 > T:
            break
        i, o, n = call(m, how, x, t)
        _, w, _ = call(r, how, x, t)
        env.eq(f"call {k} ({how})", o if present(o) else None, w if present(w) else None)
        if which == "inputs":
            i.fill_(g[0])
        else:
            for y in leaves(o):
                y.fill_(g[1])
        t += n
    env.true("completed", True)


PLANS = {
    "steps": ["step"] * 9,
    "blocks": ["block"] * 5,
    "mixed": ["step", "block", "probe", "step", "padded", "step1", "step", "block", "step"],
    "padded": ["padded", "step", "padded", "block", "probe", "step", "step"],
}


def mha(env, kind_, own, which, train=False):
    N, T = 2, 5
    cls = {"single": co.SingleOutputMultiheadAttention, "retro": co.RetroactiveMultiheadAttention}[kind_]
    mk = lambda: env.symbolize(cls(2, 1, batch_first=True, embed_dim_second=True, sequence_len=N, forward_returns_attn_mask=False), "w", shared=True).train(train)
    q = env.tensor("q", 1, 2, T)
    k, v = (env.tensor("k", 1, 2, T), env.tensor("v", 1, 2, T)) if own else (q, q)
    n = 3 if own else 1
    g = env.tensor("g", 2)
    m, r = mk(), mk()
    log = []
    for t in range(T):
        a = [z[:, :, t].clone() for z in (q, k, v)][:n]
        o = m.forward_step(*a)
        w = r.forward_step(*[z[:, :, t].clone() for z in (q, k, v)][:n])
        env.eq(f"step {t}", o if present(o) else None, w if present(w) else None)
        if which == "kept":
            log += [(f"input {t}", z, y[:, :, t]) for z, y in zip(a, (q, k, v))] + [(f"output {t}", y, y.clone()) for y in leaves(o)]
        elif which == "inputs":
            for z in a:
                z.fill_(g[0])
        else:
            for y in leaves(o):
                y.fill_(g[1])
    for l, z, was in log:
        env.eq(f"{l} unchanged", z, was)


def zoo(tier):
    return small_zoo(tier) + shrink_specs()[:4] + extra(tier, 10) + [Spec(s.name, s.build, s.shape, tags={"nopad"}) for s in rnn_specs()]


def scenarios(tier):
    T = 6 if tier == "quick" else 9
    for spec in zoo(tier):
        rnn = any(k in spec.name for k in ("gru", "lstm", "rnn"))
        o = {"hide": True} if rnn else {}
        for pn, plan in PLANS.items():
            if rnn and (pn == "padded" or "nopad" in spec.tags and pn == "mixed"):
                continue
            TT = 4 if rnn else T
            for train in (False, True):
                if train and any(k in spec.name for k in ("bn", "dropout")):
                    continue
                yield f"{spec.name} {pn} kept train={train}", (lambda env, s=spec, p=plan, tr=train, T=TT: kept(env, s, p, tr, max(T, s.minT))), o
            for which in ("inputs", "outputs"):
                yield f"{spec.name} {pn} overwritten {which}", (lambda env, s=spec, p=plan, w=which, T=TT: overwritten(env, s, p, T, w)), o
    for spec in large_zoo():
        for pn in PLANS:
            plan = PLANS[pn] * 2 + ["block", "step", "block"] * 2
            yield f"{spec.name} {pn} kept large", (lambda env, s=spec, p=plan: kept(env, s, p, False, 16)), {}
            for which in ("inputs", "outputs"):
                yield f"{spec.name} {pn} overwritten {which} large", (lambda env, s=spec, p=plan, w=which: overwritten(env, s, p, 16, w)), {}
    for spec in att_specs():
        for pn in ("steps", "blocks"):
            yield f"{spec.name} {pn} kept", (lambda env, s=spec, p=PLANS[pn]: kept(env, s, p, False, 5)), {"hide": True}
            for which in ("inputs", "outputs"):
                yield f"{spec.name} {pn} overwritten {which}", (lambda env, s=spec, p=PLANS[pn], w=which: overwritten(env, s, p, 5, w)), {"hide": True}
    for L in (1, 2):
        spec = encoder_spec(L, 2)
        spec.minT = 999
        for pn in ("steps", "blocks"):
            yield f"{spec.name} {pn} kept", (lambda env, s=spec, p=PLANS[pn]: kept(env, s, p, False, 5)), {"hide": True}
            for which in ("inputs", "outputs"):
                yield f"{spec.name} {pn} overwritten {which}", (lambda env, s=spec, p=PLANS[pn], w=which: overwritten(env, s, p, 5, w)), {"hide": True}
    for kind_ in ("single", "retro"):
        for own in (False, True):
            for which in ("kept", "inputs", "outputs"):
                yield f"mha {kind_} own={own} {which}", (lambda env, k=kind_, o=own, w=which: mha(env, k, o, w)), {"hide": True}
