"""P17: retroactive attention over the window"""
from .common import *
from .p15 import compositions
from .p16 import reference, said, streams, time_slice, to, want_rows

BOUNDS = ("window 2..6, embedding 1, 2 (1 and 2 heads), 3 (3 heads), 4 (2 and 4 heads) and 6 (3 heads), batch 1..2, all three input layouts, with/without bias, own key and "
          "value streams (also the key only), separate key/value widths; up to 6 steps past the first full window, all step/block schedules of at most "
          "three calls; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: streams of 26 steps, window 12, 8 heads, batch 6"
OUTSIDE = ("window of length one; masks, dropout in training (skipped in streams, with a warning), added key/value bias or zero attention (rejected or undefined in streams); "
           "float cancellation in the running sums")


def build(N, E, h, bias, layout, kd=None, vd=None, drop=0.0):
    bf, ed2 = {"NET": (True, True), "NTE": (True, False), "TNE": (False, False)}[layout]
    return co.RetroactiveMultiheadAttention(E, h, dropout=drop, bias=bias, batch_first=bf, embed_dim_second=ed2, sequence_len=N,
                                            kdim=kd, vdim=vd, forward_returns_attn_mask=False)


def stacked(layout, rows):
    """list of (B, E, N) windows -> block output"""
    o = torch.stack(rows, 0)  # T B E N
    return {"NET": o.permute(1, 2, 0, 3), "NTE": o.permute(1, 0, 3, 2), "TNE": o.permute(0, 3, 1, 2)}[layout]


def retro(env, N, E, h, bias, layout, B, own, kd=None, vd=None, extra=2, drop=0.0, train=False):
    T = N + extra - 1
    qs, ks, vs = streams(env, E, B, T, own, kd, vd)
    ref = reference(env, N, E, h, bias, kd, vd, drop).train(train)
    mk = lambda: env.symbolize(build(N, E, h, bias, layout, kd, vd, drop), "w", shared=True).train(train)
    wants = {t: want_rows(ref, qs, ks, vs, N, t) for t in range(N - 1, T)}
    w = [to(layout, z[:, :, :N]) for z in (qs, ks, vs)]
    env.eq("offline", mk().forward(*said(w, own)), to(layout, wants[N - 1]))
    m = mk()
    for t in range(T):
        a = [z[:, :, t] for z in (qs, ks, vs)]
        o = m.forward_step(*said(a, own))
        if t < N - 1:
            env.true(f"nothing at step {t}", not present(o), kind(o))
        else:
            env.true(f"output at step {t}", present(o), kind(o))
            env.eq(f"step {t}", o, to(layout, wants[t]))
    cuts = [c for c in compositions(T) if len(c) <= 3] if T <= 10 else [[T], [1] * T, [N + 1, T - N - 1], [1, T - 2, 1]]
    c = cuts[env.choose("schedule", len(cuts))]
    m = mk()
    t = 0
    L = [to(layout, z) for z in (qs, ks, vs)]
    for n in c:
        a = [time_slice(layout, z, t, t + n) for z in L]
        o = m.forward_steps(*said(a, own))
        due = [wants[u] for u in range(t, t + n) if u in wants]
        if due:
            env.true(f"block {t}+{n} due", present(o), kind(o))
            env.eq(f"block {t}+{n}", o, stacked(layout, due))
        else:
            env.true(f"block {t}+{n} nothing", not present(o), kind(o))
        t += n


def probing(env, N, E, layout, h0):
    mk = lambda: env.symbolize(build(N, E, 1, True, layout), "w", shared=True).eval()
    x = env.tensor("x", 1, E, h0 + 2)
    y = env.tensor("y", 1, E, 2)
    m, r = mk(), mk()
    for t in range(h0):
        m.forward_step(x[:, :, t]), r.forward_step(x[:, :, t])
    if env.flag("block"):
        m.forward_steps(to(layout, y), update_state=False)
    else:
        m.forward_step(y[:, :, 0], update_state=False)
    for t in range(h0, h0 + 2):
        env.eq(f"after probing {t}", m.forward_step(x[:, :, t]), r.forward_step(x[:, :, t]))
    m.clean_state()
    f = mk()
    for t in range(N + 1):
        env.eq(f"after cleaning {t}", m.forward_step(x[:, :, t % (h0 + 2)]), f.forward_step(x[:, :, t % (h0 + 2)]))


def scenarios(tier):
    th = tier == "thorough"
    o = {"hide": True}
    L = ("NET", "NTE", "TNE")
    for N in (2, 3, 4) if not th else (2, 3, 4, 5):
        for layout in L:
            for E in (1, 2):
                yield f"N={N} E={E} h=1 {layout}", (lambda env, N=N, l=layout, E=E: retro(env, N, E, 1, True, l, 1, False)), o
    for layout in L:
        yield f"heads {layout}", (lambda env, l=layout: retro(env, 3, 2, 2, True, l, 1, False)), o
        yield f"batch 2 {layout}", (lambda env, l=layout: retro(env, 2, 2, 1, True, l, 2, False)), o
        yield f"own key and value {layout}", (lambda env, l=layout: retro(env, 3, 2, 2, True, l, 2, True)), o
        yield f"no bias {layout}", (lambda env, l=layout: retro(env, 2, 2, 2, False, l, 1, False)), o
        yield f"separate widths {layout}", (lambda env, l=layout: retro(env, 3, 2, 1, True, l, 1, True, 1, 3)), o
        yield f"long {layout}", (lambda env, l=layout: retro(env, 2, 1, 1, True, l, 1, False, extra=7)), o
        for h0 in (0, 1, 2, 4):
            yield f"probing after {h0} {layout}", (lambda env, l=layout, h0=h0: probing(env, 2, 2, l, h0)), o
    for rate, train in ((0.5, False), (0.0, True)):
        yield f"dropout {rate} {'training' if train else 'evaluation'}", (lambda env, r=rate, t=train: retro(env, 2, 2, 1, True, "NET", 1, False, drop=r, train=t)), o
    for layout in L:
        yield f"window 5 {layout}", (lambda env, l=layout: retro(env, 5, 1, 1, True, l, 1, False, extra=4)), o
        yield f"window 6 own key and value {layout}", (lambda env, l=layout: retro(env, 6, 1, 1, False, l, 1, True, extra=3)), o
    for N, E, h, B, extra in ((3, 1, 1, 1, 24), (2, 1, 1, 6, 2), (2, 8, 8, 1, 1), (12, 1, 1, 1, 3)):
        yield f"far N={N} E={E} heads={h} B={B} extra={extra}", (lambda env, a=(N, E, h, True, "NET", B, False), e=extra: retro(env, *a, extra=e)), o
    for E, h in ((3, 3), (6, 3), (4, 4)):
        yield f"heads {h} of {E}", (lambda env, E=E, h=h: retro(env, 2, E, h, True, "NET", 1, False)), o
    for layout in L:
        yield f"own key only {layout}", (lambda env, l=layout: retro(env, 3, 2, 2, True, l, 1, "key")), o
    yield "four heads, batch 2", (lambda env: retro(env, 2, 4, 4, True, "NET", 2, False)), o
    yield "batch 3", (lambda env: retro(env, 2, 2, 2, True, "NTE", 3, True)), o
    yield "wide", (lambda env: retro(env, 2, 4, 2, True, "NET", 1, False)), o
