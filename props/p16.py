"""P16: single-output attention over the window"""
from .common import *
from .p15 import compositions

BOUNDS = ("window 2..6, embedding 2 (1 and 2 heads), 3 (3 heads), 4 (2 and 4 heads) and 6 (3 heads), every query position (negative and positive), batch 1..2, both input layouts, with/without bias, "
          "own key and value streams (also the key only), separate key/value widths; streams up to 3 steps past the first full window, all step/block "
          "schedules; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: streams of 26 steps, window 12, 8 heads, batch 6"
OUTSIDE = "masks, random dropout (rates 0 and 1 in training, any in evaluation are inside), added key/value bias or zero attention (rejected or undefined in streams); float cancellation"


def build(N, E, h, bias, q, layout, kd=None, vd=None, cls=None, **kw):
    cls = cls or co.SingleOutputMultiheadAttention
    bf, ed2 = {"NET": (True, True), "NTE": (True, False), "TNE": (False, False)}[layout]
    if q is not None:
        kw["query_index"] = q
    return cls(E, h, bias=bias, batch_first=bf, embed_dim_second=ed2, sequence_len=N, kdim=kd, vdim=vd, forward_returns_attn_mask=False, **kw)


def to(layout, x):
    """N E T -> layout"""
    return {"NET": x, "NTE": x.transpose(1, 2), "TNE": x.permute(2, 0, 1)}[layout]


def time_slice(layout, x, a, b):
    return {"NET": x[:, :, a:b], "NTE": x[:, a:b], "TNE": x[a:b]}[layout]


def streams(env, E, B, T, own, kd=None, vd=None):
    x = env.tensor("x", B, E, T)
    if not own:
        return x, x, x
    k = env.tensor("k", B, kd or E, T)
    return x, k, x if own == "key" else env.tensor("v", B, vd or E, T)


def said(a, own):
    """the arguments of a call: the query alone, with the key (the value is then the query), or all"""
    return a[: {False: 1, "key": 2, True: 3}[own]]


def reference(env, N, E, h, bias, kd=None, vd=None, drop=0.0):
    ref = nn.MultiheadAttention(E, h, bias=bias, dropout=drop, batch_first=True, kdim=kd, vdim=vd)
    return env.symbolize(ref, "w", shared=True).eval()


def want_rows(ref, q, k, v, N, t):
    """attention rows of the window ending at t: (B, E, N)"""
    sl = lambda z: z[:, :, t - N + 1 : t + 1].transpose(1, 2)
    o, _ = ref(sl(q), sl(k), sl(v), need_weights=ref.training)
    return o.transpose(1, 2)


def single(env, N, E, h, bias, q, layout, B, own, kd=None, vd=None, extra=2, drop=0.0, train=False):
    T = N + extra - 1
    qs, ks, vs = streams(env, E, B, T, own, kd, vd)
    ref = reference(env, N, E, h, bias, kd, vd, drop).train(train)
    mk = lambda **kw: env.symbolize(build(N, E, h, bias, q, layout, kd, vd, dropout=drop, **kw), "w", shared=True).train(train)
    qi = q if q >= 0 else N + q
    wants = {t: want_rows(ref, qs, ks, vs, N, t)[:, :, qi] for t in range(N - 1, T)}
    # offline on one window
    w = [to(layout, z[:, :, :N]) for z in (qs, ks, vs)]
    args = said(w, own)
    full = want_rows(ref, qs, ks, vs, N, N - 1)
    env.eq("offline, one query", mk(single_output_forward=True).forward(*args), to(layout, full[:, :, qi : qi + 1]))
    env.eq("offline, all queries", mk(single_output_forward=False).forward(*args), to(layout, full))
    m = mk()
    for t in range(T):
        a = [z[:, :, t] for z in (qs, ks, vs)]
        o = m.forward_step(*said(a, own))
        if t < N - 1:
            env.true(f"nothing at step {t}", not present(o), kind(o))
        else:
            env.true(f"output at step {t}", present(o), kind(o))
            env.eq(f"step {t}", o, wants[t])
    # blocks
    cuts = [c for c in compositions(T) if len(c) <= 3] if T <= 10 else [[T], [1] * T, [N + 1, T - N - 1], [1, T - 2, 1]]
    c = cuts[env.choose("schedule", len(cuts))]
    m = mk()
    t = 0
    L = [to(layout, z) for z in (qs, ks, vs)]
    for n in c:
        a = [time_slice(layout, z, t, t + n) for z in L]
        o = m.forward_steps(*said(a, own))
        due = [wants[u] for u in range(t, t + n) if u in wants]
        if due:
            env.true(f"block {t}+{n} due", present(o), kind(o))
            env.eq(f"block {t}+{n}", o, to(layout, torch.stack(due, 2)))
        else:
            env.true(f"block {t}+{n} nothing", not present(o), kind(o))
        t += n


def probing(env, N, E, q, cls, h0):
    mk = lambda: env.symbolize(build(N, E, 1, True, q, "NET", cls=cls), "w", shared=True).eval()
    x = env.tensor("x", 1, E, h0 + 2)
    y = env.tensor("y", 1, E, 2)
    m, r = mk(), mk()
    for t in range(h0):
        m.forward_step(x[:, :, t]), r.forward_step(x[:, :, t])
    if env.flag("block"):
        m.forward_steps(y, update_state=False)
    else:
        m.forward_step(y[:, :, 0], update_state=False)
    for t in range(h0, h0 + 2):
        env.eq(f"after probing {t}", m.forward_step(x[:, :, t]), r.forward_step(x[:, :, t]))
    m.clean_state()
    f = mk()
    for t in range(N):
        env.eq(f"after cleaning {t}", m.forward_step(x[:, :, t % (h0 + 2)]), f.forward_step(x[:, :, t % (h0 + 2)]))


def scenarios(tier):
    th = tier == "thorough"
    o = {"hide": True}
    for N in (2, 3, 4) if not th else (1, 2, 3, 4, 5):
        for q in list(range(-N, N)):
            for layout in ("NET", "NTE", "TNE"):
                if not th and layout != "NET" and (N > 3 or q not in (-1, -2, 1)):
                    continue
                yield f"N={N} E=2 h=1 q={q} {layout}", (lambda env, N=N, q=q, l=layout: single(env, N, 2, 1, True, q, l, 1, False)), o
    for q in (-5, -3, -1, 0, 4):
        yield f"window 5 q={q}", (lambda env, q=q: single(env, 5, 1, 1, True, q, "NTE" if q % 2 else "NET", 1, False, extra=4)), o
        yield f"window 6 own key and value q={q}", (lambda env, q=q: single(env, 6, 1, 1, False, q, "TNE" if q % 2 else "NET", 1, True, extra=3)), o
    for N, E, h, B, extra in ((3, 1, 1, 1, 24), (2, 1, 1, 6, 2), (2, 8, 8, 1, 1), (12, 1, 1, 1, 3)):
        for q in (-1, 0):
            yield f"far N={N} E={E} heads={h} B={B} extra={extra} q={q}", (lambda env, a=(N, E, h, True, q, "NET", B, False), e=extra: single(env, *a, extra=e)), o
    for E, h in ((3, 3), (6, 3), (4, 4)):
        yield f"heads {h} of {E}", (lambda env, E=E, h=h: single(env, 2, E, h, True, -1, "NET", 1, False)), o
    for rate, train in ((0.5, False), (1.0, True), (0.0, True)):
        for q in (-1, 0):
            yield f"dropout {rate} {'training' if train else 'evaluation'} q={q}", (lambda env, q=q, r=rate, t=train: single(env, 2, 2, 1, True, q, "NET", 1, False, drop=r, train=t)), o
    yield "batch 3", (lambda env: single(env, 2, 2, 2, True, -1, "NTE", 3, True)), o
    for q in (-1, -2, 0):
        for layout in ("NET", "NTE", "TNE"):
            yield f"heads q={q} {layout}", (lambda env, q=q, l=layout: single(env, 3, 2, 2, True, q, l, 1, False)), o
            yield f"batch 2 q={q} {layout}", (lambda env, q=q, l=layout: single(env, 2, 2, 1, True, q, l, 2, False)), o
            yield f"own key and value q={q} {layout}", (lambda env, q=q, l=layout: single(env, 3, 2, 2, True, q, l, 2, True)), o
            yield f"no bias q={q} {layout}", (lambda env, q=q, l=layout: single(env, 2, 2, 2, False, q, l, 1, False)), o
            yield f"separate widths q={q} {layout}", (lambda env, q=q, l=layout: single(env, 3, 2, 1, True, q, l, 1, True, 1, 3)), o
        yield f"own key only q={q}", (lambda env, q=q: single(env, 3, 2, 2, True, q, "NTE", 1, "key")), o
        yield f"four heads, batch 2 q={q}", (lambda env, q=q: single(env, 2, 4, 4, True, q, "NET", 2, False)), o
        yield f"wide q={q}", (lambda env, q=q: single(env, 2, 4, 2, True, q, "NET", 1, False)), o
        yield f"long q={q}", (lambda env, q=q: single(env, 2, 2, 1, True, q if q < 0 else 0, "NET", 1, False, extra=6)), o
        for h0 in (0, 1, 2, 4):
            yield f"probing after {h0} q={q}", (lambda env, q=q, h0=h0: probing(env, 2, 2, q, None, h0)), o
