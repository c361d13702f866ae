"""P29: a copy of a network continues its stream, identically and on its own"""
import copy

from .common import *
from .p22 import MODES, n_
from .p25 import encoder_spec

BOUNDS = ("deep copies taken after 0..4 steps (larger modules, delay up to 8: up to 12) (mixtures of steps and blocks), copies of copies; 3 more steps or a block on each side in either order; the "
          "original cleaned, fed with other data, its parameters overwritten, its mode changed; module zoo with recurrent networks, converted activations and normalisations, "
          "conditionals, encodings, attention and encoders; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: copies after up to 65 steps, kernels to 19, delay 20"
OUTSIDE = "copies of states which carry gradients (torch refuses them), pickled copies, longer histories"


def duplicate(env, m):
    return copy.deepcopy(m)


def history(env, m, x, h):
    if h >= 3:
        m.forward_steps(x[:, :, : h - 1])
        m.forward_step(x[:, :, h - 1])
    else:
        for t in range(h):
            m.forward_step(x[:, :, t])


def go(m, x, block):
    if block:
        o = m.forward_steps(x)
        return [o if present(o) and o.shape[2] else None]
    return [n_(m.forward_step(x[:, :, t])) for t in range(x.shape[2])]


def continues(env, spec, h, N=3):
    """both the copy and the original give what a network does which was never copied"""
    x = spec.x(env, T=h + N)
    ref, m = spec.make(env), spec.make(env)
    history(env, ref, x, h)
    history(env, m, x, h)
    c = duplicate(env, m)
    if env.flag("copy of the copy"):
        c = duplicate(env, c)
    env.true("training flags", all(a.training == b.training for a, b in zip(m.modules(), c.modules())))
    env.true("same parts", [type(s) for s in m.modules()] == [type(s) for s in c.modules()])
    env.true("no shared parts", not {id(s) for s in m.modules()} & {id(s) for s in c.modules()})
    sa, sb = m.state_dict(), c.state_dict()
    env.true("same keys", list(sa) == list(sb))
    block = env.flag("block")
    want = go(ref, x[:, :, h:], block)
    if env.flag("original first"):
        a = go(m, x[:, :, h:], block)
        b = go(c, x[:, :, h:], block)
    else:
        b = go(c, x[:, :, h:], block)
        a = go(m, x[:, :, h:], block)
    for i, w in enumerate(want):
        env.eq(f"copy {i}", b[i], w)
        env.eq(f"original {i}", a[i], w)


def independent(env, spec, h, N=3):
    """what happens to the original does not reach the copy, nor the other way round"""
    x = spec.x(env, T=h + N)
    y = spec.x(env, "y", T=max(2, spec.minT))
    ref, m = spec.make(env), spec.make(env)
    history(env, ref, x, h)
    history(env, m, x, h)
    c = duplicate(env, m)
    kept, other = (c, m) if env.flag("copy is kept") else (m, c)
    what = env.choose("other", 4)
    want = go(ref, x[:, :, h : h + 1], False)
    got = go(kept, x[:, :, h : h + 1], False)
    if what == 0:
        other.clean_state()
        go(other, y, False)
    elif what == 1:
        go(other, y, True)
    elif what == 2:
        with torch.no_grad():
            for p in [*other.parameters(), *other.buffers()]:
                if p.is_floating_point():
                    p.fill_(3.0)
        if hasattr(other, "forward_step"):
            other.forward_step(y[:, :, 0])
    else:
        other.call_mode = co.module._callmode("forward_step")
        if "bn" not in spec.name and spec.name != "converted":
            other.train()
        other(y[:, :, 0])
    want += go(ref, x[:, :, h + 1 :], False)
    got += go(kept, x[:, :, h + 1 :], False)
    for i, w in enumerate(want):
        env.eq(f"kept {i}", got[i], w)


def mode(env, spec):
    """the call mode of a network is kept by its copies"""
    m, r = spec.make(env), spec.make(env)
    k = MODES[env.choose("mode", 3)]
    m.call_mode = co.module._callmode(k)
    x = spec.x(env, T=max(4, spec.minT))
    c = duplicate(env, m)
    a = x[:, :, 0] if k == "forward_step" else x
    want = getattr(r, k)(a)
    env.eq("copy as called", n_(c(a)), n_(want))
    env.eq("original as called", n_(m(a)), n_(want))
    e = MODES[env.choose("context", 3)]
    a = x[:, :, 0] if e == "forward_step" else x
    with co.call_mode(e):
        got = c(a)
    env.eq("copy in context", n_(got), n_(getattr(r, e)(a)))


def mha(env, kind_, h):
    cls = {"single": co.SingleOutputMultiheadAttention, "retro": co.RetroactiveMultiheadAttention}[kind_]
    mk = lambda: env.symbolize(cls(2, 1, batch_first=True, embed_dim_second=True, sequence_len=2, forward_returns_attn_mask=False), "w", shared=True).eval()
    x, y = env.tensor("x", 1, 2, h + 3), env.tensor("y", 1, 2, 2)
    ref, m = mk(), mk()
    for t in range(h):
        ref.forward_step(x[:, :, t])
        m.forward_step(x[:, :, t])
    c = duplicate(env, m)
    kept, other = (c, m) if env.flag("copy is kept") else (m, c)
    for t in range(h, h + 3):
        env.eq(f"kept {t}", n_(kept.forward_step(x[:, :, t])), n_(ref.forward_step(x[:, :, t])))
        if t < h + 2:
            other.forward_step(y[:, :, t - h])


def zoo(tier):
    z = small_zoo(tier) + shrink_specs()[:4] + rnn_specs() + extra(tier, 10)
    c = sp(1, 2)
    return z + [
        Spec("softmax", lambda: co.continual(nn.Softmax(dim=1)), c, hide=True),
        Spec("prelu", lambda: co.forward_stepping(nn.PReLU()), c),
        Spec("converted", lambda: co.continual(nn.Sequential(nn.Conv1d(1, 2, 2), nn.BatchNorm1d(2), nn.ReLU(), nn.AvgPool1d(2, 1))), sp(1, 1), minT=3),
    ]


def scenarios(tier):
    for spec in zoo(tier):
        rnn = recurrent(spec)
        o = {"hide": True} if rnn or spec.hide else {}
        N = 2 if rnn else 3
        for h in ((0, 2) if rnn else (0, 2, 4)) if tier == "quick" else (0, 1, 2, 3, 4, 6):
            yield f"{spec.name} after {h}", (lambda env, s=spec, h=h, N=N: continues(env, s, h, N)), o
        yield f"{spec.name} on its own", (lambda env, s=spec, N=N: independent(env, s, 2, N)), o
        if not rnn:
            yield f"{spec.name} mode", (lambda env, s=spec: mode(env, s)), o
    for name, spec, T, B in far_of(""):
        if B == 1:
            yield name, (lambda env, spec=spec, T=T: continues(env, spec, T - 5, 5)), {}
    for spec in large_zoo():
        for h in (7, 12):
            yield f"{spec.name} after {h} large", (lambda env, s=spec, h=h: continues(env, s, h, 5)), {}
        yield f"{spec.name} on its own large", (lambda env, s=spec: independent(env, s, 8, 5)), {}
    for spec in att_specs():
        for h in (0, 2, 4):
            yield f"{spec.name} after {h}", (lambda env, s=spec, h=h: continues(env, s, h, 2)), {"hide": True}
        yield f"{spec.name} on its own", (lambda env, s=spec: independent(env, s, 2, 2)), {"hide": True}
    for L in (1, 2):
        spec = encoder_spec(L, 2)
        yield f"{spec.name}", (lambda env, s=spec: continues(env, s, 2, 2)), {"hide": True}
    for k in ("single", "retro"):
        for h in (0, 1, 3):
            yield f"mha {k} after {h}", (lambda env, k=k, h=h: mha(env, k, h)), {"hide": True}
