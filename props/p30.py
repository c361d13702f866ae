"""P30: training on streams: gradients through streamed outputs are the gradients of the same offline outputs"""
from .common import *
from .p16 import build as single_build
from .p16 import reference, time_slice, to, want_rows
from .p17 import stacked
from .p18 import reference as enc_reference
from .p18 import ref_out

BOUNDS = ("whole module zoo, larger modules (kernel up to 9, delay up to 8), shrinking residuals, positional encodings, conditionals and recurrent networks, evaluation and training mode: step by step, one block, one block with end padding, "
          "two calls (steps/blocks) cut at every point, with a discarded call in between, and after an earlier training iteration and clean_state; convolutions, pools, recurrent layers, linear layers against torch.nn; "
          "single-output and retroactive attention (window 2..3), one and two encoder layers; symbolic weights, inputs and output gradients")
OUTSIDE = ("ties of max pooling (there is no gradient there), dropout and batch statistics in training mode, double backward, in-place changes of weights between steps, "
           "a backward pass between two steps of one stream without detaching the state (torch refuses it)")


def leaves_of(m, *xs):
    ps = list(m.parameters())
    for p in [*xs, *ps]:
        p.requires_grad_(True)
    return [*xs, *ps]


def grads(o, ct, leaves):
    g = torch.autograd.grad([o], leaves, [ct], allow_unused=True)
    return [torch.zeros_like(l) if a is None else a for a, l in zip(g, leaves)]


def first(o):
    return o[0] if isinstance(o, tuple) else o


def compare(env, label, m, x, F, ct, a, o):
    """o: streamed outputs which are the offline outputs number a, a+1, ..."""
    if not present(o) or o.shape[2] == 0:
        return
    n = o.shape[2]
    env.true(f"{label}: offline covers the outputs", a + n <= F.shape[2], f"{a}+{n} of {F.shape[2]}")
    L = leaves_of(m, x)
    env.true(f"{label}: differentiable", o.requires_grad == F.requires_grad)
    if F.requires_grad:
        env.eq(f"{label}: gradients", grads(o, ct[:, :, a : a + n], L), grads(F[:, :, a : a + n], ct[:, :, a : a + n], L))


HOW = ["steps", "block", "padded", "steps then block", "block then steps", "block then block", "steps, a discarded call, block", "earlier iteration"]


def parts(env, m, x, T, how, y):
    """the outputs of a streamed pass"""
    if how == "padded":
        return [m.forward_steps(x, pad_end=True)]
    if how == "block":
        return [m.forward_steps(x)]
    if how == "steps":
        return [stack(steps(m, x))]
    if how == "earlier iteration":
        o = stack(steps(m, y))
        o2 = m.forward_steps(y)
        for z in (o, o2):
            if present(z) and z.shape[2] and z.requires_grad:
                grads(z, torch.ones_like(z), leaves_of(m, y))
                break
        m.clean_state()
        return [stack(steps(m, x))]
    cut = 1 + env.choose("cut", T - 1)
    a, b = x[:, :, :cut], x[:, :, cut:]
    if how == "steps then block":
        return [stack(steps(m, a)), m.forward_steps(b)]
    if how == "block then steps":
        return [m.forward_steps(a), stack(steps(m, b))]
    if how == "block then block":
        return [m.forward_steps(a), m.forward_steps(b)]
    o = stack(steps(m, a))
    m.forward_steps(y, update_state=False)
    return [o, m.forward_steps(b)]


def zoo_run(env, spec, T, train, hows):
    env.smooth = True
    with torch.enable_grad():
        m = spec.make(env, train=train)
        x, y = spec.x(env, T=T), spec.x(env, "y", T=T)
        leaves_of(m, x, y)
        F = first(m.forward(x))
        ct = env.tensor("ct", *F.shape)
        m = env_tied(env, spec, m, train)
        how = hows[env.choose("how", len(hows))]
        outs = [first(o) for o in parts(env, m, x, T, how, y)]
        outs = [o for o in outs if present(o) and o.shape[2]]
        if not outs:
            env.true("no output", True)
            return
        compare(env, how, m, x, F, ct, 0, torch.cat(outs, 2))
        env.cover(how)


def env_tied(env, spec, m, train):
    """a second instance (fresh state) with the very same parameters"""
    m2 = spec.build()
    env.symbolize(m2, "m", shared=True)
    env.tie(m2, m)
    m2.train(train)
    for mod in m2.modules():
        if hasattr(mod, "_flat_weights_names"):
            mod._flat_weights = [getattr(mod, n) if hasattr(mod, n) else None for n in mod._flat_weights_names]
    return m2


def twin_run(env, spec, T, train):
    """the offline pass against torch.nn, one set of variables"""
    env.smooth = True
    with torch.enable_grad():
        x = spec.x(env, T=T)
        a, b = spec.make(env, train=train), env.symbolize(spec.twin(), "m", shared=True).train(train)
        La, Lb = leaves_of(a, x), leaves_of(b, x)
        perm = spec.perm
        F, G = first(a.forward(x)), perm(first(b(perm(x))))
        env.eq("values", F, G)
        ct = env.tensor("ct", *G.shape)
        env.eq("gradients", grads(F, ct, La), grads(G, ct, Lb))


def twins():
    out = [s for s in asym_convs() + asym_pools()]
    for s in out:
        s.perm = lambda z: z
    for n, c, r in (("rnn", co.RNN, nn.RNN), ("gru", co.GRU, nn.GRU), ("lstm", co.LSTM, nn.LSTM)):
        s = Spec(n, lambda c=c: c(1, 2), sp(1, 1))
        s.twin = lambda r=r: r(1, 2, batch_first=True)
        s.perm = lambda z: z.transpose(1, 2)
        out.append(s)
    s = Spec("linear", lambda: co.Linear(2, 3, channel_dim=1), sp(1, 2))
    s.twin, s.perm = lambda: nn.Linear(2, 3), lambda z: z.transpose(1, 2)
    out.append(s)
    return out


# ---- attention -------------------------------------------------------------------------------------
def attention(env, kind_, N, E, h, layout, own, T, q=-1):
    env.smooth = True
    with torch.enable_grad():
        xs = [env.tensor(n, 1, E, T) for n in ("q", "k", "v")[: 3 if own else 1]]
        ref = reference(env, N, E, h, True)
        cls = {"single": co.SingleOutputMultiheadAttention, "retro": co.RetroactiveMultiheadAttention}[kind_]
        mk = lambda: env.symbolize(single_build(N, E, h, True, q if kind_ == "single" else None, layout, cls=cls), "w", shared=True).eval()
        m = mk()
        env.tie(m, ref)
        L = leaves_of(ref, *xs)
        full = lambda t: want_rows(ref, *(xs if own else xs * 3), N, t)
        pick = (lambda f: f[:, :, q]) if kind_ == "single" else (lambda f: f)
        how = env.choose("how", 3)
        got, want = [], []
        cut = N if how == 2 else T
        if how:
            o = m.forward_steps(*[time_slice(layout, to(layout, z), 0, cut) for z in xs])
            due = [pick(full(t)) for t in range(N - 1, cut)]
            got.append(o), want.append(to(layout, torch.stack(due, 2)) if kind_ == "single" else stacked(layout, due))
        for t in range(cut if how else 0, T):
            o = m.forward_step(*[z[:, :, t] for z in xs])
            if t >= N - 1:
                got.append(o)
                w = pick(full(t))
                want.append(to(layout, w) if kind_ == "retro" else w)
        for i, (o, w) in enumerate(zip(got, want)):
            env.true(f"output {i}", present(o) and o.requires_grad, kind(o))
            ct = env.tensor("ct", *w.shape)
            keep = lambda z: torch.autograd.grad([z], L, [ct], allow_unused=True, retain_graph=True)
            fix = lambda gs: [torch.zeros_like(l) if a is None else a for a, l in zip(gs, L)]
            env.eq(f"gradients of output {i}", fix(keep(o)), fix(keep(w)))


def encoder(env, L, N, T, act="relu"):
    env.smooth = True
    with torch.enable_grad():
        ref = enc_reference(env, 2, 1, 2, L, act, False)
        x = env.tensor("x", 1, 2, T)
        m = co.TransformerEncoder.build_from(ref, sequence_len=N).eval()
        pairs = matched(ref, m, L)
        for p in [x, *m.parameters(), *ref.parameters()]:
            p.requires_grad_(True)
        LM, LR = [x] + [a for a, _ in pairs], [x] + [b for _, b in pairs]
        how = env.choose("how", 2)
        got = [m.forward_steps(x)] if how else []
        want = []
        for t in range(T):
            o = m.forward_step(x[:, :, t]) if not how else None
            if t >= N - 1:
                got += [o] if not how else []
                want.append(ref_out(ref, x[:, :, t - N + 1 : t + 1])[:, :, -1])
        if how:
            want = [torch.stack(want, 2)]
        for i, (o, w) in enumerate(zip(got, want)):
            env.true(f"output {i}", present(o) and o.requires_grad, kind(o))
            ct = env.tensor("ct", *w.shape)
            fix = lambda z, ls: [torch.zeros_like(l) if g is None else g for g, l in zip(torch.autograd.grad([z], ls, [ct], allow_unused=True, retain_graph=True), ls)]
            env.eq(f"gradients of output {i}", fix(o, LM), fix(w, LR))


def matched(ref, m, L):
    """parameters of the continual encoder and of the reference which carry the same variables"""
    names = ("self_attn.in_proj_weight", "self_attn.in_proj_bias", "self_attn.out_proj.weight", "self_attn.out_proj.bias", "linear1.weight", "linear1.bias", "linear2.weight", "linear2.bias")
    stack_ = list(dict(m.named_children())["layers"].children())
    out = []
    for i in range(L):
        r = dict(ref.layers[i].named_parameters())
        for n, p in stack_[i].named_parameters():
            for full in names:
                if n.endswith(full):
                    out.append((p, r[full]))
            for norm in ("norm1", "norm2"):
                if norm in n.split("."):
                    out.append((p, r[f"{norm}.{n.split('.')[-1]}"]))
    assert len(out) == L * 12, len(out)
    return out


def zoo(tier):
    rpe = [Spec("rpe", lambda: co.RecyclingPositionalEncoding(2, 9, forward_update_index_steps=0), sp(1, 2)),
           Spec("learned rpe", lambda: co.RecyclingPositionalEncoding(2, 9, forward_update_index_steps=0, learned=True), sp(1, 2)),
           Spec("seq(rpe,c3)", lambda: co.Sequential(co.RecyclingPositionalEncoding(2, 9, forward_update_index_steps=0), C1(3, i=2)), sp(1, 2), minT=3)]
    return small_zoo(tier) + shrink_specs() + rnn_specs() + [s for s in extra(tier, 10) if "rpe" not in s.name] + rpe


def scenarios(tier):
    th = tier == "thorough"
    for spec in zoo(tier):
        r = recurrent(spec)
        T = 3 if r else max(5 if not th else 8, min(spec.minT, 90) + 1)
        hows = [h for h in HOW if not (h == "padded" and "padded" in spec.tags)]
        for train in (False, True):
            if train and "bn" in spec.name:
                continue
            yield f"{spec.name} train={train}", (lambda env, spec=spec, T=T, train=train, hows=hows: zoo_run(env, spec, T, train, hows)), {"hide": r}
    for spec in large_zoo():
        yield f"{spec.name} large", (lambda env, spec=spec: zoo_run(env, spec, spec.minT + 5, False, [h for h in HOW if not (h == "padded" and "padded" in spec.tags)])), {}
    for spec in twins():
        for train in (False, True):
            T = 3 if recurrent(spec) else spec.minT + 2
            yield f"torch {spec.name} train={train}", (lambda env, spec=spec, T=T, train=train: twin_run(env, spec, T, train)), {"hide": recurrent(spec)}
    for kind_ in ("single", "retro"):
        for layout in ("NET", "NTE", "TNE"):
            for own in (False, True):
                yield f"mha {kind_} {layout} own={own}", (lambda env, k=kind_, l=layout, o=own: attention(env, k, 2, 1 + o, 1, l, o, 3)), {"hide": "linear"}
        yield f"mha {kind_} heads own=True", (lambda env, k=kind_: attention(env, k, 2, 2, 2, "NET", True, 3)), {"hide": "linear"}
    for q in (0, 1):
        yield f"mha single q={q}", (lambda env, q=q: attention(env, "single", 3, 1, 1, "NET", False, 5, q=q)), {"hide": "linear"}
    for L in (1, 2):
        for act in ("relu", "gelu"):
            yield f"encoder {L} {act}", (lambda env, L=L, a=act: encoder(env, L, 2, 3, a)), {"hide": "linear"}
