"""P18: continual transformer encoders"""
from .common import *
from .p15 import compositions

BOUNDS = ("one and two encoder layers, embedding 2..4 with 1..4 heads, feed-forward width 2..3, window 2..4, relu and gelu, with/without final "
          "norm, converted from nn.TransformerEncoder and built directly; query positions of single-output layers; streams up to five "
          "steps past the first full window, step/block schedules of at most three calls; symbolic weights, eps and inputs")
BOUNDS += "; selected members far beyond the families: streams of 21 steps, batch 5, feed-forward 9"
OUTSIDE = "masks, random dropout (rates 0 and 1 in training, any in evaluation are inside), end padding, three or more layers (not implemented by the library)"


def reference(env, E, h, ff, L, act, norm, norm_first=False, eps=0.75, drop=0.0):
    layer = nn.TransformerEncoderLayer(E, h, ff, dropout=drop, activation=act, batch_first=True, norm_first=norm_first, layer_norm_eps=eps)
    enc = nn.TransformerEncoder(layer, L, norm=nn.LayerNorm(E) if norm else None, enable_nested_tensor=False)
    return env.symbolize(enc, "ref", shared=True).eval()


def ref_out(ref, w):
    """(B, E, N) -> (B, E, N)"""
    return ref(w.transpose(1, 2)).transpose(1, 2)


def tied(ref, net, L):
    """a directly built encoder with the weights of the reference"""
    names = {"self_attn.in_proj_weight": "iw", "self_attn.in_proj_bias": "ib", "self_attn.out_proj.weight": "ow", "self_attn.out_proj.bias": "ob",
             "norm1.weight": "n1w", "norm1.bias": "n1b", "norm2.weight": "n2w", "norm2.bias": "n2b",
             "linear1.weight": "l1w", "linear1.bias": "l1b", "linear2.weight": "l2w", "linear2.bias": "l2b"}
    stack = list(dict(net.named_children())["layers"].children())
    for i in range(L):
        p = dict(ref.layers[i].named_parameters())
        tie_layer(stack[i], {short: p[n] for n, short in names.items()})
    return net


def direct(env, E, h, ff, L, act, N, norm=False, extra=2, eps=0.75, drop=0.0, train=False):
    """built from a layer factory, with and without a final norm"""
    torch_act = act if isinstance(act, str) else {nn.functional.relu: "relu", nn.functional.gelu: "gelu"}.get(act, act)
    layer_ = nn.TransformerEncoderLayer(E, h, ff, dropout=drop, activation=torch_act, layer_norm_eps=eps, batch_first=True)
    ref = env.symbolize(nn.TransformerEncoder(layer_, L, norm=nn.LayerNorm(E, eps=0.5) if norm else None, enable_nested_tensor=False), "ref", shared=True).train(train)

    def mk():
        f = co.TransformerEncoderLayerFactory(E, h, ff, drop, act, eps, sequence_len=N)
        return tied(ref, co.TransformerEncoder(f, num_layers=L, norm=ref.norm), L).train(train)

    stream(env, mk, ref, E, L, N, 1, extra)


def encoder(env, E, h, ff, L, act, norm, N, B=1, extra=2, eps=0.75, drop=0.0, train=False):
    ref = reference(env, E, h, ff, L, act, norm, eps=eps, drop=drop).train(train)
    mk = lambda: co.TransformerEncoder.build_from(ref, sequence_len=N).train(train)
    stream(env, mk, own(mk) if train and drop else ref, E, L, N, B, extra)


def own(mk):
    """the network's own offline pass as reference"""
    return lambda z: mk().forward(z.transpose(1, 2)).transpose(1, 2)


def dropping(env, drop):
    """every sub-layer's result passes dropout before it is added, as in torch's layer"""
    ref = reference(env, 2, 1, 2, 1, "relu", True, drop=drop).train()
    x = env.tensor("x", 1, 2, 2)
    env.eq("offline in training", co.TransformerEncoder.build_from(ref, sequence_len=2).train().forward(x), ref_out(ref, x))


def stream(env, mk, ref, E, L, N, B, extra):
    T = N + extra - 1
    x = env.tensor("x", B, E, T)
    full = {t: ref_out(ref, x[:, :, t - N + 1 : t + 1]) for t in range(N - 1, T)}
    wants = {t: f[:, :, -1] for t, f in full.items()}
    m = mk()
    env.eq("offline", m.forward(x[:, :, :N]), full[N - 1] if L == 1 else full[N - 1][:, :, -1:])
    for t in range(T):
        o = m.forward_step(x[:, :, t])
        if t < N - 1:
            env.true(f"nothing at step {t}", not present(o), kind(o))
        else:
            env.true(f"output at step {t}", present(o), kind(o))
            env.eq(f"step {t}", o, wants[t])
    cuts = [c for c in compositions(T) if len(c) <= 3] if T <= 10 else [[T], [1] * T, [N + 1, T - N - 1], [1, T - 2, 1]]
    c = cuts[env.choose("schedule", len(cuts))]
    m = mk()
    t = 0
    for n in c:
        o = m.forward_steps(x[:, :, t : t + n])
        due = [wants[u] for u in range(t, t + n) if u in wants]
        if due:
            env.true(f"block {t}+{n} due", present(o), kind(o))
            env.eq(f"block {t}+{n}", o, torch.stack(due, 2))
        else:
            env.true(f"block {t}+{n} nothing", not present(o), kind(o))
        t += n


def ref_layer(env, E, h, ff, act, eps):
    """the standard post-norm layer, from its own parameters"""
    p = {n: env.tensor("p." + n, *s, shared=True) for n, s in (
        ("iw", (3 * E, E)), ("ib", (3 * E,)), ("ow", (E, E)), ("ob", (E,)), ("n1w", (E,)), ("n1b", (E,)),
        ("n2w", (E,)), ("n2b", (E,)), ("l1w", (ff, E)), ("l1b", (ff,)), ("l2w", (E, ff)), ("l2b", (E,)))}
    mha = nn.MultiheadAttention(E, h, batch_first=True)
    put(mha, "in_proj_weight", p["iw"]), put(mha, "in_proj_bias", p["ib"])
    put(mha.out_proj, "weight", p["ow"]), put(mha.out_proj, "bias", p["ob"])
    F = nn.functional

    def rows(w):
        z = w.transpose(1, 2)
        a, _ = mha(z, z, z, need_weights=False)
        y = F.layer_norm(z + a, (E,), p["n1w"], p["n1b"], eps)
        f = F.linear(act(F.linear(y, p["l1w"], p["l1b"])), p["l2w"], p["l2b"])
        return F.layer_norm(y + f, (E,), p["n2w"], p["n2b"], eps).transpose(1, 2)

    return p, rows


def put(m, name, t):
    m._parameters[name] = nn.Parameter(t, requires_grad=False)


def tie_layer(m, p):
    names = {"self_attn.in_proj_weight": "iw", "self_attn.in_proj_bias": "ib", "self_attn.out_proj.weight": "ow",
             "self_attn.out_proj.bias": "ob", "norm1": "n1", "norm2": "n2", "linear1": "l1", "linear2": "l2"}
    done = set()
    for mn, mod in m.named_modules():
        for pn in list(mod._parameters):
            full = f"{mn}.{pn}"
            for key, short in names.items():
                if full.endswith(key):
                    put(mod, pn, p[short])
                    done.add(short)
                elif key in full.split(".") and pn in ("weight", "bias"):
                    put(mod, pn, p[short + pn[0]])
                    done.add(short + pn[0])
    assert done == set(p), (done, set(p))
    return m


ACT = {"relu": nn.functional.relu, "gelu": nn.functional.gelu}


def layer(env, kind_, E, h, ff, N, q=-1, act="relu", B=1, extra=3, eps=0.75, sof=False, named=False, drop=0.0, train=False):
    T = N + extra - 1
    x = env.tensor("x", B, E, T)
    p, rows = ref_layer(env, E, h, ff, ACT[act], eps)

    def mk():
        kw = dict(dropout=drop, activation=act if named else ACT[act], layer_norm_eps=eps, sequence_len=N)
        if kind_ == "single":
            m = co.SingleOutputTransformerEncoderLayer(E, h, ff, query_index=q, single_output_forward=sof, **kw)
        else:
            m = co.RetroactiveTransformerEncoderLayer(E, h, ff, **kw)
        return tie_layer(m, p).train(train)

    full = {t: rows(x[:, :, t - N + 1 : t + 1]) for t in range(N - 1, T)}
    pick = (lambda f: f[:, :, q]) if kind_ == "single" else (lambda f: f)
    wants = {t: pick(f) for t, f in full.items()}
    off = full[N - 1]
    m = mk()
    env.eq("offline", m.forward(x[:, :, :N]), off[:, :, q].unsqueeze(2) if sof else off)
    for t in range(T):
        o = m.forward_step(x[:, :, t])
        if t < N - 1:
            env.true(f"nothing at step {t}", not present(o), kind(o))
        else:
            env.true(f"output at step {t}", present(o), kind(o))
            env.eq(f"step {t}", o, wants[t])
    cuts = [c for c in compositions(T) if len(c) <= 3]
    c = cuts[env.choose("schedule", len(cuts))]
    m = mk()
    t = 0
    for n in c:
        o = m.forward_steps(x[:, :, t : t + n])
        due = [wants[u] for u in range(t, t + n) if u in wants]
        if due:
            env.true(f"block {t}+{n} due", present(o), kind(o))
            env.eq(f"block {t}+{n}", o, torch.stack(due, 2))
        else:
            env.true(f"block {t}+{n} nothing", not present(o), kind(o))
        t += n


def probing(env, L, N, h0):
    E = 2
    ref = reference(env, E, 1, 2, L, "relu", False)
    mk = lambda: co.TransformerEncoder.build_from(ref, sequence_len=N).eval()
    x = env.tensor("x", 1, E, h0 + 2)
    y = env.tensor("y", 1, E, 2)
    m, r = mk(), mk()
    for t in range(h0):
        m.forward_step(x[:, :, t]), r.forward_step(x[:, :, t])
    if env.flag("block"):
        m.forward_steps(y, update_state=False)
    else:
        m.forward_step(y[:, :, 0], update_state=False)
    for t in range(h0, h0 + 2):
        env.eq(f"after probing {t}", m.forward_step(x[:, :, t]), r.forward_step(x[:, :, t]))
    m.clean_state()
    f = mk()
    for t in range(N + 1):
        env.eq(f"after cleaning {t}", m.forward_step(x[:, :, t % (h0 + 2)]), f.forward_step(x[:, :, t % (h0 + 2)]))


def scenarios(tier):
    th = tier == "thorough"
    o = {"hide": True}
    for L in (1, 2):
        for act in ("relu", "gelu"):
            for norm in (False, True):
                yield f"encoder L={L} {act} norm={norm}", (lambda env, L=L, a=act, n=norm: encoder(env, 2, 1, 2, L, a, n, 2)), o
        yield f"encoder L={L} heads", (lambda env, L=L: encoder(env, 2, 2, 3, L, "relu", True, 3)), o
        yield f"encoder L={L} batch", (lambda env, L=L: encoder(env, 2, 1, 2, L, "relu", False, 2, B=2)), o
        yield f"encoder L={L} long", (lambda env, L=L: encoder(env, 2, 1, 2, L, "relu", False, 2, extra=6)), o
        yield f"encoder L={L} window 3 long", (lambda env, L=L: encoder(env, 2, 1, 2, L, "gelu", False, 3, extra=5)), o
        yield f"encoder L={L} wide", (lambda env, L=L: encoder(env, 4, 2, 3, L, "relu", False, 2, extra=1, eps=1e-5)), o
        yield f"encoder L={L} eps", (lambda env, L=L: encoder(env, 2, 1, 2, L, "gelu", False, 2, eps=0.25)), o
        for act in ("relu", "gelu", nn.functional.gelu, nn.functional.relu6):
            a = act if isinstance(act, str) else act.__name__ + " function"
            yield f"direct L={L} {a}", (lambda env, L=L, act=act: direct(env, 2, 1, 2, L, act, 2, eps=0.25)), o
        yield f"direct L={L} norm", (lambda env, L=L: direct(env, 2, 2, 3, L, "gelu", 2, norm=True)), o
        yield f"direct L={L} window 3", (lambda env, L=L: direct(env, 2, 1, 2, L, "relu", 3, norm=True, extra=3)), o
        yield f"encoder L={L} heads of one", (lambda env, L=L: encoder(env, 3, 3, 2, L, "relu", False, 2, extra=1)), o
        if L == 1 or th:
            yield f"encoder L={L} window 4", (lambda env, L=L: encoder(env, 2, 1, 2, L, "relu", False, 4)), o
        yield f"far L={L} T=21", (lambda env, L=L: encoder(env, 2, 1, 2, L, "relu", False, 2, extra=20)), o
        yield f"far L={L} batch 5", (lambda env, L=L: encoder(env, 2, 1, 1, L, "relu", False, 2, B=5, extra=1)), o
        yield f"far L={L} feed-forward of 9", (lambda env, L=L: encoder(env, 2, 1, 9, L, "relu", False, 2, extra=1)), o
        for h0 in (0, 1, 2, 4):
            yield f"probing L={L} after {h0}", (lambda env, L=L, h0=h0: probing(env, L, 2, h0)), o
    for N in (1, 2, 3, 4):
        for q in range(-N, N):
            yield f"single N={N} q={q}", (lambda env, N=N, q=q: layer(env, "single", 2, 1, 2, N, q)), o
            yield f"single-output forward N={N} q={q}", (lambda env, N=N, q=q: layer(env, "single", 2, 1, 2, N, q, sof=True)), o
        if N > 1:
            yield f"retroactive N={N}", (lambda env, N=N: layer(env, "retro", 2, 1, 2, N, extra=N + 2)), o
    yield "single gelu eps", (lambda env: layer(env, "single", 2, 2, 3, 2, act="gelu", eps=0.25)), o
    yield "retroactive gelu eps", (lambda env: layer(env, "retro", 2, 2, 3, 2, act="gelu", eps=0.25)), o
    for act in ("relu", "gelu"):
        for k in ("single", "retro"):
            yield f"{k} activation by name {act}", (lambda env, k=k, act=act: layer(env, k, 2, 1, 2, 2, act=act, named=True)), o
    for rate, train in ((0.5, False), (1.0, True), (0.0, True)):
        tag = f"dropout {rate} {'training' if train else 'evaluation'}"
        for L in (1, 2) if not (train and rate) else (1,):
            yield f"encoder L={L} {tag}", (lambda env, L=L, r=rate, t=train: encoder(env, 2, 1, 2, L, "relu", True, 2, drop=r, train=t)), o
            if train and rate:
                continue
            yield f"direct L={L} {tag}", (lambda env, L=L, r=rate, t=train: direct(env, 2, 1, 2, L, "gelu", 2, drop=r, train=t)), o
        for k in ("single", "retro") if not (train and rate) else ():
            yield f"{k} {tag}", (lambda env, k=k, r=rate, t=train: layer(env, k, 2, 1, 2, 2, drop=r, train=t)), o
    yield "everything dropped in training", (lambda env: dropping(env, 1.0)), o
    yield "single batch", (lambda env: layer(env, "single", 2, 2, 2, 2, B=2)), o
    yield "retroactive batch", (lambda env: layer(env, "retro", 2, 2, 2, 2, B=2)), o
    yield "retroactive long", (lambda env: layer(env, "retro", 2, 1, 2, 2, extra=8)), o
    yield "single long", (lambda env: layer(env, "single", 2, 1, 2, 3, q=0, extra=7)), o
