"""P15: recurrent networks in streams equal the offline recurrent network"""
from .common import *

BOUNDS = ("RNN (tanh, relu), GRU, LSTM; 1..2 layers, input 1..2, hidden 1..2 (LSTM also with projections), with and without bias, batch 1..2, streams of 3 (2 layers: 2) steps (selected: 3 layers, input or hidden 3, batch 3, 6 steps) split "
          "into every step/block schedule; zero or arbitrary initial state; symbolic weights, inputs and initial states")
BOUNDS += "; selected members far beyond the families: streams of 24 steps, batch 6, input 9, hidden 5, 5 layers"
OUTSIDE = "random dropout between layers (rates 0 and 1 in training, any in evaluation are inside), packed sequences, bidirectional networks (not offered)"

KINDS = {"rnn_tanh": (nn.RNN, co.RNN, dict(nonlinearity="tanh")), "rnn_relu": (nn.RNN, co.RNN, dict(nonlinearity="relu")),
         "gru": (nn.GRU, co.GRU, {}), "lstm": (nn.LSTM, co.LSTM, {})}


def compositions(n):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(1, n + 1) for r in compositions(n - k)]


def rnn(env, kd, I, H, L, bias, B, T, h0, proj=0, drop=0.0, train=False):
    ncls, ccls, kw = KINDS[kd]
    if proj:
        kw = dict(kw, proj_size=proj)
    kw = dict(kw, dropout=drop) if drop else kw
    ref = ncls(I, H, num_layers=L, bias=bias, batch_first=True, **kw)
    env.symbolize(ref, "w", shared=True)

    def make():
        return env.symbolize(ccls(I, H, num_layers=L, bias=bias, **kw), "w", shared=True).train(train)

    ref.train(train)
    x = env.tensor("x", B, I, T)
    init = None
    if h0:
        init = env.tensor("h0", L, B, proj or H)
        if kd == "lstm":
            init = (init, env.tensor("c0", L, B, H))
    want, hn = ref(x.transpose(1, 2), init)
    want = want.transpose(1, 2)
    m = make()
    got, gh = m.forward(x, init)
    env.eq("offline", got, want)
    env.eq("offline final state", gh, hn)
    m = make()
    if h0:
        m.set_state(init)
    c = compositions(T) if T <= 6 else [[T], [1] * T, [T // 2, 1, T - T // 2 - 1]]
    sched = c[env.choose("schedule", len(c))]
    t = 0
    for n in sched:
        if n == 1 and (T > 6 or env.flag("single step")):
            env.eq(f"step {t}", m.forward_step(x[:, :, t]), want[:, :, t])
        else:
            env.eq(f"block {t}+{n}", m.forward_steps(x[:, :, t : t + n]), want[:, :, t : t + n])
        t += n
    st = m.get_state()
    env.eq("state equals the offline final state", list(st) if kd == "lstm" else st[0], list(hn) if kd == "lstm" else hn)


def probe(env, kd):
    """update_state=False leaves the state alone, clean_state forgets"""
    ncls, ccls, kw = KINDS[kd]
    mk = lambda: env.symbolize(ccls(1, 2, **kw), "w", shared=True).eval()
    m, r = mk(), mk()
    x = env.tensor("x", 1, 1, 3)
    h = env.choose("history", 3)
    for t in range(h):
        m.forward_step(x[:, :, t]), r.forward_step(x[:, :, t])
    y = env.tensor("y", 1, 1, 2)
    a = m.forward_step(y[:, :, 0], update_state=False) if env.flag("step") else m.forward_steps(y, update_state=False)[:, :, 0]
    env.eq("after probing", m.forward_step(x[:, :, 2]), r.forward_step(x[:, :, 2]))
    m.clean_state()
    env.eq("after cleaning", m.forward_step(y[:, :, 0]), mk().forward_step(y[:, :, 0]))


def scenarios(tier):
    th = tier == "thorough"
    for kd in KINDS:
        for I, H in ((1, 1), (2, 1), (1, 2), (2, 2)):
            for bias in (True, False):
                for B in (1, 2):
                    for h0 in (False, True):
                        for L in (1, 2):
                            T = 3 if L == 1 else 2
                            if th:
                                T += 1
                            if not th and (L == 2 and H == 2 and I == 2 or B == 2 and I * H > 2):
                                continue
                            yield f"{kd} in={I} hid={H} layers={L} bias={int(bias)} B={B} h0={int(h0)} T={T}", (
                                lambda env, a=(kd, I, H, L, bias, B, T, h0): rnn(env, *a)), {"hide": True}
        for I, H, L, bias, B, T, h0 in ((1, 1, 3, True, 1, 3, True), (1, 1, 3, False, 1, 2, False), (1, 1, 1, True, 1, 6, False), (3, 1, 1, True, 1, 3, True),
                                        (1, 3, 1, True, 1, 2, False), (1, 1, 1, True, 3, 4, True), (1, 2, 1, False, 1, 4, True), (1, 1, 2, True, 1, 4, True)):
            yield f"{kd} larger in={I} hid={H} layers={L} bias={int(bias)} B={B} h0={int(h0)} T={T}", (
                lambda env, a=(kd, I, H, L, bias, B, T, h0): rnn(env, *a)), {"hide": True}
        for I, H, L, B, T in ((1, 1, 1, 1, 24), (1, 1, 1, 6, 3), (9, 1, 1, 1, 2), (1, 5, 1, 1, 2), (1, 1, 5, 1, 2)):
            yield f"{kd} far in={I} hid={H} layers={L} B={B} T={T}", (lambda env, a=(kd, I, H, L, True, B, T, True): rnn(env, *a)), {"hide": True}
        for L, B, h0, bias in ((1, 1, False, True), (1, 2, True, True), (2, 1, True, True), (1, 1, True, False)) if kd == "lstm" else ():
            yield f"{kd} projected layers={L} B={B} h0={int(h0)} bias={int(bias)}", (
                lambda env, a=(kd, 1, 2, L, bias, B, 3 if L == 1 else 2, h0, 1): rnn(env, *a)), {"hide": True}
        for L, rate, train in ((2, 0.5, False), (2, 1.0, True), (1, 0.0, True), (2, 0.0, True)):
            yield f"{kd} layers={L} dropout={rate} {'training' if train else 'evaluation'}", (
                lambda env, kd=kd, L=L, r=rate, t=train: rnn(env, kd, 1, 1, L, True, 1, 3, True, drop=r, train=t)), {"hide": True}
        yield f"{kd} probing and cleaning", (lambda env, kd=kd: probe(env, kd)), {"hide": True}
