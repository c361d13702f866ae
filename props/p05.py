"""P05: sequential compositions on a stream equal the offline composition"""
from .common import *

BOUNDS = ("all sequences of 2 (and families of 3..6; thorough: all of 3) layers from a menu of convs/pools/delay/activations with strides "
          "1..3 and paddings, nesting; networks edited (append, insert, replace, delete, slice, ...) after use; stream length up to 40; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: streams of 70 steps, 9 channels, batch 9"
OUTSIDE = "longer compositions, streams longer than the bound"

MENU = {
    "c2": lambda: C1(2), "c3": lambda: C1(3), "c3p1": lambda: C1(3, 1), "c2s2": lambda: C1(2, 0, 2), "c3s2": lambda: C1(3, 0, 2),
    "c3p1s2": lambda: C1(3, 1, 2), "c2p1": lambda: C1(2, 1), "c1": lambda: C1(1), "avg2": lambda: co.AvgPool1d(2, 1),
    "max2s2": lambda: co.MaxPool1d(2, 2), "max2": lambda: co.MaxPool1d(2, 1), "relu": lambda: nn.ReLU(), "delay1": lambda: co.Delay(1),
    "c3s3": lambda: C1(3, 0, 3), "bn": lambda: nn.BatchNorm1d(1), "res": lambda: co.Residual(C1(3, 1)),
    "seq": lambda: co.Sequential(C1(2), nn.ReLU()),
}
# metadata by the menu name: (receptive field, stride, padding, streaming delay added)
META = {"c2": (2, 1, 0), "c3": (3, 1, 0), "c3p1": (3, 1, 1), "c2s2": (2, 2, 0), "c3s2": (3, 2, 0), "c3p1s2": (3, 2, 1), "c2p1": (2, 1, 1),
        "c1": (1, 1, 0), "avg2": (2, 1, 0), "max2s2": (2, 2, 0), "max2": (2, 1, 0), "relu": (1, 1, 0), "delay1": (2, 1, 0), "c3s3": (3, 3, 0),
        "bn": (1, 1, 0), "res": (3, 1, 1), "seq": (2, 1, 0)}


def comp(names):
    """independent composition of delay and stride: delay in input steps"""
    D, S = 0, 1
    for n in names:
        k, s, p = META[n]
        D += S * (k - 1 - p)
        S *= s
    return D, S


def causal_offline(layers, x):
    for l in layers:
        x = l.forward(x)
    return x


def run(env, names, T, pad_end=True, nest=None):
    def make():
        ls = [env.symbolize(MENU[n](), f"m{i}", shared=True) for i, n in enumerate(names)]
        if nest:
            i, j = nest
            ls = ls[:i] + [co.Sequential(*ls[i:j])] + ls[j:]
        m = co.Sequential(*ls)
        m.eval()
        return m

    m = make()
    x = env.tensor("x", 1, 1, T)
    D, S = comp(names)
    F = m.forward(x)
    check_steps(env, "step", steps(m, x), F, D, S)
    m2 = make()
    check_chunk(env, "block", m2.forward_steps(x), F, D, S, 0, T)
    env.true("reported delay", delay_of(m) == D, f"{m.delay} != {D}")
    env.true("reported stride", stride_of(m) == S, f"{m.stride} != {S}")
    if pad_end:
        m3 = make()
        env.eq("block with end padding", m3.forward_steps(x, pad_end=True), F)


def edited(env, op, T=10):
    """parts are exchanged after the network has already been streamed"""
    mk = {0: lambda: C1(2), 1: lambda: C1(3, 1, 2), 2: lambda: co.AvgPool1d(2, 1), 3: lambda: C1(3)}

    def parts():
        ls = [env.symbolize(mk[i](), f"m{i}", shared=True) for i in range(4)]
        return ls[:3], ls[3]

    x = env.tensor("x", 1, 1, T)
    ls, new = parts()
    ref = co.Sequential(*edit(co.Sequential(*ls), ls, op, new)[1]).eval()
    F, D, S = ref.forward(x), delay_of(ref), stride_of(ref)
    refs = steps(ref, x)
    ls, new = parts()
    net = co.Sequential(*ls).eval()
    for t in range(env.choose("used for", 2) * 4):
        net.forward_step(x[:, :, t])
    net.receptive_field, net.delay, net.stride, net.padding
    net, _ = edit(net, ls, op, new)
    net.eval()
    net.clean_state()
    env.true("reported delay and stride", (delay_of(net), stride_of(net)) == (D, S), f"{delay_of(net), stride_of(net)} != {D, S}")
    env.eq("offline", net.forward(x), F)
    check_steps(env, "step", steps(net, x), F, D, S)
    for t, (a, b) in enumerate(zip(steps_again(net, x), refs)):
        env.eq(f"as constructed, step {t}", a if present(a) else None, b if present(b) else None)
    net.clean_state()
    check_chunk(env, "block", net.forward_steps(x), F, D, S, 0, T)
    net.clean_state()
    env.eq("block with end padding", net.forward_steps(x, pad_end=True), F)


def steps_again(net, x):
    net.clean_state()
    return steps(net, x)


def need(names):
    """input steps for one offline output"""
    T = 1
    for n in reversed(names):
        k, s, p = META[n]
        T = (T - 1) * s + (k if n not in ("delay1", "res") else 1) - (2 * p if n != "res" else 0)
        T = max(T, 1)
    return T


def ok(names, T):
    """padding behind a layer is only composable when no earlier layer already ran out (streams know
    their start only): interior start padding is part of every layer's own contract"""
    return True


def scenarios(tier):
    ns = list(MENU)
    for a in ns:
        for b in ns:
            T = max(need((a, b)) + 3, 7)
            yield f"seq({a},{b}) T={T}", (lambda env, n=(a, b), T=T: run(env, n, T)), {}
    trip = [("c2", "relu", "c3"), ("c3p1", "relu", "c3p1"), ("c2s2", "c3p1", "c2"), ("c2s2", "c2s2", "c2s2"), ("c3", "max2s2", "c2"),
            ("res", "c3s2", "res"), ("c3p1s2", "c3p1", "c2"), ("delay1", "c2s2", "delay1"), ("c2", "avg2", "c2s2"), ("c3s3", "c2", "max2")]
    trip += [("c2", "c3p1", "c2s2", "relu"), ("c2s2", "c2s2", "c2s2", "c2s2"), ("c3p1", "res", "bn", "c3p1s2"), ("delay1", "c2", "delay1", "c3s2"),
             ("max2s2", "c3p1", "max2s2", "c2"), ("c3s3", "c3p1", "c2s2", "avg2"), ("c2p1", "c2p1", "c2p1", "c2p1"), ("seq", "res", "seq", "c2s2"),
             ("c3p1", "relu", "c3p1", "relu", "c3p1"), ("c2s2", "c3p1", "c2s2", "c3p1", "c2"), ("c2", "c2", "c2", "c2", "c2", "c2")]
    if tier == "thorough":
        sub = ["c2", "c3p1", "c2s2", "c3p1s2", "max2s2", "avg2", "delay1", "res", "relu"]
        trip += list(itertools.product(sub, repeat=3))
    for n in dict.fromkeys(trip):
        T = need(n) + 4
        yield f"seq{n} T={T}".replace("'", "").replace(" ", ""), (lambda env, n=n, T=T: run(env, n, T)), {}
        if tier == "thorough":
            for nest in ((0, 2), (1, 3)):
                yield f"seq{n} nest={nest} T={T}".replace("'", "").replace(" ", ""), (
                    lambda env, n=n, T=T, nest=nest: run(env, n, T, nest=nest)), {}
    for n in trip[:6]:
        for nest in ((0, 2), (1, 3), (0, 3)):
            yield f"nested{n} {nest}".replace("'", "").replace(" ", ""), (
                lambda env, n=n, T=need(n) + 3, nest=nest: run(env, n, T, nest=nest)), {}
    for op in EDITS:
        yield f"edited: {op}", (lambda env, op=op: edited(env, op)), {}
    for spec in spatial_zoo():
        if spec.name.startswith("seq("):
            for T in (spec.minT + 1, 2 * spec.minT + 3):
                yield f"{spec.name} T={T}", (lambda env, spec=spec, T=T: stream_contract(env, spec, T)), {}
    for name, spec, T, B in far_of("seq(", "linear", "bn of"):
        yield name, (lambda env, spec=spec, T=T, B=B: stream_contract(env, spec, T, B=B)), {}
    for spec in seq_specs(tier):
        yield f"{spec.name}", (lambda env, spec=spec: stream_contract(env, spec, spec.minT + 3)), {}
