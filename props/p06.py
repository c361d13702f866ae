"""P06: parallel branches are aligned in time"""
from .common import *

BOUNDS = ("2 to 5 parallel branches out of same-shift families (kernel 1..9, stride 1..3, plain, nested, delayed), automatic delays, reductions "
          "sum/concat/mul/max/callable, Broadcast/Parallel/Dispatch/Reduce spelled out; streams up to 14 steps; symbolic weights and inputs")
BOUNDS += "; selected members far beyond the families: streams of 70 steps, kernels to 19, 9 channels, batch 9"
OUTSIDE = "branches whose offline outputs differ in length (offline reduction itself is undefined); longer streams"

# families of branches with the same offline length (2*padding - (kernel-1) equal)
SAME = {"c1": lambda: C1(1), "c3p1": lambda: C1(3, 1), "c5p2": lambda: C1(5, 2), "id": lambda: co.Identity(), "res": lambda: co.Residual(C1(3, 1)),
        "seq": lambda: co.Sequential(C1(3, 1), nn.ReLU()), "seq2": lambda: co.Sequential(C1(3, 1), C1(3, 1)), "delay1": lambda: co.Delay(1),
        "avg3p1": lambda: co.AvgPool1d(3, 1, 1), "max3p1": lambda: co.MaxPool1d(3, 1, 1), "c7p3": lambda: C1(7, 3), "c9p4": lambda: C1(9, 4), "relu": lambda: co.continual(nn.ReLU())}
SHORT = {"c3": lambda: C1(3), "c5p1": lambda: C1(5, 1), "seq": lambda: co.Sequential(C1(2), C1(2)), "avg3": lambda: co.AvgPool1d(3, 1)}
STRIDED = {"c2s2": lambda: C1(2, 0, 2), "max2s2": lambda: co.MaxPool1d(2, 2), "seq": lambda: co.Sequential(C1(1), C1(2, 0, 2)),
           "seqb": lambda: co.Sequential(C1(2, 0, 2), C1(1))}
STRIDED3 = {"c3s3": lambda: C1(3, 0, 3), "c5p1s3": lambda: C1(5, 1, 3), "c7p2s3": lambda: C1(7, 2, 3)}
STRIDED_MIX = {"c3p1s2": lambda: C1(3, 1, 2), "c1s2": lambda: C1(1, 0, 2), "c5p2s2": lambda: C1(5, 2, 2)}


def branches(env, fam, names):
    return [env.symbolize(fam[n](), f"b{i}", shared=True) for i, n in enumerate(names)]


def fold(f):
    def g(xs):
        y = xs[0]
        for x in xs[1:]:
            y = f(y, x)
        return y

    return g


REF = {"sum": fold(lambda a, b: a + b), "mul": fold(lambda a, b: a * b), "concat": lambda xs: torch.cat(xs, 1), "max": fold(torch.maximum)}


def run(env, fam, names, red, T, spelled=False):
    def make():
        bs = branches(env, fam, names)
        if spelled:
            m = co.Sequential(co.Broadcast(len(bs)), co.Parallel(*bs), co.Reduce(red))
        else:
            m = co.BroadcastReduce(*bs, reduce=red)
        return m.eval()

    x = env.tensor("x", 1, 1, T)
    F = REF[red]([b.forward(x) for b in branches(env, fam, names)])
    m = make()
    env.eq("offline is the reduction of the branches", m.forward(x), F)
    D = max(delay_of(b) for b in branches(env, fam, names))
    s = stride_of(m)
    check_steps(env, "step", steps(m, x), F, D, s)
    m2 = make()
    check_chunk(env, "block", m2.forward_steps(x), F, D, s, 0, T)
    m3 = make()
    env.eq("block with end padding", m3.forward_steps(x, pad_end=True), F)
    env.true("reported delay", delay_of(m) == D, f"{delay_of(m)} != {D}")


def dispatch(env, mapping, T):
    """streams are reordered / copied / grouped exactly as the mapping says"""
    n = 3
    xs = [env.tensor(f"x{i}", 1, 1, T) for i in range(n)]
    m = co.ParallelDispatch(mapping)

    def want(mp, v):
        return [want(q, v) for q in mp] if isinstance(mp, (list, tuple)) else v[mp]

    env.eq("offline", m.forward(xs), want(mapping, xs))
    env.eq("block", m.forward_steps(xs), want(mapping, xs))
    for t in range(T):
        st = [x[:, :, t] for x in xs]
        env.eq(f"step {t}", m.forward_step(st), want(mapping, st))


def grown(env, names, late, red, T):
    """a branch appended after construction"""
    def make():
        bs = branches(env, SAME, names + (late,))
        m = co.BroadcastReduce(*bs[:-1], reduce=red)
        m.append(bs[-1])
        return m.eval()

    x = env.tensor("x", 1, 1, T)
    bs = branches(env, SAME, names + (late,))
    F = REF[red]([b.forward(x) for b in bs])
    D = max(delay_of(b) for b in bs)
    m = make()
    env.eq("offline is the reduction of the branches", m.forward(x), F)
    check_steps(env, "step", steps(m, x), F, D, 1)
    check_chunk(env, "block", make().forward_steps(x), F, D, 1, 0, T)
    env.true("reported delay", delay_of(m) == D, f"{delay_of(m)} != {D}")


def scenarios(tier):
    th = tier == "thorough"
    for red in ("sum", "concat", "mul", "max"):
        ns = [n for n in SAME if n not in ("c7p3", "c9p4")]
        pairs = list(itertools.product(ns, ns)) if (th or red == "sum") else [("c1", "c3p1"), ("c3p1", "c5p2"), ("id", "c5p2"), ("avg3p1", "c1")]
        for p in pairs:
            yield f"br{p} {red}".replace("'", ""), (lambda env, p=p, red=red: run(env, SAME, p, red, 7)), {}
        trip = [("c1", "c3p1", "c5p2"), ("id", "res", "max3p1"), ("c5p2", "relu", "seq")]
        if th:
            trip = list(itertools.product(["c1", "c3p1", "c5p2", "id", "seq", "avg3p1"], repeat=3))
        for p in trip:
            yield f"br{p} {red}".replace("'", ""), (lambda env, p=p, red=red: run(env, SAME, p, red, 7)), {}
        for p in (("c1", "c7p3"), ("c9p4", "c3p1"), ("c1", "c3p1", "c5p2", "c7p3"), ("c7p3", "id", "c1", "relu"), ("id", "c3p1", "id", "c5p2", "c1")):
            yield f"br{p} {red} large".replace("'", ""), (lambda env, p=p, red=red: run(env, SAME, p, red, 11)), {}
    for p in itertools.product(STRIDED3, STRIDED3):
        yield f"br strided 3{p}".replace("'", ""), (lambda env, p=p: run(env, STRIDED3, p, "sum", 14)), {}
    for p in itertools.product(SHORT, SHORT):
        yield f"br short{p}".replace("'", ""), (lambda env, p=p: run(env, SHORT, p, "sum", 8)), {}
    for p in itertools.product(STRIDED, STRIDED):
        yield f"br strided{p}".replace("'", ""), (lambda env, p=p: run(env, STRIDED, p, "sum", 8)), {}
    for p in itertools.product(STRIDED_MIX, STRIDED_MIX):
        yield f"br strided mixed delay{p}".replace("'", ""), (lambda env, p=p: run(env, STRIDED_MIX, p, "sum", 10)), {}
    for p in [("c1", "c3p1"), ("c3p1", "c5p2"), ("id", "c5p2"), ("c1", "c3p1", "c5p2"), ("seq2", "c1")]:
        for red in ("sum", "concat", "mul", "max"):
            yield f"spelled out{p} {red}".replace("'", ""), (lambda env, p=p, red=red: run(env, SAME, p, red, 7, True)), {}
    for mp in ([1, 0, 2], [2, 2, 0, 1], [[0, 1], 2], [0, [1, [2, 0]], 1], [[2], [0]], (1, (0, 2)), [2]):
        yield f"dispatch {mp}", (lambda env, mp=mp: dispatch(env, mp, 2)), {}
    for names, late in ((("c3p1", "c1"), "seq"), (("c5p2", "c3p1"), "res"), (("c1", "c3p1"), "delay1"), (("c3p1", "id"), "c3p1")):
        SAMED = delay_of(SAME[late]()) == max(delay_of(SAME[n]()) for n in names)
        yield (f"appended branch{names}+{late}" if SAMED else f"appended branch faster than the others {late}").replace("'", ""), (lambda env, n=names, l=late: grown(env, n, l, "sum", 7)), {}
    yield "appended branch slower than the others", (lambda env: grown(env, ("c3p1", "c1"), "c5p2", "sum", 7)), {}
    for spec in spatial_zoo():
        if spec.name.startswith("br("):
            for T in (spec.minT + 1, 2 * spec.minT + 3):
                yield f"{spec.name} T={T}", (lambda env, spec=spec, T=T: stream_contract(env, spec, T)), {}
    for name, spec, T, B in far_of("br"):
        yield name, (lambda env, spec=spec, T=T, B=B: stream_contract(env, spec, T, B=B)), {}
    for spec in par_specs(tier):
        yield f"{spec.name}", (lambda env, spec=spec: stream_contract(env, spec, max(spec.minT, 5) + 3)), {}
