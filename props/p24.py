"""P24: conditional modules follow the chosen alternative, aligned in time"""
from .common import *
from .p11 import capture, parts_of, restore

BOUNDS = ("conditionals over pairs of alternatives out of convolutions, pools, activations, sequences, residuals, delays (equal and different delays up to 3, equal length, equal stride, nested conditionals), and over a "
          "single alternative without delay; constant predicates, predicates on a switch flipped at every step, predicates on the (symbolic) data; "
          "steps, blocks, padded blocks, probes, cleaning, captured and explicit state, nested in networks; symbolic weights and inputs; streams of up to 8 steps")
OUTSIDE = "alternatives of different stride; a single alternative with delay (skipping is not delayed by the library); padding differing from delay"

ALT = {"relu": lambda: nn.ReLU(), "c1": lambda: C1(1), "c3p1": lambda: C1(3, 1), "c5p2": lambda: C1(5, 2), "seq": lambda: co.Sequential(C1(3, 1), nn.ReLU()),
       "res": lambda: co.Residual(C1(3, 1)), "avg3p1": lambda: co.AvgPool1d(3, 1, 1), "delay1": lambda: co.Delay(1), "softmax": lambda: nn.Softmax(dim=1), "add": lambda: co.Add(2.0),
       "c7p3": lambda: C1(7, 3), "deep": lambda: co.Sequential(C1(3, 1), nn.ReLU(), co.Residual(C1(3, 1)), C1(3, 1)), "max5p2": lambda: co.MaxPool1d(5, 1, 2),
       "cond": lambda: co.Conditional(lambda m, x: False, C1(3, 1), C1(5, 2)), "s2c3p1": lambda: C1(3, 1, 2), "s2c5p2": lambda: C1(5, 2, 2), "s2res": lambda: co.Sequential(co.Residual(C1(3, 1)), C1(3, 1, 2))}
PAIRS = [("relu", "c1"), ("c3p1", "c3p1"), ("c3p1", "relu"), ("relu", "c3p1"), ("c5p2", "c3p1"), ("c3p1", "c5p2"), ("seq", "res"), ("avg3p1", "c5p2"),
         ("delay1", "c3p1"), ("c1", "delay1"), ("softmax", "add"), ("res", "c1"),
         ("c7p3", "relu"), ("c1", "c7p3"), ("deep", "c5p2"), ("relu", "deep"), ("max5p2", "c7p3"), ("cond", "c1"), ("c3p1", "cond"),
         ("s2c3p1", "s2c5p2"), ("s2c5p2", "s2c3p1"), ("s2res", "s2c3p1")]


class Switch:
    def __init__(self, v=True):
        self.v = v
        self.seen = []

    def __call__(self, module, x):
        self.seen.append((module, x))
        return self.v


def make(env, a, b, pred):
    alts = [co.continual(ALT[a]())] + ([co.continual(ALT[b]())] if b else [])
    m = co.Conditional(pred, *alts)
    return env.symbolize(m, "m", shared=True).eval()


def alone(env, m, i, D):
    """the alternative on its own, delayed to the common delay"""
    return list(m._modules.values())[i]


def constant(env, a, b, T=7):
    sw = Switch(env.flag("first alternative"))
    m = make(env, a, b, sw)
    x = env.tensor("x", 1, 1, T)
    D = max(delay_of(co.continual(ALT[n]())) for n in (a, b) if n)
    name = a if sw.v else b
    if name:
        ref = co.continual(ALT[name]())
        sub = list(m._modules.values())[0 if sw.v else 1]
        # the parameters of the alternative, whatever was put around it
        src = dict(sub.named_parameters())
        own = dict(ref.named_parameters())
        at = [{k[: -len(n)] for k in src if k == n or k.endswith("." + n)} for n in own]
        prefix = min(set.intersection(*at), key=len) if at else ""
        for n in own:
            mod, _, leaf = n.rpartition(".")
            ref.get_submodule(mod)._parameters[leaf] = src[prefix + n]
        ref.eval()
        want = ref.forward(x)
    else:
        want = x
    env.eq("offline", m.forward(x), want)
    env.eq("called", m(x), want)
    env.true("predicate got module and input", sw.seen and sw.seen[-1][0] is m and sw.seen[-1][1] is x)
    env.true("delay", delay_of(m) == D, f"{delay_of(m)} {D}")
    dd = D if name else 0
    s = 2 if a.startswith("s2") else 1
    check_steps(env, "step", steps(m, x), want, dd, s)
    m.clean_state()
    check_chunk(env, "block", m.forward_steps(x), want, dd, s, 0, T)
    m.clean_state()
    env.eq("padded block", m.forward_steps(x, pad_end=True), want)
    m.clean_state()
    for t in range(3):
        m.forward_step(x[:, :, t])
    m.forward_step(x[:, :, 6], update_state=False)
    m.forward_steps(x[:, :, 4:7], update_state=False)
    m.forward_steps(x[:, :, 3:5], pad_end=True, update_state=False)
    m.forward_steps(x[:, :, 3:4], pad_end=True)
    outs = [m.forward_step(x[:, :, t]) for t in range(4, T)]
    check_steps(env, "after probes and end padding", outs, want, dd, s, t0=4)
    with co.call_mode("forward_step"):
        m.clean_state()
        check_steps(env, "called steps", [m(x[:, :, t]) for t in range(T)], want, dd, s)


def explicit(env, a, b, T=6):
    """explicit state: same outputs, own state untouched"""
    sw, sw2 = Switch(), Switch()
    m, twin = make(env, a, b, sw), make(env, a, b, sw2)
    x = env.tensor("x", 1, 1, T)
    y = env.tensor("y", 1, 1, 2)
    for t in range(2):
        m.forward_step(y[:, :, t])
    own = capture(m)
    st = None
    for t in range(T):
        sw.v = sw2.v = env.flag(f"predicate {t}") if t % 2 else sw.v
        o, st = m._forward_step(x[:, :, t], st)
        w = twin.forward_step(x[:, :, t])
        env.eq(f"explicit step {t}", o if present(o) else None, w if present(w) else None)
    after = capture(m)
    env.true("same stateful parts", set(own) == set(after))
    for k in own:
        env.eq(f"own state {k}", parts_of(after[k]), parts_of(own[k]))
    env.true("one state per alternative", len(st) == (2 if b else 1) == len(m._state_shape))


def switching(env, a, b, T=6):
    """each alternative sees exactly the steps chosen for it"""
    sw = Switch()
    m = make(env, a, b, sw)
    twin = make(env, a, b, Switch())
    alts = list(twin._modules.values())
    x = env.tensor("x", 1, 1, T)
    for t in range(T):
        sw.v = not env.flag(f"predicate {t}")
        o = m.forward_step(x[:, :, t])
        if sw.v or b:
            w = alts[0 if sw.v else 1].forward_step(x[:, :, t])
        else:
            w = x[:, :, t]
        env.eq(f"step {t}", o if present(o) else None, w if present(w) else None)
    # offline is not affected by what was streamed
    sw.v = True
    env.eq("offline", m.forward(x), alts[0].forward(x))
    if env.flag("clean"):
        m.clean_state()
        fresh = make(env, a, b, Switch())
        for t in range(3):
            o, w = m.forward_step(x[:, :, t]), fresh.forward_step(x[:, :, t])
            env.eq(f"cleaned step {t}", o if present(o) else None, w if present(w) else None)


def data(env, a, b, T=3):
    """predicate on the data: both outcomes of every step are explored as paths"""
    m = make(env, a, b, lambda mod, x: bool((x.sum() > 0.0)))
    twin = make(env, a, b, Switch())
    alts = list(twin._modules.values())
    x = env.tensor("x", 1, 1, T)
    for t in range(T):
        o = m.forward_step(x[:, :, t])
        if bool(x[:, :, t].sum() > 0.0):
            w = alts[0].forward_step(x[:, :, t])
        else:
            w = alts[1].forward_step(x[:, :, t]) if b else x[:, :, t]
        env.eq(f"step {t}", o if present(o) else None, w if present(w) else None)
    f = m.forward(x)
    if bool(x.sum() > 0.0):
        env.eq("offline", f, alts[0].forward(x))
    else:
        env.eq("offline", f, alts[1].forward(x) if b else x)


def nested(env, inner, T=7):
    """conditionals inside networks keep the network's alignment"""
    sw = Switch(env.flag("predicate"))
    n = co.Sequential(C1(2), co.Conditional(sw, co.continual(ALT[inner[0]]()), co.continual(ALT[inner[1]]())), co.Residual(C1(3, 1)), C1(2))
    n = env.symbolize(n, "m", shared=True).eval()
    x = env.tensor("x", 1, 1, T)
    F = n.forward(x)
    D = delay_of(n)
    # end padding of stages in the middle makes the step-wise stream differ from offline only near the ends
    mid = co.Sequential(C1(2), co.Conditional(sw, co.continual(ALT[inner[0]]()), co.continual(ALT[inner[1]]())))
    mid = env.symbolize(mid, "k", shared=True).eval()
    G = mid.forward(x)
    check_steps(env, "step", steps(mid, x), G, delay_of(mid), 1)
    mid.clean_state()
    check_chunk(env, "block", mid.forward_steps(x), G, delay_of(mid), 1, 0, T)
    mid.clean_state()
    env.eq("padded block", mid.forward_steps(x, pad_end=True), G)
    par = co.BroadcastReduce(co.Conditional(sw, co.continual(ALT[inner[0]]()), co.continual(ALT[inner[1]]())), C1(1), reduce="sum")
    par = env.symbolize(par, "p", shared=True).eval()
    G = par.forward(x)
    check_steps(env, "parallel step", steps(par, x), G, delay_of(par), 1)
    env.true("no early output", all(not present(o) for o in steps(n, x)[:D]))
    env.true("length", F.shape[2] == T - 2, f"{F.shape}")


def snapshot(env, a, b):
    sw = Switch()
    m = make(env, a, b, sw)
    ref = make(env, a, b, sw)
    x = env.tensor("x", 1, 1, 8)
    sched = [env.flag(f"predicate {t}") for t in range(2)]
    h = 4
    outs = []
    for t in range(8):
        sw.v = sched[t % 2] if b else True
        outs.append(ref.forward_step(x[:, :, t]))
    for t in range(h):
        sw.v = sched[t % 2] if b else True
        m.forward_step(x[:, :, t])
    snap = capture(m)
    m2 = make(env, a, b, sw)
    restore(m2, snap)
    for t in range(h, 8):
        sw.v = sched[t % 2] if b else True
        o = m2.forward_step(x[:, :, t])
        env.eq(f"resumed {t}", o if present(o) else None, outs[t] if present(outs[t]) else None)


def scenarios(tier):
    pairs = PAIRS if tier == "quick" else [(a, b) for a, b in itertools.product(ALT, ALT) if a.startswith("s2") == b.startswith("s2")]
    for a, b in pairs + [("relu", None), ("c1", None), ("softmax", None)]:
        tag = f"({a},{b})"
        yield f"constant {tag}", (lambda env, a=a, b=b: constant(env, a, b)), {}
        yield f"switching {tag}", (lambda env, a=a, b=b: switching(env, a, b)), {}
        yield f"explicit {tag}", (lambda env, a=a, b=b: explicit(env, a, b)), {}
        yield f"snapshot {tag}", (lambda env, a=a, b=b: snapshot(env, a, b)), {}
        if "softmax" not in (a, b):
            yield f"data {tag}", (lambda env, a=a, b=b: data(env, a, b)), {}
    for inner in (("relu", "c1"), ("c3p1", "relu"), ("c1", "c3p1"), ("c3p1", "c5p2")):
        yield f"nested {inner}", (lambda env, i=inner: nested(env, i)), {}
