"""P22: a call means the selected mode, and nothing else leaks"""
from .common import *

MODES = ("forward", "forward_steps", "forward_step")
BOUNDS = ("calls through the module property, the context manager and both, for every pair of modes, nesting depth up to 3 with every mode per level, exceptions "
          "at every level, explicit method calls inside any context, modes given as name, number or tensor; convolution, pooling, elementwise, "
          "linear, delay, sequential, parallel, residual, conditional, recurrent members; hooks; symbolic weights and inputs")
OUTSIDE = "tracing, threads"


def members():
    z = {s.name: s for s in small_zoo("quick")}
    keep = ["conv1d(k=3,p=1,s=1,c=2>2,g=1,b=1,sp=2.0.1.1,zeros,zeros)", "avgpool1d(k=3,p=1,s=1,d=1,sp=2.0.1,zeros)", "delay(1,zeros)", "relu", "linear1",
            "lambda", "seq(c3p1,relu,c1)", "seq(seq(c2,relu),seq(c3p1))", "br(c3p1,c5p2)sum", "br(seq(c3p1,relu),c1)", "res(c3p1)",
            "seq(bcast,par(c3p1,c1),reduce)", "seq(c2,br(c1,c3p1),c2)"]
    out = [z[k] for k in keep]
    c = sp(1, 2)
    out = [Spec(s.name, s.build, s.shape, tags={"enhanced"}) if s.name == "relu" else s for s in out]
    out.append(Spec("bn1d", lambda: co.continual(nn.BatchNorm1d(2)), c, tags={"enhanced"}))
    out.append(Spec("softmax", lambda: co.continual(nn.Softmax(dim=1)), c, hide=True, tags={"enhanced"}))
    out.append(Spec("seq(bn1d,c2)", lambda: co.Sequential(nn.BatchNorm1d(2), C1(2, i=2)), c, minT=2))
    out.append(Spec("cond", lambda: co.Conditional(lambda m, x: True, co.Sequential(C1(3, 1), nn.ReLU())), sp(1, 1)))
    out.append(Spec("seq(cond)", lambda: co.Sequential(C1(2), co.Conditional(lambda m, x: False, C1(1), C1(3, 1))), sp(1, 1), minT=2))
    out.append(Spec("seq(reshape)", lambda: co.Sequential(co.Reshape(1, 4), co.Add(1.0)), sp(1, 4)))
    return out


T = 5


def direct(m, mode, x, pad=None):
    kw = {} if pad is None or mode != "forward_steps" else dict(pad_end=pad)
    return getattr(m, mode)(x[:, :, 0] if mode == "forward_step" else x, **kw)


def called(m, mode, x, pad=None):
    kw = {} if pad is None or mode != "forward_steps" else dict(pad_end=pad)
    return m(x[:, :, 0] if mode == "forward_step" else x, **kw)


def n_(o):
    return o if present(o) else None


def sides(env, spec):
    """two copies with the same parameters and history"""
    a, b = spec.make(env), spec.make(env)
    h = spec.x(env, "h", T=4)
    for t in range(4):
        a.forward_step(h[:, :, t])
        b.forward_step(h[:, :, t])
    return a, b


def follow(env, spec, a, b):
    """the streams of both continue alike"""
    z = spec.x(env, "z", T=3)
    for t in range(3):
        env.eq(f"stream after, step {t}", n_(a.forward_step(z[:, :, t])), n_(b.forward_step(z[:, :, t])))


FORMS = (lambda m: m, lambda m: m.upper(), lambda m: MODES.index(m), lambda m: torch.tensor(MODES.index(m)))


def explicit(env, spec, mode):
    """an explicitly named call; forward of modules with attached modes has a scenario of its own"""
    i = env.choose("explicit", 3)
    return mode if i == 0 and spec.tags & {"enhanced"} else MODES[i]


def attached(env, spec, how):
    """forward named explicitly, on a time-independent module which was given modes"""
    a, b = spec.make(env), spec.make(env)
    y = spec.x(env, "y", T=T)
    mode = MODES[env.choose("mode", 3)]
    want = n_(b.forward(y))
    if how == "property":
        a.call_mode = FORMS[env.choose("form", 4)](mode)
        env.eq(f"explicit forward in {mode}", n_(a.forward(y)), want)
    else:
        with co.call_mode(mode):
            env.eq(f"explicit forward in {mode}", n_(a.forward(y)), want)


def prop(env, spec):
    """the module property"""
    a, b = sides(env, spec)
    x = spec.x(env, T=T)
    mode = MODES[env.choose("mode", 3)]
    a.call_mode = FORMS[env.choose("form", 4)](mode)
    pad = env.flag("pad_end") if mode == "forward_steps" else None
    env.eq(f"call as {mode}", n_(called(a, mode, x, pad)), n_(direct(b, mode, x, pad)))
    y = spec.x(env, "y", T=T)
    env.eq(f"again as {mode}", n_(called(a, mode, y)), n_(direct(b, mode, y)))
    e = explicit(env, spec, mode)
    env.eq(f"explicit {e}", n_(direct(a, e, y)), n_(direct(b, e, y)))
    env.eq(f"property kept", n_(called(a, mode, x)), n_(direct(b, mode, x)))
    a.call_mode = "forward"
    env.eq("back to forward", n_(a(x)), n_(b.forward(x)))
    follow(env, spec, a, b)


def ctx(env, spec):
    """one context, with any module property underneath"""
    a, b = sides(env, spec)
    x, y = spec.x(env, T=T), spec.x(env, "y", T=T)
    own, mode = MODES[env.choose("property", 3)], MODES[env.choose("context", 3)]
    a.call_mode = co.module._callmode(own)
    e = explicit(env, spec, mode)
    want = [n_(direct(b, mode, x)), n_(direct(b, e, y)), n_(direct(b, mode, y))]
    with co.call_mode(mode):
        env.eq("in context", n_(called(a, mode, x)), want[0])
        env.eq(f"explicit {e} in {mode}", n_(direct(a, e, y)), want[1])
        env.eq("still in context", n_(called(a, mode, y)), want[2])
    env.eq("after context", n_(called(a, own, x)), n_(direct(b, own, x)))
    a.call_mode = co.module._callmode("forward")
    follow(env, spec, a, b)


def nest(env, spec, depth):
    """contexts within contexts, left normally or by an exception"""
    a, b = sides(env, spec)
    x = spec.x(env, T=T)
    ms = [MODES[env.choose(f"level {i}", 3)] for i in range(depth)]
    fail = env.choose("exception at", depth + 1)  # depth: none
    form = FORMS[env.choose("form", 4)]

    def go(i):
        with co.call_mode(form(ms[i])):
            env.eq(f"level {i} before", n_(called(a, ms[i], x)), n_(direct(b, ms[i], x)))
            if i + 1 < depth:
                try:
                    go(i + 1)
                except KeyError:
                    pass
                env.eq(f"level {i} after", n_(called(a, ms[i], x)), n_(direct(b, ms[i], x)))
            if i == fail:
                raise KeyError("user")

    try:
        go(0)
    except KeyError:
        pass
    env.eq("outside", n_(a(x)), n_(b.forward(x)))
    follow(env, spec, a, b)


def twice(env, spec):
    """contexts one after the other"""
    a, b = sides(env, spec)
    x = spec.x(env, T=T)
    for r in range(2):
        mode = MODES[env.choose(f"context {r}", 3)]
        with co.call_mode(mode):
            env.eq(f"context {r}", n_(called(a, mode, x)), n_(direct(b, mode, x)))
        env.eq(f"after {r}", n_(a(x)), n_(b.forward(x)))
    follow(env, spec, a, b)


class Boom(nn.Module):
    def __init__(self):
        super().__init__()
        self.armed = True

    def forward(self, x):
        if self.armed:
            raise RuntimeError("boom")
        return x


def exceptions(env, wrap_, T=4):
    """an exception inside a network does not change how its modules are called afterwards"""
    boom = Boom()
    co.forward_stepping(boom)
    m = env.symbolize(wrap_(boom), "m", shared=True).eval()
    x = env.tensor("x", 1, 1, T)
    mode = MODES[env.choose("mode of the failing call", 3)]
    how = env.choose("how", 2)
    own = list(m.modules())[-1 if env.choose("part with a mode of its own", 2) else 0]
    if hasattr(own, "call_mode") and own is not m:
        own.call_mode = "forward_step"
    before = [(c, int(co.module._callmode(c.call_mode))) for c in m.modules() if hasattr(c, "call_mode")]
    try:
        if how:
            with co.call_mode(mode):
                called(m, mode, x)
        else:
            direct(m, mode, x)
        env.true("exception seen", False)
    except RuntimeError:
        pass
    for c, prev in before:
        env.true("modes after the exception", int(co.module._callmode(c.call_mode)) == prev, f"{type(c).__name__} {prev} {c.call_mode}")
    m.call_mode = own.call_mode = "forward"
    boom.armed = False
    m.clean_state()
    ok = co.forward_stepping(Boom())
    ok.armed = False
    ref = env.symbolize(wrap_(ok), "m", shared=True).eval()
    env.eq("offline", m(x), ref.forward(x))
    for t in range(T):
        env.eq(f"step {t}", n_(m.forward_step(x[:, :, t])), n_(ref.forward_step(x[:, :, t])))
    m.clean_state()
    ref.clean_state()
    env.eq("block", n_(m.forward_steps(x, pad_end=True)), n_(ref.forward_steps(x, pad_end=True)))
    for c in m.modules():
        if c is not m and hasattr(c, "call_mode"):
            env.true("children back to default", int(co.module._callmode(c.call_mode)) == 0, f"{type(c).__name__} {c.call_mode}")


def container_property(env, spec):
    """setting the property of a container reaches the contained modules"""
    m = spec.make(env)
    mode = MODES[env.choose("mode", 3)]
    m.call_mode = mode
    for c in m:
        env.true("child mode", int(c.call_mode) == MODES.index(mode))
    x = spec.x(env, T=T)
    ref = spec.make(env)
    env.eq("call", n_(called(m, mode, x)), n_(direct(ref, mode, x)))
    # stepping a container leaves the children's modes as they were
    m.forward_steps(x)
    m.forward(x)
    m.forward_step(x[:, :, 0])
    for c in m:
        env.true("child mode kept", int(c.call_mode) == MODES.index(mode))


def own_modes(env, spec):
    """a mode set for one part of a network changes neither the network's calls nor outlives them changed"""
    m, ref = spec.make(env), spec.make(env)
    parts = [c for c in m.modules() if c is not m and hasattr(c, "call_mode")]
    part = parts[env.choose("part", len(parts))]
    part.call_mode = MODES[1 + env.choose("mode of the part", 2)]
    want = [int(co.module._callmode(c.call_mode)) for c in m.modules() if hasattr(c, "call_mode")]
    x = spec.x(env, T=T)
    mode = MODES[env.choose("mode", 3)]
    how = env.choose("how", 3)
    if how == 0:
        got = direct(m, mode, x)
    elif how == 1:
        with co.call_mode(mode):
            got = called(m, mode, x)
    else:
        m.train()
        m.eval()
        direct(m, mode, x)
        m.clean_state()
        got = direct(m, mode, x)
    env.eq("result", n_(got), n_(direct(ref, mode, x)))
    got = [int(co.module._callmode(c.call_mode)) for c in m.modules() if hasattr(c, "call_mode")]
    env.true("modes kept", got == want, f"{want} became {got}")


def hooks(env, spec):
    """module hooks see every call, in every mode"""
    a, b = sides(env, spec)
    x = spec.x(env, T=T)
    mode = MODES[env.choose("mode", 3)]
    seen = []
    kind_ = env.choose("hook", 4)
    if kind_ == 0:
        a.register_forward_hook(lambda mod, i, o: seen.append((i, o)))
    elif kind_ == 1:
        a.register_forward_hook(lambda mod, i, o: (seen.append((i, o)), o * 2.0 if present(o) else o)[1])
    elif kind_ == 2:
        a.register_forward_pre_hook(lambda mod, i: (seen.append((i, None)), (i[0] + 1.0,))[1])
    else:
        a.register_forward_pre_hook(lambda mod, i: seen.append((i, None)))
    with co.call_mode(mode):
        got = called(a, mode, x)
    xin = x + 1.0 if kind_ == 2 else x
    want = direct(b, mode, xin)
    if kind_ == 1 and present(want):
        want = want * 2.0
    env.eq("result", n_(got), n_(want))
    env.true("hook called once", len(seen) == 1, f"{len(seen)}")
    env.eq("hook sees the input", seen[0][0][0], x[:, :, 0] if mode == "forward_step" else x)


def scenarios(tier):
    th = tier == "thorough"
    for spec in members():
        yield f"property {spec.name}", (lambda env, spec=spec: prop(env, spec)), {}
        yield f"context {spec.name}", (lambda env, spec=spec: ctx(env, spec)), {}
        yield f"twice {spec.name}", (lambda env, spec=spec: twice(env, spec)), {}
        if spec.tags & {"enhanced"}:
            for how in ("property", "context"):
                yield f"attached {how} {spec.name}", (lambda env, spec=spec, how=how: attached(env, spec, how)), {}
        else:
            yield f"hooks {spec.name}", (lambda env, spec=spec: hooks(env, spec)), {}
        if th or spec.name.startswith(("seq(c3p1", "conv1d", "relu", "res")):
            for d in (2, 3):
                yield f"nest {d} {spec.name}", (lambda env, spec=spec, d=d: nest(env, spec, d)), {}
        if spec.name.startswith(("seq", "br", "res")):
            yield f"own modes {spec.name}", (lambda env, spec=spec: own_modes(env, spec)), {}
            yield f"container property {spec.name}", (lambda env, spec=spec: container_property(env, spec)), {}
    W = {"seq": lambda b: co.Sequential(C1(1), b, C1(2)), "nested": lambda b: co.Sequential(C1(1), co.Sequential(C1(1), b)),
         "parallel": lambda b: co.BroadcastReduce(C1(1), b), "parallel first": lambda b: co.BroadcastReduce(co.Sequential(b, C1(1)), C1(1)),
         "spelled": lambda b: co.Sequential(co.Broadcast(2), co.Parallel(C1(1), b), co.Reduce("sum")), "residual": lambda b: co.Residual(co.Sequential(b, C1(3, 1))),
         "conditional": lambda b: co.Sequential(co.Conditional(lambda m, x: True, co.Sequential(C1(1), b)))}
    for n, w in W.items():
        yield f"exception in {n}", (lambda env, w=w: exceptions(env, w)), {}
