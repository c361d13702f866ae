"""P21: (flattened) state dictionaries carry the whole function"""
from .common import *
from .p16 import streams

BOUNDS = ("sequential/parallel/residual/conditional networks nested up to three levels, named and unnamed; plain and flattened dictionaries requested by argument, "
          "context manager and class attribute; restored into the same and into differently nested networks; symbolic parameters, "
          "statistics and inputs; streams of 5 steps afterwards")
OUTSIDE = "partial dictionaries, name clashes other than those stated"

OD = OrderedDict
N = lambda **k: co.Sequential(OD(k.items()))


def nets():
    yield "named flat", lambda: N(a=C1(2), b=C1(3)), True
    yield "unnamed around named", lambda: co.Sequential(N(a=C1(2), n=nn.BatchNorm1d(1)), N(b=C1(3))), True
    yield "named around unnamed", lambda: N(a=co.Sequential(C1(2)), b=co.Sequential(co.Sequential(C1(3)))), True
    yield "deep", lambda: co.Sequential(co.Sequential(N(a=co.Sequential(C1(2)), d=co.Delay(1)), N(b=nn.PReLU(1)))), True
    yield "residual", lambda: N(r=co.Residual(C1(3, 1)), a=C1(2)), True
    yield "parallel", lambda: co.Sequential(co.Broadcast(2), co.Parallel(OD([("x", C1(3, 1)), ("y", C1(1))])), co.Reduce("sum")), True
    yield "parallel reduce named", lambda: co.Sequential(co.BroadcastReduce(OD([("x", C1(3, 1)), ("y", C1(1))]))), True
    yield "conditional", lambda: N(c=co.Conditional(lambda m, x: True, C1(2)), a=C1(1)), True
    yield "auto delay", lambda: co.Sequential(co.BroadcastReduce(OD([("x", C1(5, 2)), ("y", C1(3, 1))]), reduce="mul")), True
    yield "ambiguous", lambda: co.Sequential(C1(2), C1(3)), False
    yield "ambiguous deep", lambda: N(a=co.Sequential(C1(2), nn.ReLU(), C1(3))), False
    yield "single", lambda: co.Sequential(C1(3)), True
    yield "recurrent", lambda: N(a=C1(2, o=1), g=co.GRU(1, 1)), True
    yield "names with digits", lambda: co.Sequential(OD([("3x3", C1(2)), ("1", co.Sequential(N(b2=C1(3)))), ("conv1", C1(1)), ("2nd", co.Sequential(nn.BatchNorm1d(1)))])), True
    yield "digits in branches", lambda: co.Sequential(co.BroadcastReduce(OD([("1x1", C1(1)), ("3x3", C1(3, 1))])), co.Sequential(N(x0=C1(2)))), True
    yield "linear", lambda: N(l=co.Sequential(co.Linear(1, 2, channel_dim=1)), c=C1(2, i=2)), True


def values(m):
    d = OrderedDict(nn.Module.state_dict(m, keep_vars=True))
    return OrderedDict((k, v.clone()) for k, v in d.items())


def how(env):
    return ("plain", "argument", "context", "attribute")[env.choose("requested by", 4)]


def dump(m, mode):
    if mode == "argument":
        return m.state_dict(flatten=True)
    if mode == "context":
        with co.flat_state_dict:
            return m.state_dict()
    if mode == "attribute":
        m.flatten_state_dict = True
        try:
            return m.state_dict()
        finally:
            del m.flatten_state_dict
    return m.state_dict()


def load(m, sd, mode):
    if mode == "argument":
        return m.load_state_dict(sd, flatten=True)
    if mode == "context":
        with co.flat_state_dict:
            return m.load_state_dict(sd)
    if mode == "attribute":
        m.flatten_state_dict = True
        try:
            return m.load_state_dict(sd)
        finally:
            del m.flatten_state_dict
    return m.load_state_dict(sd)


def make(env, mk, prefix):
    return env.symbolize(mk(), prefix, shared=True).eval()


def roundtrip(env, mk, flattens, T=5):
    mode = how(env)
    m = make(env, mk, "a")
    before = values(m)
    sd = dump(m, mode)
    env.true("as many entries as parameters", len(sd) == len(before), f"{list(sd)}")
    long = list(before)
    if mode != "plain" and flattens:
        short = [".".join(p for p in k.split(".") if not p.isdigit()) for k in long]
        env.true("no numbered part in any name", list(sd) == short, f"{list(sd)} != {short}")
    else:
        env.true("regular names", list(sd) == long, f"{list(sd)}")
    for (k, v), l in zip(sd.items(), long):
        env.eq(f"entry {k}", v, before[l])
    env.true("back to regular names", list(m.state_dict()) == long)
    m2 = make(env, mk, "b")
    r = load(m2, sd, mode)
    env.true("nothing missing", not r.missing_keys and not r.unexpected_keys)
    for k, v in values(m2).items():
        env.eq(f"restored {k}", v, before[k])
    for k, v in values(m).items():
        env.eq(f"source keeps {k}", v, before[k])
    x = env.tensor("x", 1, 1, T)
    o1, o2 = steps(m, x), steps(m2, x)
    for t, (a, b) in enumerate(zip(o1, o2)):
        env.eq(f"step {t}", b if present(b) else None, a if present(a) else None)


def renest(env, mk1, mk2, T=5):
    """a flattened dictionary moves between differently nested networks of the same named parts"""
    mode = ("argument", "context", "attribute")[env.choose("requested by", 3)]
    m1, m2 = make(env, mk1, "a"), make(env, mk2, "b")
    load(m2, dump(m1, mode), mode)
    x = env.tensor("x", 1, 1, T)
    env.eq("same function", m2.forward(x), m1.forward(x))
    for t, (a, b) in enumerate(zip(steps(m1, x), steps(m2, x))):
        env.eq(f"step {t}", b if present(b) else None, a if present(a) else None)


def context(env):
    """the flattening context ends, also after an exception"""
    m = make(env, lambda: co.Sequential(N(a=C1(2))), "a")
    if env.flag("exception"):
        try:
            with co.flat_state_dict:
                raise RuntimeError("user")
        except RuntimeError:
            pass
    else:
        with co.flat_state_dict:
            env.true("inside", list(m.state_dict()) == ["a.weight", "a.bias"])
    env.true("outside", list(m.state_dict()) == ["0.a.weight", "0.a.bias"])
    env.eq("values", m.state_dict()["0.a.weight"], m[0].a.weight)


def nested_contexts(env):
    """leaving an inner context leaves the outer one in place"""
    m = make(env, lambda: co.Sequential(N(a=C1(2))), "a")
    with co.flat_state_dict:
        try:
            with co.flat_state_dict:
                inner = m.state_dict()
                if env.flag("exception"):
                    raise RuntimeError("user")
        except RuntimeError:
            pass
        outer = m.state_dict()
        m2 = make(env, lambda: co.Sequential(N(a=C1(2))), "b")
        r = m2.load_state_dict(outer)
    env.true("inner names", list(inner) == ["a.weight", "a.bias"], f"{list(inner)}")
    env.true("outer names", list(outer) == ["a.weight", "a.bias"], f"{list(outer)}")
    env.true("nothing missing", not r.missing_keys and not r.unexpected_keys)
    env.eq("loaded", m2[0].a.weight, m[0].a.weight)
    env.true("outside", list(m.state_dict()) == ["0.a.weight", "0.a.bias"])


def arguments(env, mk, flattens):
    """prefix and keep_vars mean what they mean in torch"""
    mode = how(env)
    m = make(env, mk, "a")
    prefix = ("", "net.")[env.choose("prefix", 2)]
    keep = env.flag("keep_vars")
    if mode == "argument":
        sd = m.state_dict(prefix=prefix, keep_vars=keep, flatten=True)
    elif mode == "context":
        with co.flat_state_dict:
            sd = m.state_dict(prefix=prefix, keep_vars=keep)
    elif mode == "attribute":
        m.flatten_state_dict = True
        try:
            sd = m.state_dict(prefix=prefix, keep_vars=keep)
        finally:
            del m.flatten_state_dict
    else:
        sd = m.state_dict(prefix=prefix, keep_vars=keep)
    ref = OrderedDict(nn.Module.state_dict(m, prefix=prefix, keep_vars=True))
    names = list(ref)
    if mode != "plain" and flattens:
        names = [".".join(p for p in k.split(".") if not p.isdigit()) for k in names]
    env.true("names", list(sd) == names, f"{list(sd)} != {names}")
    for (k, v), r in zip(sd.items(), ref.values()):
        env.eq(f"entry {k}", v, r)
        if keep:
            env.true(f"{k} is the variable itself", v is r)


def inside_plain(env, mk, T=5):
    """networks which are parts of ordinary torch modules"""
    def wrap_():
        m = nn.Module()
        m.net = mk()
        m.other = nn.Linear(1, 1)
        return m
    ctx = env.flag("context")
    m, m2 = make(env, wrap_, "a"), make(env, wrap_, "b")
    if ctx:
        with co.flat_state_dict:
            r = m2.load_state_dict(m.state_dict())
    else:
        r = m2.load_state_dict(m.state_dict())
    env.true("nothing missing", not r.missing_keys and not r.unexpected_keys)
    for (k, v), (k2, v2) in zip(values(m).items(), values(m2).items()):
        env.eq(f"restored {k}", v2, v)
    x = env.tensor("x", 1, 1, T)
    for t, (a, b) in enumerate(zip(steps(m.net, x), steps(m2.net, x))):
        env.eq(f"step {t}", b if present(b) else None, a if present(a) else None)


def strict(env):
    """missing and unknown entries are refused by default"""
    m = make(env, lambda: co.Sequential(N(a=C1(2))), "a")
    w = values(m)
    for bad in ({"a.weight": m[0].a.weight.clone()}, {"a.weight": m[0].a.weight.clone(), "a.bias": m[0].a.bias.clone(), "z": m[0].a.bias.clone()},
                {"a.weight": m[0].a.weight.clone(), "a.other": m[0].a.bias.clone()}):
        try:
            m.load_state_dict(OrderedDict(bad), flatten=True)
            env.true("refused", False, f"{list(bad)} accepted")
        except (RuntimeError, KeyError):
            pass
    env.eq("refused dictionary: other parameters", m[0].a.bias, w["0.a.bias"])


def lenient(env):
    """unknown entries are passed over where this is asked for"""
    m = make(env, lambda: co.Sequential(N(a=C1(2))), "a")
    w = values(m)
    new = env.tensor("new", *m[0].a.weight.shape)
    m.load_state_dict(OrderedDict([("a.weight", new), ("a.other", new)]), strict=False, flatten=True)
    env.eq("known entry", m[0].a.weight, new)
    env.eq("other parameters", m[0].a.bias, w["0.a.bias"])


def state_free(env, mk, T=3):
    """streaming state is no part of the dictionary: loading keeps the stream"""
    m = make(env, mk, "a")
    x = env.tensor("x", 1, 1, T + 4)
    ref = steps(make(env, mk, "a"), x)
    keys = list(m.state_dict())
    for t in range(T):
        m.forward_step(x[:, :, t])
    env.true("names do not depend on the stream", list(m.state_dict()) == keys)
    sd = {k: v.clone() for k, v in m.state_dict().items()}
    m.load_state_dict(OrderedDict(sd))
    for t in range(T, T + 4):
        o = m.forward_step(x[:, :, t])
        env.eq(f"step {t}", o if present(o) else None, ref[t] if present(ref[t]) else None)


def scenarios(tier):
    ns = list(nets())
    for name, mk, fl in ns:
        yield f"roundtrip {name}", (lambda env, mk=mk, fl=fl: roundtrip(env, mk, fl)), {}
        yield f"stream kept {name}", (lambda env, mk=mk: state_free(env, mk)), {}
    ab = {"plain": lambda: N(a=C1(2), b=C1(3)), "wrapped": lambda: co.Sequential(N(a=C1(2)), N(b=C1(3))),
          "deep": lambda: co.Sequential(co.Sequential(N(a=co.Sequential(C1(2)))), co.Identity(), N(b=co.Sequential(C1(3)))),
          "outer": lambda: N(a=co.Sequential(co.Sequential(C1(2))), b=C1(3))}
    for p in ab:
        for q in ab:
            yield f"renest {p} to {q}", (lambda env, p=ab[p], q=ab[q]: renest(env, p, q)), {}
    for name, mk, fl in ns:
        yield f"arguments {name}", (lambda env, mk=mk, fl=fl: arguments(env, mk, fl)), {}
        yield f"inside a plain module {name}", (lambda env, mk=mk: inside_plain(env, mk)), {}
    yield "context", context, {}
    yield "nested contexts", nested_contexts, {}
    yield "strict", strict, {}
    yield "lenient", lenient, {}
