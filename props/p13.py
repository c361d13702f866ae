"""P13: metadata of compositions follows the composition law, for all integers"""
from numbers import Number

from symx.engine import SymZ

from .common import *

Number.register(SymZ)

BOUNDS = ("receptive field, padding and stride of the parts are unbounded symbolic integers (receptive field >= 1, padding >= 0, stride >= 1); "
          "chains of 1..6 parts, chains of 3 with two edits (append, insert, replace, delete, slice, ...) after construction, every nesting of chains of 3, 4 and 5, 2..3 parallel branches, residuals, conditionals, mixtures of them, pools with symbolic "
          "kernel/padding/stride/dilation; every order relation between the branches is a separate path")
OUTSIDE = "longer chains (the law is associative: nesting is checked), convolution constructors with symbolic sizes (checked concretely)"


class Part(co.CoModule, nn.Module):
    """a module of which only the metadata is known"""

    def __init__(self, rf, p, s):
        nn.Module.__init__(self)
        self.receptive_field, self.padding, self.stride = rf, (p,), (s,)

    def forward(self, x):
        return x

    forward_step = forward_steps = forward

    def get_state(self):
        return None

    set_state = clean_state = lambda self, *a: None


class Plain(nn.Module):
    pass


def part(env, i, s=None, maxp=False):
    rf, p = env.int(f"rf{i}", 1), env.int(f"p{i}", 0)
    if s is None:
        s = env.int(f"s{i}", 1)
    return Part(rf, p, s)


def law(ms):
    """window of a chain: each further part counts in strides of what precedes it"""
    rf, p, s = 1, 0, 1
    for m in ms:
        rf = rf + (m.receptive_field - 1) * s
        p = p + m.padding[0] * s
        s = s * m.stride[0]
    return rf, p, s


def same(env, label, m, want):
    rf, p, s = want
    env.iprove(f"{label}: receptive field", m.receptive_field == rf)
    env.iprove(f"{label}: padding", m.padding[0] == p)
    env.iprove(f"{label}: stride", m.stride[0] == s)
    env.iprove(f"{label}: delay", m.delay == rf - 1 - p)


def chain(env, n):
    ms = [part(env, i) for i in range(n)]
    same(env, "chain", co.Sequential(*ms), law(ms))
    same(env, "named chain", co.Sequential(OrderedDict((f"n{i}", m) for i, m in enumerate(ms))), law(ms))
    a = co.Sequential()
    for m in ms:
        a.append(m)
    same(env, "appended chain", a, law(ms))


def edited(env, op1, op2):
    """a network whose parts are exchanged after construction reports what its present parts give"""
    ms = [part(env, i) for i in range(3)]
    m = co.Sequential(*ms)
    same(env, "before", m, law(ms))
    outer = co.Sequential(m, part(env, "o"))
    for i, op in enumerate((op1, op2)):
        m, ms = edit(m, ms, op, part(env, f"n{i}"))
        same(env, f"after edit {i}", m, law(ms))
        env.true(f"parts after edit {i}", [id(q) for q in m] == [id(q) for q in ms])
    if m is outer[0]:
        same(env, "network around it", outer, law(ms + [outer[1]]))


def nestings(xs):
    """all ways to bracket a chain"""
    if len(xs) == 1:
        return [xs[0]]
    out = []
    for i in range(1, len(xs)):
        for l in nestings(xs[:i]):
            for r in nestings(xs[i:]):
                out.append((l, r))
    return out


def nested(env, shape, n):
    ms = [part(env, i) for i in range(n)]

    def build(t):
        return ms[t] if isinstance(t, int) else co.Sequential(*[build(u) for u in t])

    same(env, "nested", build(shape), law(ms))


def parallel(env, n, cls):
    s = env.int("s", 1)
    ms = [part(env, i, s) for i in range(n)]
    for m in ms:
        env.assume(m.delay >= 0)
    D = ms[0].delay
    for m in ms[1:]:
        D = m.delay if m.delay > D else D
    b = co.BroadcastReduce(*ms) if cls == "br" else co.Parallel(*ms)
    env.iprove("delay of the slowest branch", b.delay == D)
    env.iprove("common stride", b.stride[0] == s)
    for i, m in enumerate(b):
        env.iprove(f"branch {i} aligned", m.delay == D)
        env.iprove(f"branch {i} not wider than reported", m.receptive_field <= b.receptive_field)
        env.iprove(f"branch {i} keeps its stride", m.stride[0] == s)
        env.iprove(f"branch {i} keeps its padding", m.padding[0] <= b.padding[0])
    for m in ms:
        env.iprove("no branch wider than reported", m.receptive_field <= b.receptive_field)
    if cls != "br":
        b = co.Sequential(co.Broadcast(n), b, co.Reduce("sum"))
        env.iprove("with broadcast and reduction: stride", b.stride[0] == s)


def residual(env):
    m = part(env, 0, 1)
    env.assume(m.delay >= 0)
    b = co.Residual(m)
    env.iprove("delay", b.delay == m.delay)
    env.iprove("receptive field covers the module", b.receptive_field >= m.receptive_field)
    env.iprove("stride", b.stride[0] == 1)
    for i, q in enumerate(b):
        env.iprove(f"branch {i} aligned", q.delay == m.delay)


def mixture(env, kind_):
    """parallel parts inside chains inside parallel parts: delays add in strides and the slowest branch decides"""
    a, b, c, d = part(env, 0), part(env, 1), part(env, 2), part(env, 3)
    sb = env.int("s", 1)
    b.stride = c.stride = (sb,)
    for m in (a, b, c, d):
        env.assume(m.delay >= 0)
    bc = c.delay if c.delay > b.delay else b.delay
    sa, sd = a.stride[0], d.stride[0]
    if kind_ == "chain around branches":
        m = co.Sequential(a, co.BroadcastReduce(b, c), d)
        env.iprove("delay", m.delay == a.delay + sa * (bc + sb * d.delay))
        env.iprove("stride", m.stride[0] == sa * sb * sd)
    elif kind_ == "residual at the end":
        d.stride = (1,)
        m = co.Sequential(a, co.Residual(d), b)
        env.iprove("delay", m.delay == a.delay + sa * (d.delay + b.delay))
        env.iprove("stride", m.stride[0] == sa * sb)
    elif kind_ == "branch with a chain":
        b.stride = c.stride = d.stride = (1,)
        m = co.BroadcastReduce(co.Sequential(b, d), c)
        D = b.delay + d.delay
        D = c.delay if c.delay > D else D
        env.iprove("delay", m.delay == D)
        env.iprove("stride", m.stride[0] == 1)
        env.iprove("wide enough", m.receptive_field >= b.receptive_field + d.receptive_field - 1)
    elif kind_ == "branches in branches":
        b.stride = c.stride = d.stride = (1,)
        m = co.BroadcastReduce(co.BroadcastReduce(b, c), d)
        env.iprove("delay", m.delay == (d.delay if d.delay > bc else bc))
        for q in (b, c, d):
            env.iprove("wide enough", m.receptive_field >= q.receptive_field)
    else:
        b.stride = c.stride = (1,)
        m = co.Sequential(a, co.Conditional(lambda m, x: True, b, c), d)
        env.iprove("delay", m.delay == a.delay + sa * (bc + d.delay))
        env.iprove("stride", m.stride[0] == sa * sd)


def conditional(env, two):
    s = env.int("s", 1)
    ms = [part(env, i, s) for i in range(2 if two else 1)]
    for m in ms:
        env.assume(m.delay >= 0)
    c = co.Conditional(lambda m, x: True, *ms)
    D = ms[0].delay
    for m in ms[1:]:
        D = m.delay if m.delay > D else D
    env.iprove("delay of the slower alternative", c.delay == D)
    env.iprove("stride", c.stride[0] == s)
    for i, m in enumerate(c._modules.values()):
        env.iprove(f"alternative {i} aligned", m.delay == D)
        env.iprove(f"alternative {i} not wider than reported", m.receptive_field <= c.receptive_field)


def delay(env):
    d = env.int("d", 0)
    m = co.Delay(d)
    env.iprove("delay", m.delay == d)
    env.iprove("receptive field", m.receptive_field == d + 1)
    q = part(env, 0)
    same_ = co.Sequential(q, co.Delay(d))
    env.iprove("behind a module: steps counted in its stride", same_.delay == q.delay + d * q.stride[0])
    same_ = co.Sequential(co.Delay(d), q)
    env.iprove("before a module", same_.delay == q.delay + d)


def elementwise(env, mk):
    q = part(env, 0)
    for label, m in (("after", co.Sequential(q, mk())), ("before", co.Sequential(mk(), q))):
        same(env, label, m, law([q]))


def conv_meta(env, nd, k, p, s):
    m = CONV[nd](1, 1, tup(nd, k, 1), padding=tup(nd, p, 0), stride=tup(nd, s, 1))
    same(env, "convolution", m, (k, p, s))
    q = part(env, 0)
    same(env, "convolution after any part", co.Sequential(q, m), law([q, Part(k, p, s)]))
    same(env, "convolution before any part", co.Sequential(m, q), law([Part(k, p, s), q]))


def pool_meta(env, kp, nd, k, p, s, d):
    kw = dict(padding=tup(nd, p, 0), stride=tup(nd, s, 1))
    if kp == "max":
        kw["dilation"] = tup(nd, d, 1)
    m = POOLS[kp, nd](tup(nd, k, 1), **kw)
    same(env, "pooling", m, (d * (k - 1) + 1, p, s))
    q = part(env, 0)
    same(env, "pooling after any part", co.Sequential(q, m), law([q, Part(d * (k - 1) + 1, p, s)]))


def alignment(env):
    """number of outputs of a stream never exceeds, and with end padding equals, the offline length"""
    rf, p, s, T = env.int("rf", 1), env.int("p", 0), env.int("s", 1), env.int("T", 1)
    m = Part(rf, p, s)
    D = m.delay
    env.assume(D >= 0)
    env.assume(T + 2 * p >= rf)
    env.assume(p <= rf - 1)
    F = (T + 2 * p - rf) // s + 1
    due = (T - 1 - D) // s + 1
    env.iprove("stream is a prefix", due <= F)
    env.iprove("end padding completes it", (T + p - 1 - D) // s + 1 == F)


ELEM = {"relu": lambda: nn.ReLU(), "sigmoid": lambda: nn.Sigmoid(), "batchnorm": lambda: nn.BatchNorm1d(1), "lambda": lambda: co.Lambda(lambda x: x),
        "add": lambda: co.Add(1), "mul": lambda: co.Multiply(2), "identity": lambda: co.Identity(), "linear": lambda: co.Linear(1, 1),
        "reshape": lambda: co.Reshape(1), "one": lambda: co.One(), "dropout": lambda: nn.Dropout(), "layernorm": lambda: nn.LayerNorm(1),
        "broadcast": lambda: co.Broadcast(2), "reduce": lambda: co.Reduce(), "dispatch": lambda: co.ParallelDispatch([0])}


def scenarios(tier):
    for n in (1, 2, 3, 4, 5, 6):
        yield f"chain of {n}", (lambda env, n=n: chain(env, n)), {}
    for a in EDITS:
        for b in EDITS:
            if a in ("slice", "add module") and b in ("append", "extend", "iadd", "insert first", "insert last"):
                continue  # the names of the parts are no longer their numbers, by which torch names further parts
            if tier == "thorough" or a == b or "append" in (a, b):
                yield f"edited: {a}, {b}", (lambda env, a=a, b=b: edited(env, a, b)), {}
    for k in ("chain around branches", "residual at the end", "branch with a chain", "branches in branches", "conditional in a chain"):
        yield f"mixture {k}", (lambda env, k=k: mixture(env, k)), {}
    for n in (3, 4, 5):
        for sh in nestings(list(range(n))):
            yield f"nesting {sh}", (lambda env, sh=sh, n=n: nested(env, sh, n)), {}
    for cls in ("br", "par"):
        for n in (2, 3):
            yield f"{cls} of {n}", (lambda env, n=n, cls=cls: parallel(env, n, cls)), {}
    yield "residual", residual, {}
    yield "conditional one", lambda env: conditional(env, False), {}
    yield "conditional two", lambda env: conditional(env, True), {}
    yield "delay", delay, {}
    yield "alignment", alignment, {}
    for n, mk in ELEM.items():
        yield f"elementwise {n}", (lambda env, mk=mk: elementwise(env, mk)), {}
    for nd in (1, 2, 3):
        for k in (1, 2, 3, 5):
            for p, s in ((0, 1), (k // 2, 2), (0, 3)):
                yield f"conv{nd}d k={k} p={p} s={s}", (lambda env, nd=nd, k=k, p=p, s=s: conv_meta(env, nd, k, p, s)), {}
    for kp in ("avg", "max"):
        for nd in (1, 2, 3):
            for k, p, s, d in ((1, 0, 1, 1), (2, 0, 2, 1), (3, 1, 1, 1), (3, 1, 2, 2), (2, 0, 1, 3)):
                if kp == "avg" and d > 1:
                    continue
                yield f"{kp}pool{nd}d k={k} p={p} s={s} d={d}", (lambda env, a=(kp, nd, k, p, s, d): pool_meta(env, *a)), {}
