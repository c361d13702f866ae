"""P20: hooks act on calls as torch specifies, in every call mode"""
from torch.nn.modules import module as tm

from .common import *
from .p22 import MODES, called, direct, members, n_

BOUNDS = ("every pair of hooks out of 11 kinds (observing / replacing, before / after, with keyword arguments, prepended, removed, global) on calls in the "
          "three modes with mode chosen by the module or by a context, with and without flags as keywords; two calls in a row; exceptions in the call; convolution, pooling, "
          "delay, elementwise, converted activation and normalisation, linear, sequential, parallel, residual, conditional members; hooks on gradients (full, before, old style, global, alone and in pairs, together with forward hooks), with the gradients of one call in each mode; symbolic weights, inputs and output gradients")
OUTSIDE = "gradients across several calls under hooks on gradients, state-dict hooks, hooks on parts of a network during step calls (parts are not called then)"

KINDS = ("pre see", "pre replace", "pre replace bare", "pre keywords", "pre keywords replace", "see", "replace", "keywords", "prepend", "removed", "global pre", "global")


def two(o):
    return o * 2.0 + 1.0 if present(o) else o


def add_hook(kind_, mod, log, tag, undo):
    """register a hook of the given kind on a module, logging what it is given"""

    def note(*parts):
        log.append((tag, [p for p in parts]))

    if kind_ == "pre see":
        mod.register_forward_pre_hook(lambda m, a: note("pre", m is mod, a))
    elif kind_ == "pre replace":
        mod.register_forward_pre_hook(lambda m, a: (note("pre", m is mod, a), (a[0] + 1.0, *a[1:]))[1])
    elif kind_ == "pre replace bare":
        mod.register_forward_pre_hook(lambda m, a: (note("pre", m is mod, a), a[0] - 2.0)[1])
    elif kind_ == "pre keywords":
        mod.register_forward_pre_hook(lambda m, a, k: note("pre", m is mod, a, sorted(k.items())), with_kwargs=True)
    elif kind_ == "pre keywords replace":
        mod.register_forward_pre_hook(lambda m, a, k: (note("pre", m is mod, a, sorted(k.items())), ((a[0] * 3.0, *a[1:]), dict(k, **({"update_state": False} if k else {}))))[1], with_kwargs=True)
    elif kind_ == "see":
        mod.register_forward_hook(lambda m, a, o: note("post", m is mod, a, o))
    elif kind_ == "replace":
        mod.register_forward_hook(lambda m, a, o: (note("post", m is mod, a, o), two(o))[1])
    elif kind_ == "keywords":
        mod.register_forward_hook(lambda m, a, k, o: (note("post", m is mod, a, sorted(k.items()), o), two(o) if k else None)[1], with_kwargs=True)
    elif kind_ == "prepend":
        mod.register_forward_hook(lambda m, a, o: (note("post", m is mod, a, o), o - 5.0 if present(o) else None)[1], prepend=True)
    elif kind_ == "removed":
        mod.register_forward_hook(lambda m, a, o: (note("post", m is mod, a, o), two(o))[1]).remove()
        mod.register_forward_pre_hook(lambda m, a: (note("pre", m is mod, a), (a[0] + 1.0, *a[1:]))[1]).remove()
    elif kind_ == "global pre":
        undo.append(tm.register_module_forward_pre_hook(lambda m, a: (note("pre", True, a), (a[0] + 7.0, *a[1:]))[1] if m is mod else None))
    elif kind_ == "global":
        undo.append(tm.register_module_forward_hook(lambda m, a, o: (note("post", True, a, o), two(o))[1] if m is mod else None))


class Plain(nn.Module):
    """torch's own call of a function"""

    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, *a, **k):
        return self.f(*a, **k)


def same_log(env, label, a, b):
    env.true(f"{label}: hooks run", [(t, p[0]) for t, p in a] == [(t, p[0]) for t, p in b], f"{[(t, p[0]) for t, p in a]} / {[(t, p[0]) for t, p in b]}")
    for (t, p), (_, q) in zip(a, b):
        env.true(f"{label}: {t} is given the module", p[1] is True and q[1] is True)
        for i, (u, v) in enumerate(zip(p[2:], q[2:])):
            env.eq(f"{label}: {t} argument {i}", clean(u), clean(v))


def clean(v):
    if isinstance(v, (tuple, list)):
        return [clean(i) for i in v]
    return v if present(v) or isinstance(v, (int, str, bool)) else None


def calls(env, spec, first, second, kw):
    a, b = spec.make(env), spec.make(env)
    mode = MODES[env.choose("mode", 3)]
    by_context = env.flag("mode by context")
    plain = Plain(lambda *x, **k: getattr(b, mode)(*x, **k))
    undo, la, lb = [], [], []
    try:
        for tag, kind_ in (("first", first), ("second", second)):
            if kind_:
                add_hook(kind_, a, la, tag, undo)
                add_hook(kind_, plain, lb, tag, undo)
        for r in range(2):
            x = spec.x(env, f"x{r}", T=4)
            x = x[:, :, 0] if mode == "forward_step" else x
            k = {"update_state": bool(r)} if kw and mode != "forward" else {}
            if by_context:
                with co.call_mode(mode):
                    got = a(x, **k)
            else:
                a.call_mode = co.module._callmode(mode)
                got = a(x, **k)
                a.call_mode = co.module._callmode("forward")
            want = plain(x, **k)
            env.eq(f"call {r}", n_(got), n_(want))
            same_log(env, f"call {r}", la, lb)
    finally:
        for h in undo:
            h.remove()
    y = spec.x(env, "y", T=2)
    for t in range(2):
        env.eq(f"stream after {t}", n_(a.forward_step(y[:, :, t])), n_(b.forward_step(y[:, :, t])))


BACK = ("grad see", "grad replace", "grad pre see", "grad pre replace", "grad old", "global grad", "global grad pre")


def add_back(kind_, mod, log, tag, undo):
    """register a hook on the gradients of a module's call"""

    def note(*parts):
        log.append((tag, [p for p in parts]))

    more = lambda gs: tuple(g * 3.0 if present(g) else g for g in gs)
    if kind_ == "grad see":
        mod.register_full_backward_hook(lambda m, gi, go: note("grad", m is mod, gi, go))
    elif kind_ == "grad replace":
        mod.register_full_backward_hook(lambda m, gi, go: (note("grad", m is mod, gi, go), more(gi))[1])
    elif kind_ == "grad pre see":
        mod.register_full_backward_pre_hook(lambda m, go: note("grad pre", m is mod, go))
    elif kind_ == "grad pre replace":
        mod.register_full_backward_pre_hook(lambda m, go: (note("grad pre", m is mod, go), more(go))[1])
    elif kind_ == "grad old":
        mod.register_backward_hook(lambda m, gi, go: note("grad old", m is mod, gi, go))
    elif kind_ == "global grad":
        undo.append(tm.register_module_full_backward_hook(lambda m, gi, go: (note("grad", True, gi, go), more(gi))[1] if m is mod else None))
    elif kind_ == "global grad pre":
        undo.append(tm.register_module_full_backward_pre_hook(lambda m, go: (note("grad pre", True, go), more(go))[1] if m is mod else None))
    else:
        add_hook(kind_, mod, log, tag, undo)


def back(env, spec, kinds):
    """hooks on gradients: torch's own call of the same function has the same gradients and gives the hooks the same"""
    env.smooth = True
    with torch.enable_grad():
        a, b = spec.make(env), spec.make(env)
        x = spec.x(env, "x", T=4)
        for p in (x, *a.parameters(), *b.parameters()):
            p.requires_grad_(True)
        mode = MODES[env.choose("mode", 3)]
        if mode == "forward_step":  # a stream which has started, so that there is an output
            past = spec.x(env, "past", T=max(1, int(a.delay) + int(max(a.stride[0] - 1, 0))))
            steps(a, past), steps(b, past)
        plain = Plain(lambda *z, **k: getattr(b, mode)(*z, **k))
        undo, la, lb = [], [], []
        try:
            for i, kind_ in enumerate(kinds):
                add_back(kind_, a, la, f"{i}", undo)
                add_back(kind_, plain, lb, f"{i}", undo)
            v = x[:, :, 0] if mode == "forward_step" else x
            with co.call_mode(mode):
                got = a(v)
            want = plain(v)
            env.eq("result", n_(got), n_(want))
            if present(want) and want.numel() and want.requires_grad:
                ct = env.tensor("ct", *want.shape)
                fix = lambda o, m: [torch.zeros_like(l) if g is None else g for g, l in zip(torch.autograd.grad([o], [x, *m.parameters()], [ct], allow_unused=True), [x, *m.parameters()])]
                env.eq("gradients", fix(got, a), fix(want, b))
                env.cover(mode)
            same_log(env, "hooks", la, lb)
        finally:
            for h in undo:
                h.remove()


class Boom(Exception):
    pass


def raising(env, spec, kind_):
    """an exception in a call passes through, and later calls are unaffected"""
    a, b = spec.make(env), spec.make(env)
    mode = MODES[env.choose("mode", 3)]
    plain = Plain(lambda *x, **k: getattr(b, mode)(*x, **k))
    undo, la, lb = [], [], []
    fail = [True]

    def boom(m, args):
        if fail[0] and (m is a or m is plain):
            raise Boom()

    try:
        for mod, log in ((a, la), (plain, lb)):
            add_hook(kind_, mod, log, "hook", undo)
            mod.register_forward_pre_hook(boom)
        x = spec.x(env, "x", T=4)
        x = x[:, :, 0] if mode == "forward_step" else x
        for r in range(2):
            got = []
            for mod in (a, plain):
                try:
                    with co.call_mode(mode if mod is a else "forward"):
                        got.append(n_(mod(x)))
                except Boom:
                    got.append("raised")
            if isinstance(got[0], str) or isinstance(got[1], str):
                env.true(f"raised {r}", got[0] is got[1])
            else:
                env.eq(f"result {r}", got[0], got[1])
            same_log(env, f"call {r}", la, lb)
            fail[0] = False
    finally:
        for h in undo:
            h.remove()


def always(env):
    """hooks registered to run even when the call fails"""
    m = env.symbolize(co.Conv1d(1, 1, 2), "m", shared=True).eval()
    x = env.tensor("x", 1, 1, 3)
    seen = []
    m.register_forward_hook(lambda *a: seen.append(1), always_call=True)
    m.register_forward_pre_hook(lambda *a: (_ for _ in ()).throw(Boom()))
    try:
        m(x)
    except Boom:
        pass
    env.true("always-called hook is run", seen == [1])
    env.eq("nothing else", m.forward(x), m.forward(x))


def family():
    z = members()
    z.append(Spec("bn", lambda: co.continual(nn.BatchNorm1d(2)), sp(1, 2)))
    z.append(Spec("softmax", lambda: co.continual(nn.Softmax(dim=1)), sp(1, 2), hide=True))
    z.append(Spec("layernorm stepping", lambda: co.forward_stepping(nn.PReLU()), sp(1, 2)))
    return z


PAIRS = [("pre replace", "pre see"), ("replace", "see"), ("see", "prepend"), ("global", "see"), ("global pre", "pre see"), ("pre keywords", "keywords"),
         ("pre keywords replace", "keywords"), ("replace", "removed"), ("pre replace bare", "global"), ("replace", "replace")]


BACKS = [("grad replace", "grad see"), ("grad pre replace", "grad see"), ("grad pre replace", "grad pre see"), ("global grad", "grad see"), ("global grad pre", "grad pre see"),
         ("replace", "grad see"), ("pre replace", "grad replace"), ("grad pre see", "see")]


def scenarios(tier):
    for i, spec in enumerate(family()):
        o = {"hide": True} if spec.hide else {}
        single = spec.name in ("relu", "bn") or spec.name.startswith(("conv1d", "seq(c3p1")) or tier == "thorough"
        pairs = [(k, None) for k in KINDS] + PAIRS if single else [PAIRS[i % len(PAIRS)], PAIRS[(i + 3) % len(PAIRS)], ("replace", None), ("pre replace", None)]
        for first, second in pairs:
            for kw in (False, True):
                yield f"{spec.name}: {first}, {second}{' flags' if kw else ''}", (lambda env, s=spec, f=first, g=second, kw=kw: calls(env, s, f, g, kw)), o
        for k in ("see", "pre see", "replace") if single else ("see",):
            yield f"{spec.name}: exception, {k}", (lambda env, s=spec, k=k: raising(env, s, k)), o
    yield "always called", always, {}
    some = [s for s in family() if s.name in ("relu", "bn") or s.name.startswith(("conv1d", "seq(c3p1"))] if tier == "quick" else family()
    for spec in some:
        o = {"hide": True} if spec.hide else {}
        for kinds in [(k,) for k in BACK] + BACKS:
            yield f"{spec.name}: {', '.join(kinds)}", (lambda env, s=spec, k=kinds: back(env, s, k)), o
