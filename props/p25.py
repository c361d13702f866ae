"""P25: a network driven through its explicit state behaves as the network holding the state"""
from continual.onnx import OnnxWrapper
from continual.utils import flatten

from .common import *
from .p11 import capture, cp, parts_of

BOUNDS = ("streams of up to 7 steps (larger modules, delay up to 8: 14) from the uninitialised state and from every step count of history; every member of the module zoo, shrinking residuals, positional "
          "encodings, conditionals, recurrent networks, attention (own key/value streams) and encoders; the exported step (flattened state) from every "
          "fully initialised state and everything handed to the exporter; batch 1 and 2; symbolic weights and inputs")
OUTSIDE = "the exported graph itself (the exporter and the runtime are not in the repository), end padding, state dictionaries"


def empty(m):
    return None


def struct(state, shape, path="state"):
    """declared layout against the layout of the state; -> list of differences"""
    if isinstance(shape, int):
        if shape == 0:
            return [] if state is None or flatten(state) == [] else [f"{path}: state without declaration"]
        if not isinstance(state, (tuple, list)) or len(state) != shape:
            return [f"{path}: {shape} tensors declared"]
        return [] if all(isinstance(s, torch.Tensor) for s in state) else [f"{path}: not a tensor"]
    if not isinstance(state, (tuple, list)) or len(state) != len(shape):
        return [f"{path}: {len(shape)} parts declared"]
    return [d for i, (a, b) in enumerate(zip(state, shape)) for d in struct(a, b, f"{path}.{i}")]


def ready(state, shape):
    if isinstance(shape, int):
        return shape == 0 or state is not None
    return state is not None and all(ready(a, b) for a, b in zip(state, shape))


def scalar_shape(shape):
    return [shape] if isinstance(shape, int) else shape


def explicit(env, spec, T, B=1, args=None):
    x = spec.x(env, B=B, T=T)
    y = spec.x(env, "y", B=B, T=3)
    refs = []
    r = spec.make(env)
    for t in range(T):
        refs.append(r.forward_step(x[:, :, t]))
    m = spec.make(env)
    h = env.choose("own history", 3)
    for t in range(h):
        m.forward_step(y[:, :, t])
    own = capture(m)
    st = None
    w = None
    for t in range(T):
        if w is not None:
            # the exported step from here: same output, same next state, everything flat
            flat = [s.clone() for s in flatten(st)]
            names = w.state_input_names
            env.true(f"declared number of state tensors {t}", len(names) == len(flat), f"{len(names)} {len(flat)}")
            o, *nxt = w(x[:, :, t], *flat)
            env.eq(f"exported step {t}", o if present(o) else None, refs[t] if present(refs[t]) else None)
            env.true(f"flat next state {t}", len(nxt) == len(w.state_output_names) and all(present(n) for n in nxt), str(len(nxt)))
            env.cover("exported step")
        o, st = m._forward_step(x[:, :, t], cp(st))
        env.eq(f"explicit step {t}", o if present(o) else None, refs[t] if present(refs[t]) else None)
        if w is not None:
            env.eq(f"next state {t}", list(nxt), list(flatten(st)))
        if ready(st, m._state_shape):
            d = struct(st, m._state_shape)
            env.true(f"declared layout {t}", not d, "; ".join(d[:3]))
            if w is None:
                w = OnnxWrapper(spec.make(env)).eval()
    after = capture(m)
    env.true("own state: same stateful parts", set(own) == set(after), f"{set(own) ^ set(after)}")
    for k in own:
        env.eq(f"own state {k}", list(flatten(after[k])), list(flatten(own[k])))
    if w is not None:
        now, fresh = capture(w.model), capture(spec.make(env))
        env.true("exported network keeps no state", set(now) == set(fresh), str(list(now)))
        for n in fresh:
            env.eq(f"exported network keeps no state {n}", list(flatten(now[n])), list(flatten(fresh[n])))


def axes(env, spec, T):
    """declared dynamic axes: exactly the axes whose length follows the batch size"""
    shapes = []
    for B in (1, 2):
        m = spec.make(env)
        x = spec.x(env, B=B, T=T)
        st = None
        for t in range(T):
            _, st = m._forward_step(x[:, :, t], st)
        w = OnnxWrapper(m)
        env.true("initialised", ready(st, m._state_shape))
        shapes.append([tuple(s.shape) for s in flatten(st)])
        ax = w.state_dynamic_axes
    env.true("same number of tensors", len(shapes[0]) == len(shapes[1]))
    names = w.state_input_names
    env.true("names are unique", len(set(names + w.state_output_names)) == 2 * len(names))
    for i, n in enumerate(names):
        dyn = {d for d, (a, b) in enumerate(zip(shapes[0][i], shapes[1][i])) if a != b}
        env.true(f"follows the batch size, declared {i}", bool(dyn) == (n in ax), f"{shapes[0][i]} {shapes[1][i]} {ax.get(n)}")
        env.true(f"same for input and output {i}", ax.get(n) == ax.get(w._i2o_name(n)))
        if dyn and n in ax:
            a, b = ",".join(map(str, sorted(dyn))), ",".join(map(str, sorted(ax[n])))
            env.true(f"axis of the batch is {a}, declared {b}", a == b)


def exporting(env, spec, T):
    """what is handed to the exporter: the step with flat states, named in order, and every option as it was given"""
    x = spec.x(env, T=T + 2)
    m, r = spec.make(env), spec.make(env)
    st = None
    for t in range(T):
        _, st = m._forward_step(x[:, :, t], st)
        r.forward_step(x[:, :, t])
    env.true("initialised", ready(st, m._state_shape))
    flat = [cp(s) for s in flatten(st)]
    given = dict(export_params=False, verbose=True, training="training", operator_export_type="type", opset_version=13, do_constant_folding=False,
                 keep_initializers_as_inputs=True, custom_opsets={"a": 2})
    seen = []
    real = torch.onnx.export
    torch.onnx.export = lambda *a, **k: seen.append((a, k))
    try:
        co.onnx.export(m, (x[:, :, T], *flat), "nowhere", input_names=["in"], output_names=["out"], **given)
    finally:
        torch.onnx.export = real
    env.true("one export", len(seen) == 1)
    a, k = seen[0]
    k = dict(k, **dict(zip(("model", "args", "f"), a)))
    env.true("options are passed on", {n: k.get(n) for n in given} == given and k["f"] == "nowhere", str({n: k.get(n) for n in given}))
    n = len(flat)
    env.true("inputs are named in order", len(k["input_names"]) == 1 + n == len(k["args"]) and k["input_names"][0] == "in" and len(set(k["input_names"])) == 1 + n, str(k["input_names"]))
    env.true("outputs are named in order", len(k["output_names"]) == 1 + n and k["output_names"][0] == "out" and len({*k["output_names"], *k["input_names"]}) == 2 + 2 * n, str(k["output_names"]))
    ax = k["dynamic_axes"]
    env.true("batch axis of input and output", 0 in ax.get("in", ()) and 0 in ax.get("out", ()), str(ax))
    env.true("axes of what is named", set(ax) <= {*k["input_names"], *k["output_names"]}, str(ax))
    env.true("states change alike", [i in ax for i in k["input_names"]] == [o in ax for o in k["output_names"]], str(ax))
    env.eq("arguments", list(k["args"]), [x[:, :, T], *flat])
    o, *nxt = k["model"](*k["args"])
    for t in (T, T + 1):
        w = r.forward_step(x[:, :, t])
        env.eq(f"exported step {t}", o if present(o) else None, w if present(w) else None)
        if t == T:
            o, *nxt = k["model"](x[:, :, T + 1], *nxt)


def mha(env, kind_, N, own, T, B=1, E=2, h=1, qi=-1):
    cls = {"single": co.SingleOutputMultiheadAttention, "retro": co.RetroactiveMultiheadAttention}[kind_]
    mk = lambda: env.symbolize(cls(E, h, batch_first=True, embed_dim_second=True, sequence_len=N, forward_returns_attn_mask=False, **({"query_index": qi} if kind_ == "single" else {})), "w", shared=True).eval()
    q = env.tensor("q", B, E, T)
    k, v = (env.tensor("k", B, E, T), env.tensor("v", B, E, T)) if own else (q, q)
    m, r = mk(), mk()
    y = env.tensor("y", B, E, 1)
    if env.flag("own history"):
        m.forward_step(y[:, :, 0])
    saved = capture(m)
    st = None
    for t in range(T):
        a = [z[:, :, t] for z in (q, k, v)]
        a = a if own else a[:1]
        o, st = m._forward_step(*a, prev_state=cp(st))
        w = r.forward_step(*a)
        env.eq(f"explicit step {t}", o if present(o) else None, w if present(w) else None)
        env.true(f"layout {t}", struct(st, m._state_shape) == [], str(struct(st, m._state_shape)))
    after = capture(m)
    for n in saved:
        env.eq(f"own state {n}", parts_of(after[n]), parts_of(saved[n]))
    env.true("no own state appeared", set(after) == set(saved))


def encoder_spec(L, N):
    from .p18 import reference

    class S(Spec):
        def make(self, env, prefix="m", train=False):
            return co.TransformerEncoder.build_from(reference(env, 2, 1, 2, L, "relu", True), sequence_len=N).eval()

    return S(f"encoder(L={L},N={N})", None, sp(1, 2), hide=True, tags={"nopad"})


def zoo(tier):
    return small_zoo(tier) + shrink_specs()[:4] + rnn_specs() + extra(tier)


AXES = {conv_spec(1, 3, 0, 1, 1, 1).name, pool_spec("avg", 1, 3, 1, 1).name, pool_spec("max", 1, 2, 0, 1).name, "delay(3,zeros)", "skip(2)", "rpe(3)",
        "rnn", "gru", "lstm", "linear1", "seq(lin,c2,bn)"}


def scenarios(tier):
    th = tier == "thorough"
    for spec in zoo(tier):
        o = {"hide": True} if spec.tags & {"rnn"} or "lstm" in spec.name or "gru" in spec.name or "rnn" in spec.name else {}
        rnn = bool(o)
        for B in (1, 2):
            if B == 2 and ("reshape" in spec.name or (rnn and not th)):
                continue
            T = 4 if rnn else 7 if not th else 10
            yield f"{spec.name} batch {B}", (lambda env, spec=spec, B=B, T=T: explicit(env, spec, T, B)), o
        if spec.name in AXES:
            yield f"{spec.name} axes", (lambda env, spec=spec: axes(env, spec, 4 if rnn else 8)), o
            yield f"{spec.name} exporting", (lambda env, spec=spec: exporting(env, spec, 4)), o
    for spec in large_zoo():
        yield f"{spec.name} large", (lambda env, spec=spec: explicit(env, spec, 14)), {}
    for L in (1, 2):
        spec = encoder_spec(L, 2)
        yield f"{spec.name}", (lambda env, spec=spec: explicit(env, spec, 4)), {"hide": True}
        yield f"{spec.name} axes", (lambda env, spec=spec: axes(env, spec, 4)), {"hide": True}
    for kind_ in ("single", "retro"):
        for N in (2, 3):
            for own in (False, True):
                yield f"mha {kind_} N={N} own={own}", (lambda env, k=kind_, N=N, o=own: mha(env, k, N, o, N + 2)), {"hide": True}
        for N, E, h, qi, B in ((2, 2, 2, 0, 2), (3, 2, 2, 1, 1), (4, 1, 1, -3, 1)):
            yield f"mha {kind_} N={N} heads {h} q={qi} batch {B}", (lambda env, k=kind_, N=N, a=(B, E, h, qi): mha(env, k, N, False, N + 2, *a)), {"hide": True}
