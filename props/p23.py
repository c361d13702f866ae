"""P23: time-independent modules act on every step as on the whole sequence"""
from .common import *

BOUNDS = ("every automatically convertible activation, normalisation and dropout (evaluation mode), affine instance norms, spatial-only convolutions and "
          "pools made continual by forward_stepping (any unsqueezed dimension), Lambda and its variants, Add/Multiply/Constant/Zero/One/Identity, "
          "Linear over every channel dimension, Reshape; batch 1..2, 3 steps, each as offline/block/step with every flag, and "
          "inside a sequential network; symbolic parameters, statistics and inputs")
OUTSIDE = "random dropout (rates 0 and 1 in training, any in evaluation are inside), batch statistics; operations over the time axis (not time-independent)"

S3, S4, S5 = (2, 2, 3), (1, 2, 3, 2), (1, 2, 3, 1, 2)  # (B, C, T, ...)


def wrappers():
    A = lambda n, f, *shapes: (n, f, shapes or (S3, S4))
    return [
        A("threshold", lambda: nn.Threshold(0.25, -1.5)), A("relu", lambda: nn.ReLU()), A("rrelu", lambda: nn.RReLU()), A("hardtanh", lambda: nn.Hardtanh(-0.5, 2.0)),
        A("relu6", lambda: nn.ReLU6()), A("sigmoid", lambda: nn.Sigmoid()), A("hardsigmoid", lambda: nn.Hardsigmoid()), A("tanh", lambda: nn.Tanh()),
        A("silu", lambda: nn.SiLU()), A("hardswish", lambda: nn.Hardswish()), A("elu", lambda: nn.ELU(0.5)), A("celu", lambda: nn.CELU(0.5)),
        A("selu", lambda: nn.SELU()), A("glu", lambda: nn.GLU(dim=1)), A("gelu", lambda: nn.GELU()), A("gelu tanh", lambda: nn.GELU("tanh")),
        A("hardshrink", lambda: nn.Hardshrink(0.25)), A("leakyrelu", lambda: nn.LeakyReLU(0.25)), A("logsigmoid", lambda: nn.LogSigmoid()),
        A("softplus", lambda: nn.Softplus()), A("softshrink", lambda: nn.Softshrink(0.25)), A("prelu", lambda: nn.PReLU()), A("prelu channels", lambda: nn.PReLU(2)),
        A("softsign", lambda: nn.Softsign()), A("tanhshrink", lambda: nn.Tanhshrink()), A("softmin", lambda: nn.Softmin(dim=1)), A("softmax", lambda: nn.Softmax(dim=1)),
        A("softmax last", lambda: nn.Softmax(dim=-1), S4, S5), A("softmax2d", lambda: nn.Softmax2d(), S4), A("logsoftmax", lambda: nn.LogSoftmax(dim=1)),
        A("batchnorm1d", lambda: nn.BatchNorm1d(2), S3), A("batchnorm1d plain", lambda: nn.BatchNorm1d(2, affine=False), S3), A("batchnorm2d", lambda: nn.BatchNorm2d(2), S4),
        A("batchnorm3d", lambda: nn.BatchNorm3d(2, eps=0.125), S5), A("layernorm", lambda: nn.LayerNorm(2), S4, S5), A("layernorm two axes", lambda: nn.LayerNorm((1, 2)), S5),
        A("layernorm plain", lambda: nn.LayerNorm(2, elementwise_affine=False), S4), A("groupnorm", lambda: nn.GroupNorm(1, 2), S3, S4),
        A("dropout", lambda: nn.Dropout(0.5)), A("dropout2d", lambda: nn.Dropout2d(0.5), S4), A("dropout3d", lambda: nn.Dropout3d(0.5), S5), A("alphadropout", lambda: nn.AlphaDropout(0.5)),
        A("featurealphadropout", lambda: nn.FeatureAlphaDropout(0.5)),
        A("instancenorm1d", lambda: nn.InstanceNorm1d(2, affine=True, track_running_stats=True), S3),
        A("instancenorm2d", lambda: nn.InstanceNorm2d(2, affine=True, track_running_stats=True), S4),
        A("instancenorm3d", lambda: nn.InstanceNorm3d(2, affine=True, track_running_stats=True), S5),
    ]


def stepping():
    F = lambda n, f, shape, dim=2: (n, f, shape, dim)
    return [
        F("conv1d pointwise", lambda: nn.Conv1d(2, 3, 1), S3), F("conv2d spatial", lambda: nn.Conv2d(2, 2, (1, 2)), S4), F("conv2d spatial padded", lambda: nn.Conv2d(2, 1, (1, 3), padding=(0, 1), stride=(1, 2)), S4),
        F("conv3d spatial", lambda: nn.Conv3d(2, 1, (1, 1, 2)), S5), F("conv2d grouped", lambda: nn.Conv2d(2, 2, 1, groups=2), S4), F("maxpool3d spatial", lambda: nn.MaxPool3d((1, 1, 2)), S5),
        F("avgpool2d spatial", lambda: nn.AvgPool2d((1, 2)), S4), F("maxpool2d single stride", lambda: nn.MaxPool2d((1, 2), stride=1), S4),
        F("adaptive", lambda: nn.AdaptiveAvgPool3d((None, 1, 1)), S5), F("linear", lambda: nn.Linear(2, 3), S4), F("net", lambda: nn.Sequential(nn.Conv2d(2, 1, 1), nn.ReLU()), S4),
        F("identity", lambda: nn.Identity(), S3), F("dim 3", lambda: nn.Conv2d(2, 1, (2, 1)), (1, 2, 2, 3), 3), F("dim 1", lambda: nn.Linear(2, 2), (1, 3, 2, 2), 1),
        F("upsample", lambda: nn.Upsample(scale_factor=(1, 2)), S4), F("constant pad", lambda: nn.ConstantPad3d((1, 1, 0, 1, 0, 0), 0.5), S5), F("last dim", lambda: nn.Conv1d(2, 2, 1), S3, -1),
        F("unflatten", lambda: nn.Flatten(3), S5), F("bn", lambda: nn.BatchNorm2d(2), S4),
    ]


def at(x, t, dim):
    return x.select(dim, t)


def acts(env, m, ref, x, dim=2, meta=True):
    """the converted module m acts on steps as ref does on sequences"""
    want = ref(x)
    T = x.shape[dim]
    env.eq("offline", m.forward(x), want)
    env.eq("called", m(x), want)
    env.eq("block", m.forward_steps(x), want)
    env.eq("block with flags", m.forward_steps(x, pad_end=True, update_state=False), want)
    env.eq("block positional flags", m.forward_steps(x, True, False), want)
    for t in range(T):
        env.eq(f"step {t}", m.forward_step(at(x, t, dim)), at(want, t, dim))
        env.eq(f"step {t} without update", m.forward_step(at(x, t, dim), update_state=False), at(want, t, dim))
        o, st = m._forward_step(at(x, t, dim), None)
        env.eq(f"explicit step {t}", o, at(want, t, dim))
        env.true("no state", st is None or st == [] or st == (), f"{st}")
    env.true("no captured state", m.get_state() is None)
    m.clean_state()
    env.eq("after cleaning", m.forward(x), want)
    if meta:
        env.true("no delay", int(m.delay) == 0, f"{m.delay}")
        env.true("receptive field one", int(m.receptive_field) == 1)
        env.true("temporal stride one", stride_of(m) == 1 and int(m.padding[0]) == 0, f"{m.stride} {m.padding}")
    for mode in ("forward_steps", "forward_step"):
        with co.call_mode(mode):
            env.eq(f"context {mode}", m(x if mode == "forward_steps" else at(x, 0, dim)), want if mode == "forward_steps" else at(want, 0, dim))


def naive(env, mk, shape):
    ref = env.symbolize(mk(), "m", shared=True).eval()
    m = co.continual(env.symbolize(mk(), "m", shared=True).eval())
    acts(env, m, ref, env.tensor("x", *shape))


def dropping(env, mk, shape):
    """rate one in training: everything is dropped, in every step"""
    m = co.continual(mk()).train()
    x = env.tensor("x", *shape)
    acts(env, m, mk().train(), x)


def in_net(env, mk, shape):
    """the module between two stream modules"""
    def build():
        net = co.Sequential(co.Delay(1), mk(), co.Delay(1))
        return env.symbolize(net, "m", shared=True).eval()

    ref = env.symbolize(mk(), "m.1", shared=True).eval()
    x = env.tensor("x", *shape)
    want = ref(x)
    env.eq("offline", build().forward(x), want)
    check_steps(env, "step", steps(build(), x), want, 2, 1)
    check_chunk(env, "block", build().forward_steps(x), want, 2, 1, 0, x.shape[2])
    env.eq("padded block", build().forward_steps(x, pad_end=True), want)


def fstep(env, mk, shape, dim):
    ref = env.symbolize(mk(), "m", shared=True).eval()
    m = env.symbolize(mk(), "m", shared=True).eval()
    m = co.forward_stepping(m, dim) if dim != 2 else co.forward_stepping(m)
    env.true("valid continual module", co.CoModule.is_valid(m))
    acts(env, m, ref, env.tensor("x", *shape), dim)


def lambdas():
    f, g, h, k = (lambda x: x * x + 1.0), (lambda x: x * 2.0), (lambda x: x - 3.0), (lambda x: x * 5.0)
    per = lambda fn: lambda x: torch.stack([fn(x[:, :, t]) for t in range(x.shape[2])], dim=2)
    chan = lambda x: x.sum(dim=1, keepdim=True)
    # name, module, reference offline, reference block, reference step
    yield "per step", lambda: co.Lambda(f), per(f), per(f), f
    yield "takes time", lambda: co.Lambda(f, takes_time=True), f, f, f
    yield "channel sum", lambda: co.Lambda(chan), chan, chan, chan
    # the function sees exactly one step at a time: it may use all of it
    cen, row = (lambda x: x - x.mean()), (lambda x: x + x.sum(dim=0, keepdim=True) * x[:1])
    flat = lambda x: x.flatten(1)
    yield "whole step", lambda: co.Lambda(cen), per(cen), per(cen), cen
    yield "across the batch", lambda: co.Lambda(row), per(row), per(row), row
    yield "across the batch, forward only", lambda: co.Lambda(row, forward_only_fn=g), g, per(row), row
    yield "across the batch, steps only", lambda: co.Lambda(row, forward_steps_only_fn=g), per(row), g, row
    yield "flattening", lambda: co.Lambda(flat), per(flat), per(flat), flat
    yield "scalar per step", lambda: co.Lambda(lambda x: x * x.sum()), per(lambda x: x * x.sum()), per(lambda x: x * x.sum()), lambda x: x * x.sum()
    yield "channel sum takes time", lambda: co.Lambda(chan, takes_time=True), chan, chan, chan
    yield "forward only", lambda: co.Lambda(f, forward_only_fn=g), g, per(f), f
    yield "step only", lambda: co.Lambda(f, forward_step_only_fn=h), per(f), per(f), h
    yield "steps only", lambda: co.Lambda(f, forward_steps_only_fn=k), per(f), k, f
    yield "all three", lambda: co.Lambda(forward_only_fn=g, forward_step_only_fn=h, forward_steps_only_fn=k), g, k, h
    yield "all four", lambda: co.Lambda(f, g, h, k), g, k, h
    yield "forward only takes time", lambda: co.Lambda(f, forward_only_fn=g, takes_time=True), g, f, f
    yield "step only takes time", lambda: co.Lambda(f, forward_step_only_fn=h, takes_time=True), f, f, h
    yield "steps only takes time", lambda: co.Lambda(f, forward_steps_only_fn=k, takes_time=True), f, k, f
    yield "built from function", lambda: co.Lambda.build_from(f), per(f), per(f), f
    yield "built from function, takes time", lambda: co.Lambda.build_from(f, takes_time=True), f, f, f
    yield "converted function", lambda: co.continual(f), per(f), per(f), f
    yield "functor", lambda: co.Lambda(nn.Sigmoid()), torch.sigmoid, torch.sigmoid, torch.sigmoid
    yield "functor takes time", lambda: co.Lambda(nn.Sigmoid(), takes_time=True), torch.sigmoid, torch.sigmoid, torch.sigmoid
    yield "add", lambda: co.Add(3), lambda x: x + 3, lambda x: x + 3, lambda x: x + 3
    yield "multiply", lambda: co.Multiply(-2.5), lambda x: x * -2.5, lambda x: x * -2.5, lambda x: x * -2.5
    yield "identity", lambda: co.Identity(1, a=2), lambda x: x, lambda x: x, lambda x: x
    yield "constant", lambda: co.Constant(1.5), lambda x: x * 0 + 1.5, lambda x: x * 0 + 1.5, lambda x: x * 0 + 1.5
    yield "zero", lambda: co.Zero(), lambda x: x * 0, lambda x: x * 0, lambda x: x * 0
    yield "one", lambda: co.One(), lambda x: x * 0 + 1, lambda x: x * 0 + 1, lambda x: x * 0 + 1


def lam(env, mk, off, block, step, shape):
    m = mk()
    x = env.tensor("x", *shape)
    env.eq("offline", m.forward(x), off(x))
    env.eq("called", m(x), off(x))
    for kw in ({}, {"pad_end": True}, {"update_state": False}, {"pad_end": True, "update_state": False}):
        env.eq(f"block {kw}", m.forward_steps(x, **kw), block(x))
    for t in range(shape[2]):
        env.eq(f"step {t}", m.forward_step(x[:, :, t]), step(x[:, :, t]))
        env.eq(f"step {t} without update", m.forward_step(x[:, :, t], update_state=False), step(x[:, :, t]))
        o, st = m._forward_step(x[:, :, t], None)
        env.eq(f"explicit step {t}", o, step(x[:, :, t]))
        env.true("no state", st is None)
    env.true("metadata", int(m.delay) == 0 and int(m.receptive_field) == 1 and stride_of(m) == 1)


def tensor_arg(env, which):
    """Add / Multiply with a per-channel tensor"""
    c = env.tensor("c", 2, 1, 1)
    x = env.tensor("x", 1, 2, 3, 2)
    m = co.Add(c) if which == "add" else co.Multiply(c)
    want = x + c if which == "add" else x * c
    env.eq("offline", m.forward(x), want)
    env.eq("block", m.forward_steps(x), want)
    for t in range(3):
        env.eq(f"step {t}", m.forward_step(x[:, :, t]), want[:, :, t])


def linear(env, shape, cd, bias):
    I = shape[cd]
    m = env.symbolize(co.Linear(I, 3, bias=bias, channel_dim=cd), "m", shared=True)
    x = env.tensor("x", *shape)
    want = torch.movedim(torch.movedim(x, cd, -1) @ m.weight.transpose(0, 1) + (m.bias if bias else 0.0), -1, cd)
    ref = env.symbolize(nn.Linear(I, 3, bias=bias), "m", shared=True)
    env.eq("offline", m.forward(x), want)
    env.eq("block", m.forward_steps(x, pad_end=True), want)
    for t in range(shape[2]):
        env.eq(f"step {t}", m.forward_step(x[:, :, t]), want[:, :, t])
        env.eq(f"explicit step {t}", m._forward_step(x[:, :, t])[0], want[:, :, t])
    c = co.Linear.build_from(ref, channel_dim=cd)
    env.eq("converted", c.forward(x), want)
    env.eq("converted step", c.forward_step(x[:, :, 1]), want[:, :, 1])


def reshape(env, shape, target, contiguous, form):
    m = co.Reshape(*target, contiguous=contiguous) if form else co.Reshape(target, contiguous=contiguous)
    x = env.tensor("x", *shape)
    want = torch.stack([x[:, :, t].reshape(target) for t in range(shape[2])], dim=2)
    env.eq("offline", m.forward(x), want)
    env.eq("block", m.forward_steps(x, pad_end=True, update_state=False), want)
    for t in range(shape[2]):
        o = m.forward_step(x[:, :, t])
        env.eq(f"step {t}", o, want[:, :, t])
        env.eq(f"explicit step {t}", m._forward_step(x[:, :, t])[0], want[:, :, t])
        env.true("contiguous", not contiguous or o.is_contiguous())
    env.true("metadata", int(m.delay) == 0 and int(m.receptive_field) == 1)


def refuse(env, mk):
    """modules that would behave differently in a stream are not silently accepted"""
    try:
        co.continual(mk())
    except Exception:
        env.true("refused", True)
        return
    env.true("refused", False)


def scenarios(tier):
    for n, c, sh in (("dropout", nn.Dropout, (1, 2, 3)), ("dropout 2d", nn.Dropout2d, (1, 2, 3, 2)), ("dropout 3d", nn.Dropout3d, (1, 1, 3, 2, 1))):
        for rate in (1.0, 0.0):
            yield f"{n} rate {rate} in training", (lambda env, c=c, sh=sh, r=rate: dropping(env, lambda: c(r), sh)), {}
    for n, mk, shapes in wrappers():
        for sh in shapes:
            yield f"{n} {len(sh)}d", (lambda env, mk=mk, sh=sh: naive(env, mk, sh)), {}
            yield f"{n} {len(sh)}d in a network", (lambda env, mk=mk, sh=sh: in_net(env, mk, sh)), {}
    for n, mk, sh, dim in stepping():
        yield f"forward_stepping {n}", (lambda env, mk=mk, sh=sh, dim=dim: fstep(env, mk, sh, dim)), {}
    for n, mk, a, b, c in lambdas():
        for sh in (S3, S5):
            yield f"lambda {n} {len(sh)}d", (lambda env, mk=mk, a=a, b=b, c=c, sh=sh: lam(env, mk, a, b, c, sh)), {}
    for w in ("add", "mul"):
        yield f"tensor {w}", (lambda env, w=w: tensor_arg(env, w)), {}
    for sh, cd in ((S3, 1), (S4, 1), (S5, 1), (S4, -1), (S5, -1)):
        for b in (True, False):
            yield f"linear {len(sh)}d channel {cd} bias={b}", (lambda env, sh=sh, cd=cd, b=b: linear(env, sh, cd, b)), {}
    for sh, tg in (((1, 4, 3), (1, 2, 2)), ((1, 2, 3, 2), (1, 4)), ((2, 2, 3), (2, 1, 2)), ((2, 2, 3, 2), (2, 4)), ((1, 4, 2), (1, 4)), ((1, 2, 3, 1, 2), (1, 2, 2))):
        for cg in (False, True):
            for fm in (False, True):
                yield f"reshape {sh} to {tg} contiguous={cg} {fm}", (lambda env, a=(sh, tg, cg, fm): reshape(env, *a)), {}
    for nd, c in ((1, nn.InstanceNorm1d), (2, nn.InstanceNorm2d), (3, nn.InstanceNorm3d)):
        for kw in ({}, {"affine": True}, {"track_running_stats": True}):
            yield f"refuse instancenorm{nd}d {kw}", (lambda env, c=c, kw=kw: refuse(env, lambda: c(2, **kw))), {}
    for nd, c in ((1, nn.BatchNorm1d), (2, nn.BatchNorm2d), (3, nn.BatchNorm3d)):
        yield f"refuse batchnorm{nd}d without statistics", (lambda env, c=c: refuse(env, lambda: c(2, track_running_stats=False))), {}
        yield f"refuse batchnorm{nd}d without statistics in a network", (lambda env, c=c: refuse(env, lambda: nn.Sequential(nn.ReLU(), c(2, track_running_stats=False)))), {}
    yield "refuse unknown", lambda env: refuse(env, lambda: nn.Bilinear(1, 1, 1)), {}
