"""P01: the offline pass and conversion keep the function of the torch module"""
from .common import *
from .p15 import KINDS

BOUNDS = ("each pair of convolution/pooling/adaptive pooling/linear/recurrent/sequential class with its torch counterpart over kernels 1..4 (selected 5..9), padding, "
          "strides 1..3 (selected to 6), conversions registered by the user,  default arguments, spatial strides/dilation, groups, bias, padding mode, ceil mode, divisor override, return of indices off; the offline pass of attention with added and boolean masks (per head too), padding masks, weights returned or not, added key/value bias and zero attention, separate widths, three layouts; constructed "
          "directly and converted; sequence lengths up to 14; the converted module is also driven as a stream against the torch module; "
          "every axis with its own hyper-parameters; sources which must be refused or converted to the same function (dilation, padding modes, bidirectional (also constructed), norm-first, subclasses, index-returning pools ...); nested conversions two levels deep, with modules shared between positions; symbolic weights, statistics and inputs")
OUTSIDE = "transposed convolutions and instance normalisation without statistics (refused on conversion, not encoded), random dropout (rates 0 and 1 in training, any in evaluation are inside), larger sizes, low precision"

def conv_pairs(tier):
    for nd in (1, 2, 3):
        for k, p, s in ((1, 0, 1), (2, 1, 1), (3, 1, 2), (4, 2, 3), (3, 0, 1)):
            for g, b in ((1, True), (2, False)):
                for mode in ("zeros", "replicate"):
                    if nd == 3 and k > 3:
                        continue
                    rest = 2 if nd == 3 else 3
                    ps = 1 if p or mode == "zeros" else 0
                    a = (2, 2, tup(nd, k, rest))
                    kw = dict(stride=tup(nd, s, 2), padding=tup(nd, p, ps), dilation=tup(nd, 1, 1 if nd == 3 else 2) if nd > 1 and p else 1,
                              groups=g, bias=b, padding_mode=mode)
                    if nd > 1 and isinstance(kw["dilation"], tuple):
                        kw["padding"] = tup(nd, p, 2)
                    kw2 = dict(kw, temporal_fill="zeros" if mode == "zeros" else "replicate")
                    T = k + 2
                    sp_ = {1: (), 2: (3,), 3: (2, 2)}[nd]
                    yield (f"conv{nd}d k={k} p={p} s={s} g={g} b={b} {mode}",
                           (lambda nd=nd, a=a, kw=kw: NNCONV[nd](*a, **kw)), (lambda nd=nd, a=a, kw=kw2: CONV[nd](*a, **kw)), (1, 2, T, *sp_), True)


def pool_pairs(tier):
    for kp in ("avg", "max"):
        for nd in (1, 2, 3):
            for k, p, s, d in ((2, 0, None, 1), (3, 1, 1, 1), (2, 1, 2, 1), (2, 0, 1, 2), (1, 0, 2, 1)):
                if kp == "avg" and d > 1:
                    continue
                ks = tup(nd, k, 2)
                kw = dict(padding=tup(nd, p, 1 if nd == 2 else 0))
                if s is not None:
                    kw["stride"] = tup(nd, s, 1)
                if kp == "max":
                    kw["dilation"] = tup(nd, d, 1)
                sp_ = {1: (), 2: (3,), 3: (2, 2)}[nd]
                extra = [{}]
                if p == 0 and k == 2:
                    extra.append({"ceil_mode": True})
                if kp == "avg" and p:
                    extra.append({"count_include_pad": False})
                if kp == "avg" and nd > 1:
                    extra.append({"divisor_override": 3})
                for e in extra:
                    ok = not e.get("ceil_mode") and e.get("count_include_pad", True)
                    ok = ok and not (kp == "avg" and "divisor_override" in e and p)
                    yield (f"{kp}pool{nd}d k={k} p={p} s={s} d={d} {e}",
                           (lambda c=NNPOOL[kp, nd], ks=ks, kw=kw, e=e: c(ks, **kw, **e)),
                           (lambda c=POOLS[kp, nd], ks=ks, kw=kw, e=e: c(ks, **kw, **e)), (1, 1, d * (k - 1) + 4, *sp_), ok)


def other_pairs():
    yield "linear", lambda: nn.Linear(2, 3), lambda: co.Linear(2, 3), (1, 2, 3, 2), True
    yield "linear no bias", lambda: nn.Linear(2, 3, bias=False), lambda: co.Linear(2, 3, bias=False), (1, 2, 3, 2), True


def pair(env, mk_nn, mk_co, shape, stream, T=None):
    x = env.tensor("x", *shape)
    ref = env.symbolize(mk_nn(), "w", shared=True).eval()
    want = ref(x)
    c = env.symbolize(mk_co(), "w", shared=True).eval()
    env.eq("same arguments", c.forward(x), want)
    env.eq("same arguments, called", c(x), want)
    conv = co.continual(ref)
    conv.eval()
    env.eq("converted", conv.forward(x), want)
    env.eq("torch module unchanged", ref.forward(x), want)
    if stream:
        check_steps(env, "converted step", steps(conv, x), want, delay_of(conv), stride_of(conv))
        conv.clean_state()
        env.eq("converted block", conv.forward_steps(x, pad_end=True), want)


def large_pairs():
    """larger kernels, strides, channels and groups"""
    for k, p, s, ci, co_, g, b in ((5, 2, 1, 1, 1, 1, True), (6, 5, 4, 1, 1, 1, True), (7, 3, 2, 3, 3, 3, True), (8, 0, 5, 1, 2, 1, False), (3, 1, 4, 4, 8, 4, True), (2, 0, 6, 6, 3, 3, False),
                                   (9, 4, 1, 1, 1, 1, True), (4, 3, 2, 8, 2, 2, True)):
        kw = dict(stride=s, padding=p, groups=g, bias=b)
        yield (f"conv1d k={k} p={p} s={s} {ci}>{co_} g={g} b={b}", (lambda a=(ci, co_, k), kw=kw: nn.Conv1d(*a, **kw)), (lambda a=(ci, co_, k), kw=kw: co.Conv1d(*a, **kw)), (1, ci, k + 5), True)
    for nd in (2, 3):
        for k, p, s in ((5, 2, 3), (6, 1, 4), (5, 4, 1)):
            kw = dict(stride=tup(nd, s, 2), padding=tup(nd, p, 1))
            yield (f"conv{nd}d k={k} p={p} s={s}", (lambda nd=nd, k=k, kw=kw: NNCONV[nd](1, 1, tup(nd, k, 2), **kw)), (lambda nd=nd, k=k, kw=kw: CONV[nd](1, 1, tup(nd, k, 2), **kw)),
                   (1, 1, k + 3, *SPATIAL[nd]), True)
    for kp in ("avg", "max"):
        for k, p, s in ((5, 2, 1), (6, 3, 4), (7, 0, 2), (3, 1, 5), (8, 4, 3)):
            kw = dict(stride=s, padding=p)
            yield f"{kp}pool1d k={k} p={p} s={s}", (lambda c=NNPOOL[kp, 1], k=k, kw=kw: c(k, **kw)), (lambda c=POOLS[kp, 1], k=k, kw=kw: c(k, **kw)), (1, 1, k + 6), True
    for k, p, s, d in ((3, 1, 1, 4), (4, 2, 3, 2), (2, 1, 2, 6)):
        kw = dict(stride=s, padding=p, dilation=d)
        yield f"maxpool1d k={k} p={p} s={s} d={d}", (lambda k=k, kw=kw: nn.MaxPool1d(k, **kw)), (lambda k=k, kw=kw: co.MaxPool1d(k, **kw)), (1, 1, d * (k - 1) + 5), True


class Own(nn.Module):
    """a user's torch module, and its continual counterpart"""

    def __init__(self, k):
        super().__init__()
        self.c = nn.Conv1d(1, 1, k)
        self.gain = nn.Parameter(torch.ones(1))

    def forward(self, x):
        return self.gain * self.c(x)


class CoOwn(co.Sequential):
    @staticmethod
    def build_from(module):
        c = co.Conv1d.build_from(module.c)
        g = module.gain
        return CoOwn(c, co.Lambda(lambda x: g * x))


def registered(env):
    """conversions registered by the user are used, also inside networks and for exactly that class"""
    class Sub(Own):
        pass

    saved = dict(co.convert.MODULE_MAPPING)
    try:
        try:
            co.continual(Own(2))
            env.true("refused while unknown", False)
        except AssertionError:
            env.true("refused while unknown", True)
        env.true("returns the class", co.convert.register(Own, CoOwn) is CoOwn)
        x = env.tensor("x", 1, 1, 6)
        for name, mk in (("alone", lambda: Own(3)), ("in a network", lambda: nn.Sequential(nn.Conv1d(1, 1, 2), nn.Sequential(Own(2), nn.ReLU())))):
            ref = env.symbolize(mk(), name, shared=True).eval()
            want = ref(x)
            m = co.continual(ref).eval()
            env.true(f"{name}: used", any(type(q) is CoOwn for q in m.modules()))
            env.eq(f"{name}: converted", m.forward(x), want)
            check_steps(env, f"{name}: step", steps(m, x), want, delay_of(m), stride_of(m))
            m.clean_state()
            check_chunk(env, f"{name}: block", m.forward_steps(x), want, delay_of(m), stride_of(m), 0, 6)
        try:
            co.continual(Sub(2))
            env.true("subclass refused", False)
        except AssertionError:
            env.true("subclass refused", True)
        for bad in (nn.Conv1d, nn.Module):
            try:
                co.convert.register(Sub, bad)
                env.true("not a continual class", False)
            except (AssertionError, TypeError, AttributeError):
                env.true("not registered", Sub not in co.convert.MODULE_MAPPING)
    finally:
        co.convert.MODULE_MAPPING.clear()
        co.convert.MODULE_MAPPING.update(saved)


def adaptive(env, kp, nd, osz, T):
    ncls = {("avg", 2): nn.AdaptiveAvgPool2d, ("max", 2): nn.AdaptiveMaxPool2d, ("avg", 3): nn.AdaptiveAvgPool3d, ("max", 3): nn.AdaptiveMaxPool3d}[kp, nd]
    ccls = {("avg", 2): co.AdaptiveAvgPool2d, ("max", 2): co.AdaptiveMaxPool2d, ("avg", 3): co.AdaptiveAvgPool3d, ("max", 3): co.AdaptiveMaxPool3d}[kp, nd]
    size = (1,) + (osz,) * (nd - 1)
    x = env.tensor("x", 1, 2, T, *SPATIAL[nd])
    want = ncls(size)(x)
    m = ccls.build_from(ncls(size), kernel_size=T)
    env.eq("converted", m.forward(x), want)
    env.eq("direct", ccls(size, kernel_size=T).forward(x), want)
    env.eq("block", m.forward_steps(x), want)
    m.clean_state()
    outs = steps(m, x)
    env.true("one output", [present(o) for o in outs] == [False] * (T - 1) + [True])
    env.eq("last step", outs[-1], want[:, :, 0])


def recurrent(env, kd, I, H, L, bias, T):
    ncls, ccls, kw = KINDS[kd]
    ref = env.symbolize(ncls(I, H, num_layers=L, bias=bias, batch_first=True, **kw), "w", shared=True).eval()
    x = env.tensor("x", 1, I, T)
    want = ref(x.transpose(1, 2))[0].transpose(1, 2)
    m = co.continual(ref).eval()
    env.eq("converted", m.forward(x)[0], want)
    for t in range(T):
        env.eq(f"converted step {t}", m.forward_step(x[:, :, t]), want[:, :, t])


def nets():
    """nested torch networks"""
    c = lambda i, o, k, p=0, s=1: nn.Conv1d(i, o, k, padding=p, stride=s)
    OD = OrderedDict
    yield "seq(conv,relu,conv)", lambda: nn.Sequential(c(1, 2, 3), nn.ReLU(), c(2, 1, 2)), (1, 1, 6)
    yield "seq(conv,bn,seq(conv,relu))", lambda: nn.Sequential(c(1, 2, 3, 1), nn.BatchNorm1d(2), nn.Sequential(c(2, 1, 2), nn.ReLU())), (1, 1, 5)
    yield "named", lambda: nn.Sequential(OD([("a", c(1, 1, 2)), ("b", nn.Sequential(OD([("c", c(1, 2, 2)), ("d", nn.Sigmoid())])))])), (1, 1, 5)
    yield "strided", lambda: nn.Sequential(c(1, 1, 2, 0, 2), nn.MaxPool1d(2, 1)), (1, 1, 6)
    yield "pools", lambda: nn.Sequential(nn.AvgPool1d(2, 2), c(1, 1, 2), nn.MaxPool1d(2, 1)), (1, 1, 8)

    def shared_relu():
        r = nn.ReLU()
        return nn.Sequential(c(1, 2, 2), r, c(2, 1, 2), r)

    yield "shared relu", shared_relu, (1, 1, 5)

    def shared_bn():
        b = nn.BatchNorm1d(2)
        return nn.Sequential(c(1, 2, 2), b, nn.Sequential(c(2, 2, 2), b))

    yield "shared norm", shared_bn, (1, 1, 5)
    yield "conv3d net", lambda: nn.Sequential(nn.Conv3d(1, 2, (2, 1, 1)), nn.BatchNorm3d(2), nn.ReLU(), nn.MaxPool3d((1, 2, 2), stride=1), nn.AvgPool3d((2, 1, 1), stride=1)), (1, 1, 4, 2, 2)
    yield "conv2d net", lambda: nn.Sequential(nn.Conv2d(1, 2, (2, 3), padding=(0, 1)), nn.ReLU(), nn.Conv2d(2, 1, (2, 1))), (1, 1, 4, 3)
    yield "single", lambda: nn.Sequential(c(1, 1, 3, 1)), (1, 1, 4)
    yield "activations", lambda: nn.Sequential(nn.LeakyReLU(0.25), c(1, 2, 2), nn.ReLU6(), nn.PReLU(2), nn.Hardtanh()), (1, 1, 4)
    yield "dropout in eval", lambda: nn.Sequential(nn.Dropout(0.5), c(1, 1, 2)), (1, 1, 4)
    yield "mixed", lambda: nn.Sequential(co.Delay(1), c(1, 1, 2), nn.ReLU()), (1, 1, 4)


def net(env, mk, shape):
    x = env.tensor("x", *shape)
    ref = env.symbolize(mk(), "w", shared=True).eval()
    want = ref(x)
    src = env.symbolize(mk(), "w", shared=True).eval()
    m = co.continual(src)
    m.eval()
    env.true("is a continual module", co.CoModule.is_valid(m))
    env.true("names kept", list(dict(m.named_children())) == list(dict(ref.named_children())))
    env.eq("converted", m.forward(x), want)
    env.eq("converted, called", m(x), want)
    D, s = delay_of(m), stride_of(m)
    outs = steps(m, x)
    check_steps(env, "converted step", outs, want, D, s)
    m.clean_state()
    check_chunk(env, "converted block", m.forward_steps(x), want, D, s, 0, shape[2])
    env.true("converting twice changes nothing", co.continual(m) is m)
    # parameters have the same names and values
    a, b = dict(ref.named_parameters()), dict(m.named_parameters())
    env.true("parameter names", set(a) == set(b), f"{sorted(a)} {sorted(b)}")
    for n in a:
        env.eq(f"parameter {n}", b[n].data if not env.sym else b[n], a[n].data if not env.sym else a[n])
    pers = set(ref.state_dict(keep_vars=True)) & set(dict(ref.named_buffers()))
    a, b = {n: v for n, v in ref.named_buffers() if n in pers}, dict(m.named_buffers())
    for n in a:
        env.true(f"buffer {n} kept", n in b)
        env.eq(f"buffer {n}", b[n], a[n])


def asym(env, spec):
    """every axis with its own hyper-parameters: constructed, converted, and inside a converted network"""
    x = spec.x(env, T=spec.minT + 2)
    ref = env.symbolize(spec.twin(), "w", shared=True).eval()
    want = ref(x)
    env.eq("same arguments", env.symbolize(spec.build(), "w", shared=True).eval().forward(x), want)
    m = co.continual(ref).eval()
    env.eq("converted", m.forward(x), want)
    if "replicate" not in spec.name:
        check_steps(env, "converted step", steps(m, x), want, delay_of(m), stride_of(m))
    n = co.continual(nn.Sequential(OrderedDict(a=ref))).eval()
    env.eq("converted in a network", n.forward(x), want)


def odd():
    """sources which the library may refuse but must not turn into something else"""
    B = dict(batch_first=True)
    lay = lambda **kw: nn.TransformerEncoder(nn.TransformerEncoderLayer(2, 1, 2, dropout=0.0, batch_first=True, layer_norm_eps=0.75, **kw), 1, enable_nested_tensor=False)
    t2 = lambda m, x: m(x.transpose(1, 2)).transpose(1, 2)
    rn = lambda m, x: m(x.transpose(1, 2))[0].transpose(1, 2)
    for kd, c in (("rnn", nn.RNN), ("gru", nn.GRU), ("lstm", nn.LSTM)):
        yield f"bidirectional {kd}", lambda c=c: c(2, 2, bidirectional=True, **B), (1, 2, 3), co.continual, rn, lambda m, x: m.forward(x)[0]
        yield f"bidirectional {kd} two layers", lambda c=c: c(2, 1, num_layers=2, bidirectional=True, **B), (1, 2, 2), co.continual, rn, lambda m, x: m.forward(x)[0]
    enc = lambda m: co.TransformerEncoder.build_from(m, sequence_len=2)
    yield "encoder norm first", lambda: lay(norm_first=True), (1, 2, 2), enc, t2, None
    yield "encoder post norm", lambda: lay(), (1, 2, 2), enc, t2, None
    yield "encoder relu6", lambda: lay(activation=nn.functional.relu6), (1, 2, 2), enc, t2, None
    cs = {"dilated": dict(dilation=2), "dilated padded": dict(dilation=2, padding=2), "circular": dict(padding=1, padding_mode="circular"),
          "reflect": dict(padding=1, padding_mode="reflect"), "replicate": dict(padding=1, padding_mode="replicate"), "same": dict(padding="same"), "valid": dict(padding="valid")}
    for n, kw in cs.items():
        yield f"conv1d {n}", lambda kw=kw: nn.Conv1d(2, 2, 3, **kw), (1, 2, 5), co.continual, None, None
        yield f"conv2d {n}", lambda kw=kw: nn.Conv2d(1, 2, (3, 2), **kw), (1, 1, 5, 4), co.continual, None, None
    yield "conv2d mixed replicate", lambda: nn.Conv2d(1, 2, (3, 2), padding=(1, 1), padding_mode="replicate"), (1, 1, 4, 3), co.continual, None, None
    yield "conv3d dilated in space", lambda: nn.Conv3d(1, 1, 2, dilation=(1, 2, 1)), (1, 1, 3, 3, 2), co.continual, None, None
    yield "maxpool indices", lambda: nn.MaxPool1d(2, 1, return_indices=True), (1, 1, 4), co.continual, lambda m, x: m(x)[0], None
    yield "maxpool2d dilated in space", lambda: nn.MaxPool2d(2, 1, dilation=(1, 2)), (1, 1, 4, 4), co.continual, None, None
    yield "maxpool dilated", lambda: nn.MaxPool1d(2, 1, dilation=2), (1, 1, 5), co.continual, None, None
    yield "maxpool3d dilated", lambda: nn.MaxPool3d((2, 1, 2), 1, dilation=(2, 1, 1)), (1, 1, 4, 2, 2), co.continual, None, None
    yield "lp pool", lambda: nn.LPPool1d(2, 2), (1, 1, 4), co.continual, None, None
    yield "upsampling", lambda: nn.Upsample(scale_factor=2), (1, 1, 3), co.continual, None, None
    yield "flatten", lambda: nn.Flatten(), (1, 2, 3), co.continual, None, None
    yield "identity", lambda: nn.Identity(), (1, 2, 3), co.continual, None, None
    yield "constant padding", lambda: nn.ConstantPad1d((1, 0), 0.0), (1, 1, 3), co.continual, None, None
    yield "adaptive 1d", lambda: nn.AdaptiveAvgPool1d(1), (1, 1, 3), co.continual, None, None
    yield "list", lambda: nn.ModuleList([nn.Conv1d(1, 1, 2)]), (1, 1, 3), co.continual, lambda m, x: m[0](x), None
    yield "network with a refused part", lambda: nn.Sequential(nn.Conv1d(1, 1, 2), nn.Sequential(nn.Conv1d(1, 1, 2, dilation=2), nn.ReLU())), (1, 1, 6), co.continual, None, None
    yield "network with a bidirectional part", lambda: nn.Sequential(nn.Conv1d(2, 2, 1), nn.GRU(2, 1, bidirectional=True, **B)), (1, 2, 2), co.continual, \
        lambda m, x: m[1](m[0](x).transpose(1, 2))[0].transpose(1, 2), lambda m, x: m.forward(x)[0]

    class Twice(nn.Conv1d):
        def forward(self, x):
            return 2 * super().forward(x)

    yield "subclass with another function", lambda: Twice(1, 1, 2), (1, 1, 4), co.continual, None, None

    class Backwards(nn.Sequential):
        def forward(self, x):
            for m in reversed(list(self)):
                x = m(x)
            return x

    yield "container with another function", lambda: Backwards(nn.Conv1d(1, 1, 2), nn.ReLU()), (1, 1, 4), co.continual, None, None


def built_alike(src, m):
    """m with the parameters of src it has names for"""
    p = dict(src.named_parameters())
    for n in dict(m.named_parameters()):
        m._parameters[n] = p[n]
    m._flat_weights = [getattr(m, n) for n in m._flat_weights_names]
    return m


def faithful(env, mk, shape, convert, run, run_co):
    """refused, or the same function"""
    x = env.tensor("x", *shape)
    ref = env.symbolize(mk(), "w", shared=True).eval()
    want = (run or (lambda m, x: m(x)))(ref, x)
    try:
        src = env.symbolize(mk(), "w", shared=True).eval()
        m = convert(src)
        m.eval()
        got = m.forward(x) if run_co is None else run_co(m, x)
    except (AssertionError, ValueError, TypeError, NotImplementedError, AttributeError, RuntimeError, KeyError, IndexError) as e:
        if type(e).__name__ in ("Unsupported", "Inconclusive", "PathLimit"):
            raise
        env.true("refused", True)
    else:
        env.eq("converted to the same function", got, want)


def dropping():
    """dropout: nothing is dropped in evaluation; with rate one everything is dropped in training"""
    B = dict(batch_first=True)
    t = lambda m, x: m(x.transpose(1, 2))[0].transpose(1, 2)
    f0 = lambda m, x: m.forward(x)[0]
    for rate, train in ((0.5, False), (1.0, True), (0.0, True)):
        tag = f"rate {rate} {'training' if train else 'evaluation'}"
        for kd, c in (("rnn", nn.RNN), ("gru", nn.GRU), ("lstm", nn.LSTM)):
            yield f"{kd} {tag}", train, lambda c=c, r=rate: c(1, 1, num_layers=2, dropout=r, **B), (1, 1, 2), co.continual, t, f0
        for n, d in (("dropout", nn.Dropout), ("alpha dropout", nn.AlphaDropout)):
            if rate == 0.5 or d is nn.Dropout:
                yield f"{n} {tag}", train, lambda d=d, r=rate: nn.Sequential(d(r), nn.Conv1d(1, 1, 2)), (1, 1, 3), co.continual, None, None
        if rate < 1:
            yield f"encoder {tag}", train, lambda r=rate: nn.TransformerEncoder(nn.TransformerEncoderLayer(2, 1, 2, dropout=r, layer_norm_eps=0.75, **B), 1, enable_nested_tensor=False), (1, 2, 2), \
                lambda m: co.TransformerEncoder.build_from(m, sequence_len=2), lambda m, x: m(x.transpose(1, 2)).transpose(1, 2), None


def dropped(env, train, mk, shape, convert, run, run_co):
    x = env.tensor("x", *shape)
    ref = env.symbolize(mk(), "w", shared=True).train(train)
    want = (run or (lambda m, x: m(x)))(ref, x)
    m = convert(env.symbolize(mk(), "w", shared=True).train(train)).train(train)
    env.eq("converted", m.forward(x) if run_co is None else run_co(m, x), want)


def defaults():
    """constructed with the required arguments only"""
    t = lambda m, x: m(x.transpose(1, 2))[0].transpose(1, 2)
    f0 = lambda m, x: m.forward(x)[0]
    for nd in (1, 2, 3):
        size = {1: (), 2: (4,), 3: (3, 3)}[nd]
        yield f"conv{nd}d", lambda nd=nd: NNCONV[nd](2, 2, 2), lambda nd=nd: CONV[nd](2, 2, 2), (1, 2, 4, *size), None, None
        for kp in ("avg", "max"):
            yield f"{kp}pool{nd}d", lambda kp=kp, nd=nd: NNPOOL[kp, nd](2), lambda kp=kp, nd=nd: POOLS[kp, nd](2), (1, 1, 4, *size), None, None
    for kd, (nc, cc, kw) in KINDS.items():
        if kd != "rnn_relu":
            yield kd, lambda nc=nc: nc(2, 2, batch_first=True), lambda cc=cc: cc(2, 2), (1, 2, 2), t, f0
    yield "linear", lambda: nn.Linear(2, 3), lambda: co.Linear(2, 3), (1, 3, 2), None, None


def default(env, mk_nn, mk_co, shape, run, run_co):
    x = env.tensor("x", *shape)
    a, b = env.symbolize(mk_nn(), "w", shared=True).eval(), env.symbolize(mk_co(), "w", shared=True).eval()
    pa, pb = dict(a.named_parameters()), dict(b.named_parameters())
    env.true("same parameters", set(pa) == set(pb) and all(pa[n].shape == pb[n].shape for n in pa), f"{sorted(pa)} {sorted(pb)}")
    env.eq("offline", run_co(b, x) if run_co else b.forward(x), run(a, x) if run else a(x))


def hyper(env, mk_nn, names):
    a = mk_nn()
    b = co.continual(mk_nn())
    for n in names:
        x, y = getattr(a, n), getattr(b, n)
        tn = lambda v: v if not isinstance(v, int) or isinstance(v, bool) else (v,)
        env.true(f"{n} kept", tn(x) == tn(y), f"{x} {y}")


MASKS = ("none", "added", "added per head", "causal", "holes")
PADS = ("none", "added", "last", "first of one")


def attn_offline(env, which, E, h, layout, B, L, S, mask, pad, weights=True, **kw):
    """the offline pass of continual attention with everything that torch's attention accepts"""
    bf, ed2 = {"NET": (True, True), "NTE": (True, False), "TNE": (False, False)}[layout]
    ref = env.symbolize(nn.MultiheadAttention(E, h, batch_first=True, **kw), "w", shared=True).eval()
    one = which.endswith("one query")
    qi = -1 if S % 2 else 0
    cls = co.RetroactiveMultiheadAttention if which == "retro" else co.SingleOutputMultiheadAttention
    extra = {} if which == "retro" else {"single_output_forward": one, "query_index": qi}
    m = env.symbolize(cls(E, h, batch_first=bf, embed_dim_second=ed2, sequence_len=S, **extra, **kw), "w", shared=True).eval()
    q, k, v = env.tensor("q", B, L, E), env.tensor("k", B, S, kw.get("kdim") or E), env.tensor("v", B, S, kw.get("vdim") or E)
    asked = q[:, qi].unsqueeze(1) if one else q
    Lq = asked.shape[1]
    tri = torch.tensor([[j > i for j in range(S)] for i in range(Lq)])
    holes = torch.tensor([[(3 * i + j) % 4 == 1 for j in range(S)] for i in range(Lq)])
    am = {"none": None, "added": env.tensor("am", Lq, S) if mask == "added" else None, "added per head": env.tensor("ah", B * h, Lq, S) if mask == "added per head" else None,
          "causal": tri, "holes": holes}[mask]
    kp = {"none": None, "added": env.tensor("kp", B, S) if pad == "added" else None, "last": torch.tensor([[j == S - 1 and j > 0 for j in range(S)]] * B),
          "first of one": torch.tensor([[j == 0 and S > 1 and b == B - 1 for j in range(S)] for b in range(B)])}[pad]
    perm = {"NET": lambda z: z.transpose(1, 2), "NTE": lambda z: z, "TNE": lambda z: z.transpose(0, 1)}[layout]
    want, ww = ref(asked, k, v, key_padding_mask=kp, need_weights=weights, attn_mask=am)
    args = [perm(z) for z in (q, k, v)]
    for how in ("positions", "keywords"):
        got = m.forward(*args, kp, weights, am) if how == "positions" else m(query=args[0], key=args[1], value=args[2], attn_mask=am, need_weights=weights, key_padding_mask=kp)
        env.true(f"{how}: result and weights", isinstance(got, tuple) and len(got) == 2)
        env.eq(f"{how}: result", got[0], perm(want))
        env.eq(f"{how}: weights", got[1] if weights else None, ww if weights else None)
        env.true(f"{how}: no weights unless asked", weights or got[1] is None)
    m.forward_returns_attn_mask = False
    env.eq("result only", m.forward(*args, kp, weights, am), perm(want))


def attns():
    for which in ("retro", "single", "single, one query"):
        for i, (mask, pad) in enumerate(itertools.product(MASKS, PADS)):
            E, h, layout, B, L, S = [(2, 1, "NET", 2, 2, 2), (2, 2, "NTE", 1, 2, 3), (2, 2, "TNE", 2, 3, 2), (4, 2, "NET", 1, 1, 3)][i % 4]
            yield f"{which}: mask {mask}, padding {pad}", (which, E, h, layout, B, L, S, mask, pad), {}
        for kw in ({"bias": False}, {"kdim": 3, "vdim": 1}, {"add_bias_kv": True}, {"add_zero_attn": True}, {"add_bias_kv": True, "add_zero_attn": True, "bias": False}):
            for mask, pad in (("none", "none"), ("holes", "last")):
                for w in (True, False):
                    yield f"{which}: {kw}, mask {mask}, padding {pad}{'' if w else ', no weights'}", (which, 2, 1, "NET", 1, 2, 2, mask, pad, w), kw


def scenarios(tier):
    for name, a, kw in attns():
        yield f"attention, {name}", (lambda env, a=a, kw=kw: attn_offline(env, *a, **kw)), {}
    for name, f, g, shape, stream in list(conv_pairs(tier)) + list(pool_pairs(tier)) + list(other_pairs()) + list(large_pairs()):
        yield f"pair {name}", (lambda env, f=f, g=g, s=shape, st=stream and "linear" not in name: pair(env, f, g, s, st)), {}
    for kp in ("avg", "max"):
        for nd in (2, 3):
            for osz in (1, 2):
                for T in (1, 2, 3):
                    yield f"adaptive {kp}{nd}d out={osz} T={T}", (lambda env, kp=kp, nd=nd, o=osz, T=T: adaptive(env, kp, nd, o, T)), {}
    yield "registered conversions", registered, {}
    for kd in KINDS:
        yield f"{kd} layers=3", (lambda env, kd=kd: recurrent(env, kd, 1, 1, 3, True, 3)), {}
        for L in (1, 2):
            for b in (True, False):
                yield f"{kd} layers={L} bias={b}", (lambda env, kd=kd, L=L, b=b: recurrent(env, kd, 2, 2, L, b, 2)), {}
    for name, mk, shape in nets():
        yield f"net {name}", (lambda env, mk=mk, s=shape: net(env, mk, s)), {}
    for name, *a in odd():
        yield f"faithful or refused: {name}", (lambda env, a=a: faithful(env, *a)), {"hide": True} if "encoder" in name else {}
    for spec in asym_convs() + asym_pools():
        yield f"asymmetric {spec.name}", (lambda env, s=spec: asym(env, s)), {}
    for name, *a in dropping():
        yield f"dropout: {name}", (lambda env, a=a: dropped(env, *a)), {"hide": True}
    for name, *a in defaults():
        yield f"default arguments {name}", (lambda env, a=a: default(env, *a)), {}
    for kd, (nc, cc, kw) in KINDS.items():
        for L in (1, 2):
            yield f"{kd} constructed bidirectional, {L} layers", (lambda env, nc=nc, cc=cc, L=L, kw=kw: faithful(
                env, lambda: nc(2, 1, num_layers=L, bidirectional=True, batch_first=True, **kw), (1, 2, 2), lambda m: built_alike(m, cc(2, 1, num_layers=L, bidirectional=True, **kw)),
                lambda m, x: m(x.transpose(1, 2))[0].transpose(1, 2), lambda m, x: m.forward(x)[0])), {}
    cn = ("in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "padding_mode")
    yield "hyper conv1d", (lambda env: hyper(env, lambda: nn.Conv1d(2, 4, 3, stride=2, padding=1, groups=2), cn)), {}
    yield "hyper conv2d", (lambda env: hyper(env, lambda: nn.Conv2d(2, 4, (3, 2), stride=(2, 1), padding=(1, 0), dilation=(1, 2), groups=2), cn)), {}
    yield "hyper conv3d", (lambda env: hyper(env, lambda: nn.Conv3d(2, 4, (3, 2, 1), stride=(2, 1, 3), padding=(1, 0, 0), groups=2, bias=False), cn)), {}
    pn = ("kernel_size", "stride", "padding", "ceil_mode")
    yield "hyper maxpool2d", (lambda env: hyper(env, lambda: nn.MaxPool2d((3, 2), (2, 1), (1, 0)), pn)), {}
    yield "hyper avgpool3d", (lambda env: hyper(env, lambda: nn.AvgPool3d((3, 2, 1), (2, 1, 1), (1, 0, 0), divisor_override=5), pn + ("divisor_override", "count_include_pad"))), {}
