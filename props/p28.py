"""P28: instances do not influence each other"""
from .common import *
from .p11 import capture
from .p25 import encoder_spec

BOUNDS = ("two instances of the same kind with their own weights (and two conversions of one source module, also with one of them or the source overwritten, and pairs of the same class in different configurations), larger modules (delay up to 8) in lockstep for 12 steps, every interleaving of 3 + 3 calls (steps, blocks, probes; one of them may be cleaned, "
          "put in training mode or given a call mode in between); each behaves as if alone; whole module zoo, recurrent networks, attention, encoders; "
          "symbolic weights and inputs")
OUTSIDE = "instances that share parameters by the user's intent and are then mutated, modules which conversion keeps as they are (activations, normalisations); threads"


def calls(m, x, kind_):
    """a generator of three calls"""
    if kind_ == "steps":
        for t in range(3):
            yield m.forward_step(x[:, :, t])
    else:
        yield m.forward_steps(x[:, :, :2])
        yield m.forward_step(x[:, :, 0], update_state=False)
        yield m.forward_step(x[:, :, 2])


def show(o):
    return o if present(o) else None


def long_interleave(env, spec, T):
    """two instances in lockstep; one of them is cleaned or probed on the way"""
    xa, xb = spec.x(env, "xa", T=T), spec.x(env, "xb", T=T)
    ra, rb = steps(spec.make(env, "a"), xa), spec.make(env, "b")
    a, b = spec.make(env, "a"), spec.make(env, "b")
    at = env.choose("meddled at", T // 3) * 3
    for t in range(T):
        if t == at:
            b.clean_state(), rb.clean_state()
            if "nopad" not in spec.tags:
                b.forward_steps(xb[:, :, :2], pad_end=True), rb.forward_steps(xb[:, :, :2], pad_end=True)
        env.eq(f"a {t}", show(a.forward_step(xa[:, :, t])), show(ra[t]))
        env.eq(f"b {t}", show(b.forward_step(xb[:, :, t])), show(rb.forward_step(xb[:, :, t])))


def interleave(env, spec, ka, kb, wa="a", wb="b"):
    xa, xb = spec.x(env, "xa", T=4), spec.x(env, "xb", T=4)
    ra = list(calls(spec.make(env, wa), xa, ka))
    rb = list(calls(spec.make(env, wb), xb, kb))
    a, b = spec.make(env, wa), spec.make(env, wb)
    ga, gb = calls(a, xa, ka), calls(b, xb, kb)
    ia = ib = 0
    while ia < 3 or ib < 3:
        first = ib == 3 or (ia < 3 and env.flag(f"first at {ia}{ib}"))
        if first:
            env.eq(f"a {ia}", show(next(ga)), show(ra[ia]))
            ia += 1
        else:
            env.eq(f"b {ib}", show(next(gb)), show(rb[ib]))
            ib += 1


def mixed(env, sa, sb):
    """instances of the same class in different configurations: each behaves as it did before the other was built"""
    xa, xb = sa.x(env, "xa", T=6), sb.x(env, "xb", T=6)
    ya = sa.x(env, "ya", T=6)
    one = sa.make(env, "a")
    off = one.forward(ya)
    ra = steps(one, xa)
    a = sa.make(env, "a")
    b = sb.make(env, "b")
    rb = steps(b, xb)
    env.eq("offline after", a.forward(ya), off)
    offb = b.forward(xb)
    a2 = sa.make(env, "a")
    env.eq("b offline after", b.forward(xb), offb)
    b.clean_state()
    for t in range(6):
        env.eq(f"a {t}", show(a.forward_step(xa[:, :, t])), show(ra[t]))
        env.eq(f"b {t}", show(b.forward_step(xb[:, :, t])), show(rb[t]))
        env.eq(f"a2 {t}", show(a2.forward_step(xa[:, :, t])), show(ra[t]))
    for m, s in ((a, sa), (b, sb)):
        o = s.make(env, "a")
        env.true("metadata", (m.receptive_field, tuple(m.stride), tuple(m.padding), m.delay) == (o.receptive_field, tuple(o.stride), tuple(o.padding), o.delay))


def families():
    """module kinds in several configurations, over the same class"""
    mp = lambda k, d: Spec(f"maxpool1d(k{k},d{d})", lambda k=k, d=d: co.MaxPool1d(k, dilation=d), sp(1, 1))
    ap = lambda k: Spec(f"avgpool1d(k{k})", lambda k=k: co.AvgPool1d(k), sp(1, 1))
    cv = lambda k, d, p, s: Spec(f"conv1d(k{k},d{d},p{p},s{s})", lambda k=k, d=d, p=p, s=s: co.Conv1d(1, 1, k, dilation=d, padding=p, stride=s), sp(1, 1))
    m2 = lambda k: Spec(f"maxpool2d{k}", lambda k=k: co.MaxPool2d(k), sp(2, 1, 3))
    a2 = lambda k: Spec(f"avgpool2d{k}", lambda k=k: co.AvgPool2d(k), sp(2, 1, 3))
    dl = lambda k: Spec(f"delay({k})", lambda k=k: co.Delay(k), sp(1, 1))
    rs = lambda *c: Spec(f"residual{c}", lambda c=c: co.Residual(co.Conv1d(1, 1, c[0], padding=c[1]), residual_shrink=c[2]), sp(1, 1))
    br = lambda r: Spec(f"broadcast({r})", lambda r=r: co.BroadcastReduce(co.Conv1d(1, 1, 3, padding=1), co.Conv1d(1, 1, 1), reduce=r), sp(1, 1))
    sq = lambda *k: Spec(f"seq{k}", lambda k=k: co.Sequential(*[co.Conv1d(1, 1, i) for i in k]), sp(1, 1))
    lam = lambda n, f: Spec(f"lambda {n}", lambda f=f: co.Sequential(co.Lambda(f), co.Conv1d(1, 1, 2)), sp(1, 1))
    return [(mp(2, 2), mp(3, 1)), (mp(2, 2), mp(2, 3)), (mp(3, 2), mp(2, 2)), (mp(3, 1), mp(2, 2)), (mp(2, 1), mp(2, 2)), (ap(2), ap(3)), (cv(2, 1, 0, 1), cv(3, 1, 1, 1)),
            (cv(2, 1, 0, 2), cv(2, 1, 0, 1)), (cv(3, 1, 2, 1), cv(3, 1, 0, 2)), (m2((2, 2)), m2((3, 1))), (a2((2, 2)), a2((3, 3))),
            (dl(1), dl(3)), (rs(3, 1, False), rs(3, 0, True)), (rs(3, 0, True), rs(5, 2, False)), (br("sum"), br("max")), (br("concat"), br("mul")), (sq(2, 3), sq(3)), (sq(2), sq(2, 2, 2)),
            (lam("x2", lambda x: x * 2), lam("+1", lambda x: x + 1))]


def meddle(env, spec):
    """cleaning, modes, call modes and flags of one instance leave the other alone"""
    xa, xb = spec.x(env, "xa", T=6), spec.x(env, "xb", T=6)
    ref = steps(spec.make(env, "a"), xa)
    a, b = spec.make(env, "a"), spec.make(env, "b")
    for t in range(6):
        what = env.choose(f"at {t}", 5) if t in (2, 3) else 5
        if what == 0:
            b.clean_state()
        elif what == 1:
            b.train()
        elif what == 2:
            b.call_mode = "forward_step"
        elif what == 3:
            b.forward_steps(xb[:, :, :2], pad_end=True) if "nopad" not in spec.tags else b.forward_steps(xb[:, :, :2])
        elif what == 4:
            b.load_state_dict(b.state_dict())
        env.eq(f"a {t}", show(a.forward_step(xa[:, :, t])), show(ref[t]))
        b.forward_step(xb[:, :, t])
    env.true("mode of the other instance", not a.training)
    env.true("call mode of the other instance", int(a.call_mode) == 0, str(a.call_mode))


def conversions(env, name, src, shape):
    """two conversions of the same torch module"""
    ref = env.symbolize(src(), "w").eval()
    xa, xb = env.tensor("xa", *shape(1, 6)), env.tensor("xb", *shape(1, 6))
    want = [steps(co.continual(ref).eval(), xa), steps(co.continual(ref).eval(), xb)]
    a, b = co.continual(ref).eval(), co.continual(ref).eval()
    b.call_mode = "forward_steps"
    env.true("call mode of the other conversion", int(a.call_mode) == 0)
    for t in range(6):
        if t == 3 and env.flag("clean"):
            b.clean_state()
            want[1] = want[1][:3] + steps(co.continual(ref).eval(), xb[:, :, 3:])
        env.eq(f"a {t}", show(a.forward_step(xa[:, :, t])), show(want[0][t]))
        env.eq(f"b {t}", show(b.forward_step(xb[:, :, t])), show(want[1][t]))
    y = env.tensor("y", *shape(1, 6))
    env.eq("offline", a.forward(y), ref(y))


SRC = {
    "conv": (lambda: nn.Conv1d(2, 2, 3), sp(1, 2)),
    "conv2d": (lambda: nn.Conv2d(1, 2, (3, 2)), sp(2, 1, 3)),
    "avgpool": (lambda: nn.AvgPool1d(3, 1), sp(1, 2)),
    "maxpool": (lambda: nn.MaxPool1d(2, 1), sp(1, 2)),
    "seq": (lambda: nn.Sequential(nn.Conv1d(2, 2, 3), nn.BatchNorm1d(2), nn.ReLU(), nn.Conv1d(2, 1, 2)), sp(1, 2)),
    "nested": (lambda: nn.Sequential(nn.Sequential(nn.Conv1d(2, 1, 2), nn.Sigmoid()), nn.AvgPool1d(2, 1)), sp(1, 2)),
}


def overwritten(env, src, shape, convert, T=4):
    """conversions have parameters of their own: overwriting them in one reaches neither the other nor the source"""
    ref = env.symbolize(src(), "w").eval()
    x = env.tensor("x", *shape(1, T))
    run = lambda m: [n_(o) for o in steps(m, x)]
    off = lambda m: first(m.forward(x))
    a, b, z = convert(ref).eval(), convert(ref).eval(), convert(ref).eval()
    want, woff = run(z), off(z)
    orig = [p.detach().clone() for p in ref.parameters()]
    victim = (b, ref)[env.flag("source is overwritten")]
    for t in range(2):
        a.forward_step(x[:, :, t])
    with torch.no_grad():
        if env.flag("reloaded"):
            victim.load_state_dict(OrderedDict((k, torch.full_like(v, 3.0) if v.is_floating_point() else v) for k, v in victim.state_dict().items()))
        else:
            for p in victim.parameters():
                p.fill_(3.0)
    for t in range(2, T):
        env.eq(f"step {t}", n_(a.forward_step(x[:, :, t])), want[t])
    env.eq("offline", off(a), woff)
    if victim is b:
        for i, p in enumerate(ref.parameters()):
            env.eq(f"parameter {i} of the source", p.detach(), orig[i])


def n_(o):
    return o if present(o) else None


def first(o):
    return o[0] if isinstance(o, tuple) else o


def own_parameters():
    B = dict(batch_first=True)
    c = lambda m: co.continual(m)
    od = OrderedDict
    yield "conv1d", lambda: nn.Conv1d(2, 2, 2), sp(1, 2), c, {}
    yield "conv2d", lambda: nn.Conv2d(1, 2, (2, 1)), sp(2, 1, 2), c, {}
    yield "conv3d", lambda: nn.Conv3d(1, 1, (2, 1, 1)), sp(3, 1, 2, 1), c, {}
    yield "linear", lambda: nn.Linear(4, 3), lambda b, T: (b, 4, T), lambda m: co.Linear.build_from(m, channel_dim=1), {}
    yield "rnn", lambda: nn.RNN(2, 2, **B), sp(1, 2), c, {"hide": True}
    yield "gru", lambda: nn.GRU(2, 1, **B), sp(1, 2), c, {"hide": True}
    yield "lstm", lambda: nn.LSTM(2, 1, **B), sp(1, 2), c, {"hide": True}
    yield "nested", lambda: nn.Sequential(od(a=nn.Conv1d(1, 2, 2), b=nn.Sequential(nn.ReLU(), nn.Conv1d(2, 1, 2)))), sp(1, 1), c, {}
    for k, cls in (("single", co.SingleOutputMultiheadAttention), ("retro", co.RetroactiveMultiheadAttention)):
        for kd in (None, 1):
            f = lambda kd=kd: nn.MultiheadAttention(2, 1, kdim=kd, vdim=kd, **B)
            yield f"mha {k} kdim={kd}", f, sp(1, 2), (lambda m, cls=cls, kd=kd: Fed(cls.build_from(m, 2, embed_dim_second=True, forward_returns_attn_mask=False), kd)), {"hide": True}
    lay = lambda: nn.TransformerEncoder(nn.TransformerEncoderLayer(2, 1, 1, dropout=0.0, layer_norm_eps=0.75, **B), 1, enable_nested_tensor=False)
    yield "encoder", lay, sp(1, 2), lambda m: co.TransformerEncoder.build_from(m, 2), {"hide": True}


class Fed(nn.Module):
    """attention fed with one stream (a slice of it where keys are narrower)"""

    def __init__(self, m, kd):
        super().__init__()
        self.m, self.kd = m, kd

    def forward(self, x):
        return self.m.forward(x, *([x[:, : self.kd]] * 2 if self.kd else []))

    def forward_step(self, x):
        return self.m.forward_step(x, *([x[:, : self.kd]] * 2 if self.kd else []))


def mha(env, kind_):
    N, T = 2, 4
    cls = {"single": co.SingleOutputMultiheadAttention, "retro": co.RetroactiveMultiheadAttention}[kind_]
    mk = lambda w: env.symbolize(cls(2, 1, batch_first=True, embed_dim_second=True, sequence_len=N, forward_returns_attn_mask=False), w, shared=True).eval()
    xa, xb = env.tensor("xa", 1, 2, T), env.tensor("xb", 1, 2, T)
    ra, rb = steps(mk("a"), xa), steps(mk("b"), xb)
    a, b = mk("a"), mk("b")
    ia = ib = 0
    while ia < T or ib < T:
        if ib == T or (ia < T and env.flag(f"first at {ia}{ib}")):
            env.eq(f"a {ia}", show(a.forward_step(xa[:, :, ia])), show(ra[ia]))
            ia += 1
        else:
            env.eq(f"b {ib}", show(b.forward_step(xb[:, :, ib])), show(rb[ib]))
            ib += 1


def zoo(tier):
    return small_zoo(tier) + shrink_specs()[:4] + extra(tier, 8) + [Spec(s.name, s.build, s.shape, tags={"nopad"}) for s in rnn_specs()]


def scenarios(tier):
    for spec in zoo(tier):
        rnn = any(k in spec.name for k in ("gru", "lstm", "rnn"))
        o = {"hide": True} if rnn else {}
        yield f"{spec.name} steps|steps", (lambda env, s=spec: interleave(env, s, "steps", "steps")), o
        yield f"{spec.name} steps|mixed", (lambda env, s=spec: interleave(env, s, "steps", "mixed")), o
        if tier == "thorough":
            yield f"{spec.name} mixed|mixed", (lambda env, s=spec: interleave(env, s, "mixed", "mixed")), o
            yield f"{spec.name} same weights", (lambda env, s=spec: interleave(env, s, "steps", "mixed", "a", "a")), o
        if not rnn and "bn" not in spec.name:
            yield f"{spec.name} meddling", (lambda env, s=spec: meddle(env, s)), o
    for spec in large_zoo():
        yield f"{spec.name} lockstep large", (lambda env, s=spec: long_interleave(env, s, 12)), {}
    for sa, sb in families():
        yield f"{sa.name} beside {sb.name}", (lambda env, sa=sa, sb=sb: mixed(env, sa, sb)), {}
    for n, (f, sh) in SRC.items():
        yield f"conversions of {n}", (lambda env, n=n, f=f, sh=sh: conversions(env, n, f, sh)), {}
    for n, f, sh, cv, o in own_parameters():
        yield f"own parameters of {n}", (lambda env, f=f, sh=sh, cv=cv: overwritten(env, f, sh, cv)), o
    for L in (1, 2):
        spec = encoder_spec(L, 2)
        yield f"{spec.name} steps|mixed", (lambda env, s=spec: interleave(env, s, "steps", "mixed")), {"hide": True}
    for k in ("single", "retro"):
        yield f"mha {k}", (lambda env, k=k: mha(env, k)), {"hide": True}
