"""Shared vocabulary of the property modules: module families ("zoo") and streaming contracts."""
import itertools
from collections import OrderedDict

import torch
from torch import Tensor, nn

import continual as co


class Spec:
    """a family member: how to build it, what input it takes, where the general contract applies"""

    def __init__(self, name, build, shape, minT=1, hide=False, tags=()):
        self.name = name
        self.build = build  # () -> module
        self.shape = shape  # (B, T) -> input shape with time at dim 2
        self.minT = minT
        self.hide = hide
        self.tags = set(tags)

    def make(self, env, prefix="m", train=False):
        m = self.build()
        env.symbolize(m, prefix, shared=True)
        m.train(train)
        return m

    def x(self, env, name="x", B=1, T=5):
        return env.tensor(name, *self.shape(B, T))


# ---- streaming helpers ---------------------------------------------------------------------
def steps(m, x, **kw):
    return [m.forward_step(x[:, :, t], **kw) for t in range(x.shape[2])]


def present(o):
    return isinstance(o, Tensor)


def stack(outs):
    outs = [o for o in outs if present(o)]
    return torch.stack(outs, dim=2) if outs else None


def expected(F, T, D, s):
    """per step: index into the offline output or None"""
    return [((t - D) // s if t >= D and (t - D) % s == 0 else None) for t in range(T)]


def check_steps(env, label, outs, F, D, s, t0=0):
    """outputs of steps t0.. match the offline result F through delay D and stride s"""
    for j, o in enumerate(outs):
        t = t0 + j
        if t < D or (t - D) % s != 0:
            env.true(f"{label}: no output at step {t}", not present(o), f"got a tensor, delay {D} stride {s}")
        else:
            i = (t - D) // s
            env.true(f"{label}: output at step {t}", present(o), f"got {o!r}, delay {D} stride {s}")
            if present(o):
                env.true(f"{label}: offline length covers step {t}", i < F.shape[2], f"{i} of {F.shape[2]}")
                if i < F.shape[2]:
                    env.eq(f"{label}: value at step {t}", o, F[:, :, i])


def check_chunk(env, label, out, F, D, s, t0, T):
    """result of one forward_steps call covering steps t0..t0+T-1"""
    idx = [(t - D) // s for t in range(t0, t0 + T) if t >= D and (t - D) % s == 0]
    if not idx:
        # a module with nothing to report returns None (containers) or an empty time axis
        env.true(f"{label}: nothing due", not present(out) or out.shape[2] == 0, f"unexpected output {kind(out)}")
        return
    env.true(f"{label}: output due", present(out), f"got {out!r}")
    if present(out):
        env.true(f"{label}: number of outputs", out.shape[2] == len(idx), f"{out.shape[2]} != {len(idx)}")
        if out.shape[2] == len(idx):
            env.eq(f"{label}: values", out, F[:, :, idx[0] : idx[-1] + 1])


def kind(o):
    return tuple(o.shape) if present(o) else repr(o)


def delay_of(m):
    return int(m.delay)


def stride_of(m):
    s = m.stride
    return int(s[0] if isinstance(s, (tuple, list)) else s)


def stream_contract(env, spec, T, train=False, B=1):
    """step-by-step, block without end padding, block with end padding: all against forward"""
    m = spec.make(env, train=train)
    x = spec.x(env, B=B, T=T)
    F = m.forward(x)
    D, s = delay_of(m), stride_of(m)
    check_steps(env, "step", steps(m, x), F, D, s)
    m2 = spec.make(env, train=train)
    check_chunk(env, "block", m2.forward_steps(x), F, D, s, 0, T)
    m3 = spec.make(env, train=train)
    env.eq("block with end padding", m3.forward_steps(x, pad_end=True), F)
    return m, x, F


# ---- module families -------------------------------------------------------------------------
def sp(nd, C, *spatial):
    return lambda B, T: (B, C, T, *spatial)


def tup(nd, t, rest):
    return (t,) + (rest,) * (nd - 1) if nd > 1 else t


CONV = {1: co.Conv1d, 2: co.Conv2d, 3: co.Conv3d}
NNCONV = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}
SPATIAL = {1: (), 2: (3,), 3: (2, 2)}


def conv_spec(nd=1, k=3, p=0, s=1, cin=2, cout=2, groups=1, bias=True, ks=2, ps=0, ss=1, ds=1, mode="zeros", fill="zeros"):
    name = f"conv{nd}d(k={k},p={p},s={s},c={cin}>{cout},g={groups},b={int(bias)},sp={ks}.{ps}.{ss}.{ds},{mode},{fill})"

    def build():
        return CONV[nd](
            cin, cout, tup(nd, k, ks), stride=tup(nd, s, ss), padding=tup(nd, p, ps),
            dilation=tup(nd, 1, ds), groups=groups, bias=bias, padding_mode=mode, temporal_fill=fill,
        )

    return Spec(name, build, sp(nd, cin, *SPATIAL[nd]), minT=max(1, k - 2 * p), tags={"conv", "causal"})


NNPOOL = {("avg", 1): nn.AvgPool1d, ("avg", 2): nn.AvgPool2d, ("avg", 3): nn.AvgPool3d,
          ("max", 1): nn.MaxPool1d, ("max", 2): nn.MaxPool2d, ("max", 3): nn.MaxPool3d}


def conv_full(nd, k, p, s, d=None, cin=1, cout=1, groups=1, mode="zeros", fill="zeros", spatial=(3, 2), tags=()):
    """every axis has its own kernel, padding, stride and dilation"""
    d = d or (1,) * nd
    out = Spec(f"conv{nd}d[k={k},p={p},s={s},d={d},c={cin}>{cout},g={groups},{mode},{fill},{spatial}]",
                lambda: CONV[nd](cin, cout, k, stride=s, padding=p, dilation=d, groups=groups, padding_mode=mode, temporal_fill=fill),
                sp(nd, cin, *spatial[: nd - 1]), minT=max(1, k[0] - 2 * p[0]), tags={"conv", "causal"} | set(tags))
    out.twin = lambda: NNCONV[nd](cin, cout, k, stride=s, padding=p, dilation=d, groups=groups, padding_mode=mode)
    return out


def asym_convs():
    return [
        conv_full(3, (2, 3, 1), (1, 1, 0), (1, 2, 1), spatial=(3, 2)), conv_full(3, (3, 1, 2), (1, 0, 1), (2, 1, 2), (1, 1, 2), cin=2, cout=2, groups=2, spatial=(2, 3)),
        conv_full(3, (2, 1, 3), (0, 0, 1), (1, 1, 1), (1, 3, 1), spatial=(2, 2)),
        conv_full(3, (2, 3, 2), (1, 1, 2), (1, 1, 1), mode="replicate", fill="replicate", spatial=(2, 3)),
        conv_full(3, (3, 2, 3), (0, 1, 0), (1, 1, 2), mode="replicate", spatial=(2, 4)),
        conv_full(3, (1, 2, 1), (0, 0, 1), (1, 2, 1), mode="replicate", spatial=(3, 1)),
        conv_full(3, (2, 2, 2), (0, 1, 0), (1, 1, 1), (1, 2, 1), mode="replicate", spatial=(2, 3)),
        conv_full(2, (2, 2), (1, 1), (1, 1), (1, 2), mode="replicate", fill="replicate", spatial=(2,)),
        conv_full(2, (2, 3), (1, 2), (1, 2), (1, 1), spatial=(4,)), conv_full(2, (3, 2), (2, 1), (2, 3), (1, 2), cin=1, cout=2, spatial=(4,)),
        conv_full(2, (2, 3), (0, 2), (1, 1), mode="replicate", spatial=(3,)), conv_full(2, (3, 1), (1, 0), (3, 2), mode="replicate", fill="replicate", spatial=(3,)),
        conv_full(2, (1, 3), (0, 1), (1, 1), mode="replicate", spatial=(3,)),
    ]


def conv_specs(tier):
    full = tier == "thorough"
    out = []
    K = range(1, 6 if full else 5)
    for k in K:
        for p in range(0, k):
            for s in (1, 2, 3, 4) if full else (1, 2, 3):
                out.append(conv_spec(1, k, p, s, cin=1 if not full else 2, cout=1))
    for k, p, s in ((3, 1, 1), (2, 0, 2), (3, 2, 2), (1, 0, 1), (4, 1, 3)):
        out.append(conv_spec(1, k, p, s, cin=2, cout=4, groups=2))
        out.append(conv_spec(1, k, p, s, cin=2, cout=2, bias=False))
    for k, p, s in ((3, 1, 1), (2, 1, 2), (3, 0, 2), (1, 0, 1), (1, 0, 2)):
        for ks, ps, ss, ds in ((2, 0, 1, 1), (3, 1, 2, 1), (2, 1, 1, 2)):
            out.append(conv_spec(2, k, p, s, 1, 2, ks=ks, ps=ps, ss=ss, ds=ds))
    for k, p, s in ((3, 1, 1), (2, 0, 2), (1, 0, 1)):
        out.append(conv_spec(3, k, p, s, 1, 1, ks=2, ps=1, ss=1))
        out.append(conv_spec(3, k, p, s, 2, 2, ks=1, groups=2))
    for k, p in ((3, 1), (2, 1), (3, 2)):
        out.append(conv_spec(1, k, p, 1, 1, 1, mode="replicate", fill="replicate"))
        out.append(conv_spec(2, k, p, 1, 1, 1, ks=3, ps=1, mode="replicate", fill="replicate"))
        out.append(conv_spec(2, k, 0, 2, 1, 1, ks=3, ps=1, mode="replicate", fill="zeros"))
    out += asym_convs()
    if full:
        for nd in (2, 3):
            for k in range(1, 5):
                for p in range(0, k):
                    for s in (1, 2, 3):
                        out.append(conv_spec(nd, k, p, s, 1, 2, ks=2, ps=1, ss=2))
                        out.append(conv_spec(nd, k, p, s, 2, 2, ks=2, groups=2, bias=False))
    return uniq(out)


def uniq(specs):
    d = OrderedDict()
    for s in specs:
        d.setdefault(s.name, s)
    return list(d.values())


POOLS = {
    ("avg", 1): co.AvgPool1d, ("avg", 2): co.AvgPool2d, ("avg", 3): co.AvgPool3d,
    ("max", 1): co.MaxPool1d, ("max", 2): co.MaxPool2d, ("max", 3): co.MaxPool3d,
}


def pool_spec(kindp, nd, k, p=0, s=1, d=1, ks=2, ps=0, ss=1, C=1, fill=None):
    fill = fill or ("neg_inf" if kindp == "max" else "zeros")
    name = f"{kindp}pool{nd}d(k={k},p={p},s={s},d={d},sp={ks}.{ps}.{ss},{fill})"

    def build():
        kw = dict(stride=tup(nd, s, ss), padding=tup(nd, p, ps), temporal_fill=fill)
        if d != 1 or kindp == "max":
            kw["dilation"] = tup(nd, d, 1)
        return POOLS[kindp, nd](tup(nd, k, ks), **kw)

    return Spec(name, build, sp(nd, C, *SPATIAL[nd]), minT=max(1, d * (k - 1) + 1 - 2 * p), tags={"pool", "causal"})


def pool_full(kindp, nd, k, p, s, d=None, spatial=(3, 2), C=1, **kw):
    """every axis has its own kernel, padding, stride and dilation"""
    d = d or (1,) * nd
    fill = "neg_inf" if kindp == "max" else "zeros"
    kw = dict(kw, **({"dilation": d} if kindp == "max" else {}))
    out = Spec(f"{kindp}pool{nd}d[k={k},p={p},s={s},d={d},{spatial},{kw.get('divisor_override', '')}]", lambda: POOLS[kindp, nd](k, stride=s, padding=p, temporal_fill=fill, **kw),
                sp(nd, C, *spatial[: nd - 1]), minT=max(1, d[0] * (k[0] - 1) + 1 - 2 * p[0]), tags={"pool", "causal"})
    out.twin = lambda: NNPOOL[kindp, nd](k, stride=s, padding=p, **kw)
    return out


def asym_pools():
    return [
        pool_full("max", 2, (2, 3), (1, 0), (1, 2), (1, 1), (5,)), pool_full("max", 2, (2, 2), (0, 1), (2, 1), (2, 1), (3,)), pool_full("max", 2, (2, 2), (0, 0), (1, 1), (1, 2), (4,)),
        pool_full("max", 3, (2, 1, 2), (0, 0, 1), (1, 2, 1), (1, 1, 1), (3, 2)), pool_full("max", 3, (2, 2, 1), (1, 1, 0), (2, 1, 2), (1, 2, 1), (3, 3)),
        pool_full("max", 3, (1, 2, 2), (0, 0, 0), (1, 1, 1), (1, 1, 2), (2, 3)),
        pool_full("avg", 2, (2, 3), (1, 1), (1, 2), None, (4,)), pool_full("avg", 2, (3, 1), (0, 0), (2, 2), None, (3,)),
        pool_full("avg", 3, (2, 1, 2), (0, 0, 1), (1, 2, 1), None, (3, 2)), pool_full("avg", 3, (2, 2, 1), (1, 1, 0), (2, 1, 1), None, (2, 3)),
        pool_full("avg", 3, (2, 2, 3), (0, 0, 1), (1, 1, 2), None, (2, 3), divisor_override=5),
    ]


def pool_specs(tier):
    full = tier == "thorough"
    out = []
    for kp in ("avg", "max"):
        for k in range(1, 5 if full else 4):
            for p in range(0, k // 2 + 1):
                for s in (1, 2, 3):
                    out.append(pool_spec(kp, 1, k, p, s))
        for k, p, s in ((2, 0, 1), (3, 1, 2), (2, 1, 1), (1, 0, 1), (2, 0, 2)):
            out.append(pool_spec(kp, 2, k, p, s, ks=2, ps=0, ss=1))
            out.append(pool_spec(kp, 2, k, p, s, ks=2, ps=1, ss=2))
        for k, p, s in ((2, 0, 1), (2, 1, 2), (1, 0, 1)):
            out.append(pool_spec(kp, 3, k, p, s, ks=2, ps=0, ss=1))
            out.append(pool_spec(kp, 3, k, p, s, ks=1, ps=0, ss=1))
    for k, p, s, d in ((2, 0, 1, 2), (3, 0, 1, 2), (2, 0, 2, 2), (2, 0, 1, 3), (3, 1, 1, 2), (2, 1, 2, 3)):
        out.append(pool_spec("max", 1, k, p, s, d))
    for k, p, s, d in ((2, 0, 1, 4), (3, 0, 1, 3), (2, 1, 2, 5), (3, 1, 3, 4)):
        out.append(pool_spec("max", 1, k, p, s, d))
    for k, p, s, d in ((2, 0, 1, 2), (3, 0, 2, 2), (2, 1, 1, 2)):
        out.append(pool_spec("max", 2, k, p, s, d))
    out.append(pool_spec("max", 3, 2, 0, 1, 2))
    out += asym_pools()
    if full:
        for k in (2, 3):
            for s in (1, 2, 3):
                for d in (2, 3):
                    for nd in (1, 2, 3):
                        for p in range(0, k // 2 + 1):
                            out.append(pool_spec("max", nd, k, p, s, d))
    return uniq(out)


def adaptive_full(kindp, nd, T, size, spatial):
    cls = {("avg", 2): co.AdaptiveAvgPool2d, ("max", 2): co.AdaptiveMaxPool2d,
           ("avg", 3): co.AdaptiveAvgPool3d, ("max", 3): co.AdaptiveMaxPool3d}[kindp, nd]
    return Spec(f"adaptive{kindp}{nd}d[T={T},{size},{spatial}]", lambda: cls((1, *size), kernel_size=T), sp(nd, 1, *spatial), minT=T, tags={"pool", "causal"})


def adaptive_spec(kindp, nd, T, out_sp):
    cls = {("avg", 2): co.AdaptiveAvgPool2d, ("max", 2): co.AdaptiveMaxPool2d,
           ("avg", 3): co.AdaptiveAvgPool3d, ("max", 3): co.AdaptiveMaxPool3d}[kindp, nd]
    size = (1,) + (out_sp,) * (nd - 1)
    return Spec(f"adaptive{kindp}{nd}d(T={T},out={out_sp})", lambda: cls(size, kernel_size=T),
                sp(nd, 1, *SPATIAL[nd]), minT=T, tags={"pool", "causal"})


def elementwise_specs():
    S = lambda n, f, shape, **k: Spec(n, f, shape, tags={"elementwise", "causal"}, **k)
    c = sp(1, 2)
    return [
        S("relu", lambda: co.continual(nn.ReLU()), c),
        S("sigmoid", lambda: co.continual(nn.Sigmoid()), c),
        S("bn1d", lambda: co.continual(nn.BatchNorm1d(2)), c),
        S("linear1", lambda: co.Linear(2, 3, channel_dim=1), c),
        S("lambda", lambda: co.Lambda(lambda x: x * x + 1.0), c),
        S("lambda_time", lambda: co.Lambda(lambda x: x * 2.0, takes_time=True), c),
        S("reshape", lambda: co.Reshape(1, 4), sp(1, 4)),
        S("add", lambda: co.Add(3.0), c),
        S("mul", lambda: co.Multiply(-2.0), c),
        S("identity", lambda: co.Identity(), c),
    ]


def delay_spec(d, fill="zeros"):
    return Spec(f"delay({d},{fill})", lambda: co.Delay(d, temporal_fill=fill), sp(1, 2), tags={"delay", "causal"})


def C1(k, p=0, s=1, i=1, o=1, **kw):
    return co.Conv1d(i, o, k, padding=p, stride=s, **kw)


def seq_specs(tier="quick"):
    """sequential compositions without pad_end/stride subtleties hidden: all have 1 channel in"""
    S = lambda n, f, **k: Spec(n, f, k.pop("shape", sp(1, 1)), tags={"container", "causal"} | set(k.pop("tags", ())), **k)
    out = [
        S("seq(c3,c3)", lambda: co.Sequential(C1(3), C1(3)), minT=5),
        S("seq(c3p1,c3p1)", lambda: co.Sequential(C1(3, 1), C1(3, 1)), tags={"padded2"}),
        S("seq(c3p1,relu,c1)", lambda: co.Sequential(C1(3, 1), nn.ReLU(), C1(1))),
        S("seq(c2s2,c2)", lambda: co.Sequential(C1(2, 0, 2), C1(2)), minT=4),
        S("seq(c2,c3s2)", lambda: co.Sequential(C1(2), C1(3, 0, 2)), minT=4),
        S("seq(c2s2,c2s2)", lambda: co.Sequential(C1(2, 0, 2), C1(2, 0, 2)), minT=4),
        S("seq(c3s3,c2s2)", lambda: co.Sequential(C1(3, 0, 3), C1(2, 0, 2)), minT=6),
        S("seq(c3,avg2)", lambda: co.Sequential(C1(3), co.AvgPool1d(2, stride=1)), minT=4),
        S("seq(c2,max2s2,c2)", lambda: co.Sequential(C1(2), co.MaxPool1d(2, stride=2), C1(2)), minT=5),
        S("seq(seq(c2,relu),seq(c3p1))", lambda: co.Sequential(co.Sequential(C1(2), nn.ReLU()), co.Sequential(C1(3, 1))), minT=2),
        S("seq(c2,delay2)", lambda: co.Sequential(C1(2), co.Delay(2)), minT=2),
        S("seq(lin,c2,bn)", lambda: co.Sequential(co.Linear(1, 2, channel_dim=1), C1(2, i=2, o=2), nn.BatchNorm1d(2)), minT=2),
        S("seq(c2)", lambda: co.Sequential(C1(2)), minT=2),
        S("seq(c3,reshape,lambda)", lambda: co.Sequential(C1(3, i=1, o=2), co.Reshape(1, 2, 1), co.Lambda(lambda x: x + 1.0)), minT=3),
    ]
    return out


def par_specs(tier="quick"):
    S = lambda n, f, **k: Spec(n, f, k.pop("shape", sp(1, 1)), tags={"container", "causal", "parallel"} | set(k.pop("tags", ())), **k)
    BR = co.BroadcastReduce
    out = [
        S("br(c1,c3p1)sum", lambda: BR(C1(1), C1(3, 1))),
        S("br(c3p1,c5p2)sum", lambda: BR(C1(3, 1), C1(5, 2))),
        S("br(c3,c5p1)mul", lambda: BR(C1(3), C1(5, 1), reduce="mul"), minT=3),
        S("br(c3p1,c1,c5p2)concat", lambda: BR(C1(3, 1), C1(1), C1(5, 2), reduce="concat")),
        S("br(c3p1,id)max", lambda: BR(C1(3, 1), co.Identity(), reduce="max")),
        S("br(c2,c2)fn", lambda: BR(C1(2), C1(2), reduce=lambda xs: xs[0] - xs[1]), minT=2),
        S("br(c2s2,c2s2)", lambda: BR(C1(2, 0, 2), C1(2, 0, 2)), minT=2),
        S("br(seq(c3p1,relu),c1)", lambda: BR(co.Sequential(C1(3, 1), nn.ReLU()), C1(1))),
        S("res(c3p1)", lambda: co.Residual(C1(3, 1))),
        S("res(c5p2)", lambda: co.Residual(C1(5, 2))),
        S("res(seq(c3p1,relu,c3p1))", lambda: co.Residual(co.Sequential(C1(3, 1), nn.ReLU(), C1(3, 1))), tags={"padded2"}),
        S("res(res(c3p1))", lambda: co.Residual(co.Residual(C1(3, 1)))),
        S("res(c3p1)mul,zeros", lambda: co.Residual(C1(3, 1), temporal_fill="zeros", reduce="mul")),
        S("seq(bcast,par(c3p1,c1),reduce)", lambda: co.Sequential(co.Broadcast(2), co.Parallel(C1(3, 1), C1(1)), co.Reduce("sum"))),
        S("seq(bcast,par(c3p1,c5p2),dispatch,par,reduce)",
          lambda: co.Sequential(co.Broadcast(), co.Parallel(C1(3, 1), C1(5, 2)), co.ParallelDispatch([1, 0, 1]),
                                co.Parallel(co.Identity(), C1(1), co.Add(1.0)), co.Reduce("mul"))),
        S("seq(c2,br(c1,c3p1),c2)", lambda: co.Sequential(C1(2), BR(C1(1), C1(3, 1)), C1(2)), minT=3, tags={"padded2"}),
        S("seq(res(c3p1),res(c3p1))", lambda: co.Sequential(co.Residual(C1(3, 1)), co.Residual(C1(3, 1))), tags={"padded2"}),
        S("seq(bcast,par(c2s2,c2s2),par(c3p1,c1),reduce)",
          lambda: co.Sequential(co.Broadcast(2), co.Parallel(C1(2, 0, 2), C1(2, 0, 2)), co.Parallel(C1(3, 1), C1(1)), co.Reduce("sum")), minT=2),
        S("seq(c2s2,br(c1,c3p1))", lambda: co.Sequential(C1(2, 0, 2), BR(C1(1), C1(3, 1))), minT=2),
        S("br(seq(c2s2,c3p1),seq(c1,c2s2))", lambda: BR(co.Sequential(C1(2, 0, 2), C1(3, 1)), co.Sequential(C1(1), C1(2, 0, 2))), minT=2),
        S("br(seq(br(c1,c3p1),relu),res(c5p2))mul", lambda: BR(co.Sequential(BR(C1(1), C1(3, 1)), nn.ReLU()), co.Residual(C1(5, 2)), reduce="mul")),
    ]
    return out


def shrink_specs():
    S = lambda n, f, **k: Spec(n, f, sp(1, 1), tags={"container", "causal", "shrink"}, **k)
    out = []
    for k in (3, 5):
        for mode in (True, "centered", "lagging", "leading"):
            out.append(S(f"res(c{k},shrink={mode})", lambda k=k, mode=mode: co.Residual(C1(k), residual_shrink=mode), minT=k))
    out.append(S("res(seq(c3,c3),shrink=True)", lambda: co.Residual(co.Sequential(C1(3), C1(3)), residual_shrink=True), minT=5))
    return out


def cond_specs():
    S = lambda n, f, **k: Spec(n, f, sp(1, 1), tags={"container", "causal", "conditional"}, **k)
    yes, no = (lambda m, x: True), (lambda m, x: False)
    return [
        S("cond(no,relu,c3p1)", lambda: co.Conditional(no, nn.ReLU(), C1(3, 1))),
        S("cond(yes,c3,c5)", lambda: co.Conditional(yes, C1(3), C1(5)), minT=5),
        S("seq(c2,cond(no,c3p1,seq(c2,relu)))", lambda: co.Sequential(C1(2), co.Conditional(no, C1(3, 1), co.Sequential(C1(2), nn.ReLU()))), minT=3),
    ]


def rnn_specs():
    out = []
    for n, c in (("rnn", co.RNN), ("gru", co.GRU), ("lstm", co.LSTM)):
        out.append(Spec(n, lambda c=c: c(1, 2), sp(1, 1), tags={"rnn", "causal"}))
    return out


def small_zoo(tier="quick"):
    """one or two members of every family, for the generic properties"""
    z = [
        conv_spec(1, 3, 0, 1, 1, 1), conv_spec(1, 3, 1, 1, 2, 2), conv_spec(1, 3, 1, 2, 1, 1), conv_spec(1, 1, 0, 1, 1, 2),
        conv_spec(1, 4, 2, 3, 1, 1), conv_spec(1, 1, 0, 2, 1, 1), conv_spec(2, 2, 1, 1, 1, 1, ks=2, ps=1),
        conv_spec(3, 2, 0, 2, 1, 1, ks=2), conv_spec(1, 3, 2, 1, 1, 1, mode="replicate", fill="replicate"),
        pool_spec("avg", 1, 3, 1, 1), pool_spec("avg", 1, 2, 0, 2), pool_spec("max", 1, 2, 0, 1), pool_spec("max", 1, 3, 1, 2),
        pool_spec("max", 1, 2, 0, 1, d=2), pool_spec("avg", 2, 2, 0, 1), pool_spec("max", 2, 2, 1, 1), pool_spec("avg", 3, 2, 0, 1, ks=2),
        delay_spec(1), delay_spec(3),
    ]
    el = elementwise_specs()
    z += [el[0], el[2], el[3], el[4], el[6]]
    z += seq_specs(tier) + par_specs(tier) + cond_specs()
    z += spatial_zoo(tier != "thorough")
    if tier == "thorough":
        z += conv_specs("quick")[::3] + pool_specs("quick")[::3]
    return uniq(z)


def large_zoo():
    """longer kernels, strides, delays and deeper nesting: histories wrap more than once, alignment delays are long"""
    S = lambda n, f, minT, s=sp(1, 1), **k: Spec(n, f, s, minT=minT, tags={"container", "causal"} | set(k.pop("tags", ())), **k)
    BR, R = co.BroadcastReduce, co.Residual
    return [
        conv_spec(1, 6, 0, 1, 1, 1), conv_spec(1, 7, 3, 2, 1, 1), conv_spec(1, 5, 4, 4, 1, 1), conv_spec(2, 5, 2, 3, 1, 1, ks=2, ps=1), conv_spec(1, 2, 0, 5, 1, 1),
        conv_spec(1, 3, 1, 1, 3, 3, groups=3), pool_spec("avg", 1, 5, 2, 3), pool_spec("max", 1, 6, 1, 1), pool_spec("max", 1, 3, 1, 2, d=3), delay_spec(6),
        S("seq(c3p1,c2s2,relu,c3p1,avg2)", lambda: co.Sequential(C1(3, 1), C1(2, 0, 2), nn.ReLU(), C1(3, 1), co.AvgPool1d(2, 1)), 5, tags={"padded2"}),
        S("seq(c2s2,c2s2,c2s2)", lambda: co.Sequential(C1(2, 0, 2), C1(2, 0, 2), C1(2, 0, 2)), 8),
        S("br(c1,c3p1,c5p2,c7p3)", lambda: BR(C1(1), C1(3, 1), C1(5, 2), C1(7, 3)), 1, tags={"parallel"}),
        S("br(id,c9p4)mul", lambda: BR(co.Identity(), C1(9, 4), reduce="mul"), 1, tags={"parallel"}),
        S("res(seq(c3p1,res(c5p2),relu))", lambda: R(co.Sequential(C1(3, 1), R(C1(5, 2)), nn.ReLU())), 1, tags={"parallel", "padded2"}),
        S("res(br(seq(c3p1,res(c3p1)),c1))", lambda: R(BR(co.Sequential(C1(3, 1), R(C1(3, 1))), C1(1))), 1, tags={"parallel", "padded2"}),
        S("res(c7,shrink=True)", lambda: R(C1(7), residual_shrink=True), 7, tags={"parallel", "shrink"}),
        S("seq(res(c4,lagging),c2s2)", lambda: co.Sequential(R(C1(4), residual_shrink="lagging"), C1(2, 0, 2)), 5, tags={"parallel", "shrink"}),
    ]


def spatial_zoo(some=False):
    """containers over images and volumes: sizes, strides and paddings differ between time and space"""
    S = lambda n, f, s=sp(2, 1, 3), minT=1, **k: Spec(n, f, s, minT=minT, tags={"container", "causal", "spatial"} | set(k.pop("tags", ())), **k)
    V, BR, R, Q = sp(3, 1, 2, 1), co.BroadcastReduce, co.Residual, co.Sequential
    C2 = lambda k, p=(0, 0), s=(1, 1), **kw: co.Conv2d(1, 1, k, padding=p, stride=s, **kw)
    C3 = lambda k, p=(0, 0, 0), s=(1, 1, 1), **kw: co.Conv3d(1, 1, k, padding=p, stride=s, **kw)
    z = [
        S("seq(2d 3x2 p=1x1,relu,2d 2x2 s=1x2)", lambda: Q(C2((3, 2), (1, 1)), nn.ReLU(), C2((2, 2), s=(1, 2))), minT=2),
        S("seq(2d 2x2 s=2x1,2d 2x1 s=1x2)", lambda: Q(C2((2, 2), s=(2, 1)), C2((2, 1), s=(1, 2))), minT=4),
        S("res(2d 3x3 p=1x1)", lambda: R(C2((3, 3), (1, 1)))),
        S("res(2d 3x1 p=1x0)", lambda: R(C2((3, 1), (1, 0)))),
        S("res(2d 3x3 p=0x1,shrink=True)", lambda: R(C2((3, 3), (0, 1)), residual_shrink=True), minT=3, tags={"shrink"}),
        S("br(2d 3x3 p=1x1,2d 1x1)", lambda: BR(C2((3, 3), (1, 1)), C2((1, 1)))),
        S("br(2d 2x2 s=2x1,2d 2x2 s=2x1)", lambda: BR(C2((2, 2), s=(2, 1)), C2((2, 2), s=(2, 1)), reduce="mul"), minT=2),
        S("seq(3d 2x2x1 p=0x1x0,avg3d 2x2x1)", lambda: Q(C3((2, 2, 1), (0, 1, 0)), co.AvgPool3d((2, 2, 1), (1, 2, 1))), V, minT=3),
    ]
    if some:
        return z
    return z + [
        S("seq(2d s=1x2,avg2d 2x1,2d p=1x0)", lambda: Q(C2((2, 1), s=(1, 2)), co.AvgPool2d((2, 1), (1, 1)), C2((3, 1), (1, 0))), minT=3),
        S("seq(2d p=0x1,2d p=1x0)", lambda: Q(C2((2, 3), (0, 1)), C2((3, 2), (1, 0))), minT=3),
        S("seq(2d p=2x1 s=3x2,max2d 2x2)", lambda: Q(C2((5, 3), (2, 1), (3, 2)), co.MaxPool2d((2, 2), (1, 1))), minT=6),
        S("res(2d 3x3 p=0x1,lagging)", lambda: R(C2((3, 3), (0, 1)), residual_shrink="lagging"), minT=3, tags={"shrink"}),
        S("res(2d 3x3 p=0x1,leading)", lambda: R(C2((3, 3), (0, 1)), residual_shrink="leading"), minT=3, tags={"shrink"}),
        S("res(2d 5x3 p=0x1,centered)", lambda: R(C2((5, 3), (0, 1)), residual_shrink="centered"), minT=5, tags={"shrink"}),
        S("res(seq(2d 3x3 p=1x1,bn,2d 3x1 p=1x0))", lambda: R(Q(C2((3, 3), (1, 1)), nn.BatchNorm2d(1), C2((3, 1), (1, 0)))), tags={"padded2"}),
        S("br(max2d 3x3 p=1x1,id,2d 1x1)max", lambda: BR(co.MaxPool2d((3, 3), (1, 1), (1, 1)), co.Identity(), C2((1, 1)), reduce="max")),
        S("br(seq(2d 3x1 p=1x0,2d 1x3 p=0x1),2d 5x3 p=2x1)concat", lambda: BR(Q(C2((3, 1), (1, 0)), C2((1, 3), (0, 1))), C2((5, 3), (2, 1)), reduce="concat")),
        S("cond(2d 3x3 p=1x1,2d 1x3 p=0x1)", lambda: co.Conditional(lambda m, x: True, C2((3, 3), (1, 1)), C2((1, 3), (0, 1)))),
        S("res(3d 3x3x1 p=1x1x0)", lambda: R(C3((3, 3, 1), (1, 1, 0))), V),
        S("seq(3d 2x1x1 s=1x2x1,relu,3d 2x1x1 s=2x1x1)", lambda: Q(C3((2, 1, 1), s=(1, 2, 1)), nn.ReLU(), C3((2, 1, 1), s=(2, 1, 1))), V, minT=3),
        S("br(3d 1x1x1 s=1x2x1,max3d 3x1x1 s=1x2x1)", lambda: BR(C3((1, 1, 1), s=(1, 2, 1)), co.MaxPool3d((3, 1, 1), (1, 2, 1), (1, 0, 0))), V),
        S("seq(2d,delay2,2d s=1x3)", lambda: Q(C2((2, 2)), co.Delay(2), C2((2, 1), s=(1, 3))), minT=3),
    ]


def far():
    """sizes well beyond the families: (spec, stream length, batch) with long streams, many channels, wide batches, big kernels"""
    S = lambda n, f, s=sp(1, 1), minT=1: Spec(n, f, s, minT=minT, tags={"container", "causal"})
    BR, R = co.BroadcastReduce, co.Residual
    long = [conv_spec(1, 3, 1, 1, 1, 1), conv_spec(1, 2, 0, 3, 1, 1), conv_spec(1, 4, 1, 2, 1, 1), conv_spec(2, 2, 1, 1, 1, 1), pool_spec("avg", 1, 3, 1, 2), pool_spec("max", 1, 2, 0, 1),
            pool_spec("max", 1, 3, 1, 1, d=2), pool_spec("avg", 2, 2, 0, 1), delay_spec(3), S("seq(c3p1,relu,c2s2)", lambda: co.Sequential(C1(3, 1), nn.ReLU(), C1(2, 0, 2)), minT=2),
            S("res(c3p1)", lambda: R(C1(3, 1))), S("br(c1,c5p2)concat", lambda: BR(C1(1), C1(5, 2), reduce="concat")),
            S("br(id,max3p1,c3p1)max", lambda: BR(co.Identity(), co.MaxPool1d(3, 1, 1), C1(3, 1), reduce="max")), S("seq(bn,delay2,avg2)", lambda: co.Sequential(nn.BatchNorm1d(1), co.Delay(2), co.AvgPool1d(2, 1)), minT=2)]
    many = [conv_spec(1, 2, 1, 1, 9, 5), conv_spec(1, 3, 1, 2, 16, 16, groups=16), conv_spec(2, 2, 0, 1, 5, 9, ks=1), conv_spec(1, 2, 0, 1, 12, 18, groups=6), pool_spec("avg", 1, 2, 0, 1, C=17),
            pool_spec("max", 1, 3, 1, 2, C=17), pool_spec("max", 2, 2, 0, 1, C=9), S("delay(2)", lambda: co.Delay(2), sp(1, 33)), S("res(c3p1 of 9)", lambda: R(C1(3, 1, i=9, o=9, groups=9)), sp(1, 9)),
            S("br concat of 9", lambda: BR(C1(1, i=9, o=9, groups=9), C1(3, 1, i=9, o=9, groups=9), reduce="concat"), sp(1, 9)),
            S("linear of 9", lambda: co.Sequential(co.Linear(9, 4, channel_dim=1), C1(2, i=4, o=1)), sp(1, 9), 2), S("bn of 9", lambda: nnco(nn.BatchNorm1d(9)), sp(1, 9)),
            Spec("conv2d on a wide image", lambda: co.Conv2d(1, 1, (2, 3), stride=(1, 2), padding=(1, 1)), sp(2, 1, 17)), Spec("avg2d on a wide image", lambda: co.AvgPool2d((2, 3), (1, 3)), sp(2, 1, 18), minT=2)]
    batch = [conv_spec(1, 3, 1, 2, 1, 1), conv_spec(2, 2, 1, 1, 1, 1), pool_spec("avg", 1, 2, 1, 1), pool_spec("max", 1, 3, 0, 1), delay_spec(2),
             S("seq(c3p1,relu,c2s2)", lambda: co.Sequential(C1(3, 1), nn.ReLU(), C1(2, 0, 2)), minT=2), S("res(c3p1)", lambda: R(C1(3, 1))), S("br(c1,c5p2)mul", lambda: BR(C1(1), C1(5, 2), reduce="mul"))]
    wide = [conv_spec(1, 17, 8, 1, 1, 1), conv_spec(1, 18, 2, 5, 1, 1), conv_spec(1, 12, 11, 3, 1, 1), conv_spec(1, 3, 1, 11, 1, 1), pool_spec("avg", 1, 17, 4, 6), pool_spec("max", 1, 16, 8, 1),
            pool_spec("max", 1, 3, 1, 2, d=9), delay_spec(20), S("res(c17p8)", lambda: R(C1(17, 8))), S("br(c1,c19p9)", lambda: BR(C1(1), C1(19, 9)))]
    return ([(s, 70, 1) for s in long] + [(s, max(s.minT, 5), 1) for s in many] + [(s, max(s.minT, 5), 9) for s in batch] + [(s, 2 * max(19, s.minT), 1) for s in wide])


def nnco(m):
    return co.continual(m)


def far_of(*words, no=()):
    return [(f"{s.name} T={T} B={B} far", s, T, B) for s, T, B in far() if any(w in s.name for w in words) and not any(w in s.name for w in no)]


def extra(tier, R=3):
    S = lambda n, f, s=sp(1, 1), **k: Spec(n, f, s, **k)
    T = lambda *a: True
    F_ = lambda *a: False
    return [
        S(f"rpe({R})", lambda: co.RecyclingPositionalEncoding(2, R), sp(1, 2)),
        S("seq(rpe,c3)", lambda: co.Sequential(co.RecyclingPositionalEncoding(2, R), C1(3, i=2)), sp(1, 2)),
        S("seq(conditional,c2)", lambda: co.Sequential(co.Conditional(T, C1(3, 1), co.Add(1.0)), C1(2))),
        S("seq(conditional off,c2)", lambda: co.Sequential(co.Conditional(F_, C1(3, 1), co.Add(1.0)), C1(2))),
        S("skip(2)", lambda: co.Skip(2)),
        S("seq(c2,gru)", lambda: co.Sequential(C1(2, o=2), co.GRU(2, 1))),
        S("seq(lstm,c2)", lambda: co.Sequential(co.LSTM(1, 2), C1(2, i=2))),
        S("br(rnn,delay0)", lambda: co.BroadcastReduce(co.RNN(1, 1), co.Identity())),
        S("seq(bcast,par(gru,c3p1),reduce)", lambda: co.Sequential(co.Broadcast(2), co.Parallel(co.GRU(1, 1), C1(3, 1)), co.Reduce("sum"))),
        S("seq(bcast,par(gru,id),reduce)", lambda: co.Sequential(co.Broadcast(2), co.Parallel(co.GRU(1, 1), co.Identity()), co.Reduce("sum"))),
        S("res(rnn)", lambda: co.Residual(co.RNN(1, 1))),
        S("cond(yes,gru,c2)", lambda: co.Conditional(T, co.GRU(1, 1), C1(2))),
        S("routing", lambda: co.Sequential(co.Broadcast(2), co.ParallelDispatch([1, 0]), co.Parallel(co.AvgPool1d(3, 1), co.Sequential(co.Add(1), C1(3))),
                                           co.Reduce("sum"), co.Linear(1, 2, channel_dim=1))),
        S("seq(seq(c2,relu),res(seq(c3p1,bn)))", lambda: co.Sequential(co.Sequential(C1(2), nn.ReLU()), co.Residual(co.Sequential(C1(3, 1), nn.BatchNorm1d(1))))),
    ]


def att_specs():
    """self-attention over (B, E, T), several heads and query positions"""
    kw = dict(batch_first=True, embed_dim_second=True, forward_returns_attn_mask=False)
    one = lambda E, h, N, q: lambda: co.SingleOutputMultiheadAttention(E, h, sequence_len=N, query_index=q, single_output_forward=False, **kw)
    out = [Spec(f"attention single E={E} h={h} N={N} q={q}", one(E, h, N, q), sp(1, E), hide=True, tags={"nopad", "att"})
           for E, h, N, q in ((2, 1, 2, -1), (2, 2, 2, 0), (1, 1, 3, -2), (2, 2, 3, 1), (1, 1, 4, -3))]
    out += [Spec(f"attention retro E={E} h={h} N={N}", lambda E=E, h=h, N=N: co.RetroactiveMultiheadAttention(E, h, sequence_len=N, **kw), sp(1, E), hide=True, tags={"nopad", "att", "retro"})
            for E, h, N in ((2, 2, 2), (1, 1, 3))]
    return out


def recurrent(spec):
    return any(k in spec.name for k in ("gru", "lstm", "rnn"))


# --- editing a sequential network after construction -----------------------------------------------------------
EDITS = ("append", "extend", "insert first", "insert last", "replace", "delete first", "delete last", "pop", "add module", "iadd", "slice")


def edit(net, parts, op, new):
    """apply the edit to the network and to the list of its parts; returns the edited network and list"""
    if op == "append":
        net.append(new)
        return net, parts + [new]
    if op == "extend":
        net.extend([new])
        return net, parts + [new]
    if op == "insert first":
        net.insert(0, new)
        return net, [new] + parts
    if op == "insert last":
        net.insert(len(net) - 1, new)
        return net, parts[:-1] + [new] + parts[-1:]
    if op == "replace":
        net[1] = new
        return net, parts[:1] + [new] + parts[2:]
    if op == "delete first":
        del net[0]
        return net, parts[1:]
    if op == "delete last":
        del net[-1]
        return net, parts[:-1]
    if op == "pop":
        net.pop(1)
        return net, parts[:1] + parts[2:]
    if op == "add module":
        net.add_module(f"added{len(net)}", new)
        return net, parts + [new]
    if op == "iadd":
        net += co.Sequential(new)
        return net, parts + [new]
    return net[1:], parts[1:]
