"""P03: continual pooling on a stream equals the offline pooling"""
from .common import *

BOUNDS = ("Avg/Max pool 1d/2d/3d, temporal kernel 1..3 (thorough 4; selected 5..8 with stride up to 6), padding 0..k/2, stride 1..3, dilation 1..5 (max), spatial mixes (all axes different), batch 1..3; "
          "adaptive avg/max 2d/3d over the full time axis; stream length up to 20; all inputs symbolic reals (both signs)")
BOUNDS += "; selected members far beyond the families: streams of 70 steps, kernels to 17, dilation 9, 17 channels, batch 9"
OUTSIDE = "larger kernels/streams; ceil_mode and return_indices in streaming; infinities and NaN inputs"


def big():
    out = []
    for kp in ("avg", "max"):
        for k, p, s in ((5, 2, 1), (5, 0, 4), (6, 3, 5), (7, 1, 2), (8, 4, 3), (2, 0, 6), (4, 2, 1), (1, 0, 5)):
            out.append((pool_spec(kp, 1, k, p, s), 2 * k + 4))
        for nd in (2, 3):
            for k, p, s, T in ((5, 2, 1, 8), (4, 1, 5, 12)):
                spec = pool_spec(kp, nd, k, p, s, ks=1)
                if nd == 3:
                    spec.minT = k  # torch pools 3d clips of at least the kernel's length
                out.append((spec, T))
    for k, p, s, d in ((4, 2, 1, 2), (5, 0, 3, 2), (3, 1, 5, 4), (4, 1, 2, 3)):
        out.append((pool_spec("max", 1, k, p, s, d), d * (k - 1) + 7))
    return out


def scenarios(tier):
    for name, spec, T, B in far_of("pool", "avg2d", no=("seq",)):
        yield name, (lambda env, spec=spec, T=T, B=B: stream_contract(env, spec, T, B=B)), {}
    for spec, T in big():
        yield f"{spec.name} T={T} large", (lambda env, spec=spec, T=T: stream_contract(env, spec, T)), {}
        yield f"{spec.name} minimal stream large", (lambda env, spec=spec: stream_contract(env, spec, spec.minT)), {}
    for spec in (pool_spec("avg", 1, 3, 1, 2, C=3), pool_spec("max", 1, 3, 1, 2, C=3), pool_spec("max", 2, 2, 1, 1, C=2)):
        yield f"{spec.name} batch 3", (lambda env, spec=spec: stream_contract(env, spec, 5, B=3)), {}
    for spec in pool_specs(tier):
        T = max(spec.minT, 7 if "pool1d" in spec.name else 5)
        if tier == "thorough":
            T += 1
        yield f"{spec.name} T={T}", (lambda env, spec=spec, T=T: stream_contract(env, spec, T)), {}
    for kp in ("avg", "max"):
        for nd in (2, 3):
            for T in (1, 3, 5) if tier == "quick" else (1, 2, 3, 5, 7):
                for o in (1, 2):
                    spec = adaptive_spec(kp, nd, T, o)
                    yield f"{spec.name}", (lambda env, spec=spec, T=T: stream_contract(env, spec, T)), {}
                    yield f"{spec.name} window", (lambda env, spec=spec, T=T: window(env, spec, T)), {}
        for spec in asym_pools() + [pool_spec("avg", 2, 2, 0, 1), pool_spec("max", 2, 2, 1, 1), pool_spec("avg", 3, 2, 0, 1, ks=1), pool_spec("max", 1, 2, 0, 1)] if kp == "avg" else []:
            yield f"{spec.name} batch 2", (lambda env, spec=spec: stream_contract(env, spec, max(spec.minT, 3), B=2)), {}
        for size, spatial in (((2, 1), (3, 2)), ((1, 3), (2, 4)), ((2, 3), (2, 3))):
            for nd in (2, 3):
                spec = adaptive_full(kp, nd, 2, size[: nd - 1], spatial[: nd - 1])
                yield spec.name, (lambda env, spec=spec: stream_contract(env, spec, 2, B=2)), {}
    # converted modules: the caller only asks for a conversion and relies on the default fill
    for nd, nnc in ((1, nn.MaxPool1d), (2, nn.MaxPool2d), (3, nn.MaxPool3d)):
        yield f"converted max{nd}d k=3 p=1", (lambda env, nd=nd, nnc=nnc: converted(env, nd, lambda: nnc(tup(nd, 3, 2), 1, tup(nd, 1, 0)))), {}
    for nd, nnc in ((1, nn.AvgPool1d), (2, nn.AvgPool2d), (3, nn.AvgPool3d)):
        yield f"converted avg{nd}d k=3 p=1", (lambda env, nd=nd, nnc=nnc: converted(env, nd, lambda: nnc(tup(nd, 3, 2), 1, tup(nd, 1, 0)))), {}
    for opt in ("divisor_override", "count_exclude_pad", "ceil"):
        for nd, nnc in ((1, nn.AvgPool1d), (2, nn.AvgPool2d), (3, nn.AvgPool3d)):
            if opt == "divisor_override" and nd == 1:
                continue
            kw = {"divisor_override": dict(divisor_override=3), "count_exclude_pad": dict(count_include_pad=False),
                  "ceil": dict(ceil_mode=True)}[opt]
            st = 2 if opt == "ceil" else 1
            # the option acts in space only (no temporal padding), kernel 2 in time
            pad = (0,) + (1,) * (nd - 1) if opt != "ceil" else 0
            yield f"converted avg{nd}d {opt}", (
                lambda env, nd=nd, nnc=nnc, kw=kw, st=st, pad=pad: converted(
                    env, nd, lambda: nnc((2,) * nd, (1,) + (st,) * (nd - 1) if nd > 1 else 1, pad if nd > 1 else 0, **kw))), {}


def window(env, spec, T):
    """an adaptive pool over a stream longer than its window reports every window"""
    m = spec.make(env)
    x = spec.x(env, T=T + 2)
    outs = steps(m, x)
    for t, o in enumerate(outs):
        env.true(f"presence {t}", present(o) == (t >= T - 1), kind(o))
        if present(o):
            env.eq(f"window at {t}", o, m.forward(x[:, :, t - T + 1 : t + 1])[:, :, 0])


def converted(env, nd, build):
    ref = build()
    spec = Spec("converted", lambda: co.continual(build()), sp(nd, 1, *SPATIAL[nd]))
    x = spec.x(env, T=5)
    m = spec.make(env)
    F = ref(x)
    env.eq("forward", m.forward(x), F)
    check_steps(env, "step", steps(m, x), F, delay_of(m), stride_of(m))
    m2 = spec.make(env)
    env.eq("block with end padding", m2.forward_steps(x, pad_end=True), F)
