"""P04: delays, skips and residual connections align streams"""
from .common import *

BOUNDS = ("Delay 0..7 (thorough 12) with both fills and all shrink modes, Skip 1..6, Residual over conv kernels 2..9 with every shrink "
          "mode and reduction; stream length from 1 (shorter than the delay) to 4*delay+3; inputs and weights symbolic reals")
BOUNDS += "; selected members far beyond the families: streams of 70 steps, delay and skip 20, residuals of kernel 17"
OUTSIDE = "longer delays and streams"


def plain(env, d, fill, T):
    m = co.Delay(d, temporal_fill=fill)
    x = env.tensor("x", 1, 2, T)
    env.eq("offline is the identity", m.forward(x), x)
    outs = steps(m, x)
    check_steps(env, "step", outs, x, d, 1)
    m2 = co.Delay(d, temporal_fill=fill)
    check_chunk(env, "block", m2.forward_steps(x), x, d, 1, 0, T)
    m3 = co.Delay(d, temporal_fill=fill)
    env.eq("block with end padding", m3.forward_steps(x, pad_end=True), x)
    # a second stream segment continues seamlessly
    y = env.tensor("y", 1, 2, d + 2)
    xy = torch.cat([x, y], 2)
    check_chunk(env, "continued", m2.forward_steps(y), xy, d, 1, T, d + 2)


def shrinking(env, d, mode, T):
    """a shrinking delay removes the steps an unpadded neighbour cannot produce: its n-th streamed
    output is the n-th element of its offline output"""
    m = co.Delay(d, auto_shrink=mode)
    x = env.tensor("x", 1, 1, T)
    F = m.forward(x)
    n = d if mode == "lagging" else 2 * d
    env.true("offline length", F.shape[2] == max(T - n, 0), f"{F.shape[2]}")
    env.eq("offline", F, x[:, :, : max(T - n, 0)] if mode == "lagging" else x[:, :, d : max(T - d, d)])
    first = 2 * d if mode != "lagging" else d
    outs = steps(m, x)
    check_steps(env, "step", outs, F, first, 1)
    m2 = co.Delay(d, auto_shrink=mode)
    check_chunk(env, "block", m2.forward_steps(x), F, first, 1, 0, T)


def skipping(env, n, T):
    m = co.Skip(n)
    x = env.tensor("x", 1, 2, T)
    env.eq("offline drops the first steps", m.forward(x), x[:, :, n:])
    outs = steps(m, x)
    for t, o in enumerate(outs):
        env.true(f"presence {t}", present(o) == (t >= n), kind(o))
        if t >= n:
            env.eq(f"step {t}", o, x[:, :, t])
    m2 = co.Skip(n)
    env.eq("block", m2.forward_steps(x), x[:, :, n:])
    m3 = co.Skip(n)
    env.eq("block with end padding", m3.forward_steps(x, pad_end=True), x[:, :, n:])


def residual(env, k, p, mode, T, reduce="sum"):
    """Residual(conv): forward = shrunk input (+) conv(x); stream delivers the same values"""
    r = co.Residual(env.symbolize(co.Conv1d(1, 1, k, padding=p), "m", shared=True), residual_shrink=mode, reduce=reduce)
    x = env.tensor("x", 1, 1, T)
    conv = env.symbolize(nn.Conv1d(1, 1, k, padding=p), "m", shared=True)
    c = conv(x)
    n = T - c.shape[2]
    sh = {"lagging": x[:, :, : T - n], "leading": x[:, :, n:]}.get(mode, x[:, :, n // 2 : T - n // 2])
    red = {"sum": lambda a, b: a + b, "mul": lambda a, b: a * b, "max": torch.maximum}[reduce]
    F = red(sh, c)
    env.eq("offline", r.forward(x), F)
    D = k - 1 - p
    check_steps(env, "step", steps(r, x), F, D, 1)
    r2 = co.Residual(env.symbolize(co.Conv1d(1, 1, k, padding=p), "m", shared=True), residual_shrink=mode, reduce=reduce)
    check_chunk(env, "block", r2.forward_steps(x), F, D, 1, 0, T)


def residual_pad(env, k, p, mode, T):
    r = co.Residual(env.symbolize(co.Conv1d(1, 1, k, padding=p), "m", shared=True), residual_shrink=mode)
    x = env.tensor("x", 1, 1, T)
    F = r.forward(x)
    r2 = co.Residual(env.symbolize(co.Conv1d(1, 1, k, padding=p), "m", shared=True), residual_shrink=mode)
    env.eq("block with end padding", r2.forward_steps(x, pad_end=True), F)


def scenarios(tier):
    top = 8 if tier == "quick" else 13
    for spec in spatial_zoo():
        if spec.name.startswith("res("):
            for T in (spec.minT + 1, 2 * spec.minT + 3):
                yield f"{spec.name} T={T}", (lambda env, spec=spec, T=T: stream_contract(env, spec, T)), {}
    for name, spec, T, B in far_of("delay(", "res(", no=("seq",)):
        yield name, (lambda env, spec=spec, T=T, B=B: stream_contract(env, spec, T, B=B)), {}
    for mode in (True, "centered", "lagging", "leading"):
        yield f"residual k=17 {mode} far", (lambda env, mode=mode: residual(env, 17, 0, mode, 40)), {}
        yield f"residual k=3 {mode} T=70 far", (lambda env, mode=mode: residual(env, 3, 0, mode, 70)), {}
    yield "skip 20 far", (lambda env: skipping(env, 20, 45)), {}
    for d in range(0, top):
        for fill in ("zeros", "replicate"):
            for T in sorted({1, d + 2, 2 * d + 3, 4 * d + 3}):
                yield f"delay d={d} fill={fill} T={T}", (lambda env, d=d, fill=fill, T=T: plain(env, d, fill, T)), {}
    for d in range(1, top):
        for mode in (True, "centered", "lagging"):
            for T in sorted({1, d, d + 1, 2 * d, 2 * d + 1, 4 * d + 2}):
                yield f"shrinking delay d={d} mode={mode} T={T}", (lambda env, d=d, mode=mode, T=T: shrinking(env, d, mode, T)), {}
    for n in range(1, 7 if tier == "quick" else 12):
        for T in (n + 1, n + 4, 3 * n + 1):
            yield f"skip n={n} T={T}", (lambda env, n=n, T=T: skipping(env, n, T)), {}
    for k in (3, 5, 7, 9) if tier == "quick" else (3, 5, 7, 9, 11, 13):
        for red in ("sum", "mul", "max"):
            for T in (k, k + 4, 2 * k + 3):
                yield f"residual k={k} same-padded {red} T={T}", (
                    lambda env, k=k, red=red, T=T: residual(env, k, (k - 1) // 2, False, T, red)), {}
                yield f"residual k={k} same-padded shrink ignored {red} T={T}", (
                    lambda env, k=k, red=red, T=T: residual(env, k, (k - 1) // 2, True, T, red)), {}
        for mode in (True, "centered", "lagging", "leading"):
            for T in (k + 1, k + 5, 2 * k + 3):
                for red in ("sum", "mul"):
                    yield f"residual k={k} shrink={mode} {red} T={T}", (
                        lambda env, k=k, mode=mode, T=T, red=red: residual(env, k, 0, mode, T, red)), {}
            yield f"residual k={k} shrink={mode} end padding", (
                lambda env, k=k, mode=mode: residual_pad(env, k, 0, mode, k + 4)), {}
    # an even kernel has no centre: only the one-sided modes line up with it
    for k in (2, 4, 6):
        for mode in ("lagging", "leading"):
            for T in (k + 1, k + 5, 2 * k + 3):
                yield f"residual k={k} shrink={mode} T={T}", (
                    lambda env, k=k, mode=mode, T=T: residual(env, k, 0, mode, T)), {}
            yield f"residual k={k} shrink={mode} end padding", (
                lambda env, k=k, mode=mode: residual_pad(env, k, 0, mode, k + 4)), {}
