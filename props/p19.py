"""P19: recycling positional encodings follow the stream position"""
from .common import *

BOUNDS = ("2..7 embeddings (thorough 10), learned and static, batch 1..2, embedding width 2 and 6; from every stream position, every operation (step / block of "
          "every length / offline pass with every index update, each with and without state update): output and next position; explicit "
          "state; captured state; inside a sequential network; symbolic encodings and inputs. The position is a finite state, so "
          "the single-operation checks from every position cover histories of every length")
BOUNDS += "; selected members far beyond the families: 33 embeddings from selected positions"
OUTSIDE = "values of the static encoding pattern itself; blocks longer than the number of encodings (rejected)"


def mk(env, N, E, learned, u=1):
    m = co.RecyclingPositionalEncoding(E, N, learned=learned, forward_update_index_steps=u)
    return env.symbolize(m, "pe", shared=True).eval()


def table(m, learned):
    return m.pe.weight if learned else m.pe.pattern


def position(m):
    return int(m.get_state()[0])


def one_op(env, N, E, learned, pos, B):
    u = env.choose("index update of forward", N + 1) if N < 20 else (0, 1, N - 2, N)[env.choose("index update of forward", 4)]
    m = mk(env, N, E, learned, u)
    tb = table(m, learned)
    m.set_state((torch.tensor(pos),))
    env.true("state is the position", position(m) == pos)
    op = env.choose("operation", 3)
    if op == 0:
        x = env.tensor("x", B, E)
        up = env.flag("update")
        env.eq("step", m.forward_step(x) if up else m.forward_step(x, update_state=False), x + tb[pos])
        env.true("position after step", position(m) == (pos + up) % N, f"{position(m)}")
    elif op == 1:
        n = 1 + env.choose("length", N) if N < 20 else (1, 3, N - 1, N)[env.choose("length", 4)]
        x = env.tensor("x", B, E, n)
        up, pad = env.flag("update"), env.flag("pad_end")
        kw = {} if up else dict(update_state=False)
        env.eq("block", m.forward_steps(x, pad_end=pad, **kw), x + cols(tb, pos, n, N))
        env.true("position after block", position(m) == (pos + (n if up else 0)) % N, f"{position(m)}")
    else:
        n = 1 + env.choose("length", N) if N < 20 else (1, 3, N - 1, N)[env.choose("length", 4)]
        x = env.tensor("x", B, E, n)
        env.eq("offline", m.forward(x), x + cols(tb, pos, n, N))
        env.true("position after offline pass", position(m) == (pos + u) % N, f"{position(m)}")


def cols(tb, pos, n, N):
    return torch.stack([tb[(pos + t) % N] for t in range(n)], dim=1).unsqueeze(0)


def fresh(env, N, E, learned):
    m = mk(env, N, E, learned)
    tb = table(m, learned)
    env.true("starts at zero", position(m) == 0)
    x = env.tensor("x", 1, E, 2 * N + 1)
    for t in range(2 * N + 1):
        env.eq(f"step {t}", m.forward_step(x[:, :, t]), x[:, :, t] + tb[t % N])
    m.clean_state()
    env.true("cleaning restarts", position(m) == 0)
    env.eq("after cleaning", m.forward_step(x[:, :, 0]), x[:, :, 0] + tb[0])


def explicit(env, N, E, learned):
    m = mk(env, N, E, learned)
    tb = table(m, learned)
    own = env.choose("own position", N)
    m.set_state((torch.tensor(own),))
    x = env.tensor("x", 1, E, N + 2)
    st = None
    for t in range(N + 2):
        o, st = m._forward_step(x[:, :, t], st)
        env.eq(f"explicit step {t}", o, x[:, :, t] + tb[t % N])
        env.true("own state untouched", position(m) == own)
    env.true("state has one entry", len(st) == 1 and int(st[0]) == (N + 2) % N)


def snapshot(env, N, E, learned):
    m = mk(env, N, E, learned)
    tb = table(m, learned)
    h = env.choose("history", N)
    x = env.tensor("x", 1, E, h + 3)
    for t in range(h):
        m.forward_step(x[:, :, t])
    snap = m.get_state()
    m.forward_step(x[:, :, h])
    m.forward_steps(x[:, :, : min(2, N)])
    m2 = mk(env, N, E, learned) if env.flag("other instance") else m
    m2.set_state(snap)
    for t in range(h, h + 3):
        env.eq(f"resumed {t}", m2.forward_step(x[:, :, t]), x[:, :, t] + tb[t % N])


def network(env, N, E, learned):
    k = 2

    def build():
        net = co.Sequential(mk(env, N, E, learned, 0), C1(k, i=E, o=1))
        env.symbolize(net[1], "conv", shared=True)
        return net.eval()

    x = env.tensor("x", 1, E, N)
    F = build().forward(x)
    check_steps(env, "step", steps(build(), x), F, 1, 1)
    check_chunk(env, "block", build().forward_steps(x), F, 1, 1, 0, N)
    net = build()
    net.forward_steps(x[:, :, :1])
    net.forward_step(x[:, :, 1], update_state=False)
    outs = [net.forward_step(x[:, :, t]) for t in range(1, N)]
    check_steps(env, "after block and probe", outs, F, 1, 1, t0=1)
    # a wrapped stream keeps recycling
    net = build()
    y = env.tensor("y", 1, E, 2 * N)
    tb = table(net[0], learned)
    z = y + cols(tb, 0, 2 * N, N)
    G = net[1].forward(z)
    check_steps(env, "long stream", steps(net, y), G, 1, 1)


def scenarios(tier):
    for learned in (True, False):
        tag = "learned" if learned else "static"
        for N in (2, 3, 5, 7, 33) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 10, 33):
            for E in (2, 6):
                if E == 6 and N != 3:
                    continue
                for pos in range(N) if N < 20 else (0, 17, 31, 32):
                    yield f"{tag} N={N} E={E} from {pos}", (lambda env, a=(N, E, learned, pos, 2 if pos == 0 else 1): one_op(env, *a)), {}
                for f in (fresh, explicit, snapshot, network):
                    yield f"{tag} N={N} E={E} {f.__name__}", (lambda env, f=f, a=(N, E, learned): f(env, *a)), {}
