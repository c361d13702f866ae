"""P02: continual convolution on a stream equals the offline convolution"""
from .common import *

BOUNDS = ("Conv1d/2d/3d; temporal kernel 1..4 (thorough 5), padding 0..k-1, stride 1..3 (thorough 4), groups 1..4, bias on/off; "
          "selected kernels 5..9 with strides up to 7 and streams of 3k steps; "
          "spatial kernel/padding/stride/dilation mixes (also all axes different), batch 1..3, zeros and replicate padding, eval and train mode; stream length minT..k+5; "
          "all weights, biases and inputs symbolic reals")
BOUNDS += "; selected members far beyond the families: streams of 70 steps, kernels to 18, strides to 11, up to 18 channels, batch 9"
OUTSIDE = "larger kernels/channels/streams, temporal dilation (rejected by the constructor), GPU kernels, float rounding"


def big():
    """larger kernels, strides beyond the kernel, more groups and channels: streams wrap the history several times"""
    out = []
    for k, p, s in ((6, 0, 1), (6, 3, 4), (7, 2, 5), (8, 7, 1), (8, 3, 3), (5, 4, 4), (9, 1, 2), (2, 0, 5), (1, 0, 7), (3, 1, 6), (5, 2, 7)):
        out.append((conv_spec(1, k, p, s, 1, 1), 3 * k + 2))
    for k, p, s, ci, co_, g in ((3, 1, 1, 3, 3, 3), (3, 0, 2, 3, 6, 3), (2, 1, 1, 4, 4, 4), (5, 2, 1, 4, 8, 2), (2, 0, 3, 6, 3, 3), (4, 3, 1, 4, 2, 2)):
        out.append((conv_spec(1, k, p, s, ci, co_, groups=g), 2 * k + 4))
    for nd in (2, 3):
        for k, p, s in ((5, 2, 1), (6, 1, 4), (5, 4, 3)):
            out.append((conv_spec(nd, k, p, s, 1, 1, ks=2, ps=1, ss=2), 2 * k + 3))
        out.append((conv_spec(nd, 3, 1, 2, 3, 3, groups=3, ks=2), 8))
    for k, p in ((5, 4), (6, 2), (7, 3)):
        out.append((conv_spec(1, k, p, 1, 1, 1, mode="replicate", fill="replicate"), 2 * k + 3))
        out.append((conv_spec(1, k, p, 3, 1, 1, fill="zeros"), 3 * k))
    return out


def scenarios(tier):
    for name, spec, T, B in far_of("conv"):
        yield name, (lambda env, spec=spec, T=T, B=B: stream_contract(env, spec, T, B=B)), {}
    for spec, T in big():
        yield f"{spec.name} T={T} large", (lambda env, spec=spec, T=T: stream_contract(env, spec, T)), {}
        yield f"{spec.name} minimal stream large", (lambda env, spec=spec: stream_contract(env, spec, spec.minT)), {}
    for spec in (conv_spec(1, 4, 2, 3, 2, 2), conv_spec(2, 3, 2, 2, 1, 2), conv_spec(3, 2, 1, 1, 1, 1)):
        yield f"{spec.name} batch 3", (lambda env, spec=spec: stream_contract(env, spec, 6, B=3)), {}
    for spec in asym_convs() + [conv_spec(1, 3, 1, 2, 2, 2), conv_spec(2, 2, 1, 1, 1, 2)]:
        yield f"{spec.name} batch 2", (lambda env, spec=spec: stream_contract(env, spec, max(spec.minT, 4), B=2)), {}
    for spec in conv_specs(tier):
        for train in ((False, True) if "conv1d" in spec.name else (False,)):
            T = 7 if "conv1d" in spec.name else 5
            if tier == "thorough":
                T += 2
            yield f"{spec.name} T={T} train={int(train)}", (lambda env, spec=spec, T=T, train=train: stream_contract(env, spec, T, train)), {}
