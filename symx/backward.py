"""ATen backward operators over terms.

torch's own autograd engine records the graph and calls these; everything not listed here is torch's own
formula, expressed in operators which symtensor.py already interprets.
"""
import itertools
import math
from fractions import Fraction

import torch

from .symtensor import HANDLERS, S, _expand, _map, _maybe_hide, _mm_ids, _pool, _reduce, _windows, h, raw, sid, wrap
from .terms import Unsupported


def _scatter(shape, pairs):
    """pairs: (flat target index, id); sums what lands on the same place"""
    st = S()
    acc = {}
    for i, v in pairs:
        acc.setdefault(i, []).append(v)
    flat = [st.zero] * math.prod(shape)
    for i, vs in acc.items():
        flat[i] = st.add_n(vs)
    return torch.tensor(flat, dtype=torch.int64).reshape(shape)


@h("threshold_backward")
def _threshold_backward(g, x, threshold):
    st = S()
    th = sid(threshold)
    return wrap(_map(lambda a, b: st.ite(st.cmp("lt", th, b), a, st.zero), raw(g), raw(x)))


@h("convolution_backward")
def _convolution_backward(g, x, w, bias_sizes, stride, padding, dilation, transposed, output_padding, groups, output_mask):
    if transposed:
        raise Unsupported("transposed conv")
    st = S()
    G, X, W = raw(g), raw(x), raw(w)
    nd = X.dim() - 2
    ex = lambda v: list(v) * nd if len(v) == 1 else list(v)
    stride, padding, dilation = ex(stride), ex(padding), ex(dilation)
    k, N, C, O = list(W.shape[2:]), X.shape[0], X.shape[1], W.shape[0]
    cg, og = C // groups, O // groups
    gx, gw = {}, {}
    insp, outsp = list(X.shape[2:]), list(G.shape[2:])
    # (input position, kernel position) reached from every output position
    for o in itertools.product(*[range(n) for n in outsp]):
        for kk in itertools.product(*[range(n) for n in k]):
            pos = tuple(o[i] * stride[i] - padding[i] + kk[i] * dilation[i] for i in range(nd))
            if any(p < 0 or p >= n for p, n in zip(pos, insp)):
                continue
            for n in range(N):
                for oc in range(O):
                    gg = int(G[(n, oc) + o])
                    if gg == st.zero:
                        continue
                    base = (oc // og) * cg
                    for c in range(cg):
                        if output_mask[0]:
                            gx.setdefault((n, base + c) + pos, []).append(st.mul(gg, int(W[(oc, c) + kk])))
                        if output_mask[1]:
                            gw.setdefault((oc, c) + kk, []).append(st.mul(gg, int(X[(n, base + c) + pos])))

    def fill(like, d):
        r = torch.full(like.shape, st.zero, dtype=torch.int64)
        for i, v in d.items():
            r[i] = st.add_n(v)
        return wrap(r)

    gb = wrap(_reduce(G, [0] + list(range(2, G.dim())), False, st.add_n)) if output_mask[2] else None
    return (fill(X, gx) if output_mask[0] else None, fill(W, gw) if output_mask[1] else None, gb)


# pooling ----------------------------------------------------------------------------------------
def _cells(shape, nd, k, s, p, d, ceil_mode):
    """for every output position: flat indices of the window, number of padded cells"""
    probe = torch.arange(math.prod(shape), dtype=torch.int64).reshape(shape)
    out = []

    def red(v, pc):
        out.append((list(v), pc))
        return 0

    _pool(probe, nd, k, s, p, d, ceil_mode, red)
    return out


def _avgpool_backward(nd):
    def f(g, x, kernel_size, stride, padding, ceil_mode, count_include_pad, divisor_override=None):
        st = S()
        k = _expand(kernel_size, nd)
        s, p = _expand(stride, nd, k), _expand(padding, nd)
        pairs = []
        for gg, (v, pc) in zip(raw(g).reshape(-1).tolist(), _cells(list(x.shape), nd, k, s, p, [1] * nd, ceil_mode)):
            n = divisor_override or (pc if count_include_pad else len(v))
            pairs += [(i, st.mul(st.const(Fraction(1, n)), gg)) for i in v]
        return wrap(_scatter(list(x.shape), pairs))

    return f


def _winner(v):
    """per element of the list: (id) is this the largest one?  Equal terms count once (the first); on a tie of
    different terms nobody wins, whatever the order in which the elements are listed."""
    st = S()
    out = []
    for i, a in enumerate(v):
        c = st.true
        for j, b in enumerate(v):
            if a == b:
                if j < i:
                    c = st.false
            else:
                c = st.band(c, st.cmp("lt", b, a))
        out.append(c)
    return out


def _max_pairs(gg, v, ids):
    st = S()
    live = [i for i in v if st.nodes[ids[i]][0] != "ninf"] or v[:1]
    return [(i, st.ite(c, gg, st.zero)) for i, c in zip(live, _winner([ids[i] for i in live]))]


def _maxpool_backward(nd):
    def f(g, x, kernel_size, stride, padding, dilation, ceil_mode, indices):
        k = _expand(kernel_size, nd)
        s, p, d = _expand(stride, nd, k), _expand(padding, nd), _expand(dilation, nd)
        ids = raw(x).reshape(-1).tolist()
        pairs = []
        for gg, (v, pc) in zip(raw(g).reshape(-1).tolist(), _cells(list(x.shape), nd, k, s, p, d, ceil_mode)):
            pairs += _max_pairs(gg, v, ids)
        return wrap(_scatter(list(x.shape), pairs))

    return f


def _adaptive_cells(shape, nd, outs):
    sizes = list(shape[-nd:])
    probe = torch.arange(math.prod(shape), dtype=torch.int64).reshape([-1] + sizes)
    for b in range(probe.shape[0]):
        for o in itertools.product(*[range(n) for n in outs]):
            sl = tuple(slice((o[i] * sizes[i]) // outs[i], -(-((o[i] + 1) * sizes[i]) // outs[i])) for i in range(nd))
            yield probe[b][sl].reshape(-1).tolist()


def _adaptive_backward(nd, kind):
    def f(g, x, indices=None):
        st = S()
        outs = list(g.shape[-nd:])
        ids = raw(x).reshape(-1).tolist()
        pairs = []
        for gg, v in zip(raw(g).reshape(-1).tolist(), _adaptive_cells(list(x.shape), nd, outs)):
            if kind == "avg":
                pairs += [(i, st.mul(st.const(Fraction(1, len(v))), gg)) for i in v]
            else:
                pairs += _max_pairs(gg, v, ids)
        return wrap(_scatter(list(x.shape), pairs))

    return f


for _nd in (1, 2, 3):
    HANDLERS[f"avg_pool{_nd}d_backward"] = _avgpool_backward(_nd)
    HANDLERS[f"max_pool{_nd}d_with_indices_backward"] = _maxpool_backward(_nd)
    HANDLERS[f"_adaptive_avg_pool{_nd}d_backward"] = _adaptive_backward(_nd, "avg")
    HANDLERS[f"adaptive_max_pool{_nd}d_backward"] = _adaptive_backward(_nd, "max")


def _pad_backward(name):
    fwd = getattr(torch.ops.aten, name)

    def f(g, x, padding):
        idx = fwd(torch.arange(math.prod(x.shape), dtype=torch.float64).reshape(x.shape), padding)
        return wrap(_scatter(list(x.shape), zip(idx.to(torch.int64).reshape(-1).tolist(), raw(g).reshape(-1).tolist())))

    return f


for _n in ("replication_pad", "reflection_pad"):
    for _nd in (1, 2, 3):
        HANDLERS[f"{_n}{_nd}d_backward"] = _pad_backward(f"{_n}{_nd}d")


@h("native_batch_norm_backward", "cudnn_batch_norm_backward")
def _batch_norm_backward(g, x, weight, mean, var, save_mean, save_invstd, train, eps, output_mask):
    if train:
        raise Unsupported("batch_norm in training mode")
    st = S()
    G, X = raw(g), raw(x)
    shp = [1, -1] + [1] * (X.dim() - 2)
    red = [0] + list(range(2, X.dim()))
    e = sid(eps)
    rs = _map(lambda v: st.inv(st.uf("sqrt", st.add(v, e))), raw(var)).reshape(shp)
    sc = rs if weight is None else _map(st.mul, rs, raw(weight).reshape(shp))
    gx = wrap(_map(st.mul, G, sc)) if output_mask[0] else None
    xhat = _map(lambda a, m, r: st.mul(st.sub(a, m), r), X, raw(mean).reshape(shp), rs)
    gw = wrap(_reduce(_map(st.mul, G, xhat), red, False, st.add_n)) if output_mask[1] else None
    gb = wrap(_reduce(G, red, False, st.add_n)) if output_mask[2] else None
    return gx, gw, gb


@h("sigmoid_backward")
def _sigmoid_backward(g, y):
    st = S()
    return wrap(_map(lambda a, b: st.mul(a, st.mul(b, st.sub(st.one, b))), raw(g), raw(y)))


@h("tanh_backward")
def _tanh_backward(g, y):
    st = S()
    return wrap(_map(lambda a, b: st.mul(a, st.sub(st.one, st.mul(b, b))), raw(g), raw(y)))


@h("_softmax_backward_data")
def _softmax_backward(g, y, dim, input_dtype=None):
    st = S()
    p = _map(st.mul, raw(g), raw(y))
    s = _reduce(p, [dim], True, st.add_n)
    return wrap(_map(lambda a, b, c: st.sub(a, st.mul(b, c)), p, raw(y), s.expand_as(p)))


@h("embedding_dense_backward")
def _embedding_backward(g, indices, num_weights, padding_idx, scale_grad_by_freq):
    if scale_grad_by_freq:
        raise Unsupported("embedding scale_grad_by_freq")
    D = g.shape[-1]
    G = raw(g).reshape(-1, D).tolist()
    pairs = [(i * D + j, v) for i, row in zip(indices.reshape(-1).tolist(), G) if i != padding_idx for j, v in enumerate(row)]
    return wrap(_scatter([num_weights, D], pairs))


@h("native_layer_norm_backward")
def _layer_norm_backward(g, x, normalized_shape, mean, rstd, weight, bias, output_mask):
    # the forward operator carries its eps in the second result (see symtensor._layer_norm)
    st = S()
    nd = len(normalized_shape)
    n = math.prod(normalized_shape)
    X = _maybe_hide(raw(x)).reshape(-1, n).tolist()
    G = _maybe_hide(raw(g)).reshape(-1, n).tolist()
    W = raw(weight).reshape(-1).tolist() if weight is not None else [st.one] * n
    e = int(raw(mean).reshape(-1)[0])
    inv_n = st.const(Fraction(1, n))
    gx, gw = [], [[] for _ in range(n)]
    for row, gr in zip(X, G):
        m = st.mul(inv_n, st.add_n(row))
        d = [st.sub(v, m) for v in row]
        rs = st.inv(st.uf("sqrt", st.add(st.mul(inv_n, st.add_n([st.mul(q, q) for q in d])), e)))
        xh = [st.mul(q, rs) for q in d]
        gy = [st.mul(a, w) for a, w in zip(gr, W)]
        m1 = st.mul(inv_n, st.add_n(gy))
        m2 = st.mul(inv_n, st.add_n([st.mul(a, b) for a, b in zip(gy, xh)]))
        gx += [st.mul(rs, st.sub(st.sub(a, m1), st.mul(b, m2))) for a, b in zip(gy, xh)]
        for i in range(n):
            gw[i].append(st.mul(gr[i], xh[i]))
    mk = lambda v, like: wrap(torch.tensor(v, dtype=torch.int64).reshape(like))
    return (wrap(_maybe_hide(raw(mk(gx, x.shape)))) if output_mask[0] else None,
            mk([st.add_n(v) for v in gw], list(normalized_shape)) if output_mask[1] else None,
            mk([st.add_n([r[i] for r in G]) for i in range(n)], list(normalized_shape)) if output_mask[2] else None)


@h("_scaled_dot_product_flash_attention_for_cpu_backward")
def _sdpa_backward(g, q, k, v, out, logsumexp, dropout_p, is_causal, attn_mask=None, scale=None):
    if is_causal or attn_mask is not None or dropout_p:
        raise Unsupported("masked attention backward")
    sc = wrap(torch.tensor(sid(scale if scale is not None else 1 / math.sqrt(q.shape[-1]))))
    T = lambda z: z.transpose(-2, -1)
    mm = lambda a, b: wrap(torch.stack([_mm_ids(x, y) for x, y in zip(raw(a).flatten(0, 1), raw(b).flatten(0, 1))]).reshape(*a.shape[:-1], b.shape[-1]))
    mul, soft, back = HANDLERS["mul"], HANDLERS["_softmax"], HANDLERS["_softmax_backward_data"]
    P = soft(mul(mm(q, T(k)), sc), -1)
    dS = mul(back(mm(g, T(v)), P, -1), sc)
    return mm(dS, k), mm(T(dS), q), mm(T(P), g)
