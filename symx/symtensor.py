"""Symbolic execution backend for torch programs.

`SymTensor` is a tensor subclass whose payload is an int64 tensor of term ids (see terms.py).
`SymMode` is a TorchDispatchMode: every ATen operation executed by the code under test (the
real /repo modules and the real torch.nn modules used as reference) arrives here.
 * data movement (views, slicing, index_put, cat, roll, ...) is executed by torch on the ids,
   so aliasing and in-place effects are torch's own;
 * arithmetic is interpreted over terms;
 * integer / bool tensors without symbolic payload are concrete and executed by torch;
 * reading a symbolic boolean into python control flow forks the execution (engine.branch).
"""
import itertools
import math

import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_unflatten

from . import terms
from .terms import Unsupported

aten = torch.ops.aten
FORK = None  # set by the engine: callable(bool term id) -> python bool


def S():
    return terms.STORE


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype=torch.float64):
        r = torch.Tensor._make_wrapper_subclass(
            cls,
            ids.shape,
            strides=ids.stride(),
            storage_offset=ids.storage_offset(),
            dtype=dtype,
            device="cpu",
            requires_grad=False,
        )
        r.ids = ids
        return r

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __repr__(self, *a, **k):
        return f"SymTensor({tuple(self.shape)})"

    def __deepcopy__(self, memo):
        r = _rebuild(self.ids.clone(), self.dtype, getattr(self, "_is_param", False))
        memo[id(self)] = r
        return r

    def __reduce_ex__(self, proto):
        return _rebuild, (self.ids.clone(), self.dtype, getattr(self, "_is_param", False))

    def tolist(self):
        raise Unsupported("tolist on symbolic tensor")

    def numpy(self, *a, **k):
        raise Unsupported("numpy on symbolic tensor")

    def __format__(self, spec):
        return repr(self)


def _rebuild(ids, dtype, param):
    r = SymTensor(ids, dtype)
    if param:
        r._is_param = True
    return r


def raw(t):
    """ids of a float tensor (converting concrete data)"""
    if isinstance(t, SymTensor):
        return t.ids
    if isinstance(t, torch.Tensor):
        st = S()
        if t.dtype == torch.bool:
            return torch.where(t, torch.tensor(st.true), torch.tensor(st.false))
        flat = [st.fconst(v) for v in t.detach().reshape(-1).tolist()]
        return torch.tensor(flat, dtype=torch.int64).reshape(t.shape)
    raise Unsupported(f"raw of {type(t)}")


def sid(x):
    """id of a python scalar"""
    if isinstance(x, SymTensor):
        assert x.ids.numel() == 1
        return int(x.ids.reshape(-1)[0])
    if isinstance(x, torch.Tensor):
        return S().fconst(x.item())
    return S().fconst(x) if not isinstance(x, bool) else S().const(int(x))


def wrap(ids, dtype=torch.float64):
    return SymTensor(ids, dtype)


_fresh = [0]


def fresh(shape, tag="undef"):
    st = S()
    n = int(math.prod(shape))
    ids = []
    for _ in range(n):
        _fresh[0] += 1
        ids.append(st.var(f"{tag}!{_fresh[0]}"))
    return torch.tensor(ids, dtype=torch.int64).reshape(shape)


def _map(f, *tensors):
    """elementwise over broadcast id tensors"""
    if len(tensors) > 1:
        tensors = torch.broadcast_tensors(*tensors)
    shape = tensors[0].shape
    lists = [t.reshape(-1).tolist() for t in tensors]
    memo = {}
    out = []
    for key in zip(*lists):
        r = memo.get(key)
        if r is None:
            r = memo[key] = f(*key)
        out.append(r)
    return torch.tensor(out, dtype=torch.int64).reshape(shape)


def ids_of(x, like=None):
    if isinstance(x, torch.Tensor):
        return raw(x)
    return torch.tensor(sid(x), dtype=torch.int64)


# --------------------------------------------------------------------------------------------
HANDLERS = {}


def h(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def _inplace(fn):
    def g(self, *a, **k):
        r = fn(self, *a, **k)
        self.ids.copy_(r.ids if isinstance(r, SymTensor) else raw(r))
        return self

    return g


def as_num(x):
    """ids of a numeric operand (bool tensors become 0/1)"""
    if isinstance(x, SymTensor) and x.dtype == torch.bool:
        st = S()
        return _map(lambda c: st.ite(c, st.one, st.zero), x.ids)
    if isinstance(x, torch.Tensor) and x.dtype == torch.bool and not isinstance(x, SymTensor):
        return raw(x.to(torch.int64))
    return ids_of(x)


@h("add", "add_")
def _add(a, b, alpha=1):
    st = S()
    ia, ib = as_num(a), as_num(b)
    if alpha != 1:
        al = sid(alpha)
        ib = _map(lambda y: st.mul(al, y), ib)
    return wrap(_map(st.add, ia, ib))


@h("sub", "sub_")
def _sub(a, b, alpha=1):
    st = S()
    ia, ib = as_num(a), as_num(b)
    if alpha != 1:
        al = sid(alpha)
        ib = _map(lambda y: st.mul(al, y), ib)
    return wrap(_map(st.sub, ia, ib))


@h("rsub")
def _rsub(a, b, alpha=1):
    return _sub(b if isinstance(b, torch.Tensor) else b, a, alpha)


@h("mul", "mul_")
def _mul(a, b):
    return wrap(_map(S().mul, as_num(a), as_num(b)))


@h("div", "div_", "true_divide", "true_divide_")
def _div(a, b, rounding_mode=None):
    if rounding_mode is not None:
        raise Unsupported("div rounding")
    return wrap(_map(S().div, as_num(a), as_num(b)))


@h("neg", "neg_")
def _neg(a):
    return wrap(_map(S().neg, raw(a)))


@h("reciprocal", "reciprocal_")
def _recip(a):
    return wrap(_map(S().inv, raw(a)))


def _unary(name):
    def f(a):
        st = S()
        return wrap(_map(lambda x: st.uf(name, x), raw(a)))

    return f


for _n in ("exp", "log", "tanh", "sigmoid", "erf", "sin", "cos"):
    HANDLERS[_n] = _unary(_n)
    HANDLERS[_n + "_"] = _unary(_n)


@h("sqrt", "sqrt_")
def _sqrt(a):
    st = S()
    return wrap(_map(lambda x: st.uf("sqrt", x), raw(a)))


@h("rsqrt", "rsqrt_")
def _rsqrt(a):
    st = S()
    return wrap(_map(lambda x: st.inv(st.uf("sqrt", x)), raw(a)))


@h("abs", "abs_")
def _abs(a):
    st = S()
    return wrap(_map(lambda x: st.max_n([x, st.neg(x)]), raw(a)))


@h("relu", "relu_")
def _relu(a):
    st = S()
    return wrap(_map(lambda x: st.max_n([x, st.zero]), raw(a)))


def _gelu1(x, approximate="none"):
    st = S()
    if st.is_const(x) and st.cval(x) == 0:
        return st.zero
    return st.uf("gelu" if approximate == "none" else "gelu_tanh", x)


terms.EXTRA_UF["gelu"] = lambda x: 0.5 * x * (1 + math.erf(x / math.sqrt(2)))
terms.EXTRA_UF["gelu_tanh"] = lambda x: 0.5 * x * (
    1 + math.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x**3))
)


@h("gelu", "gelu_")
def _gelu(a, approximate="none"):
    return wrap(_map(lambda x: _gelu1(x, approximate), raw(a)))


@h("silu", "silu_")
def _silu(a):
    st = S()
    return wrap(_map(lambda x: st.mul(x, st.uf("sigmoid", x)), raw(a)))


@h("leaky_relu", "leaky_relu_")
def _lrelu(a, negative_slope=0.01):
    st = S()
    sl = sid(negative_slope)
    return wrap(
        _map(lambda x: st.ite(st.cmp("lt", st.zero, x), x, st.mul(sl, x)), raw(a))
    )


@h("threshold", "threshold_")
def _threshold(a, threshold, value):
    st = S()
    th, v = sid(threshold), sid(value)
    return wrap(_map(lambda x: st.ite(st.cmp("le", x, th), v, x), raw(a)))


@h("elu", "elu_")
def _elu(a, alpha=1, scale=1, input_scale=1):
    st = S()
    al, sc, isc = sid(alpha), sid(scale), sid(input_scale)

    def f(x):
        neg = st.mul(
            st.mul(al, sc), st.sub(st.uf("exp", st.mul(x, isc)), st.one)
        )
        return st.ite(st.cmp("lt", st.zero, x), st.mul(sc, x), neg)

    return wrap(_map(f, raw(a)))


@h("clamp", "clamp_", "hardtanh", "hardtanh_")
def _clamp(a, min=None, max=None):
    st = S()
    r = raw(a)
    if min is not None:
        r = _map(lambda x, y: st.max_n([x, y]), r, ids_of(min))
    if max is not None:
        r = _map(lambda x, y: st.min_n([x, y]), r, ids_of(max))
    return wrap(r)


@h("clamp_min", "clamp_min_")
def _clamp_min(a, min):
    return _clamp(a, min=min)


@h("clamp_max", "clamp_max_")
def _clamp_max(a, max):
    return _clamp(a, max=max)


@h("maximum")
def _maximum(a, b):
    st = S()
    return wrap(_map(lambda x, y: st.max_n([x, y]), ids_of(a), ids_of(b)))


@h("minimum")
def _minimum(a, b):
    st = S()
    return wrap(_map(lambda x, y: st.min_n([x, y]), ids_of(a), ids_of(b)))


@h("pow", "pow_")
def _pow(a, b):
    st = S()
    if isinstance(b, torch.Tensor):
        if isinstance(b, SymTensor):
            raise Unsupported("symbolic exponent")
        b = b.item()

    def f(x):
        if b == 0.5:
            return st.uf("sqrt", x)
        if b == -0.5:
            return st.inv(st.uf("sqrt", x))
        if b != int(b):
            raise Unsupported("pow")
        n = int(abs(b))
        r = st.one
        for _ in range(n):
            r = st.mul(r, x)
        return st.inv(r) if b < 0 else r

    if not isinstance(a, torch.Tensor):
        raise Unsupported("pow scalar base")
    return wrap(_map(f, raw(a)))


@h("square")
def _square(a):
    return _pow(a, 2)


@h("exp2")
def _exp2(a):
    raise Unsupported("exp2")


@h("expm1")
def _expm1(a):
    st = S()
    return wrap(_map(lambda x: st.sub(st.uf("exp", x), st.one), raw(a)))


@h("sign", "sgn")
def _sign(a):
    st = S()
    one, neg = st.one, st.const(-1)
    return wrap(_map(lambda x: st.ite(st.cmp("lt", st.zero, x), one, st.ite(st.cmp("lt", x, st.zero), neg, st.zero)), raw(a)))


@h("log1p")
def _log1p(a):
    st = S()
    return wrap(_map(lambda x: st.uf("log", st.add(st.one, x)), raw(a)))


@h("rrelu_with_noise", "rrelu_with_noise_", "rrelu_with_noise_functional")
def _rrelu(a, noise, lower=0.125, upper=1.0 / 3, training=False, generator=None):
    if training:
        raise Unsupported("rrelu in training mode")
    return _lrelu(a, (lower + upper) / 2)


@h("lerp", "lerp_")
def _lerp(a, b, w):
    st = S()
    return wrap(
        _map(lambda x, y, z: st.add(x, st.mul(z, st.sub(y, x))), raw(a), raw(b), ids_of(w))
    )


@h("addcmul", "addcmul_")
def _addcmul(a, b, c, value=1):
    st = S()
    v = sid(value)
    return wrap(
        _map(lambda x, y, z: st.add(x, st.mul(v, st.mul(y, z))), raw(a), raw(b), raw(c))
    )


@h("addcdiv", "addcdiv_")
def _addcdiv(a, b, c, value=1):
    st = S()
    v = sid(value)
    return wrap(
        _map(lambda x, y, z: st.add(x, st.mul(v, st.div(y, z))), raw(a), raw(b), raw(c))
    )


# comparisons ------------------------------------------------------------------------------
def _cmp(op, swap=False, negate=False):
    def f(a, b):
        st = S()
        x, y = as_num(a), as_num(b)
        if swap:
            x, y = y, x

        def g(p, q):
            r = st.cmp(op, p, q)
            return st.bnot(r) if negate else r

        return wrap(_map(g, x, y), torch.bool)

    return f


for _n, _f in {
    "lt": _cmp("lt"),
    "gt": _cmp("lt", swap=True),
    "le": _cmp("le"),
    "ge": _cmp("le", swap=True),
    "eq": _cmp("eq"),
    "ne": _cmp("eq", negate=True),
}.items():
    HANDLERS[_n] = _f


@h("logical_not", "bitwise_not")
def _lnot(a):
    return wrap(_map(S().bnot, raw(a)), torch.bool)


@h("logical_and", "bitwise_and")
def _land(a, b):
    return wrap(_map(S().band, raw(a), raw(b)), torch.bool)


@h("logical_or", "bitwise_or")
def _lor(a, b):
    return wrap(_map(S().bor, raw(a), raw(b)), torch.bool)


@h("isnan", "isinf")
def _isnan(a):
    return torch.zeros(a.shape, dtype=torch.bool)


@h("any")
def _any(a, dim=None, keepdim=False):
    st = S()
    ids = raw(a)
    if a.dtype != torch.bool:
        ids = _map(lambda x: st.bnot(st.cmp("eq", x, st.zero)), ids)
    if dim is None:
        r = st.false
        for i in ids.reshape(-1).tolist():
            r = st.bor(r, i)
        return wrap(torch.tensor(r), torch.bool)

    def red(row):
        r = st.false
        for i in row:
            r = st.bor(r, i)
        return r

    return wrap(_reduce(ids, dim, keepdim, red), torch.bool)


@h("all")
def _all(a, dim=None, keepdim=False):
    return _lnot(_any(_lnot(_ne0(a)), dim, keepdim))


def _ne0(a):
    st = S()
    if a.dtype == torch.bool:
        return a
    return wrap(_map(lambda x: st.bnot(st.cmp("eq", x, st.zero)), raw(a)), torch.bool)


@h("equal")
def _equal(a, b):
    if a.shape != b.shape:
        return False
    st = S()
    r = st.true
    for x, y in zip(raw(a).reshape(-1).tolist(), raw(b).reshape(-1).tolist()):
        r = st.band(r, st.cmp("eq", x, y))
    return decide(r)


def decide(b):
    n = S().nodes[b]
    if n[0] == "bool":
        return n[1]
    if FORK is None:
        raise Unsupported("control flow on a symbolic value outside the engine")
    return FORK(b)


@h("_local_scalar_dense", "item")
def _item(a):
    st = S()
    i = int(a.ids.reshape(-1)[0])
    n = st.nodes[i]
    if a.dtype == torch.bool:
        return decide(i)
    if n[0] == "c":
        return float(n[1])
    if n[0] == "ninf":
        return -math.inf
    if n[0] == "pinf":
        return math.inf
    raise Unsupported("item() on symbolic real")


@h("is_nonzero")
def _nonzero_b(a):
    st = S()
    if a.dtype == torch.bool:
        return decide(int(a.ids.reshape(-1)[0]))
    return decide(st.bnot(st.cmp("eq", int(a.ids.reshape(-1)[0]), st.zero)))


@h("where")
def _where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where(cond)")
    st = S()
    if isinstance(c, SymTensor):
        return wrap(_map(st.ite, c.ids, ids_of(a), ids_of(b)))
    return wrap(torch.where(c, ids_of(a), ids_of(b)))


@h("masked_fill", "masked_fill_")
def _masked_fill(a, mask, value):
    return _where(mask, value, a)


# reductions -------------------------------------------------------------------------------
def _dims(ids, dim):
    nd = ids.dim()
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return list(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return [d % nd if nd else 0 for d in dim]


def _reduce(ids, dim, keepdim, f):
    if ids.dim() == 0:
        return torch.tensor(f([int(ids)]), dtype=torch.int64)
    dims = _dims(ids, dim)
    keep = [d for d in range(ids.dim()) if d not in dims]
    x = ids.permute(keep + dims)
    kshape = [ids.shape[d] for d in keep]
    n = math.prod(ids.shape[d] for d in dims)
    m = math.prod(kshape)
    rows = x.reshape(m, n).tolist() if n and m else [[] for _ in range(m)]
    out = torch.tensor([f(r) for r in rows], dtype=torch.int64).reshape(kshape)
    if keepdim:
        for d in sorted(dims):
            out = out.unsqueeze(d)
    return out


@h("sum", "nansum")
def _sum(a, dim=None, keepdim=False, dtype=None):
    return wrap(_reduce(as_num(a), dim, keepdim, S().add_n))


@h("mean")
def _mean(a, dim=None, keepdim=False, dtype=None):
    st = S()

    def f(row):
        from fractions import Fraction

        if not row:
            return st._mk(("nan",))
        return st.mul(st.const(Fraction(1, len(row))), st.add_n(row))

    return wrap(_reduce(raw(a), dim, keepdim, f))


@h("prod")
def _prod(a, dim=None, keepdim=False, dtype=None):
    st = S()

    def f(row):
        r = st.one
        for i in row:
            r = st.mul(r, i)
        return r

    return wrap(_reduce(raw(a), dim, keepdim, f))


@h("amax")
def _amax(a, dim=None, keepdim=False):
    return wrap(_reduce(raw(a), dim, keepdim, S().max_n))


@h("amin")
def _amin(a, dim=None, keepdim=False):
    return wrap(_reduce(raw(a), dim, keepdim, S().min_n))


def _arg_extreme(a, dim, keepdim, largest):
    """where the extreme value stands, as a term: the position of the winner, -1 on a tie of different terms"""
    st = S()

    def f(row):
        r = st.const(-1)
        for i in reversed(range(len(row))):
            c = st.true
            for j, b in enumerate(row):
                if row[i] == b:
                    if j < i:
                        c = st.false
                else:
                    c = st.band(c, st.cmp("lt", b, row[i]) if largest else st.cmp("lt", row[i], b))
            r = st.ite(c, st.const(i), r)
        return r

    ids = _reduce(raw(a), dim, keepdim, f)
    if all(st.nodes[i][0] == "c" and st.nodes[i][1] >= 0 for i in ids.reshape(-1).tolist()):
        return torch.tensor([int(st.nodes[i][1]) for i in ids.reshape(-1).tolist()], dtype=torch.int64).reshape(ids.shape)
    return wrap(ids, torch.int64)


def _sym_scatter(a, dim, index, src, inplace):
    """scatter along dim to places which are terms"""
    st = S()
    out = raw(a).clone()
    d = dim % max(out.dim(), 1)
    idx, val = raw(index), raw(src)
    for pos in itertools.product(*[range(n) for n in idx.shape]):
        for k in range(out.shape[d]):
            to = pos[:d] + (k,) + pos[d + 1 :]
            c = st.cmp("eq", int(idx[pos]), st.const(k))
            out[to] = st.ite(c, int(val[pos]), int(out[to]))
    if inplace:
        a.ids.copy_(out)
        return a
    return wrap(out)


def _sym_gather(a, dim, index):
    st = S()
    ids, idx = raw(a), raw(index)
    d = dim % max(ids.dim(), 1)
    out = torch.empty_like(idx)
    for pos in itertools.product(*[range(n) for n in idx.shape]):
        r = int(ids[pos[:d] + (0,) + pos[d + 1 :]])
        for k in range(1, ids.shape[d]):
            r = st.ite(st.cmp("eq", int(idx[pos]), st.const(k)), int(ids[pos[:d] + (k,) + pos[d + 1 :]]), r)
        out[pos] = r
    return wrap(out)


@h("max")
def _max(a, *rest, **k):
    if not rest and "dim" not in k:
        return _amax(a)
    if rest and isinstance(rest[0], torch.Tensor):
        return _maximum(a, rest[0])
    dim = rest[0] if rest else k["dim"]
    keep = rest[1] if len(rest) > 1 else k.get("keepdim", False)
    return _amax(a, dim, keep), _arg_extreme(a, dim, keep, True)


@h("min")
def _min(a, *rest, **k):
    if not rest and "dim" not in k:
        return _amin(a)
    if rest and isinstance(rest[0], torch.Tensor):
        return _minimum(a, rest[0])
    dim = rest[0] if rest else k["dim"]
    keep = rest[1] if len(rest) > 1 else k.get("keepdim", False)
    return _amin(a, dim, keep), _arg_extreme(a, dim, keep, False)


@h("cumsum")
def _cumsum(a, dim, dtype=None):
    st = S()
    ids = raw(a).clone()
    for i in range(1, ids.shape[dim]):
        ids.select(dim, i).copy_(_map(st.add, ids.select(dim, i - 1), ids.select(dim, i)))
    return wrap(ids)


@h("var")
def _var(a, dim=None, correction=1, keepdim=False, unbiased=None):
    from fractions import Fraction

    st = S()
    if unbiased is not None:
        correction = 1 if unbiased else 0

    def f(row):
        n = len(row)
        m = st.mul(st.const(Fraction(1, n)), st.add_n(row))
        ds = [st.sub(x, m) for x in row]
        return st.mul(
            st.const(Fraction(1, n - (correction or 0))), st.add_n([st.mul(d, d) for d in ds])
        )

    return wrap(_reduce(raw(a), dim, keepdim, f))


# linear algebra ---------------------------------------------------------------------------
def _dot(st, xs, ys):
    r = st.zero
    for x, y in zip(xs, ys):
        r = st.add(r, st.mul(x, y))
    return r


def _mm_ids(a, b):
    st = S()
    A, B = a.tolist(), b.t().tolist()
    return torch.tensor(
        [[_dot(st, r, c) for c in B] for r in A], dtype=torch.int64
    ).reshape(a.shape[0], b.shape[1])


def _hide_linear(r):
    """scenario option hide="linear": matrix products in the forward pass become opaque variables
    (named by their polynomial), so that exponentials of them stay small"""
    if HIDE["on"] == "linear" and torch.is_grad_enabled():
        st = S()
        return wrap(_map(st.hide, r.ids))
    return r


@h("mm")
def _mm(a, b):
    return _hide_linear(wrap(_mm_ids(raw(a), raw(b))))


@h("bmm")
def _bmm(a, b):
    a, b = raw(a), raw(b)
    if a.shape[0] == 0:
        return wrap(torch.zeros((0, a.shape[1], b.shape[2]), dtype=torch.int64))
    return wrap(torch.stack([_mm_ids(x, y) for x, y in zip(a, b)]))


@h("addmm", "addmm_")
def _addmm(c, a, b, beta=1, alpha=1):
    return _add(_mul(c, beta), _mul(_mm(a, b), alpha))


@h("baddbmm", "baddbmm_")
def _baddbmm(c, a, b, beta=1, alpha=1):
    return _add(_mul(c, beta), _mul(_bmm(a, b), alpha))


@h("mv")
def _mv(a, b):
    return wrap(_mm_ids(raw(a), raw(b).reshape(-1, 1)).reshape(-1))


@h("addmv")
def _addmv(c, a, b, beta=1, alpha=1):
    return _add(_mul(c, beta), _mul(_mv(a, b), alpha))


@h("dot", "vdot")
def _dotp(a, b):
    return wrap(torch.tensor(_dot(S(), raw(a).tolist(), raw(b).tolist())))


@h("linear")
def _linear(x, w, b=None):
    xs = raw(x)
    r = wrap(_mm_ids(xs.reshape(-1, xs.shape[-1]), raw(w).t()).reshape(*xs.shape[:-1], w.shape[0]))
    r = _hide_linear(r)
    return r if b is None else _add(r, b)


@h("convolution", "convolution_overrideable", "_convolution")
def _convolution(x, w, b, stride, padding, dilation, transposed, output_padding, groups, *_):
    if transposed:
        raise Unsupported("transposed conv")
    st = S()
    X, W = raw(x), raw(w)
    nd = X.dim() - 2

    def ex(v):
        return list(v) * nd if len(v) == 1 else list(v)

    stride, padding, dilation = ex(stride), ex(padding), ex(dilation)
    pad = []
    for p in reversed(padding):
        pad += [p, p]
    if any(pad):
        X = torch.nn.functional.pad(X, pad, value=st.zero)
    k = W.shape[2:]
    U = X
    for d in range(nd):
        span = dilation[d] * (k[d] - 1) + 1
        U = U.unfold(2 + d, span, stride[d])[..., :: dilation[d]]
    # U: N, C, out..., k...
    N, C = X.shape[:2]
    out_sp = list(U.shape[2 : 2 + nd])
    O = W.shape[0]
    cg, og = C // groups, O // groups
    res = torch.zeros([N, O] + out_sp, dtype=torch.int64)
    perm = [0] + [2 + d for d in range(nd)] + [1] + [2 + nd + d for d in range(nd)]
    for g in range(groups):
        Ug = U[:, g * cg : (g + 1) * cg].permute(perm).reshape(N * math.prod(out_sp), -1)
        Wg = W[g * og : (g + 1) * og].reshape(og, -1)
        r = _mm_ids(Ug, Wg.t())  # N*out, og
        r = r.reshape([N] + out_sp + [og])
        r = r.permute([0, nd + 1] + [1 + d for d in range(nd)])
        res[:, g * og : (g + 1) * og] = r
    r = wrap(res)
    if b is not None:
        r = _add(r, wrap(raw(b).reshape([1, -1] + [1] * nd)))
    return r


HIDE = {"on": False}


def _maybe_hide(ids, thr=0):
    if not HIDE["on"]:
        return ids
    st = S()
    return _map(lambda i: st.hide(i, thr), ids)


@h("_softmax", "softmax", "_safe_softmax")
def _softmax(a, dim, half_to_float=False):
    st = S()
    ids = raw(a)
    e = _map(lambda x: st.uf("exp", x), ids)
    s = _reduce(e, [dim], True, st.add_n)
    return wrap(_map(st.div, e, s.expand_as(e)))


@h("native_layer_norm")
def _layer_norm(x, normalized_shape, weight, bias, eps):
    from fractions import Fraction

    st = S()
    ids = _maybe_hide(raw(x))
    nd = len(normalized_shape)
    lead = ids.shape[: ids.dim() - nd]
    n = math.prod(normalized_shape)
    rows = ids.reshape(-1, n).tolist()
    e = sid(eps)
    out = []
    for r in rows:
        m = st.mul(st.const(Fraction(1, n)), st.add_n(r))
        d = [st.sub(v, m) for v in r]
        var = st.mul(st.const(Fraction(1, n)), st.add_n([st.mul(q, q) for q in d]))
        rs = st.inv(st.uf("sqrt", st.add(var, e)))
        out.append([st.mul(q, rs) for q in d])
    o = torch.tensor(out, dtype=torch.int64).reshape(ids.shape)
    if weight is not None:
        o = _map(st.mul, o, raw(weight).expand_as(o))
    if bias is not None:
        o = _map(st.add, o, raw(bias).expand_as(o))
    o = _maybe_hide(o)
    # mean and rstd are only read by the backward pass, which recomputes them and needs eps
    z = wrap(torch.full(list(lead) + [1] * nd, e, dtype=torch.int64))
    return wrap(o), z, z


@h("native_batch_norm", "_native_batch_norm_legit", "_native_batch_norm_legit_no_training", "cudnn_batch_norm")
def _batch_norm(x, weight, bias, mean, var, *rest):
    st = S()
    if len(rest) == 3:
        training, momentum, eps = rest
    else:
        training, (momentum, eps) = False, rest
    if training:
        raise Unsupported("batch_norm in training mode")
    ids = raw(x)
    shp = [1, -1] + [1] * (ids.dim() - 2)
    e = sid(eps)
    rs = _map(lambda v: st.inv(st.uf("sqrt", st.add(v, e))), raw(var)).reshape(shp)
    o = _map(lambda a, m, r: st.mul(st.sub(a, m), r), ids, raw(mean).reshape(shp), rs)
    if weight is not None:
        o = _map(st.mul, o, raw(weight).reshape(shp))
    if bias is not None:
        o = _map(st.add, o, raw(bias).reshape(shp))
    z = wrap(torch.zeros(0, dtype=torch.int64))
    return wrap(o), z, z


@h("_batch_norm_impl_index")
def _bni(x, weight, bias, mean, var, training, momentum, eps, cudnn):
    r = _batch_norm(x, weight, bias, mean, var, training, momentum, eps)
    return r + (torch.zeros(0, dtype=torch.uint8), 0)


@h("native_dropout")
def _dropout(x, p, train=None):
    if train and p > 0:
        raise Unsupported("dropout")
    return x, torch.ones(x.shape, dtype=torch.bool)


@h("bernoulli", "bernoulli_")
def _bern(*a, **k):
    raise Unsupported("randomness")


# pooling ----------------------------------------------------------------------------------
def _expand(v, nd, default=None):
    v = list(v) if v is not None else []
    if not v:
        v = list(default)
    return v * nd if len(v) == 1 else v


def _windows(ids, nd, k, s, p, d, ceil_mode):
    """yield (out sizes, function out_index -> list of (flat positions inside), padded extent)"""
    sizes = list(ids.shape[-nd:])
    outs = []
    for n, kk, ss, pp, dd in zip(sizes, k, s, p, d):
        num = n + 2 * pp - dd * (kk - 1) - 1
        o = (-(-num // ss) if ceil_mode else num // ss) + 1
        if ceil_mode and (o - 1) * ss >= n + pp:
            o -= 1
        if o <= 0:
            raise RuntimeError("pooling output size is too small")
        outs.append(o)
    return sizes, outs


def _pool(ids, nd, k, s, p, d, ceil_mode, red):
    import itertools

    sizes, outs = _windows(ids, nd, k, s, p, d, ceil_mode)
    lead = list(ids.shape[:-nd])
    X = ids.reshape([-1] + sizes)
    flat = X.reshape(X.shape[0], -1).tolist()
    strides = [math.prod(sizes[i + 1 :]) for i in range(nd)]
    res = []
    cells = []
    for o in itertools.product(*[range(n) for n in outs]):
        axes, padcount = [], 1
        for i in range(nd):
            st0 = o[i] * s[i] - p[i]
            pos = [st0 + j * d[i] for j in range(k[i])]
            end = min(st0 + (k[i] - 1) * d[i] + 1, sizes[i] + p[i])
            padcount *= end - st0
            axes.append([q for q in pos if 0 <= q < sizes[i]])
        cells.append(
            ([sum(a * b for a, b in zip(c, strides)) for c in itertools.product(*axes)], padcount)
        )
    for row in flat:
        res.append([red([row[i] for i in c], pc) for c, pc in cells])
    return torch.tensor(res, dtype=torch.int64).reshape(lead + outs)


def _maxpool(nd):
    def f(x, kernel_size, stride=(), padding=(0,), dilation=(1,), ceil_mode=False):
        st = S()
        ids = raw(x)
        k = _expand(kernel_size, nd)
        s = _expand(stride, nd, k)
        p, d = _expand(padding, nd), _expand(dilation, nd)
        if any(2 * pp > kk for pp, kk in zip(p, k)):
            raise RuntimeError("pad should be at most half of effective kernel size")
        r = _pool(ids, nd, k, s, p, d, ceil_mode, lambda v, pc: st.max_n(v))
        return wrap(r), torch.zeros(r.shape, dtype=torch.int64)

    return f


HANDLERS["max_pool2d_with_indices"] = _maxpool(2)
HANDLERS["max_pool3d_with_indices"] = _maxpool(3)
HANDLERS["max_pool1d_with_indices"] = _maxpool(1)
HANDLERS["max_pool1d"] = lambda *a, **k: _maxpool(1)(*a, **k)[0]
HANDLERS["max_pool2d"] = lambda *a, **k: _maxpool(2)(*a, **k)[0]
HANDLERS["max_pool3d"] = lambda *a, **k: _maxpool(3)(*a, **k)[0]


def _avgpool(nd):
    def f(x, kernel_size, stride=(), padding=(0,), ceil_mode=False, count_include_pad=True, divisor_override=None):
        from fractions import Fraction

        st = S()
        ids = raw(x)
        k = _expand(kernel_size, nd)
        s = _expand(stride, nd, k)
        p = _expand(padding, nd)
        if any(2 * pp > kk for pp, kk in zip(p, k)):
            raise RuntimeError("pad should be at most half of kernel size")

        def red(v, pc):
            n = divisor_override or (pc if count_include_pad else len(v))
            return st.mul(st.const(Fraction(1, n)), st.add_n(v))

        return wrap(_pool(ids, nd, k, s, p, [1] * nd, ceil_mode, red))

    return f


HANDLERS["avg_pool1d"] = _avgpool(1)
HANDLERS["avg_pool2d"] = _avgpool(2)
HANDLERS["avg_pool3d"] = _avgpool(3)


def _adaptive(nd, kind):
    import itertools

    def f(x, output_size):
        from fractions import Fraction

        st = S()
        ids = raw(x)
        sizes = list(ids.shape[-nd:])
        outs = [n if o is None else o for n, o in zip(sizes, _expand(output_size, nd))]
        X = ids.reshape([-1] + sizes)
        res = []
        for b in range(X.shape[0]):
            for o in itertools.product(*[range(n) for n in outs]):
                sl = tuple(
                    slice((o[i] * sizes[i]) // outs[i], -(-((o[i] + 1) * sizes[i]) // outs[i]))
                    for i in range(nd)
                )
                v = X[b][sl].reshape(-1).tolist()
                if kind == "avg":
                    res.append(st.mul(st.const(Fraction(1, len(v))), st.add_n(v)))
                else:
                    res.append(st.max_n(v))
        r = torch.tensor(res, dtype=torch.int64).reshape(list(ids.shape[:-nd]) + outs)
        if kind == "avg":
            return wrap(r)
        return wrap(r), torch.zeros(r.shape, dtype=torch.int64)

    return f


for _nd in (1, 2, 3):
    HANDLERS[f"_adaptive_avg_pool{_nd}d"] = _adaptive(_nd, "avg")
    HANDLERS[f"adaptive_avg_pool{_nd}d"] = _adaptive(_nd, "avg")
    HANDLERS[f"adaptive_max_pool{_nd}d"] = _adaptive(_nd, "max")


# factories / fills ------------------------------------------------------------------------
@h("fill_", "fill")
def _fill(a, v):
    return wrap(torch.full(a.shape, sid(v), dtype=torch.int64))


@h("zero_", "zero")
def _zero(a):
    return wrap(torch.zeros(a.shape, dtype=torch.int64))


@h("zeros_like")
def _zeros_like(a, **k):
    return _like(a, S().zero, k)


@h("ones_like")
def _ones_like(a, **k):
    return _like(a, S().one, k)


@h("full_like")
def _full_like(a, v, **k):
    return _like(a, sid(v), k)


@h("empty_like")
def _empty_like(a, **k):
    dt = k.get("dtype")
    if dt is not None and not dt.is_floating_point:
        return torch.zeros(a.shape, dtype=dt)
    return wrap(fresh(tuple(a.shape)))


@h("rand_like", "randn_like")
def _rand_like(a, **k):
    return wrap(fresh(tuple(a.shape), "rand"))


def _like(a, i, k):
    dt = k.get("dtype")
    st = S()
    if dt is not None and not dt.is_floating_point:
        return torch.full(a.shape, int(st.cval(i)), dtype=dt)
    if a.dtype == torch.bool:
        return torch.full(a.shape, bool(st.cval(i)), dtype=torch.bool)
    return wrap(torch.full(a.shape, i, dtype=torch.int64))


@h("new_zeros", "new_ones", "new_full", "new_empty", "new_empty_strided")
def _new(func_name):
    raise AssertionError


def _new_factory(name, a, size, *rest, **k):
    st = S()
    dt = k.get("dtype")
    if name == "new_full":
        v = rest[0]
    else:
        v = 0.0 if "zeros" in name else 1.0
    if dt is not None and not dt.is_floating_point:
        return torch.full(size, v, dtype=dt)
    if "empty" in name:
        return wrap(fresh(tuple(size)))
    return wrap(torch.full(size, sid(v), dtype=torch.int64))


for _n in ("new_zeros", "new_ones", "new_full", "new_empty", "new_empty_strided"):
    HANDLERS[_n] = (lambda nm: lambda a, size, *r, **k: _new_factory(nm, a, size, *r, **k))(_n)


@h("uniform_", "normal_", "random_", "exponential_")
def _rand(a, *r, **k):
    return wrap(fresh(tuple(a.shape), "rand"))


@h("constant_pad_nd")
def _cpad(a, pad, value=0):
    return wrap(torch.constant_pad_nd(raw(a), pad, sid(value)))


def _via_float(func):
    def f(a, *r, **k):
        ids = raw(a).to(torch.float64)
        return wrap(func(ids, *r, **k).to(torch.int64))

    return f


@h("_to_copy")
def _to_copy(a, dtype=None, **k):
    st = S()
    if dtype is None or dtype.is_floating_point:
        if a.dtype == torch.bool:
            return wrap(_map(lambda c: st.ite(c, st.one, st.zero), a.ids))
        return wrap(a.ids.clone(), torch.float64)
    if dtype == torch.bool:
        if a.dtype == torch.bool:
            return wrap(a.ids.clone(), torch.bool)
        return _ne0(a)
    # to integer: only constants
    vals = []
    for i in a.ids.reshape(-1).tolist():
        n = st.nodes[i]
        if n[0] == "bool":
            vals.append(int(n[1]))
        elif n[0] == "c":
            vals.append(int(n[1]))
        elif a.dtype == torch.bool:
            vals.append(int(decide(i)))
        else:
            raise Unsupported("symbolic real to integer")
    return torch.tensor(vals, dtype=dtype).reshape(a.shape)


@h("copy_")
def _copy_(dst, src, non_blocking=False):
    if not isinstance(dst, SymTensor):
        raise Unsupported("write of a symbolic value into a concrete tensor")
    dst.ids.copy_(as_num(src) if dst.dtype != torch.bool else raw(src))
    return dst


@h("copy")
def _copy(dst, src, non_blocking=False):
    return wrap(as_num(src).expand(dst.shape).clone())


@h("embedding")
def _embedding(weight, indices, padding_idx=-1, scale_grad_by_freq=False, sparse=False):
    if isinstance(indices, SymTensor):
        raise Unsupported("symbolic index")
    return wrap(raw(weight)[indices])


@h("histc", "bincount", "sort", "topk", "argmax", "argmin", "argsort")
def _unsup(*a, **k):
    raise Unsupported("order-dependent operation")


@h("as_strided_")
def _as_strided_(x, size, stride, storage_offset=None):
    # used by torch to relabel the memory format of its own result: same elements, same shape
    if list(size) == list(x.shape) and torch.equal(torch.as_strided(raw(x), size, stride, storage_offset), raw(x)):
        return x
    raise Unsupported("as_strided_")


# data movement: run on ids ----------------------------------------------------------------
MOVE = set(
    """view _unsafe_view reshape permute transpose transpose_ t t_ expand slice select index index_select
    gather cat stack clone detach detach_ alias unsqueeze unsqueeze_ squeeze squeeze_ split
    split_with_sizes unbind flip roll repeat as_strided unfold index_put index_put_ _index_put_impl_
    index_copy index_copy_ scatter scatter_ diagonal movedim chunk tile narrow narrow_copy expand_copy
    view_copy select_copy slice_copy slice_scatter select_scatter lift_fresh lift lift_fresh_copy
    _reshape_alias take take_along_dim contiguous flatten unflatten ravel repeat_interleave
    masked_select swapaxes swapdims hstack vstack dstack concat concatenate rot90 adjoint mT mH
    view_as expand_as squeeze_copy unsqueeze_copy permute_copy transpose_copy t_copy
    diagonal_scatter as_strided_copy unbind_copy split_copy alias_copy detach_copy select_backward
    tril_indices im2col pixel_shuffle channel_shuffle block_diag atleast_1d atleast_2d atleast_3d
    resolve_conj resolve_neg conj real _conj positive _neg_view data set_data fliplr flipud""".split()
)
# value-sensitive movement where id 0 == const 0 makes integer execution right
MOVE |= {"tril", "triu", "tril_", "triu_", "diag", "diag_embed"}
PADS = {
    "reflection_pad1d", "reflection_pad2d", "reflection_pad3d",
    "replication_pad1d", "replication_pad2d", "replication_pad3d",
}
INPLACE_MOVE_KEEP = {"index_put_", "_index_put_impl_", "index_copy_", "scatter_", "tril_", "triu_"}
RESHAPE_INPLACE = {"unsqueeze_", "squeeze_", "transpose_", "t_", "detach_"}
FACTORY = set(
    """zeros ones full empty eye rand randn scalar_tensor lift_fresh linspace arange
    empty_strided tensor from_file zeros_like ones_like full_like empty_like rand_like randn_like
    empty_memory_format new_zeros new_ones new_full new_empty normal bernoulli lift tril triu
    hann_window _efficientzerotensor""".split()
)

STATS = {"ops": 0, "op_names": set()}
_decomp_table = None


def _decomp(func):
    global _decomp_table
    if _decomp_table is None:
        from torch._decomp import core_aten_decompositions, decomposition_table

        _decomp_table = dict(decomposition_table)
        _decomp_table.update(core_aten_decompositions())
    return _decomp_table.get(func)


def _index_add(a, indices, values, inplace):
    """index_put with accumulate: what lands on the same place is added up"""
    if any(isinstance(i, SymTensor) for i in indices if i is not None):
        raise Unsupported("symbolic index")
    st = S()
    place = aten.index(torch.arange(a.numel()).reshape(a.shape), indices)
    flat = raw(a).reshape(-1).tolist()
    for i, v in zip(place.reshape(-1).tolist(), raw(values).expand(place.shape).reshape(-1).tolist()):
        flat[i] = st.add(flat[i], v)
    out = torch.tensor(flat, dtype=torch.int64).reshape(a.shape)
    if not inplace:
        return wrap(out)
    a.ids.copy_(out)
    return a


def _unwrap_move(x):
    return x.ids if isinstance(x, SymTensor) else x


def dispatch(func, args, kwargs):
    flat, spec = tree_flatten((args, kwargs))
    syms = [x for x in flat if isinstance(x, SymTensor)]
    name = func._schema.name.split("::")[1]
    if not syms:
        return concrete(func, name, args, kwargs)
    STATS["ops"] += 1
    STATS["op_names"].add(name)
    if name in PADS:
        return _via_float(func)(*args, **kwargs)
    if name in MOVE:
        if name == "index_put" or name in ("index_put_", "_index_put_impl_"):
            acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
            if acc:
                return _index_add(args[0], args[1], args[2], name.endswith("_"))
            # symbolic bool mask -> where
            if any(isinstance(i, SymTensor) for i in args[1] if i is not None):
                if len(args[1]) == 1 and args[2].numel() == 1:
                    r = _where(args[1][0], args[2].reshape(()), args[0])
                    if name.endswith("_"):
                        args[0].ids.copy_(r.ids)
                        return args[0]
                    return r
                raise Unsupported("symbolic mask index_put")
        # any float concrete operand must be converted
        dt = syms[0].dtype

        def cv(x):
            if isinstance(x, SymTensor):
                return x.ids
            if isinstance(x, torch.Tensor) and (
                x.dtype.is_floating_point
                or (x.dtype == torch.bool and dt == torch.bool and name in ("cat", "stack"))
            ):
                return raw(x)
            return x

        if name in ("scatter", "scatter_") and isinstance(args[2], SymTensor) and isinstance(args[3], torch.Tensor):
            if name == "scatter_" and not isinstance(args[0], SymTensor):
                raise Unsupported("scatter_ of symbolic into concrete")
            return _sym_scatter(args[0], args[1], args[2], args[3], name == "scatter_")
        if name == "gather" and isinstance(args[2], SymTensor):
            return _sym_gather(args[0], args[1], args[2])
        if name in ("scatter", "scatter_", "index_fill") and not isinstance(args[-1], torch.Tensor):
            args = args[:-1] + (torch.tensor(sid(args[-1])),)
            flat, spec = tree_flatten((args, kwargs))
            raise Unsupported("scatter with scalar")
        if name == "clone" or name == "contiguous":
            pass
        if not isinstance(args[0], (list, tuple)) and not isinstance(args[0], SymTensor) and name.endswith("_"):
            raise Unsupported(f"{name} of symbolic into concrete")
        if name.startswith("index") and any(
            isinstance(i, SymTensor) for i in (args[1] if isinstance(args[1], (list, tuple)) else [args[1]])
        ):
            raise Unsupported("symbolic index")
        f2 = [cv(x) for x in flat]
        a2, k2 = tree_unflatten(f2, spec)
        k2.pop("dtype", None)
        out = func(*a2, **k2)
        if name in INPLACE_MOVE_KEEP:
            return args[0]
        if name in RESHAPE_INPLACE:
            if name == "detach_":
                return args[0]
            raise Unsupported(name)
        of, ospec = tree_flatten(out)
        of = [wrap(o, dt) if isinstance(o, torch.Tensor) else o for o in of]
        return tree_unflatten(of, ospec)
    hd = HANDLERS.get(name)
    if hd is not None:
        inplace = name.endswith("_") and not name.endswith("__") and name != "copy_"
        is_out = func._schema.overload_name.endswith("out") or "out" in kwargs
        if is_out:
            out = kwargs.pop("out")
            r = hd(*args, **_clean(kwargs))
            out.ids.copy_(r.ids)
            return out
        r = hd(*args, **_clean(kwargs))
        if inplace:
            tgt = args[0]
            if not isinstance(tgt, SymTensor):
                raise Unsupported(f"{name}: symbolic into concrete")
            tgt.ids.copy_(r.ids)
            if isinstance(r, SymTensor) and r.dtype != tgt.dtype:
                raise Unsupported("dtype change in place")
            return tgt
        return r
    if name.endswith("_") and HANDLERS.get(name[:-1]) is not None:
        r = HANDLERS[name[:-1]](*args, **_clean(kwargs))
        args[0].ids.copy_(r.ids)
        return args[0]
    d = _decomp(func)
    if d is not None:
        with MODE_REENTER():
            r = d(*args, **kwargs)
        if r is not NotImplemented:
            return r
    if func.has_kernel_for_dispatch_key(torch._C.DispatchKey.CompositeImplicitAutograd):
        with MODE_REENTER():
            return func.decompose(*args, **kwargs)
    if name in ("_has_compatible_shallow_copy_type", "is_same_size"):
        return tuple(args[0].shape) == tuple(args[1].shape) if name == "is_same_size" else True
    raise Unsupported(f"aten op {func}")


def _clean(kwargs):
    return {
        k: v
        for k, v in kwargs.items()
        if k not in ("memory_format", "layout", "device", "pin_memory", "requires_grad", "generator", "implicit")
    }


def concrete(func, name, args, kwargs):
    """no symbolic operand: execute in torch; float results of factories become symbolic constants"""
    flat, _ = tree_flatten((args, kwargs))
    has_tensor = any(isinstance(x, torch.Tensor) for x in flat)
    fac = not has_tensor or name in FACTORY
    if fac and name in ("empty", "empty_strided", "empty_like", "new_empty"):
        r = func(*args, **kwargs)
        if r.dtype.is_floating_point and not getattr(MODE_STATE, "off", False):
            return wrap(fresh(tuple(r.shape)))
        return r
    if fac and name in ("rand", "randn"):
        r = func(*args, **kwargs)
        return wrap(fresh(tuple(r.shape), "rand"))
    r = func(*args, **kwargs)
    if fac and isinstance(r, torch.Tensor) and r.dtype.is_floating_point and not isinstance(r, SymTensor):
        return wrap(raw(r))
    return r


class _ModeState:
    off = False


MODE_STATE = _ModeState()


class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


class MODE_REENTER:
    """decompositions run with the mode active again"""

    def __enter__(self):
        self.m = SymMode()
        self.m.__enter__()

    def __exit__(self, *a):
        self.m.__exit__(*a)


class SymFn(torch.overrides.TorchFunctionMode):
    """torch's C++ RNNs transpose their result in place when batch_first=True (metadata change of
    a tensor, which a wrapper cannot follow): run them time-first on transposed operands."""

    RNNS = {"gru", "lstm", "rnn_tanh", "rnn_relu"}

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        nm = getattr(func, "__name__", "")
        if nm in self.RNNS and not kwargs and len(args) == 9 and args[8] is True:
            if isinstance(args[0], torch.Tensor) and not isinstance(args[1], bool) and isinstance(args[3], bool):
                a = list(args)
                a[0] = a[0].transpose(0, 1)
                a[8] = False
                r = func(*a)
                return (r[0].transpose(0, 1),) + tuple(r[1:])
        return func(*args, **kwargs)
