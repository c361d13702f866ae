"""Scenario engine: symbolic run, solver obligations, concrete replay.

A scenario is a python function `fn(env)` that drives the real library code.  The same function
runs in two modes:
  symbolic  env.sym=True : tensors are SymTensors; `env.eq` collects proof obligations;
                           `env.choose` / symbolic booleans fork the run (all feasible paths);
  concrete  env.sym=False: ordinary float64 tensors (values from a solver model or a seeded
                           generator), decisions replayed; `env.eq` compares numerically.
"""
import contextlib
import gc
import itertools
import hashlib
import math
import os
import random
import sys
import time
import traceback

import torch
import z3

from . import backward, solve, symtensor, terms  # noqa: F401
from .symtensor import SymFn, SymMode, SymTensor, raw, wrap
from .terms import Unsupported


class SymZB:
    """boolean over symbolic integers; python control flow on it forks"""

    def __init__(self, z, env):
        self.z, self.env = z, env

    def __bool__(self):
        z = z3.simplify(self.z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return self.env.branch(z)

    def __and__(self, o):
        return SymZB(z3.And(self.z, o.z if isinstance(o, SymZB) else bool(o)), self.env)

    def __or__(self, o):
        return SymZB(z3.Or(self.z, o.z if isinstance(o, SymZB) else bool(o)), self.env)


class SymZ:
    """symbolic integer proxy"""

    def __init__(self, z, env):
        self.z, self.env = z, env

    def _o(self, o):
        if isinstance(o, SymZ):
            return o.z
        if isinstance(o, bool) or not isinstance(o, int):
            return None
        return z3.IntVal(o)

    def _bin(self, o, f):
        z = self._o(o)
        if z is None:
            return NotImplemented
        return SymZ(f(self.z, z), self.env)

    def _cmp(self, o, f):
        z = self._o(o)
        if z is None:
            return NotImplemented
        return SymZB(f(self.z, z), self.env)

    __add__ = __radd__ = lambda s, o: s._bin(o, lambda a, b: a + b)
    __sub__ = lambda s, o: s._bin(o, lambda a, b: a - b)
    __rsub__ = lambda s, o: s._bin(o, lambda a, b: b - a)
    __mul__ = __rmul__ = lambda s, o: s._bin(o, lambda a, b: a * b)
    __neg__ = lambda s: SymZ(-s.z, s.env)
    __pos__ = lambda s: s
    __lt__ = lambda s, o: s._cmp(o, lambda a, b: a < b)
    __le__ = lambda s, o: s._cmp(o, lambda a, b: a <= b)
    __gt__ = lambda s, o: s._cmp(o, lambda a, b: a > b)
    __ge__ = lambda s, o: s._cmp(o, lambda a, b: a >= b)
    __eq__ = lambda s, o: s._cmp(o, lambda a, b: a == b)
    __ne__ = lambda s, o: s._cmp(o, lambda a, b: a != b)
    __hash__ = lambda s: 0
    __bool__ = lambda s: bool(s != 0)
    __abs__ = lambda s: -s if s < 0 else s
    __repr__ = lambda s: f"SymZ({z3.simplify(s.z)})"
    __index__ = __int__ = lambda s: s._conc()

    def __floordiv__(self, o):
        z = self._o(o)
        if z is None:
            return NotImplemented
        if not (self._wrap(z) > 0):
            raise Unsupported("division by non-positive symbolic integer")
        return SymZ(self.z / z, self.env)  # z3 int division floors for positive divisors

    def __mod__(self, o):
        z = self._o(o)
        if z is None:
            return NotImplemented
        if not (self._wrap(z) > 0):
            raise Unsupported("modulo non-positive symbolic integer")
        return SymZ(self.z % z, self.env)

    def _wrap(self, z):
        return SymZ(z, self.env)

    def _conc(self):
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        raise Unsupported("symbolic integer used as a concrete index")


class Infeasible(Exception):
    pass


class Mismatch(Exception):
    """structural violation observed while running (None vs value, shape, python value)"""

    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class Vacuous(Exception):
    pass


REL = 1e-6


class Env:
    def __init__(self, sym, values=None, decisions=(), seed=0, scale=1.0):
        self.sym = sym
        self.values = values
        self.prefix = list(decisions)
        self.taken = []  # (label, value, n)
        self.path = []  # z3 path condition (bool term ids with polarity)
        self.smooth = False  # gradients: only where maxima have a derivative
        self.obligations = []  # (label, [(l, r)...])
        self.nontrivial = 0
        self.names = {}
        self.rng = random.Random(seed)
        self.scale = scale
        self.wide = {}
        self.failures = []  # concrete mode
        self.checks = 0
        self.refutable = []
        self.asserted = 0
        self.tr = solve.Translator() if sym else None
        self.covers = {}
        self.record = []
        self.ivars = {}
        self.iobl = []
        self.used = {}

    # ---- inputs ---------------------------------------------------------------------------
    def tensor(self, name, *shape, positive=False, shared=False):
        """shared=True: asking for the same name again gives the same variables"""
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        k = 0 if shared else self.names.get(name, 0)
        self.names[name] = k + 1
        if k:
            name = f"{name}~{k}"
        n = math.prod(shape)
        if self.sym:
            st = terms.STORE
            ids = [st.var(f"{name}[{i}]") for i in range(n)]
            if positive:
                # encoded exactly as a square plus a positive constant
                ids = [st.add(st.mul(i, i), st.const(0.5)) for i in ids]
            return wrap(torch.tensor(ids, dtype=torch.int64).reshape(shape))
        vals = []
        for i in range(n):
            v = None
            if self.values is not None:
                v = self.values.get(f"{name}[{i}]")
            if v is None:
                v = self.used.get(f"{name}[{i}]")
            if v is None:
                v = self._rand(f"{name}[{i}]")
            self.used[f"{name}[{i}]"] = v
            if positive:
                v = v * v + 0.5
            vals.append(v)
        return torch.tensor(vals, dtype=torch.float64).reshape(shape)

    def _rand(self, key):
        if self.scale == "wide":  # each tensor at a magnitude of its own
            k = key.rpartition("[")[0]
            if k not in self.wide:
                self.wide[k] = 10.0 ** self.rng.uniform(-1.0, 2.5)
            return self.rng.uniform(-1.0, 1.0) * self.wide[k]
        return self.rng.uniform(-1.0, 1.0) * self.scale

    def const(self, data):
        t = torch.tensor(data, dtype=torch.float64)
        return t

    def int(self, name, lo, hi=None):
        """an unbounded symbolic integer >= lo (concrete mode: model value or small random)"""
        if self.sym:
            z = z3.Int(name)
            self.ivars[name] = z
            self.path.append(z >= lo)
            if hi is not None:
                self.path.append(z <= hi)
            return SymZ(z, self)
        v = self.values.get(name) if self.values else None
        if v is None:
            v = self.rng.randint(lo, hi if hi is not None else lo + 6)
        v = int(v)
        self.used[name] = v
        return v

    def zc(self, x):
        return x if isinstance(x, z3.ExprRef) else self.tr.z(x)

    def assume(self, cond):
        """restrict the inputs (scenario precondition)"""
        if isinstance(cond, SymZB):
            self.path.append(cond.z)
            r, _ = solve.check([self.zc(x) for x in self.path] + self.tr.axioms)
            if r == "unsat":
                raise Infeasible()
        elif not cond:
            raise Infeasible()

    def iprove(self, label, cond):
        """integer assertion, for all values of the symbolic integers"""
        self.asserted += 1
        if isinstance(cond, SymZB):
            self.iobl.append((label, cond.z))
        elif not cond:
            self._fail(label, "integer relation is false")

    def symbolize(self, module, prefix="m", shared=False):
        """every parameter / float buffer of the module becomes a free variable"""
        seen = {}
        for mn, m in module.named_modules():
            for store, kind in ((m._parameters, "p"), (m._buffers, "b")):
                for pn, p in list(store.items()):
                    if p is None or not p.dtype.is_floating_point:
                        continue
                    if p.numel() == 0 and kind == "b":
                        continue
                    if id(p) in seen:
                        if self.sym:
                            store[pn] = seen[id(p)]
                        continue
                    positive = pn == "running_var"
                    t = self.tensor(f"{prefix}.{mn}.{pn}" if mn else f"{prefix}.{pn}", *p.shape, positive=positive, shared=shared)
                    if self.sym:
                        if kind == "p":
                            t = as_param(t)
                        seen[id(p)] = t
                        store[pn] = t
                    else:
                        seen[id(p)] = p
                        with torch.no_grad():
                            p.data = t.to(torch.float64)
            if self.sym and hasattr(m, "_flat_weights_names"):
                m._flat_weights = [getattr(m, n) if hasattr(m, n) else None for n in m._flat_weights_names]
        return module

    def tie(self, dst, src):
        """dst gets the very parameters of src (same names)"""
        s = dict(src.named_parameters())
        for mn, m in dst.named_modules():
            for pn in list(m._parameters):
                full = f"{mn}.{pn}" if mn else pn
                if m._parameters[pn] is not None:
                    m._parameters[pn] = s[full]
        return dst

    # ---- decisions -------------------------------------------------------------------------
    def choose(self, label, n):
        """nondeterministic choice in range(n) (all values explored)"""
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        if v >= n:
            raise Infeasible()
        self.taken.append((label, v, n))
        return v

    def flag(self, label):
        return bool(self.choose(label, 2))

    def branch(self, b):
        """python control flow on a symbolic boolean"""
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        st = terms.STORE
        if isinstance(b, z3.ExprRef):
            lit = b if v == 0 else z3.Not(b)
        else:
            lit = b if v == 0 else st.bnot(b)
        self.taken.append(("branch", v, 2))
        if i < len(self.prefix) - 1:  # an earlier run found this prefix feasible
            self.path.append(lit)
            return v == 0
        cond = [self.zc(x) for x in self.path] + [self.zc(lit)]
        r, _ = solve.check(cond + self.tr.axioms)
        if r == "unsat":
            raise Infeasible()
        self.path.append(lit)
        return v == 0

    # ---- assertions ------------------------------------------------------------------------
    def eq(self, label, a, b, tol=None):
        """a == b for every value: nested structures / tensors / None / python values"""
        self.asserted += 1
        pairs = []
        self._eq(label, a, b, pairs, tol)
        if self.sym and pairs:
            self.obligations.append((label, pairs))

    def _eq(self, label, a, b, pairs, tol):
        if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
            if tuple(a.shape) != tuple(b.shape):
                return self._fail(label, f"shape {tuple(a.shape)} != {tuple(b.shape)}")
            if a.numel() == 0:
                return
            if self.sym:
                st = terms.STORE
                isint = lambda t: not isinstance(t, SymTensor) and not t.dtype.is_floating_point
                if isint(a) and isint(b):
                    if not torch.equal(a, b):
                        self._fail(label, f"{a.tolist()} != {b.tolist()}")
                    return
                l, r = raw(a).reshape(-1).tolist(), raw(b).reshape(-1).tolist()
                pairs.extend(zip(l, r))
                self.record.append((label, l))
            else:
                fl = lambda t: t.dtype.is_floating_point
                x, y = a.detach().to(torch.float64), b.detach().to(torch.float64)
                if fl(a) or fl(b):
                    self.record.append((label, x.reshape(-1).tolist()))
                if x.dtype != y.dtype:
                    return self._fail(label, "dtype")
                same = (x == y) | (torch.isnan(x) & torch.isnan(y))
                bad = ~same & ~((x - y).abs() <= (1e-3 if self.scale == "wide" else tol or REL) * (1 + torch.maximum(x.abs(), y.abs())))
                if bool(bad.any()):
                    d = (x - y).abs()
                    d = d[bad].max().item()
                    self._fail(label, f"values differ by up to {d:.3g} in {int(bad.sum())}/{x.numel()} elements")
            return
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return self._fail(label, f"length {len(a)} != {len(b)}")
            for i, (x, y) in enumerate(zip(a, b)):
                self._eq(f"{label}[{i}]", x, y, pairs, tol)
            return
        if isinstance(a, torch.Tensor) != isinstance(b, torch.Tensor):
            return self._fail(label, f"{kind(a)} vs {kind(b)}")
        if isinstance(a, terms_int()) or isinstance(b, terms_int()):
            raise Unsupported("use env.iprove for symbolic integers")
        if a is None and b is None:
            return
        if a != b:
            self._fail(label, f"{a!r} != {b!r}")

    def true(self, label, cond, detail=""):
        self.asserted += 1
        if isinstance(cond, torch.Tensor):
            cond = bool(cond)
        if not cond:
            self._fail(label, detail or "condition is false")

    def _fail(self, label, detail):
        if self.sym:
            raise Mismatch(label, detail)
        self.failures.append((label, detail))

    def refute(self, label, a, b):
        """reachability twin: a and b must NOT be equal for all values (guards against vacuity)"""
        if self.sym:
            self.refutable.append((label, list(zip(raw(a).reshape(-1).tolist(), raw(b).reshape(-1).tolist()))))

    def depends(self, label, out, inp):
        """the values of out depend on the input tensor inp (solver: exists inputs where it changes)"""
        raise NotImplementedError

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1


def kind(x):
    if isinstance(x, torch.Tensor):
        return f"tensor{tuple(x.shape)}"
    return repr(x)


def terms_int():
    return (SymZ, SymZB)


def as_param(t):
    p = torch.nn.Parameter(t, requires_grad=False)
    return p


# ------------------------------------------------------------------------------------------------
class Result:
    def __init__(self, name):
        self.name = name
        self.status = "ok"  # ok | violation | inconclusive
        self.detail = ""
        self.witness = None
        self.paths = 0
        self.obligations = 0
        self.elements = 0
        self.trivial = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_time = 0.0
        self.wall = 0.0
        self.ops = 0
        self.op_names = set()
        self.functions = set()
        self.covers = {}
        self.validated = 0
        self.guards = 0
        self.labels = []


# record which repo functions were executed symbolically
FUNCS = set()
_mon_on = False


def start_monitor(root="/repo/"):
    global _mon_on
    if _mon_on:
        return
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    _mon_on = True

    def on_start(code, off):
        if code.co_filename.startswith(root):
            FUNCS.add(f"{code.co_filename[len(root):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def reset_global_state():
    """library globals that a scenario may leave behind"""
    import continual as co

    cm = co.module.call_mode if hasattr(co, "module") else None
    try:
        from continual.module import call_mode

        call_mode.__init__()
    except Exception:
        pass


class _quiet(contextlib.AbstractContextManager):
    def __exit__(self, *a):
        return False


def run_symbolic(fn, decisions):
    terms.reset_store()
    symtensor._fresh[0] = 0
    env = Env(True, decisions=decisions)
    symtensor.FORK = env.branch
    # python's cycle collector strips the payload of tensors which are only held by an autograd graph
    gc.disable()
    try:
        with torch.no_grad(), SymMode(), SymFn():
            fn(env)
    finally:
        symtensor.FORK = None
        gc.enable()
    return env


def run_concrete(fn, values, decisions, seed=0, scale=1.0):
    env = Env(False, values=values, decisions=decisions, seed=seed, scale=scale)
    with torch.no_grad():
        fn(env)
    return env


def concrete_outcome(fn, values, decisions, seed=0, scale=1.0):
    """-> (failures, exception string or None)"""
    try:
        env = run_concrete(fn, values, decisions, seed, scale)
        return env.failures, None
    except (Unsupported, Infeasible):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "/continual/" in f.filename]
        return [], f"{type(e).__name__}: {e} (in {loc[-1] if loc else 'scenario'})"


def next_decisions(taken):
    ds = [(v, n) for _, v, n in taken]
    while ds:
        v, n = ds[-1]
        if v + 1 < n:
            return [x for x, _ in ds[:-1]] + [v + 1]
        ds.pop()
    return None


def run_scenario(name, fn, max_paths=4000, timeout_ms=20000, budget=None, hide=False, validate=True):
    res = Result(name)
    t0 = time.time()
    FUNCS.clear()
    if _mon_on:
        sys.monitoring.restart_events()
    decisions = []
    symtensor.HIDE["on"] = hide
    while decisions is not None:
        if res.paths >= max_paths:
            res.status, res.detail = "inconclusive", f"more than {max_paths} paths"
            break
        if budget and time.time() - t0 > budget:
            res.status, res.detail = "inconclusive", f"time budget {budget}s exhausted"
            break
        for k in ("queries", "unsat", "sat", "unknown", "trivial"):
            solve.STATS[k] = 0
        solve.STATS["time"] = 0.0
        symtensor.STATS["ops"] = 0
        taken = None
        env_box = []

        def wrapped(env):
            env_box.append(env)
            return fn(env)

        try:
            env = run_symbolic(wrapped, decisions)
            taken = env.taken
            finish_path(res, env, fn, timeout_ms)
            res.paths += 1
            if res.status == "ok" and validate and (res.paths <= 2 or res.paths % 8 == 0):
                validate_path(res, env, fn)
        except Infeasible:
            taken = env_box[-1].taken
        except Mismatch as e:
            taken = env_box[-1].taken
            confirm(res, fn, env_box[-1], {}, f"{e.label}: {e.detail}")
        except Unsupported as e:
            taken = env_box[-1].taken
            # a concrete failure on this path still is a violation
            confirm(res, fn, env_box[-1], {}, f"unsupported: {e}", need_encoding=True)
        except RecursionError as e:
            res.status, res.detail = "inconclusive", f"RecursionError {e}"
            taken = env_box[-1].taken
        except Exception as e:
            taken = env_box[-1].taken
            tb = traceback.format_exc(limit=-6)
            confirm(res, fn, env_box[-1], {}, f"{type(e).__name__}: {e}\n{tb}")
        for k in ("queries", "unsat", "sat", "unknown", "trivial"):
            setattr(res, k, getattr(res, k) + solve.STATS[k])
        res.solver_time += solve.STATS["time"]
        res.ops += symtensor.STATS["ops"]
        for k, v in env_box[-1].covers.items():
            res.covers[k] = res.covers.get(k, 0) + v
        if res.status != "ok":
            break
        decisions = next_decisions(taken)
    res.op_names = set(symtensor.STATS["op_names"])
    res.functions = set(FUNCS)
    res.wall = time.time() - t0
    return res


def confirm(res, fn, env, values, detail, need_encoding=False, wide=False):
    """replay on the real code (ordinary torch tensors)"""
    decisions = [v for l, v, n in env.taken]
    # concrete runs evaluate branches themselves: only explicit choices are replayed
    decisions = [v for l, v, n in env.taken if l != "branch"]
    tries = [(values, 0, 1.0)] if values else []
    # exponentials of large numbers overflow or cancel: recurrent and attention scenarios stay in range
    scales = ((1, 1.0), (2, 1.0), (4, 0.3), (3, 0.7), (6, 1.5), (7, 1.0), (8, 1.0)) if symtensor.HIDE["on"] else ((1, 1.0), (2, 1.0), (3, 3.0), (4, 0.3), (5, 10.0), (6, 1.0), (7, 1.0))
    tries += [(None, s, sc) for s, sc in scales]
    if wide and not any(n[0] == "uf" and n[1] == "exp" for n in terms.STORE.nodes):
        # the model interprets opaque functions freely: look for the difference at many magnitudes
        tries += [(None, s, "wide") for s in range(100, 180)]
    last = None
    for vals, seed, scale in tries:
        try:
            fails, exc = concrete_outcome(fn, vals, decisions, seed, scale)
        except Unsupported as e:
            last = f"replay unsupported {e}"
            continue
        except Infeasible:
            continue
        if fails or exc:
            res.status = "violation"
            res.labels = [exc.split(":")[0]] if exc else [l for l, _ in fails]
            msg = exc or "; ".join(f"{l}: {d}" for l, d in fails[:3])
            res.detail = msg
            res.witness = {
                "values": vals,
                "seed": seed,
                "scale": scale,
                "decisions": decisions,
                "choices": [(l, v) for l, v, n in env.taken if l != "branch"],
                "symbolic": detail[:2000],
            }
            return True
    res.status = "inconclusive"
    res.detail = f"not reproduced on real code: {detail} {last or ''}"
    return False


def no_ties():
    """the arguments of every maximum differ (where they do not, it has no derivative)"""
    st = terms.STORE
    out = set()
    for n in list(st.nodes):
        if n[0] == "max":
            out |= {st.bnot(st.cmp("eq", a, b)) for a, b in itertools.combinations(n[1], 2)}
    return sorted(out)


def finish_path(res, env, fn, timeout_ms):
    tr = env.tr
    pc = [env.zc(x) for x in env.path]
    for label, z in env.iobl:
        res.obligations += 1
        res.elements += 1
        r, m = solve.check(pc + [z3.Not(z)], timeout_ms, nonlinear=True)
        if r != "unsat":
            vals = {n: m.eval(v, model_completion=True).as_long() for n, v in env.ivars.items()} if m is not None else {}
            confirm(res, fn, env, vals, f"{label}: z3 {r} {vals}")
            return
    todo = []
    for label, pairs in env.obligations:
        res.obligations += 1
        res.elements += len(pairs)
        seen = set()
        for l, r in pairs:
            if (l, r) in seen:
                continue
            seen.add((l, r))
            st = terms.STORE
            if st.nodes[l][0] in ("nan",) or st.nodes[r][0] == "nan" or ((l != r) and (st._special(l) or st._special(r))):
                if l == r:
                    continue
                confirm(res, fn, env, {}, f"{label}: special value {st.nodes[l]} vs {st.nodes[r]}")
                return
            todo.append((label, l, r))
    if env.asserted == 0:
        raise Vacuous("scenario made no assertion")
    # one query for the conjunction of all obligations of the path
    if todo:
        diffs = [tr.z(l) != tr.z(r) for _, l, r in todo if l != r]
        res.trivial += sum(1 for _, l, r in todo if l == r)
        q = pc + [z3.Or(*diffs) if diffs else z3.BoolVal(False)]
        r = "unknown"
        if symtensor.HIDE["on"] == "linear":
            # large rational terms: both sides in expanded form
            st = terms.STORE
            sides = [(tr.polyz(st.poly(l)), tr.polyz(st.poly(r_))) for _, l, r_ in todo if l != r_]
            r, m = solve.check(pc + [z3.Or(*[a != b for a, b in sides])], timeout_ms, som=False)
        elif symtensor.HIDE["on"]:
            r, m = solve.check(q, min(timeout_ms, 5000), som=False)
        if r != "unsat":
            r, m = solve.check(q, timeout_ms)
        if r != "unsat":
            # element by element with axioms
            smooth = [tr.z(x) for x in no_ties()] if env.smooth else []
            for label, l, rr in todo:
                if l == rr:
                    continue
                r, m = solve.check(pc + smooth + tr.axioms + [tr.z(l) != tr.z(rr)], timeout_ms)
                if r == "unsat":
                    continue
                vals = solve.model_values(m, tr) if m is not None else {}
                confirm(res, fn, env, vals, f"{label}: z3 {r}", wide=r == "sat")
                return
    for label, pairs in env.refutable:
        diffs = [tr.z(l) != tr.z(r) for l, r in pairs]
        r, m = solve.check(pc + [z3.Or(*diffs) if diffs else z3.BoolVal(False)], timeout_ms)
        if r != "sat":
            res.status, res.detail = "inconclusive", f"vacuity guard {label}: {r}"
            return
        res.guards += 1


def validate_path(res, env, fn):
    """the terms of this path, evaluated at a random point, against an ordinary torch run"""
    if env.path:
        return  # the random point need not satisfy the path condition
    decisions = [v for l, v, n in env.taken]
    box = []

    def wrapped(e):
        box.append(e)
        return fn(e)

    try:
        c = run_concrete(wrapped, None, decisions, seed=7)
    except (Unsupported, Infeasible):
        return
    except Exception as e:
        confirm(res, fn, env, {}, f"symbolic run ok, concrete run raises {type(e).__name__}: {e}")
        return
    if c.failures:
        confirm(res, fn, env, {}, f"symbolic run ok, concrete run fails {c.failures[:2]}")
        return
    vals = c.used
    st = terms.STORE
    n = 0
    if [l for l, _ in env.record] != [l for l, _ in c.record]:
        res.status, res.detail = "inconclusive", "encoding disagreement: different observations"
        return
    for (l, ids), (_, xs) in zip(env.record, c.record):
        try:
            ys = st.evaluate(ids, vals)
        except KeyError:
            continue  # depends on uninitialised memory / randomness
        for x, y in zip(xs, ys):
            if x == y or (x != x and y != y):
                continue
            if not abs(x - y) <= 1e-6 * (1 + max(abs(x), abs(y))):
                res.status, res.detail = "inconclusive", f"encoding disagreement at {l}: torch {x} symbolic {y}"
                return
        n += 1
    if n:
        res.validated += 1
