"""z3 side: translate terms, discharge obligations."""
import time
from fractions import Fraction

import z3

from . import terms

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "trivial": 0}


class Translator:
    """terms -> z3 expressions.  Opaque applications become z3 constants named by the canonical
    form of their argument; `axioms` collects exact facts about them."""

    def __init__(self):
        self.memo = {}
        self.atoms = {}
        self.axioms = []
        self.vars = {}
        self.bvars = {}

    def atom(self, a):
        """z3 constant for an opaque atom id (from the canonical polynomial form)"""
        e = self.atoms.get(a)
        if e is not None:
            return e
        st = terms.STORE
        n = st.nodes[a]
        if n[0] == "v":
            return self.z(a)
        if n[0] in ("sqrtc", "root4c"):
            return self.z(a)
        if n[0] in ("ninf", "pinf", "nan"):
            e = z3.Real(n[0])
            self.atoms[a] = e
            return e
        e = z3.Real(f"{n[1]}#{a}")
        self.atoms[a] = e
        if n[1] == "exp":
            self.axioms.append(e > 0)
        elif n[1] == "sigmoid":
            self.axioms += [e > 0, e < 1]
        elif n[1] == "tanh":
            self.axioms += [e > -1, e < 1]
        elif n[1] == "sqrt":
            self.axioms += [e >= 0, e * e == self.polyz(dict(n[2]))]
        elif n[1] == "hide":
            self.axioms.append(e == self.polyz(dict(n[2][0] if False else n[2])))
        return e

    def inv_atom(self, a):
        k = ("inv", a)
        e = self.atoms.get(k)
        if e is None:
            e = z3.Real(f"inv#{a}")
            self.atoms[k] = e
            self.axioms.append(e * self.atom(a) == 1)
        return e

    def polyz(self, p):
        ts = []
        for m, c in p.items():
            fs = [z3.RealVal(str(c))]
            for a, e in m:
                x = self.atom(a) if e > 0 else self.inv_atom(a)
                fs += [x] * abs(e)
            ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

    def z(self, i):
        memo = self.memo
        if i in memo:
            return memo[i]
        st = terms.STORE
        stack = [i]
        while stack:
            j = stack[-1]
            if j in memo:
                stack.pop()
                continue
            n = st.nodes[j]
            t = n[0]
            if t == "c":
                memo[j] = z3.RealVal(str(n[1]))
            elif t == "v":
                memo[j] = self.vars[n[1]] = z3.Real(n[1])
            elif t == "bv":
                memo[j] = self.bvars[n[1]] = z3.Bool(n[1])
            elif t == "bool":
                memo[j] = z3.BoolVal(n[1])
            elif t == "sqrtc":
                e = z3.Real(f"sqrt({n[1]})")
                self.axioms += [e > 0, e * e == n[1]]
                memo[j] = e
            elif t == "root4c":
                e = z3.Real(f"root4({n[1]})")
                self.axioms += [e > 0, e * e * e * e == n[1]]
                memo[j] = e
            elif t in ("ninf", "pinf", "nan"):
                memo[j] = z3.Real(t)
            elif t == "uf" or (t == "hide" and len(st.poly(j)) == 1):
                memo[j] = self.polyz(st.poly(j))
            else:
                ch = n[1] if t == "max" else n[1:]
                todo = [k for k in ch if k not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                v = [memo[k] for k in ch]
                if t == "add":
                    memo[j] = v[0] + v[1]
                elif t == "mul":
                    memo[j] = v[0] * v[1]
                elif t == "hide":
                    memo[j] = v[0]
                elif t == "max":
                    r = v[0]
                    for x in v[1:]:
                        r = z3.If(r >= x, r, x)
                    memo[j] = r
                elif t == "ite":
                    memo[j] = z3.If(v[0], v[1], v[2])
                elif t == "lt":
                    memo[j] = v[0] < v[1]
                elif t == "le":
                    memo[j] = v[0] <= v[1]
                elif t == "eq":
                    memo[j] = v[0] == v[1]
                elif t == "not":
                    memo[j] = z3.Not(v[0])
                elif t == "and":
                    memo[j] = z3.And(v[0], v[1])
                else:
                    raise terms.Unsupported(f"translate {t}")
            stack.pop()
        return memo[i]


def check(assertions, timeout_ms=20000, nonlinear=False, som=True):
    """one solver query; returns ('unsat'|'sat'|'unknown', model).  som: multiply products of sums out first
    (decides polynomial identities); without it, z3 compares large terms factor by factor"""
    t0 = time.time()
    STATS["queries"] += 1
    s = z3.Then(
        z3.With("simplify", som=som, hoist_mul=False, blast_distinct=True), "smt"
    ).solver()
    s.set("timeout", timeout_ms)
    s.add(*assertions)
    r = s.check()
    m = s.model() if r == z3.sat else None
    STATS["time"] += time.time() - t0
    STATS[str(r)] += 1
    return str(r), m


def model_values(m, tr):
    env = {}
    for name, v in tr.vars.items():
        x = m.eval(v, model_completion=True)
        try:
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            env[name] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        except Exception:
            env[name] = 0.0
    return env
