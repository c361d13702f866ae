"""Hash-consed symbolic real/boolean terms.

A term is an int id into the store.  The store is the only place where values live: a
symbolic tensor is an int64 tensor of ids, so every data-movement operation of torch
(views, slices, index_put, roll, ...) is executed by torch itself on the ids.

Nothing here decides a property: terms are translated to z3 and z3 decides.  The polynomial
normal form below is only used to give *opaque* applications (exp, tanh, 1/x, ...) one z3
constant per argument-up-to-polynomial-identity, so that z3 sees congruent applications as
the same constant (equal arguments -> equal constant; different arguments -> independent
constants, an over-approximation that can only make z3 answer `sat`, never `unsat`).
"""
from fractions import Fraction
import math

NINF = "-inf"


class Unsupported(Exception):
    """The engine cannot encode this operation (inconclusive, never a verdict)."""


def snap(f):
    """Exact rational meant by a python float constant (1/3 -> 1/3, 0.1 -> 1/10)."""
    if isinstance(f, bool):
        return Fraction(int(f))
    if isinstance(f, int):
        return Fraction(f)
    if isinstance(f, Fraction):
        return f
    f = float(f)
    F = Fraction(f)
    G = F.limit_denominator(5040)
    if abs(G - F) <= abs(F) * Fraction(1, 10**13):
        return G
    G = Fraction(repr(f))
    if G.denominator <= 10**9:
        return G
    # floats stored as float32 constants (e.g. float32(0.1))
    G = F.limit_denominator(5040)
    if abs(G - F) <= abs(F) * Fraction(1, 10**8):
        return G
    return F


class Store:
    def __init__(self):
        self.nodes = []  # tuple
        self.index = {}
        self._poly = {}
        self._hide = {}
        self.var_ids = {}
        self.sqrt_consts = {}
        self.zero = self.const(0)
        self.one = self.const(1)
        self.ninf = self._mk(("ninf",))
        self.pinf = self._mk(("pinf",))
        self.true = self._mk(("bool", True))
        self.false = self._mk(("bool", False))

    # ---- construction -----------------------------------------------------------------
    def _mk(self, node):
        i = self.index.get(node)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(node)
            self.index[node] = i
        return i

    def const(self, v):
        if isinstance(v, float):
            if v == -math.inf:
                return self.ninf
            if v == math.inf:
                return self.pinf
            if v != v:
                return self._mk(("nan",))
        elif isinstance(v, bool):
            v = int(v)
        return self._mk(("c", snap(v)))

    def fconst(self, v):
        """constant appearing in tensor data or as a python scalar"""
        if isinstance(v, float) and not (math.isinf(v) or math.isnan(v)) and v != int(v):
            s = snap(v)
            if s.denominator > 5040:
                q = snap(v * v)
                if q.denominator <= 5040 and q.numerator <= 10**6:
                    return self._sqrt_rational(q, neg=v < 0)
                q = snap(v**4)
                if q.denominator <= 5040 and q.numerator <= 10**6 and v > 0:
                    # fourth root (torch splits attention scales over query and key)
                    n = q.numerator * q.denominator**3
                    return self.mul(self.const(Fraction(1, q.denominator)), self._mk(("root4c", n)))
            return self._mk(("c", s))
        return self.const(v)

    def _sqrt_rational(self, q, neg=False):
        # sqrt(n/d) = sqrt(n*d)/d ; n*d = a^2 * b, b squarefree
        n = q.numerator * q.denominator
        a, b, p = 1, n, 2
        while p * p <= b:
            while b % (p * p) == 0:
                b //= p * p
                a *= p
            p += 1
        c = Fraction(a, q.denominator)
        if neg:
            c = -c
        if b == 1:
            return self.const(c)
        return self.mul(self.const(c), self._mk(("sqrtc", b)))

    def var(self, name):
        i = self._mk(("v", name))
        self.var_ids[name] = i
        return i

    def bvar(self, name):
        return self._mk(("bv", name))

    def is_const(self, i):
        return self.nodes[i][0] == "c"

    def cval(self, i):
        return self.nodes[i][1]

    def _special(self, i):
        return self.nodes[i][0] in ("ninf", "pinf", "nan")

    def add(self, a, b):
        na, nb = self.nodes[a], self.nodes[b]
        if na[0] == "c":
            if na[1] == 0:
                return b
            if nb[0] == "c":
                return self._mk(("c", na[1] + nb[1]))
        if nb[0] == "c" and nb[1] == 0:
            return a
        for x, y in ((na, nb), (nb, na)):
            if x[0] in ("ninf", "pinf", "nan"):
                if y[0] in ("ninf", "pinf", "nan") and y[0] != x[0]:
                    return self._mk(("nan",))
                return self._mk((x[0],))
        return self._mk(("add", a, b) if a <= b else ("add", b, a))

    def add_n(self, ids):
        r = self.zero
        for i in ids:
            r = self.add(r, i)
        return r

    def neg(self, a):
        return self.mul(self.const(-1), a)

    def sub(self, a, b):
        if a == b and not self._special(a):
            return self.zero
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        na, nb = self.nodes[a], self.nodes[b]
        for x, y in ((na, nb), (nb, na)):
            if x[0] in ("ninf", "pinf", "nan"):
                if y[0] == "c" and y[1] != 0 and x[0] != "nan":
                    return self._infsign(x[0], y[1])
                if x[0] == "nan" or (y[0] == "c" and y[1] == 0):
                    return self._mk(("nan",))
                raise Unsupported("inf * symbolic")
        if na[0] == "c":
            if na[1] == 0:
                return a
            if na[1] == 1:
                return b
            if nb[0] == "c":
                return self._mk(("c", na[1] * nb[1]))
        if nb[0] == "c":
            if nb[1] == 0:
                return b
            if nb[1] == 1:
                return a
        return self._mk(("mul", a, b) if a <= b else ("mul", b, a))

    def _infsign(self, kind, c):
        pos = (kind == "pinf") == (c > 0)
        return self.pinf if pos else self.ninf

    def inv(self, a):
        n = self.nodes[a]
        if n[0] == "c":
            if n[1] == 0:
                return self._mk(("nan",))
            return self._mk(("c", 1 / n[1]))
        if n[0] in ("ninf", "pinf"):
            return self.zero
        if n[0] == "nan":
            return a
        if n[0] == "mul" and self.nodes[n[1]][0] == "c":
            return self.mul(self._mk(("c", 1 / self.nodes[n[1]][1])), self.inv(n[2]))
        if n[0] == "mul" and self.nodes[n[2]][0] == "c":
            return self.mul(self._mk(("c", 1 / self.nodes[n[2]][1])), self.inv(n[1]))
        if n[0] == "sqrtc":
            return self.mul(self.const(Fraction(1, n[1])), a)
        if n[0] == "uf" and n[1] == "exp":
            return self.uf("exp", self.neg(n[2]))
        return self.uf("inv", a)

    def div(self, a, b):
        if a == b and self.nodes[a][0] in ("uf",) and self.nodes[a][1] == "exp":
            return self.one
        return self.mul(a, self.inv(b))

    def max_n(self, ids):
        s = set()
        for i in ids:
            n = self.nodes[i]
            if n[0] == "max":
                s.update(n[1])
            elif n[0] == "ninf":
                continue
            elif n[0] in ("pinf", "nan"):
                return i
            else:
                s.add(i)
        cs = [i for i in s if self.nodes[i][0] == "c"]
        if len(cs) > 1:
            m = max(cs, key=lambda i: self.nodes[i][1])
            s.difference_update(cs)
            s.add(m)
        if not s:
            return self.ninf
        if len(s) == 1:
            return next(iter(s))
        return self._mk(("max", tuple(sorted(s))))

    def min_n(self, ids):
        return self.neg(self.max_n([self.neg(i) for i in ids]))

    def uf(self, name, a):
        """unary opaque function with a few exact facts"""
        n = self.nodes[a]
        if n[0] == "c":
            c = n[1]
            if name == "exp" and c == 0:
                return self.one
            if name == "log" and c == 1:
                return self.zero
            if name in ("tanh", "erf", "sin") and c == 0:
                return self.zero
            if name == "sigmoid" and c == 0:
                return self.const(Fraction(1, 2))
            if name == "sqrt" and c >= 0:
                return self._sqrt_rational(c) if c.denominator <= 10**6 and c.numerator <= 10**9 else self._mk(("uf", name, a))
        if n[0] == "ninf":
            if name == "exp":
                return self.zero
            if name == "sigmoid":
                return self.zero
            if name == "tanh":
                return self.const(-1)
        if n[0] == "pinf":
            if name in ("sigmoid", "tanh"):
                return self.one
            if name in ("exp", "sqrt"):
                return self.pinf
        if n[0] in ("ninf", "pinf", "nan"):
            return self._mk(("nan",))
        if name == "log" and n[0] == "uf" and n[1] == "exp":
            return n[2]
        return self._mk(("uf", name, a))

    def ite(self, c, a, b):
        n = self.nodes[c]
        if n[0] == "bool":
            return a if n[1] else b
        if a == b:
            return a
        return self._mk(("ite", c, a, b))

    # booleans
    def cmp(self, op, a, b):  # op in lt, le, eq
        na, nb = self.nodes[a], self.nodes[b]
        if na[0] == "c" and nb[0] == "c":
            r = {"lt": na[1] < nb[1], "le": na[1] <= nb[1], "eq": na[1] == nb[1]}[op]
            return self.true if r else self.false
        if a == b and not self._special(a):
            return self.false if op == "lt" else self.true
        inf = {"ninf": -1, "pinf": 1}
        if na[0] in inf or nb[0] in inf:
            x, y = inf.get(na[0], 0), inf.get(nb[0], 0)
            r = {"lt": x < y, "le": x <= y, "eq": x == y}[op]
            return self.true if r else self.false
        if na[0] == "nan" or nb[0] == "nan":
            return self.false
        if op == "eq" and nb[0] == "c" and na[0] == "ite" and self._choice(a):
            # a choice between constants: where does it take this one?
            return self.bor(self.band(na[1], self.cmp(op, na[2], b)), self.band(self.bnot(na[1]), self.cmp(op, na[3], b)))
        return self._mk((op, a, b))

    def _choice(self, a):
        n = self.nodes[a]
        return n[0] == "c" or (n[0] == "ite" and self._choice(n[2]) and self._choice(n[3]))

    def bnot(self, a):
        n = self.nodes[a]
        if n[0] == "bool":
            return self.false if n[1] else self.true
        if n[0] == "not":
            return n[1]
        return self._mk(("not", a))

    def band(self, a, b):
        if a == self.false or b == self.false:
            return self.false
        if a == self.true:
            return b
        if b == self.true or a == b:
            return a
        return self._mk(("and", a, b))

    def bor(self, a, b):
        return self.bnot(self.band(self.bnot(a), self.bnot(b)))

    # ---- polynomial canonical form (for congruence of opaque applications) -------------
    POLY_MAX = 1500

    def poly(self, i):
        p = self._poly.get(i)
        if p is not None:
            return p
        # iterative post-order
        stack = [i]
        while stack:
            j = stack[-1]
            if j in self._poly:
                stack.pop()
                continue
            n = self.nodes[j]
            if n[0] in ("add", "mul"):
                todo = [k for k in n[1:3] if k not in self._poly]
                if todo:
                    stack.extend(todo)
                    continue
                pa, pb = self._poly[n[1]], self._poly[n[2]]
                if n[0] == "add":
                    if len(pa) < len(pb):
                        pa, pb = pb, pa
                    r = dict(pa)
                    for m, c in pb.items():
                        c2 = r.get(m, 0) + c
                        if c2 == 0:
                            r.pop(m, None)
                        else:
                            r[m] = c2
                else:
                    if len(pa) * len(pb) > self.POLY_MAX:
                        # too large: treat factors as opaque (over-approximation)
                        if len(pa) > 1:
                            pa = {((self._opaque(n[1], pa), 1),): Fraction(1)}
                        if len(pb) > 1 and len(pa) * len(pb) > self.POLY_MAX:
                            pb = {((self._opaque(n[2], pb), 1),): Fraction(1)}
                    r = {}
                    for m1, c1 in pa.items():
                        for m2, c2 in pb.items():
                            m, extra = self._mmul(m1, m2)
                            c = r.get(m, 0) + c1 * c2 * extra
                            if c == 0:
                                r.pop(m, None)
                            else:
                                r[m] = c
                self._poly[j] = r
            else:
                self._poly[j] = self._atom_poly(j, n)
            stack.pop()
        return self._poly[i]

    def _mmul(self, m1, m2):
        """product of two Laurent monomials -> (monomial, rational factor)"""
        if not m1:
            return m2, 1
        if not m2:
            return m1, 1
        d = dict(m1)
        extra = 1
        for a, e in m2:
            e = d.get(a, 0) + e
            if e == 0:
                del d[a]
            else:
                d[a] = e
        for a in [a for a in d if self.nodes[a][0] == "root4c" and d[a] not in (0, 1)]:
            n = self.nodes[a]
            extra *= Fraction(n[1]) ** (d[a] // 4)
            e = d.pop(a) % 4
            if e & 1:
                d[a] = 1
            if e & 2:
                (m, c), = self.poly(self._sqrt_rational(Fraction(n[1]))).items()
                extra *= c
                for b, k in m:
                    d[b] = d.get(b, 0) + k
        for a in [a for a in d if self.nodes[a][0] == "sqrtc" and d[a] not in (0, 1)]:
            extra *= Fraction(self.nodes[a][1]) ** (d[a] // 2)
            d[a] %= 2
            if d[a] == 0:
                del d[a]
        return tuple(sorted(d.items())), extra

    def canon_key(self, i):
        return tuple(sorted(self.poly(i).items()))

    def canon_bool(self, i):
        """congruence key of a condition: comparisons of equal polynomials get equal keys"""
        n = self.nodes[i]
        if n[0] in ("lt", "le", "eq") and not (self._special(n[1]) or self._special(n[2])):
            return (n[0], self.canon_key(n[1]), self.canon_key(n[2]))
        if n[0] == "not":
            return ("not", self.canon_bool(n[1]))
        if n[0] == "and":
            return ("and", *sorted((self.canon_bool(n[1]), self.canon_bool(n[2])), key=repr))
        return i

    def _opq(self, name, key):
        k = (name, key)
        a = self._hide.get(k)
        if a is None:
            a = self._mk(("opq", name, key))
            self._hide[k] = a
        return a

    def _opaque(self, i, p):
        return self._opq("hide", tuple(sorted(p.items())))

    @staticmethod
    def _content(p):
        """factor p = coef * monomial * primitive (Laurent monomial content)"""
        mins = None
        for m in p:
            d = dict(m)
            if mins is None:
                mins = d
            else:
                for a in set(mins) | set(d):
                    v = min(mins.get(a, 0), d.get(a, 0))
                    if v == 0:
                        mins.pop(a, None)
                    else:
                        mins[a] = v
        mono = tuple(sorted(mins.items()))
        if mono:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for a, e in mono:
                    v = d.get(a, 0) - e
                    if v == 0:
                        d.pop(a, None)
                    else:
                        d[a] = v
                q[tuple(sorted(d.items()))] = c
            p = q
        lead = p[min(p)]
        if lead != 1:
            p = {m: c / lead for m, c in p.items()}
        return lead, mono, p

    def _atom_poly(self, j, n):
        t = n[0]
        if t == "c":
            return {(): n[1]} if n[1] != 0 else {}
        if t in ("v", "sqrtc", "root4c", "opq", "ninf", "pinf", "nan"):
            return {((j, 1),): Fraction(1)}
        if t == "uf":
            p = self.poly(n[2])
            if n[1] == "exp":
                return self._exp_poly(p)
            if n[1] == "inv":
                if not p:
                    return {((self._mk(("nan",)), 1),): Fraction(1)}
                if len(p) == 1:
                    (m, c), = p.items()
                    return {tuple(sorted((a, -e) for a, e in m)): 1 / c}
                c, mono, q = self._content(p)
                a = self._opaque(None, q)
                m, x = self._mmul(tuple(sorted((b, -e) for b, e in mono)), ((a, -1),))
                return {m: x / c}
            return {((self._opq(n[1], tuple(sorted(p.items()))), 1),): Fraction(1)}
        if t == "max":
            key = tuple(sorted({self.canon_key(k) for k in n[1]}))
            return {((self._opq("max", key), 1),): Fraction(1)}
        if t == "ite":
            key = (self.canon_bool(n[1]), self.canon_key(n[2]), self.canon_key(n[3]))
            return {((self._opq("ite", key), 1),): Fraction(1)}
        if t == "hide":
            p = self.poly(n[1])
            if len(p) <= 1:
                return p
            c, mono, q = self._content(p)
            m, x = self._mmul(mono, ((self._opaque(n[1], q), 1),))
            return {m: c * x}
        raise Unsupported(f"poly of {n}")

    def _exp_poly(self, p):
        """exp(sum c_i m_i) = prod exp(m_i / den_i) ** num_i (one positive atom each)"""
        out = {}
        for m, c in p.items():
            a = self._opq("exp", ((m, Fraction(1, c.denominator)),))
            out[a] = out.get(a, 0) + c.numerator
        return {tuple(sorted(out.items())): Fraction(1)}

    def hide(self, i, threshold=0):
        n = self.nodes[i]
        if n[0] in ("c", "v", "ninf", "pinf", "nan", "hide", "uf", "max"):
            return i
        if threshold and len(self.poly(i)) <= threshold:
            return i
        return self._mk(("hide", i))

    # ---- evaluation (floats) ------------------------------------------------------------
    def evaluate(self, ids, env, bools=None):
        memo = {}
        ufs = {
            "exp": math.exp, "log": math.log, "tanh": math.tanh, "sqrt": math.sqrt,
            "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
            "erf": math.erf, "inv": lambda x: 1 / x, "sin": math.sin, "cos": math.cos,
            "abs": abs,
        }
        bools = bools or {}

        def ev(i):
            stack = [i]
            while stack:
                j = stack[-1]
                if j in memo:
                    stack.pop()
                    continue
                n = self.nodes[j]
                t = n[0]
                if t == "c":
                    memo[j] = float(n[1])
                elif t == "v":
                    memo[j] = env[n[1]]
                elif t == "bv":
                    memo[j] = bools[n[1]]
                elif t == "ninf":
                    memo[j] = -math.inf
                elif t == "pinf":
                    memo[j] = math.inf
                elif t == "nan":
                    memo[j] = math.nan
                elif t == "bool":
                    memo[j] = n[1]
                elif t == "sqrtc":
                    memo[j] = math.sqrt(n[1])
                elif t == "root4c":
                    memo[j] = n[1] ** 0.25
                else:
                    if t == "max":
                        ch = n[1]
                    elif t == "uf":
                        ch = (n[2],)
                    else:
                        ch = n[1:]
                    todo = [k for k in ch if k not in memo]
                    if todo:
                        stack.extend(todo)
                        continue
                    v = [memo[k] for k in ch]
                    if t == "add":
                        memo[j] = v[0] + v[1]
                    elif t == "mul":
                        memo[j] = v[0] * v[1]
                    elif t == "max":
                        memo[j] = max(v)
                    elif t == "uf":
                        f = ufs.get(n[1])
                        if f is None:
                            f = EXTRA_UF[n[1]]
                        memo[j] = f(v[0])
                    elif t == "hide":
                        memo[j] = v[0]
                    elif t == "ite":
                        memo[j] = v[1] if v[0] else v[2]
                    elif t == "lt":
                        memo[j] = v[0] < v[1]
                    elif t == "le":
                        memo[j] = v[0] <= v[1]
                    elif t == "eq":
                        memo[j] = v[0] == v[1]
                    elif t == "not":
                        memo[j] = not v[0]
                    elif t == "and":
                        memo[j] = v[0] and v[1]
                    else:
                        raise Unsupported(t)
                stack.pop()
            return memo[i]

        return [ev(i) for i in ids]


EXTRA_UF = {}
STORE = None


def reset_store():
    global STORE
    STORE = Store()
    return STORE


reset_store()
