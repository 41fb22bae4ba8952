"""Random interpretation of value-graph terms (after Gulwani & Necula).

A term is mapped into a random model: inputs get random integers, uninterpreted operations a
hash of their interpreted arguments, arithmetic / order / Boolean / selection structure its exact
meaning, array-shape plumbing the identity.  Two terms that differ in such a model differ in the
decided theory; two that agree in all sampled models are treated as not separable (never an alarm).
The terms are interpreted, not the program.
"""
import hashlib, itertools
import time
from fractions import Fraction
from .terms import *
from .terms import _poly_of
from . import vocab as V

REDUCE = {"np.sum", "np.mean", "mpi.mpi_sum_jax", "mpi.mpi_mean_jax", "mpi.mpi_sum", "mpi.mpi_mean",
          "np.cumsum", "np.trace", "np.transpose", "np.diag", "np.swapaxes", "np.diagonal", "np.roll", "np.flip", "np.repeat", "np.tile"}
LINEAR = {"np.real", "np.imag"}
ELEMENTWISE = {"np.exp", "np.log", "np.abs", "np.conj", "np.real", "np.imag", "np.sign", "np.sqrt", "np.sin", "np.cos", "np.isnan",
               "np.floor", "np.log1p", "np.expm1", "np.tanh", "np.angle"}
TRANSPARENT = V.SHAPE_ONLY
TRUTHY = {"np.nonzero", "np.flatnonzero", "np.any", "np.all", "np.count_nonzero", "np.logical_not"}
REALFN = {"np.sqrt", "np.sin", "np.cos", "np.tanh", "np.angle", "np.log1p", "np.expm1", "jsp.special.logsumexp", "random.uniform", "random.normal"}
FREE = {}
NOFREE = frozenset()


def free(t):
    """bound variables occurring free in t"""
    r = FREE.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in FREE:
            stack.pop()
            continue
        if x.op == "bv":
            FREE[x] = frozenset((x,))
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c not in FREE]
        if todo:
            stack.extend(todo)
            continue
        s = NOFREE
        for c in ch:
            f = FREE[c]
            if f:
                s = s | f if s else f
        if x.op == "lam" and s:
            n, h = x.args[0], x.args[1]
            s = frozenset(b for b in s if not (b.args[0] == h and b.args[1] < n)) or NOFREE
        FREE[x] = s
        stack.pop()
    return FREE[t]


class Blow(Exception):
    pass


class Poison(Exception):
    """an unbound variable is read: the model follows a path no execution takes"""


def shape_like(t):
    if t.op == "attr":
        return t.args[1] in ("shape", "size", "ndim", "dtype", "n_samples", "n_samples_per_rank", "local_size", "n_nodes") or shape_like(t.args[0])
    if t.op == "idx":
        return shape_like(t.args[0])
    return False


class Model:
    def __init__(self, seed, rng, push=True, budget=60000, spec=None, opaque=NOFREE, real=NOFREE):
        """rng: values are drawn from [-rng, rng], or from the tuple rng"""
        self.seed, self.rng, self.push = seed, rng, push
        self.memo = {}
        self.spec = spec or {}
        self.opaque = opaque
        self.real = real
        self.env = {}
        self.seen = None
        self.logical = False
        self.fills = False
        self.n = 0
        self.budget = budget
        self.level = 0

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
        n = int.from_bytes(d, "big")
        if isinstance(self.rng, tuple):
            return self.rng[n % len(self.rng)]
        return n % (2 * self.rng + 1) - self.rng

    def wide(self, *key):
        """a value outside the small domains (amplitudes, probabilities, weights)"""
        if isinstance(self.rng, tuple) or self.rng <= 3:
            return self.pick("wide", key) % 997 + 5
        return self.h(*key)

    def pick(self, *key):
        return int.from_bytes(hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest(), "big")

    def factor(self, *key):
        """a nonzero weight, independent of the value domain"""
        d = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
        n = int.from_bytes(d, "big")
        if isinstance(self.rng, tuple) or self.rng <= 3:
            return n % 2 + 1
        return n % 997 + 3

    def ev(self, t):
        fv = free(t)
        key = t if not fv else (t,) + tuple(sorted((b.id, str(self.env[b])) for b in fv if b in self.env))
        r = self.memo.get(key)
        if r is not None:
            return r
        if self.seen is not None:
            self.seen.add(t)
        self.n += 1
        if self.n > self.budget:
            raise Blow()
        if t in self.opaque:
            r = self.pick("bit", t.id, key[1:] if fv else ()) & 1 if t.op in ("lt0", "eq0") else self.h("node", t.id, key[1:] if fv else ())
        elif t in self.real and t.op in ("attr", "idx", "param", "fv"):
            r = self.wide(t.op, *[str(self.ev(c)) if c.op not in ("undef", "slice", "tuple") else self.arg(c) for c in children(t)],
                          *[str(x) for x in t.args if not isinstance(x, (T, tuple))])
        else:
            r = self._ev(t)
        cs = self.spec.get(t)
        if cs is not None and not isinstance(r, tuple):
            k = self.pick("spec", str(r)) % (len(cs) + 1)
            if k < len(cs):
                r = cs[k]
        if isinstance(r, (int, Fraction)) and (abs(r) > 10 ** 40 or (isinstance(r, Fraction) and r.denominator > 10 ** 40)):
            r = self.h("big", str(r))
        self.memo[key] = r
        return r

    def under(self, l, vals):
        """value of the body of l with its variables bound"""
        return self.bound(l, vals, lambda: self.ev(l.args[2]))

    def bound(self, l, vals, f):
        n, h, body = l.args
        if self.seen is not None:
            self.seen.add(l)
        old = {}
        for i, v in enumerate(vals):
            b = mk("bv", h, i)
            old[b] = self.env.get(b)
            self.env[b] = v
        try:
            return f()
        finally:
            for b, v in old.items():
                if v is None:
                    del self.env[b]
                else:
                    self.env[b] = v

    def truth(self, v):
        return bool(v)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        return self.h("num", v)

    def _ev(self, t):
        op = t.op
        if op == "const":
            k, v = t.args
            if k in ("int", "bool"):
                return int(v)
            if k == "float":
                if v != v or v in (float("inf"), float("-inf")):
                    return self.h("fl", repr(v))
                return Fraction(v)
            return ("k", k, repr(v))
        if shape_like(t):
            return 5
        if op == "poly":
            s = Fraction(0)
            for m, c in t.args[0]:
                p = Fraction(c)
                for a, e in m:
                    v = self.num(self.ev(a))
                    if e < 0 and v == 0:
                        v = self.h("inv0", e)
                        v = v or 1
                    if abs(e) > 12:
                        return self.h("pow", v, e)
                    p *= Fraction(v) ** e
                s += p
            return s.numerator if s.denominator == 1 else s
        if op == "phi":
            return self.ev(t.args[1] if self.truth(self.ev(t.args[0])) else t.args[2])
        if op == "lt0":
            return int(self.num(self.ev(t.args[0])) < 0)
        if op == "eq0":
            return int(self.num(self.ev(t.args[0])) == 0)
        if op == "not":
            return int(not self.truth(self.ev(t.args[0])))
        if op == "and":
            return int(all(self.truth(self.ev(a)) for a in t.args[0]))
        if op == "or":
            return int(any(self.truth(self.ev(a)) for a in t.args[0]))
        if op in ("is", "eq"):
            return int(self.ev(t.args[0]) == self.ev(t.args[1]))
        if op == "cast":
            v = self.ev(t.args[1])
            if isinstance(v, Fraction) and t.args[0].op == "dtype" and "int" in str(t.args[0].args[0]):
                return int(v)
            return v
        if op in INTOPS or op in ("min", "max"):
            v = self.intop(t, self.ev)
            if v is not None:
                return v
        if op == "pow":
            a, b = self.num(self.ev(t.args[0])), self.num(self.ev(t.args[1]))
            if isinstance(b, int) and abs(b) <= 12 and (a or b > 0):
                r = Fraction(a) ** b
                return r.numerator if r.denominator == 1 else r
            return self.h(op, a, b)
        if op == "idx":
            return self.idx(t.args[0], t.args[1])
        if op in ("tuple", "list", "array"):
            return ("seq",) + tuple(self.ev(a) for a in t.args[0])
        if op == "call":
            return self.call(t)
        if op == "isinstance":
            x = str(self.ev(t.args[0]))
            cs = self.spec.get("isinstance") or [t.args[1]]
            k = self.pick("class", x) % (len(cs) + 1)
            return int(k < len(cs) and (cs[k] is t.args[1] or t.args[1] in superclasses(cs[k])))
        if op == "sum":
            # range(N) is modelled by two points of weight N/2: exact for linearity and order of summation
            N, l = t.args
            n = self.num(self.ev(N))
            s = Fraction(0)
            for p in (0, 1):
                s += Fraction(self.num(self.under(l, [self.within(n, "pt", str(n), p)])))
            s *= Fraction(n, 2)
            return s.numerator if s.denominator == 1 else s
        if op == "prod":
            return self.h(op, self.ev(t.args[0]), self.ev(t.args[1]))
        if op == "lam":
            n, h = t.args[0], t.args[1]
            return self.h("lam", n, self.under(t, [self.h("lv", len(self.env), i) for i in range(n)]))
        if op in ("loop", "scanys") and len(t.args) == 3 and t.args[1].op == "lam" and t.args[1].args[2].op == "tuple":
            return self.loop(t)
        if op == "bv":
            if t in self.env:
                return self.env[t]
            return self.h(op, *t.args)
        if op == "undef":
            raise Poison()
        if op in ("param", "self", "fv", "glob", "imag"):
            return self.h(op, *[str(a) for a in t.args])
        if op == "store":
            return self.store(t)
        if op == "attr":
            return self.h("attr", str(self.ev(t.args[0])), t.args[1])
        # uninterpreted
        return self.h(op, *[self.arg(a) for a in t.args])

    def intop(self, t, ev):
        """integer and lattice operations on the values ev gives the operands"""
        op = t.op
        if op in ("band", "bor"):
            vs = [self.num(ev(a)) for a in t.args[0]]
            if all(isinstance(v, int) for v in vs):
                r = vs[0]
                for v in vs[1:]:
                    r = r & v if op == "band" else r | v
                return r
            return self.h(op, tuple(sorted(map(str, vs))))
        if op in ("mod", "fdiv", "rshift", "lshift") and len(t.args) == 2:
            a, b = self.num(ev(t.args[0])), self.num(ev(t.args[1]))
            if isinstance(a, int) and isinstance(b, int):
                if op == "mod" and b:
                    return a % b
                if op == "fdiv" and b:
                    return a // b
                if op == "rshift" and 0 <= b < 64:
                    return a >> b
                if op == "lshift" and 0 <= b < 64:
                    return a << b
            return self.h(op, a, b)
        if op in ("min", "max"):
            vs = [self.num(ev(a)) for a in t.args[0]]
            return min(vs) if op == "min" else max(vs)
        if op == "bxor" and len(t.args) == 2:
            a, b = self.num(ev(t.args[0])), self.num(ev(t.args[1]))
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            return self.h(op, *sorted((str(a), str(b))))
        if op == "inv":
            v = ev(t.args[0])
            if self.logical:
                return int(not self.truth(v))
            a = self.num(v)
            if isinstance(a, int):
                return ~a
            return self.h(op, a)
        return None

    def within(self, n, *key):
        """an index of range(n)"""
        if isinstance(n, int) and n > 0 and not isinstance(n, bool):
            return self.pick(*key) % n
        return self.h(*key)

    def nest(self, t):
        """the levels of a perfect loop nest, outermost first: (count, lambda, states of the outermost level its states stand for)"""
        N, l, init = t.args
        lv = [(N, l, list(range(len(init))))]
        while len(lv) < 3:
            N, l, perm = lv[-1]
            h = l.args[1]
            off = l.args[0] - len(perm)
            parts = l.args[2].args[0]
            if off != 1 or parts[len(perm):] and any(x.op != "tuple" or x.args[0] for x in parts[len(perm):]):
                break
            i = parts[0]
            if i.op != "loop" or i.args[1].op != "lam" or i.args[1].args[2].op != "tuple" or i.args[1].args[0] != len(i.args[2]) + 1:
                break
            if len(i.args[2]) != len(perm) or any(x.op != "bv" or x.args[0] != h or x.args[1] < 1 for x in i.args[2]) or i.args[2][0].args[1] != 1:
                break
            q = [perm[x.args[1] - 1] for x in i.args[2]]
            if len(set(q)) != len(q) or any(b.args[0] == h for b in free(i.args[0])):
                break
            lv.append((i.args[0], i.args[1], q))
            if self.seen is not None:
                self.seen.add(i)
        return lv

    def nested(self, t, lv):
        """a perfect nest, the order of its levels immaterial"""
        init = t.args[2]
        start = [str(self.ev(v)) for v in init]
        count = [self.ev(N) for N, _, _ in lv]
        out = []
        for p in itertools.permutations(range(len(lv))):
            st = [self.h("st", s, j == 0 or "", len(self.env)) for j, s in enumerate(start)]
            ix = [self.within(count[m], "nest", len(self.env), p[m]) for m in range(len(lv))]

            def go(m):
                N, l, perm = lv[m]
                vals = [ix[m]] + [st[k] for k in perm]
                if m == len(lv) - 1:
                    return self.under(l, vals)
                return self.bound(l, vals, lambda: go(m + 1))
            for _ in range(2):
                r = go(0)
                if not isinstance(r, tuple) or r[0] != "seq":
                    return self.h("nest", str(r))
                step = dict(zip(lv[-1][2], [str(v) for v in r[1:]]))
                st = [self.h("st", v, step[j]) for j, v in enumerate(st)]
            rest = [str(v) for v in r[1 + len(init):]]
            pairs = [(start[j], step[j]) for j in range(len(init))]
            names = [None] * len(lv)
            for m in range(len(lv)):
                names[p[m]] = str(count[m])
            out.append((tuple(names), tuple(rest), pairs[0], tuple(sorted(pairs[1:]))))
        return self.h("nest", tuple(sorted(out)))

    def loop(self, t):
        """a loop is a function of its count, its result and the set of its (initial value, step) pairs: the order of the state is immaterial"""
        N, l, init = t.args
        if t.op == "loop":
            lv = self.nest(t)
            if len(lv) > 1:
                return self.nested(t, lv)
        n = l.args[0]
        off = n - len(init)
        head = 1 if t.op == "loop" else 0
        lead = [self.within(self.ev(N), "lv", len(self.env), "index", i) for i in range(off)]
        start = [str(self.ev(v)) for v in init]
        st = [self.h("st", s, j if j < head else "", len(self.env)) for j, s in enumerate(start)]
        for _ in range(2):
            r = self.under(l, lead + st)
            if not isinstance(r, tuple) or r[0] != "seq":
                return self.h(t.op, str(self.ev(N)), tuple(start), str(r))
            body = [str(v) for v in r[1:]]
            step = body[:len(init)] if t.op == "loop" else body[1:1 + len(init)]
            st = [self.h("st", v, b) for v, b in zip(st, step)]
        rest = body[len(init):] if t.op == "loop" else body[:1] + body[1 + len(init):]
        pairs = list(zip(start, step))
        return self.h(t.op, str(self.ev(N)), tuple(rest), tuple(pairs[:head]), tuple(sorted(pairs[head:])))

    def store(self, t):
        """successive element writes: a later write to the same index wins, writing back what is there changes nothing"""
        ws = {}
        while t.op == "store":
            i = t.args[1]
            ws.setdefault(tuple(self.arg(j) for j in i.args[0]) if i.op == "tuple" else self.arg(i), t.args[2])
            t = t.args[0]
        b = self.ev(t)
        out = []
        for i, v in ws.items():
            v = str(self.ev(v))
            w = b
            for j in (i if isinstance(i, tuple) else (i,)):
                w = self.h("idx", str(w), j)
            if v != str(w):
                out.append((i, v))
        return self.h("store", str(b), tuple(sorted(out, key=str))) if out else b

    def arg(self, a):
        if isinstance(a, T):
            if a.op == "undef":
                return "undef"
            return str(self.ev(a))
        if isinstance(a, tuple):
            return tuple(self.arg(b) for b in a)
        return str(a)

    def linear(self, name, x, rest):
        s = 0
        for m, c in _poly_of(x).items():
            v = Fraction(1)
            for a, e in m:
                w = self.num(self.ev(a))
                if e < 0 and w == 0:
                    w = 1
                v *= Fraction(w) ** max(-12, min(12, e))
            s += c * self.h(name, str(v), rest)
        s = Fraction(s)
        return s.numerator if s.denominator == 1 else s

    def expo(self, n, x, rest):
        d = _poly_of(x)
        if n == "np.exp":
            out = Fraction(1)
            for m, c in d.items():
                v = Fraction(1)
                for a, e in m:
                    w = self.num(self.ev(a))
                    if e < 0 and w == 0:
                        w = 1
                    v *= Fraction(w) ** max(-12, min(12, e))
                k = c if c.denominator == 1 and abs(c) <= 4 else None
                b = self.wide("np.exp", str(v if k is not None else v * c), rest) or 1
                out *= Fraction(b) ** (k if k is not None else 1)
        elif len(d) == 1 and n == "np.prod":
            (m, c), = d.items()
            out = Fraction(1) if c == 1 else Fraction(self.h(n, str(c), rest))
            for a, e in m:
                b = self.wide(n, str(self.ev(a)), rest) or 1
                out *= Fraction(b) ** max(-12, min(12, e))
        elif len(d) == 1 and n == "np.log":
            (m, c), = d.items()
            out = Fraction(0) if c == 1 else Fraction(self.h(n, str(c), rest))
            for a, e in m:
                out += e * self.wide(n, str(self.ev(a)), rest)
        else:
            out = Fraction(self.h(n, str(self.ev(x)), rest))
        return out.numerator if out.denominator == 1 else out

    def call(self, t):
        f, a, k = t.args
        if f.op == "glob":
            n = f.args[0]
            k = tuple((kk, v.args[0][0] if kk == "shape" and v.op == "tuple" and len(v.args[0]) == 1 else v) for kk, v in k)
            vals = list(a) + [v for kk, v in k]
            if self.fills and n in FILLS:
                if FILLS[n] is not None:
                    return FILLS[n]
                v = next((v for kk, v in k if kk == "fill_value"), None)
                if v is not None:
                    return self.ev(v)
            if n in TRANSPARENT and vals:
                first = next((v for kk, v in k if kk in ("a", "x", "object", "arr")), vals[0] if a else None)
                if first is not None:
                    return self.ev(first)
            if n == "np.abs":
                v = self.ev(vals[0])
                if isinstance(v, (int, Fraction)):
                    return abs(v)
            if n in ("np.exp", "np.prod", "np.log"):
                x = next((v for kk, v in k if kk in ("a", "x")), None)
                if x is not None:
                    rest = tuple((kk, self.arg(v)) for kk, v in k if v is not x and kk != "dtype")
                    return self.expo(n, x, rest)
            if n == "jsp.special.logsumexp":
                # log sum b exp(x) with one weight b is log b + log sum exp(x)
                b = next((v for kk, v in k if kk == "b"), None)
                x = next((v for kk, v in k if kk == "a"), None)
                if b is not None and x is not None:
                    rest = tuple((kk, self.arg(v)) for kk, v in k if kk not in ("b", "dtype"))
                    return self.num(self.wide("call", n, tuple(self.arg(v) for v in a), rest)) + self.num(self.expo("np.log", b, ()))
            if n in REDUCE:
                x = next((v for kk, v in k if kk in ("a", "x", "v", "A", "m")), None)
                if x is None and a:
                    x = a[0]
                if x is not None:
                    rest = tuple((kk, self.arg(v)) for kk, v in k if v is not x and kk != "dtype")
                    return self.num(self.ev(x)) * self.factor(n, rest)
            if n in LINEAR:
                x = next((v for kk, v in k if kk in ("a", "x")), None)
                if x is None and a:
                    x = a[0]
                if x is not None:
                    rest = tuple((kk, self.arg(v)) for kk, v in k if v is not x and kk != "dtype")
                    return self.linear(n, x, rest)
            if n in TRUTHY:
                # only whether the entries vanish matters
                return self.h("call", n, tuple(self.arg(v) for v in a),
                              tuple((kk, str(self.truth(self.num(self.ev(v)))) if kk in ("a", "x") else self.arg(v)) for kk, v in k if kk != "dtype"))
            g = self.wide if n in REALFN or n.startswith(("np.linalg.", "sp.linalg.")) else self.h
            return g("call", n, tuple(self.arg(v) for v in a), tuple((kk, self.arg(v)) for kk, v in k if kk != "dtype"))
        return self.h("call", str(self.ev(f)), tuple(self.arg(v) for v in a), tuple((kk, self.arg(v)) for kk, v in k))

    def idx(self, b, i):
        while b.op == "phi" and (not self.push or any(x.op in ("store", "loop", "phi") and flow(x) for x in b.args[1:])):
            # selection by control flow: on the condition itself, not on its elements
            b = b.args[1] if self.truth(self.ev(b.args[0])) else b.args[2]
        if self.push:
            if b.op == "poly":
                s = Fraction(0)
                for m, c in b.args[0]:
                    p = Fraction(c)
                    for a, e in m:
                        v = self.num(self.idx(a, i))
                        if v == 0 and e < 0:
                            v = 1
                        p *= Fraction(v) ** max(-12, min(12, e))
                    s += p
                return s.numerator if s.denominator == 1 else s
            if b.op == "phi":
                return self.ev(b) if False else (self.idx(b.args[1], i) if self.truth(self.idx(b.args[0], i)) else self.idx(b.args[2], i))
            if b.op in ("lt0", "eq0"):
                v = self.num(self.idx(b.args[0], i))
                return int(v < 0) if b.op == "lt0" else int(v == 0)
            if b.op == "not":
                return int(not self.truth(self.idx(b.args[0], i)))
            if b.op == "and":
                return int(all(self.truth(self.idx(a, i)) for a in b.args[0]))
            if b.op == "or":
                return int(any(self.truth(self.idx(a, i)) for a in b.args[0]))
            if b.op in INTOPS:
                v = self.intop(b, lambda a: self.idx(a, i))
                if v is not None:
                    return v
            if b.op == "const":
                return self.ev(b)
            if self.fills and b.op == "call" and b.args[0].op == "glob" and b.args[0].args[0] in FILLS:
                return self.ev(b)
            if b.op == "call" and b.args[0].op == "glob" and b.args[0].args[0] in ELEMENTWISE:
                x = (list(b.args[1]) + [v for k, v in b.args[2]])[0]
                if b.args[0].args[0] == "np.abs":
                    v = self.idx(x, i)
                    if isinstance(v, (int, Fraction)):
                        return abs(v)
                return (self.wide if b.args[0].args[0] in REALFN | {"np.exp", "np.log"} else self.h)("call", b.args[0].args[0], str(self.idx(x, i)))
        if b.op == "cast":
            return self.idx(b.args[1], i)
        if b.op == "call" and b.args[0].op == "glob" and b.args[0].args[0] in ("np.asarray", "np.array", "np.copy"):
            v = list(b.args[1]) + [v for k, v in b.args[2]]
            if v:
                return self.idx(v[0], i)
        if b.op == "store" and self.arg(b.args[1]) == self.arg(i):
            return self.ev(b.args[2])
        bv = self.ev(b)
        if isinstance(bv, tuple) and bv[0] == "seq":
            iv = self.ev(i)
            if isinstance(iv, int) and -len(bv) + 1 <= iv < len(bv) - 1:
                return bv[1:][iv]
        if i.op == "tuple" and not any(j.op == "slice" or j.op == "const" and j.args[1] in (None, Ellipsis) for j in i.args[0]):
            # x[i, j] as x[i][j]
            for j in i.args[0]:
                bv = self.h("idx", str(bv), self.arg(j))
            return bv
        return self.h("idx", str(bv), self.arg(i))


def flow(t):
    return t.op in ("store", "loop") or t.op == "phi" and (flow(t.args[1]) or flow(t.args[2]))


FILLS = {"np.zeros": 0, "np.zeros_like": 0, "np.ones": 1, "np.ones_like": 1, "np.full": None, "np.full_like": None}
INTOPS = {"band", "bor", "bxor", "inv", "rshift", "lshift", "fdiv", "mod"}
BOOLOPS = {"lt0", "eq0", "and", "or", "not", "phi"}
GENERIC = (10 ** 6, 3, (0, 1), 1, 2)


def nodes(t):
    return set(walk(t))


def families(a, b, na=None, nb=None):
    """Value domains in which a rewrite has to be visible.

    Occupations, spins, indices and flags take few values, and idioms over them (masks, parities, flips) are equal on
    those values only; a difference that disappears on them is not reported."""
    na, nb = na or nodes(a), nb or nodes(b)
    ua, ub = na - nb, nb - na
    # a selection on a condition both terms select on only surrounds the difference
    sel = {t.args[0] for t in ua if t.op == "phi"} & {t.args[0] for t in ub if t.op == "phi"}
    ka = {t.op for t in ua if (t.op in INTOPS or t.op in BOOLOPS) and not (t.op == "phi" and t.args[0] in sel)}
    kb = {t.op for t in ub if (t.op in INTOPS or t.op in BOOLOPS) and not (t.op == "phi" and t.args[0] in sel)}
    fam = [GENERIC]
    if ka or kb:
        K = 1
        vals = set()
        for t in ua | ub:
            if t.op in ("eq0", "lt0"):
                d = _poly_of(t.args[0])
                if len(d) - (() in d) >= 2:
                    K = max(K, 3)       # two quantities compared: indices
                c = abs(d.get((), Fraction(0)))
                if c.denominator == 1 and 0 < c <= 64:
                    vals |= {int(c)} if t.op == "eq0" else {int(c) - 1, int(c)}
        shifted = wide = False
        for t in na | nb:
            if t.op in ("band", "bor", "bxor"):
                for c in (t.args[0] if isinstance(t.args[0], tuple) else t.args):
                    shifted = shifted or (t in ua or t in ub) and c.op == "poly" and _poly_of(c).get((), 0) != 0
                for c in (t.args[0] if isinstance(t.args[0], tuple) else t.args):
                    if c.op == "const" and isinstance(c.args[1], int) and 0 < c.args[1] < 64:
                        K = max(K, 2 ** int(c.args[1]).bit_length() - 1)
                        wide = wide or (t in ua or t in ub) and c.args[1] > 1      # a two-bit quantity is at stake
        small = [v for v in vals if v <= 4]
        K = max([K] + small)
        dom = set(range(K + 1)) | vals
        fam.append((tuple(sorted(dom)),))
        if K <= 1 and ka != kb and max(dom) <= 1 and not (ka | kb) & {"band", "bor", "bxor", "rshift", "lshift"}:
            fam.append(((-1, 1),))
        elif shifted or ka and kb and not ka & kb and not wide:
            fam.append(((0, 1),))
    return fam


INTERPRETED = {"poly", "phi", "lt0", "eq0", "not", "and", "or", "is", "eq", "min", "max", "cast", "idx", "tuple", "list", "array", "const", "lam",
               "undef", "param", "self", "fv", "bv", "glob", "imag", "attr", "shape", "sum", "slice", "dtype", "pow", "store"} | INTOPS


def construct(t):
    if t.op == "call":
        f = t.args[0]
        return "call:" + (f.args[0] if f.op == "glob" else "." + f.args[1] if f.op == "attr" else "?")
    return t.op


def shared_opaque(a, b):
    """uninterpreted nodes of both terms whose construct occurs in no differing node: one unknown value each"""
    na, nb = nodes(a), nodes(b)
    used = {construct(t) for t in na ^ nb}
    out = set()
    for t in na & nb:
        if t.op in INTERPRETED and t.op != "sum":
            continue
        if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] in TRANSPARENT:
            continue
        if construct(t) not in used:
            out.add(t)
    return out | shared_atoms(a, b, na, nb)


ATOMS = {"lt0", "eq0"}
SKELETON = {"poly", "phi", "not", "and", "or", "min", "max", "cast"} | INTOPS | ATOMS


def shared_atoms(a, b, na, nb):
    """order/equality atoms of both terms over quantities used nowhere else: free truth values"""
    if not any(t.op in ATOMS for t in na & nb):
        return set()
    where = {}
    seen = set()

    def go(t, atom):
        if (t, atom) in seen:
            return
        seen.add((t, atom))
        if t.op in SKELETON:
            for c in children(t):
                go(c, t if t.op in ATOMS and atom is None else atom)
        elif t.op != "const":
            where.setdefault(t, set()).add(atom)
            if t.op not in ("param", "self", "fv", "glob"):
                for c in walk(t):
                    if c is not t:
                        where.setdefault(c, set()).add(None)
    go(a, None)
    go(b, None)
    bad = {at for t, ats in where.items() if len(ats) > 1 for at in ats if at is not None}
    good = {at for ats in where.values() for at in ats if at is not None and at not in bad}
    out = set()
    for t in good:
        if t in na and t in nb:
            d = _poly_of(t.args[0])
            if any(len(m) == 1 and m[0][1] == 1 for m in d if m):
                out.add(t)
    return out


def divisors(a, b):
    """quantities something is divided by: not occupations"""
    out = set()
    for t in nodes(a) | nodes(b):
        if t.op == "poly":
            for m, c in t.args[0]:
                for x, e in m:
                    if e < 0:
                        out.add(x)
    return out


def specials(ts):
    """terms compared with non-numeric constants -> those constants"""
    out = {}
    seen = set()
    for r in ts:
        for t in walk(r):
            if t.op in ("eq", "is") and t not in seen:
                seen.add(t)
                for p, q in (t.args, t.args[::-1]):
                    if q.op == "const" and q.args[0] not in ("int", "float", "bool") and p.op != "const":
                        out.setdefault(p, set()).add(("k", q.args[0], repr(q.args[1])))
    out = {t: sorted(v) for t, v in out.items()}
    cs = {t.args[1] for r in ts for t in walk(r) if t.op == "isinstance"}
    if cs:
        out["isinstance"] = sorted(cs, key=lambda t: str(t.args))
    return out


# class -> its superclasses among the classes tested for; filled from the trees compared
SUPER = {("glob", "builtins.bool"): {("glob", "builtins.int")}, ("glob", "netket.hilbert.Spin"): {("glob", "netket.hilbert.homogeneous.HomogeneousHilbert")}}


def superclasses(c):
    return {mk(*k) for k in SUPER.get((c.op, c.args[0]), ())}


def learn_classes(tree):
    for m in tree.modules.values():
        for ci in m.classes.values():
            SUPER[("cls", ci.qual)] = {("cls", k.qual) if not isinstance(k, str) else ("glob", k) for k in tree.mro(ci)[1:]}


def confirmed(a, b, p, q, samples=150, steps=1500000):
    """p and q differ; False iff a and b, which contain them, are equal in every sampled model although p or q is reached"""
    spec = specials([a, b])
    opaque = shared_opaque(a, b)
    real = divisors(a, b)
    fam = [GENERIC]
    if a.op in INTOPS or b.op in INTOPS:
        fam = families(a, b)
    for domains in fam:
        for push in (True, False):
            found, reached = False, 0
            for s in range(samples):
                if steps < 0:
                    return reached < 3
                m = Model(s, domains[s % len(domains)], push, spec=spec, opaque=opaque, real=real)
                m.logical = bool(s & 1)
                m.seen = set()
                try:
                    if m.ev(a) != m.ev(b):
                        found = True
                        break
                except Poison:
                    continue
                except (Blow, RecursionError, OverflowError, ZeroDivisionError):
                    return True
                finally:
                    steps -= m.n
                if p in m.seen or q in m.seen:
                    try:
                        reached += m.ev(p) != m.ev(q)
                    except Poison:
                        continue
            if not found and reached >= 5:
                return False
    return True


LASTWHY = []


def separable(a, b, samples=120, steps=2000000, fam=None, fills=False):
    """True iff a and b differ in some sampled model of every demanded family, in both index interpretations
    (and, where ~ occurs, both as the bitwise and as the logical operator)"""
    if fam is None:
        fam = families(a, b)
    spec = specials([a, b])
    opaque = shared_opaque(a, b)
    real = divisors(a, b)
    inv = any(t.op == "inv" for r in (a, b) for t in walk(r))
    for domains, logical in [(d, l) for d in fam for l in ((False, True) if inv else (False,))]:
        for push in (True, False):
            found = False
            for s in range(samples):
                if steps < 0:
                    LASTWHY[:] = ['steps']
                    return False
                m = Model(s, domains[s % len(domains)], push, spec=spec, opaque=opaque, real=real)
                m.logical, m.fills = logical, fills
                try:
                    if m.ev(a) != m.ev(b):
                        found = True
                        break
                except Poison:
                    continue
                except (Blow, RecursionError, OverflowError, ZeroDivisionError) as e:
                    LASTWHY[:] = [type(e).__name__]
                    return False
                finally:
                    steps -= m.n
            if not found:
                LASTWHY[:] = [domains, push]
                return False
    return True
