"""Is a difference still one when the functions involved obey their laws?

The comparison treats library functions as uninterpreted; conj(xy) = conj(x) conj(y), |-x| = |x|, cos(-x) = cos(x),
log(x^2) = 2 log(x), mean(2x) = 2 mean(x), det(x^T) = det(x), exp(i x) = cos(x) + i sin(x) ... are lost that way.  Before a
difference that involves such functions is reported, both terms are interpreted over the complex numbers: elementwise
functions have their meaning, arrays are given by their elements, a reduction runs over a single element, matrices have a
single entry, and everything else is an uninterpreted function of the values of its arguments.  All the laws hold in this
interpretation, so terms that are equal by them have the same value in every sample."""
import cmath
import hashlib

from .rint import shape_like
from .terms import NONE, T, children, cval, is_const, is_num

ELEM = {
    "conj": lambda x: x.conjugate(), "conjugate": lambda x: x.conjugate(), "real": lambda x: complex(x.real), "imag": lambda x: complex(x.imag),
    "abs": lambda x: complex(abs(x)), "absolute": lambda x: complex(abs(x)), "exp": cmath.exp, "log": cmath.log, "log1p": lambda x: cmath.log(1 + x),
    "expm1": lambda x: cmath.exp(x) - 1, "sqrt": cmath.sqrt, "sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan, "tanh": cmath.tanh,
    "sinh": cmath.sinh, "cosh": cmath.cosh, "angle": lambda x: complex(cmath.phase(x)), "square": lambda x: x * x, "negative": lambda x: -x,
    "reciprocal": lambda x: 1 / x, "log2": lambda x: cmath.log(x) / cmath.log(2), "log10": cmath.log10, "exp2": lambda x: 2 ** x,
    "log_sigmoid": lambda x: -cmath.log(1 + cmath.exp(-x)), "sigmoid": lambda x: 1 / (1 + cmath.exp(-x)), "softplus": lambda x: cmath.log(1 + cmath.exp(x)),
    "log_cosh": lambda x: cmath.log(cmath.cosh(x)),
}
BINARY = {
    "arctan2": lambda y, x: complex(cmath.phase(complex(x.real, y.real))), "logaddexp": lambda x, y: cmath.log(cmath.exp(x) + cmath.exp(y)),
    "hypot": lambda x, y: cmath.sqrt(x * x + y * y), "power": lambda x, y: x ** y, "multiply": lambda x, y: x * y, "add": lambda x, y: x + y,
    "subtract": lambda x, y: x - y, "divide": lambda x, y: x / y, "true_divide": lambda x, y: x / y,
    "dot": lambda x, y: x * y, "matmul": lambda x, y: x * y, "inner": lambda x, y: x * y, "outer": lambda x, y: x * y, "kron": lambda x, y: x * y,
    "tensordot": lambda x, y: x * y, "vdot": lambda x, y: x.conjugate() * y, "solve": lambda x, y: y / x, "lstsq": lambda x, y: y / x,
    "solve_triangular": lambda x, y: y / x,
}
# one element, one process, one entry
SAME = set("sum mean max min amax amin prod sort cumsum cumprod median nansum nanmean average logsumexp transpose swapaxes moveaxis reshape ravel squeeze "
           "expand_dims flip roll asarray array atleast_1d atleast_2d copy diag diagonal trace broadcast_to tile repeat mpi_sum mpi_mean mpi_max mpi_min "
           "mpi_sum_jax mpi_mean_jax mpi_max_jax mpi_bcast allreduce bcast det unique flatten block tril triu".split())
UNARY = {"inv": lambda x: 1 / x, "pinv": lambda x: 1 / x, "pinvh": lambda x: 1 / x, "norm": lambda x: complex(abs(x)), "cholesky": cmath.sqrt,
         "std": lambda x: 0j, "var": lambda x: 0j, "softmax": lambda x: 1 + 0j, "log_softmax": lambda x: 0j, "cho_solve": None}
PAIRS = {"slogdet": lambda x: (x / abs(x), complex(cmath.log(abs(x)))), "eigh": lambda x: (x, 1 + 0j), "eig": lambda x: (x, 1 + 0j),
         "svd": lambda x: (x / abs(x), complex(abs(x)), 1 + 0j)}
LINALG = set("inv pinv pinvh norm cholesky det slogdet eigh eig svd solve lstsq solve_triangular".split())
# functions whose values obey laws the comparison does not know
BEARING = (set(ELEM) | set(UNARY) | set(PAIRS) | {"arctan2", "logaddexp", "hypot", "solve", "lstsq", "solve_triangular", "vdot"} | set(
    "sum mean max min prod sort argsort argmax argmin cumsum cumprod logsumexp mpi_sum mpi_mean mpi_sum_jax mpi_mean_jax det trace dot matmul einsum "
    "tensordot inner outer uniform normal bernoulli categorical softmax log_softmax std var unique searchsorted sign".split())) - {"square", "negative"}
BRANCHES = {"log", "log1p", "sqrt", "power", "angle", "arctan2", "cholesky", "slogdet", "log2", "log10", "eigh", "svd"}
MONOTONE = {"log", "exp", "sqrt", "tanh", "log1p", "expm1", "arctan"}
MOVES = set("transpose swapaxes moveaxis reshape ravel flatten sum mean prod max min expand_dims squeeze".split())
REDUCES = set("sum mean max min amax amin prod cumsum median logsumexp dot matmul inner vdot tensordot einsum mpi_sum mpi_mean mpi_sum_jax mpi_mean_jax".split())
ORDERFREE = set("unique sum max min any all mean prod logsumexp median std var set frozenset Counter len isin mpi_sum".split())


class Stop(Exception):
    pass


def name(t):
    if t.op == "call" and t.args[0].op == "glob" and isinstance(t.args[0].args[0], str):
        return t.args[0].args[0].rpartition(".")[2]
    return None


def known(t):
    """a call of a library function with a meaning here"""
    if t.op != "call" or t.args[0].op != "glob" or not isinstance(t.args[0].args[0], str):
        return None
    q = t.args[0].args[0]
    return q.rpartition(".")[2] if q.split(".")[0] in ("np", "jnp", "jsp", "sp", "jax", "mpi", "nkstats", "netket", "random", "builtins", "nkjax", "nn", "nk") or "linalg" in q else None


def bears(t):
    return known(t) in BEARING


def operands(t):
    return list(t.args[1]) + [v for _, v in t.args[2]]


def rnd(z):
    if isinstance(z, complex):
        if z != z or abs(z) > 1e12:
            raise Stop
        return (round(z.real, 6) + 0.0, round(z.imag, 6) + 0.0)
    return z


class Sample:
    def __init__(self, seed, unordered=False, budget=20000, reduced=False, marked=False, shared=frozenset(), layout=()):
        self.seed, self.unordered, self.memo, self.n, self.budget, self.reduced = seed, unordered, {}, 0, budget, reduced
        self.marked, self.shared = marked, shared
        self.layout = {t: (k, i) for i, pq in enumerate(layout) for k, t in enumerate(pq)}

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=16).digest()
        u, v = int.from_bytes(d[:8], "big") / 2 ** 64, int.from_bytes(d[8:], "big") / 2 ** 64
        if self.seed % 3 == 2:
            return complex((0.3 + 2 * u) * (1 if v < 0.5 else -1))
        return cmath.rect(0.6 + 0.9 * u, 0.5 * (v - 0.5) if self.seed % 3 else 0.0)

    def truth(self, *key):
        return hashlib.blake2b(repr((self.seed, "truth", key)).encode(), digest_size=2).digest()[0] < 128

    def at(self, ix):
        return tuple(sorted(map(repr, ix))) if self.unordered else ix

    def ev(self, t, ix=()):
        k = (t, ix)
        r = self.memo.get(k)
        if r is None:
            self.n += 1
            if self.n > self.budget:
                raise Stop
            r = self.memo[k] = self._ev(t, ix)
        return r

    def over(self, t, f, ix):
        """the position at which the operands of a reduction are read: the same one, or one reserved for reductions"""
        if self.marked and f == "expand_dims":
            return (("axes", tuple(self.any(x) for x in operands(t)[1:])),) + ix
        if self.reduced and f in MOVES and f not in REDUCES:
            return (("moved", f, tuple(self.any(x) for x in operands(t)[1:])),) + ix
        if not self.reduced or f not in REDUCES:
            return ix
        return (("reduced", kind(f), tuple((k, self.any(v)) for k, v in t.args[2] if k == "axis")),)

    def opaque(self, t, ix, tag=None):
        return self.h("op", tag or t.op, tuple(self.any(a) for a in t.args), self.at(ix))

    def any(self, a):
        if isinstance(a, T):
            if a.op == "slice":
                return ("slice",) + tuple(self.any(x) for x in a.args)
            if a.op in ("const", "glob", "dtype", "param", "self") and not is_num(a):
                return ("leaf", a.id if not is_const(a) else repr(cval(a)))
            return rnd(self.ev(a))
        if isinstance(a, tuple):
            return tuple(self.any(x) for x in a)
        return repr(a)

    def _ev(self, t, ix):
        op = t.op
        if t in self.layout:
            # the same elements at other positions: what runs over all of them does not see it
            k, i = self.layout[t]
            return self.h("layout", i, self.at(ix)) if any(isinstance(x, tuple) and x[0] == "reduced" for x in ix) else self.h("layout", k, i, self.at(ix))
        if is_num(t):
            v = cval(t)
            return complex(v) if not isinstance(v, bool) else complex(int(v))
        if op == "imag":
            return 1j
        if op == "poly":
            s = 0j
            for mono, c in t.args[0]:
                p = complex(c)
                for a, e in mono:
                    x = self.ev(a, ix)
                    p *= x ** (float(e) if not isinstance(e, int) else e)
                s += p
            return s
        if op == "pow" and len(t.args) == 2:
            return self.ev(t.args[0], ix) ** self.ev(t.args[1], ix)
        if op == "cast":
            return self.ev(t.args[1], ix)
        if op == "phi":
            return self.ev(t.args[1] if self.cond(t.args[0], ix) else t.args[2], ix)
        if op in ("lt0", "eq0", "and", "or", "not"):
            return complex(int(self.cond(t, ix)))
        if op == "idx":
            b, i = t.args
            if name(b) in PAIRS and is_num(i):
                vs = PAIRS[name(b)](self.ev(operands(b)[0], ix))
                k = cval(i)
                if isinstance(k, int) and -len(vs) <= k < len(vs):
                    return vs[k]
            if name(b) and name(b).endswith("_jax") and is_num(i) and cval(i) == 0:
                return self.ev(b, ix)
            parts = i.args[0] if i.op == "tuple" else (i,)
            new = tuple(rnd(self.ev(p)) for p in parts if not (p.op == "slice" or is_const(p) and not is_num(p) or known(p) == "argsort" and operands(p)[:1] == [b]))
            if self.marked and any(p is NONE or is_const(p) and cval(p) is None for p in parts):
                new += (("axes", "".join("s" if p.op == "slice" else "n" if is_const(p) and not is_num(p) else "i" for p in parts)),)
            if self.reduced:
                # terms of the same shape: nothing is left out
                new = tuple(("part", self.any(p)) if p.op == "slice" or is_const(p) and not is_num(p) else rnd(self.ev(p)) for p in parts)
            return self.ev(b, new + ix)
        if op in ("attr", "idx") and shape_like(t) or op == "glob" and str(t.args[0]).endswith("n_nodes"):
            return 1 + 0j       # one element, one process
        if op == "attr" and t.args[1] in ("T", "real", "imag"):
            v = self.ev(t.args[0], ix)
            return v if t.args[1] == "T" else complex(getattr(v, t.args[1]))
        if op == "sum" and len(t.args) >= 2 and isinstance(t.args[-1], T):
            return self.h("n", self.any(t.args[0])) * self.ev(t.args[-1], ix) if isinstance(t.args[0], T) else self.ev(t.args[-1], ix)
        if op in ("min", "max"):
            vs = [self.ev(a, ix) for a in t.args[0]]
            if all(abs(v.imag) < 1e-9 for v in vs):
                return min(vs, key=lambda v: v.real) if op == "min" else max(vs, key=lambda v: v.real)
            return self.h(op, tuple(sorted(map(rnd, vs))))
        f = known(t)
        if f is not None:
            xs = operands(t)
            if f in ELEM and xs:
                return ELEM[f](self.ev(xs[0], ix))
            if f in ("argsort", "argmax", "argmin") and xs:
                return self.h(f, rnd(self.ev(ordered(xs[0]))), self.at(ix))
            if f in UNARY and UNARY[f] and xs:
                return UNARY[f](self.ev(xs[0], ix))
            if f in SAME and xs:
                return self.ev(xs[0], self.over(t, f, ix))
            ix = self.over(t, f, ix)
            if f in BINARY and len(xs) >= 2:
                return BINARY[f](self.ev(xs[0], ix), self.ev(xs[1], ix))
            if f == "einsum" and len(xs) >= 2:
                p = 1 + 0j
                for x in xs:
                    if not (is_const(x) and not is_num(x)):
                        p *= self.ev(x, ix)
                return p
            if f == "uniform" or f == "bernoulli":
                d = dict(t.args[2])
                u = self.h("uniform", self.any(d["key"]) if "key" in d else self.any(xs[0]), self.at(ix))
                u = complex(abs(u) % 1)
                if f == "bernoulli":
                    p = d.get("p", xs[1] if len(xs) > 1 else None)
                    z = u - (self.ev(p, ix) if p is not None else 0.5)
                    if abs(z.imag) > 1e-9:
                        raise Stop
                    return complex(int(z.real < 0))
                lo, hi = (self.ev(d[k], ix) if k in d else complex(v) for k, v in (("minval", 0), ("maxval", 1)))
                return lo + (hi - lo) * u
            return self.h("call", f, tuple(self.any(a) for a in t.args[1]), tuple((k, self.any(a)) for k, a in t.args[2]), self.at(ix))
        if op in ("param", "self", "fv", "bv", "glob", "const", "new"):
            return self.h("leaf", t.id, self.at(ix))
        if op in ("tuple", "list", "array", "stack") and ix and isinstance(ix[0], tuple) and isinstance(t.args[0], tuple):
            k = int(round(ix[0][0]))
            if abs(ix[0][0] - k) < 1e-9 and abs(ix[0][1]) < 1e-9 and -len(t.args[0]) <= k < len(t.args[0]):
                return self.ev(t.args[0][k], ix[1:])
        return self.opaque(t, ix)

    def cond(self, c, ix):
        if c.op == "not":
            return not self.cond(c.args[0], ix)
        if c.op in ("and", "or"):
            vs = [self.cond(a, ix) for a in c.args[0]]
            return all(vs) if c.op == "and" else any(vs)
        if c.op == "lt0":
            v = self.ev(c.args[0], ix)
            if abs(v.imag) < 1e-9:
                return v.real < 0
            if c not in self.shared:
                raise Stop      # complex numbers are not ordered
            return self.truth("lt0", rnd(v))
        if c.op == "eq0":
            v = rnd(self.ev(c.args[0], ix))
            return self.truth("eq0", max(v, (-v[0] + 0.0, -v[1] + 0.0)))
        if is_const(c):
            return bool(cval(c))
        return self.truth("c", self.any(c))


def ordered(t):
    """a term with the same order of its elements"""
    while True:
        if known(t) in MONOTONE and operands(t):
            t = operands(t)[0]
        elif t.op == "poly":
            ms = [(m, c) for m, c in t.args[0] if m]
            if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1 and isinstance(ms[0][1], (int, float)) or len(ms) == 1 and len(ms[0][0]) == 1 \
                    and ms[0][0][0][1] == 1 and not isinstance(ms[0][1], complex):
                if ms[0][1] > 0:
                    t = ms[0][0][0][0]
                    continue
            if len(t.args[0]) == 1 and len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] > 0 and not isinstance(ms[0][1], complex) and ms[0][1] > 0 \
                    and known(ms[0][0][0][0]) in ("abs", "exp"):
                t = ms[0][0][0][0]
                if known(t) == "exp":
                    continue
            return t
        else:
            return t


def walk(ts):
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t not in seen:
            seen.add(t)
            todo.extend(children(t))
    return seen


MEMO = {}


SKELETON = {}


def skeleton(t):
    """the term without its constants and names"""
    if t not in SKELETON:
        todo = [t]
        while todo:
            u = todo[-1]
            if u in SKELETON:
                todo.pop()
                continue
            cs = list(children(u))
            new = [c for c in cs if c not in SKELETON]
            if new:
                todo.extend(new)
                continue
            todo.pop()
            h = [SKELETON[c] for c in cs]
            if u.op == "poly":
                h.sort()
            tag = u.op + ("None" if u is NONE else "") + (str(u.args[0].args[:1]) if u.op == "call" else "")
            SKELETON[u] = hashlib.md5((tag + ",".join(h)).encode()).hexdigest()
    return SKELETON[t]


def points(a, b, out, budget):
    """the pairs of subterms by which two terms of the same shape differ"""
    budget[0] -= 1
    if budget[0] < 0 or len(out) > 6:
        return
    if a is b or (a, b) in budget[1]:
        return
    budget[1].add((a, b))
    if a.op != b.op or len(a.args) != len(b.args):
        out.add((a, b))
        return
    if a.op == "poly":
        ma, mb = dict(a.args[0]), dict(b.args[0])
        ra = [(m, c) for m, c in a.args[0] if mb.get(m) != c]
        rb = [(m, c) for m, c in b.args[0] if ma.get(m) != c]
        key = lambda p: (str(p[1]), p[0].op, str(p[0].args[0].args[:1]) if p[0].op == "call" else "", skeleton(p[0]))
        mkey = lambda p: (str(p[1]), sorted(map(key, p[0])))
        if len(ra) == len(rb) <= 4:
            ra.sort(key=mkey)
            rb.sort(key=mkey)
            todo = []
            for (m, c), (n, d) in zip(ra, rb):
                xa = sorted((p for p in m if p not in n), key=key)
                xb = sorted((p for p in n if p not in m), key=key)
                if c != d or not ([key(t)[:3] for t in xa] == [key(t)[:3] for t in xb] or len(xa) == len(xb) == 1 and xa[0][1] == xb[0][1]):
                    break
                todo += [(t, u) for (t, _), (u, _) in zip(xa, xb)]
            else:
                for t, u in todo:
                    points(t, u, out, budget)
                return
        out.add((a, b))
        return
    pairs = []

    def zipped(p, q):
        if isinstance(p, T) and isinstance(q, T):
            pairs.append((p, q))
            return True
        if isinstance(p, tuple) and isinstance(q, tuple):
            return len(p) == len(q) and all(zipped(x, y) for x, y in zip(p, q))
        return p == q
    if a.op in ("const", "param", "glob", "fv", "bv", "dtype") or not all(zipped(p, q) for p, q in zip(a.args, b.args)):
        out.add((a, b))
        return
    if a.op == "call" and a.args[0] is not b.args[0]:
        out.add((a, b))
        return
    for p, q in pairs:
        points(p, q, out, budget)


def kind(f):
    return "max" if f in ("max", "min", "amax", "amin") else f if f in ("prod", "logsumexp") else "sum"


def swapped(p, q):
    """reductions of another kind"""
    ws = [walk([p]), walk([q])]
    ns = [{known(t) for t in ws[k] - ws[1 - k]} for k in (0, 1)]
    cl = [{kind(f) for f in n & (REDUCES - {"mpi_sum_jax", "mpi_sum"})} for n in ns]
    if not cl[0] or not cl[1] or cl[0] & cl[1]:
        return False
    if "max" in cl[0] | cl[1]:
        return True
    return any("logsumexp" in cl[k] and not ns[1 - k] & {"exp", "log", "softmax", "log_softmax", "logaddexp"} for k in (0, 1))


def moved(p, q):
    return any(known(t) in REORDERS and operands(t)[:1] == [u] or t.op == "attr" and t.args[1] == "T" and t.args[0] is u for t, u in ((p, q), (q, p)))


def one_point(a, b):
    """the terms have the same shape and differ by subterms that differ for certain; the ones that differ in the order of their elements"""
    out, budget = set(), [4000, set()]
    points(a, b, out, budget)
    if budget[0] < 0 or not 0 < len(out) <= 6:
        return None
    if (a, b) in out:
        return () if swapped(a, b) else None
    if len({p for p, _ in out}) != len(out):
        return None
    rest = [(p, q) for p, q in out if not _differ(p, q, 12, False) and not swapped(p, q)]
    return tuple(rest) if all(moved(p, q) for p, q in rest) else None


def differ(a, b, samples=24):
    """True: some sample separates the terms; False: none does; None: they could not be interpreted"""
    r = _differ(a, b, samples, False)
    lay = one_point(a, b) if r is False else None
    if lay is not None:
        r = _differ(a, b, samples, True, layout=lay)     # terms of the same shape: what a reduction runs over is read in the same way in both
    return r


def cancels(a, b, p, q):
    """p and q, parts of a and b, differ, but a and b do not"""
    d = differ(a, b)
    if d:
        return False
    return d is False and bool(differ(p, q)) or _differ(a, b, 24, False, True) is False and bool(_differ(p, q, 24, False, True))


def _differ(a, b, samples, reduced, marked=False, layout=()):
    k = (a, b, reduced, marked, layout)
    if k in MEMO:
        return MEMO[k]
    na, nb = walk([a]), walk([b])
    unordered = any(known(t) in MOVES for t in na ^ nb)
    r, ok = False, 0
    branch = any(known(t) in BRANCHES or t.op == "pow" or t.op == "poly" and any(not isinstance(e, int) for m, _ in t.args[0] for _a, e in m) for t in na ^ nb)
    for s in range(samples):
        if branch and s % 3 == 2:
            continue        # values of either sign: not where a branch of a logarithm or a root is chosen
        m = Sample(s, unordered, reduced=reduced, marked=marked, shared=na & nb, layout=layout)
        try:
            u, v = m.ev(a), m.ev(b)
            if abs(u) > 1e9 or abs(v) > 1e9 or u != u or v != v:
                continue
        except (Stop, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError, KeyError, IndexError):
            continue
        ok += 1
        if abs(u - v) > 1e-5 * (1 + abs(u) + abs(v)):
            r = True
            break
    if not ok:
        r = None
    MEMO[k] = r
    return r


def concerned(a, b):
    """a function with laws occurs in what differs"""
    na, nb = walk([a]), walk([b])
    return any(bears(t) for t in na ^ nb)


REORDERS = {"sort", "flip", "roll", "transpose", "ravel", "flatten", "reshape", "unique"}


def orderfree(a, b):
    """the same function of all the elements of the same array, in whatever order"""
    if known(a) != known(b) or known(a) not in ORDERFREE | {"det", "slogdet", "norm", "trace"}:
        return False
    x, y = operands(a), operands(b)
    if len(x) != len(y) or not x or x[1:] != y[1:] or len(x) > 1 and known(a) not in ("isin",):
        return False
    u, v = x[0], y[0]
    for p, q in ((u, v), (v, u)):
        if known(p) in REORDERS and operands(p) and operands(p)[0] is q or p.op == "attr" and p.args[1] == "T" and p.args[0] is q:
            return True
    return False
