"""Hash-consed value-graph terms with normalising constructors.

A term denotes the value of an expression of the analysed program.  Terms are
interned, so two expressions with the same normal form are the same object
(global value numbering).  Arithmetic is kept as polynomials over opaque
atoms, order comparisons as `lt0(polynomial)`, Boolean structure as and/or/not
over such atoms, selections (if / where / lax.cond) as `phi`.
"""
from fractions import Fraction
from hashlib import blake2b
import sys

sys.setrecursionlimit(20000)

_INTERN = {}
_N = [0]


class T:
    __slots__ = ("op", "args", "id", "h", "src", "size", "__weakref__")

    def __repr__(self):
        return show(self, 6)

    def __reduce__(self):
        raise TypeError


def mk(op, *args):
    key = (op, args)
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _N[0] += 1
        t.id = int.from_bytes(blake2b(repr((op, _enc(args))).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")
        h = 0
        size = 1
        for a in _children_iter(args):
            if a.h > h:
                h = a.h
            size += a.size
        if op == "lam":
            h += 1
        t.h = h
        t.size = min(size, 10**9)
        t.src = None
        _INTERN[key] = t
    return t


def _enc(a):
    """identity of a term by its structure alone: orders and samples do not depend on the run"""
    if isinstance(a, T):
        return a.id
    if isinstance(a, tuple):
        return tuple(_enc(b) for b in a)
    if isinstance(a, (str, int, float, complex, bytes, type(None), type(Ellipsis))):
        return type(a).__name__, a
    return str(a)


def _children_iter(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in _children_iter(a):
                yield b


def children(t):
    return list(_children_iter(t.args))


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, T):
        return v
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def is_num(t):
    return t.op == "const" and t.args[0] in ("int", "float", "bool", "complex")


def is_true(t):
    return t is TRUE or (t.op == "const" and bool(t.args[1]))


def is_false(t):
    return t is FALSE or (t.op == "const" and not bool(t.args[1]))


IMAG = mk("imag")


# ---------------------------------------------------------------- polynomials
def _poly_of(t):
    """term -> dict monomial -> Fraction ; monomial = tuple of (atom, exp) sorted by id"""
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "const":
        k, v = t.args
        if k in ("int", "float", "bool"):
            if k == "float" and (v != v or v in (float("inf"), float("-inf"))):
                return {((t, 1),): Fraction(1)}
            return {(): _frac(v)} if v != 0 else {}
        if k == "complex":
            d = {}
            if v.real:
                d[()] = _frac(v.real)
            if v.imag:
                d[((IMAG, 1),)] = _frac(v.imag)
            return d
    return {((t, 1),): Fraction(1)}


def _frac(v):
    if isinstance(v, float):
        # keep decimal literals readable and exact as written
        return Fraction(repr(v)) if "e" not in repr(v) else Fraction(v).limit_denominator(10**24)
    return Fraction(v)


def _mono_mul(m1, m2):
    d = {}
    sign = 1
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    if IMAG in d:
        e = d[IMAG] % 4
        if e >= 2:
            sign = -1
            e -= 2
        d[IMAG] = e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda p: (p[0].id, p[1]))), sign


def _from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            if c.denominator == 1:
                return const(int(c))
            return mk("poly", (((), c),))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _poly_of(t).items():
            d[m] = d.get(m, 0) + c
    return _from_poly(d)


def scale(t, k):
    k = Fraction(k)
    return _from_poly({m: c * k for m, c in _poly_of(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


MAXMONO = 48


def mul(*ts):
    d = {(): Fraction(1)}
    for t in ts:
        p = _poly_of(t)
        if len(p) * len(d) > MAXMONO and len(p) > 1 and len(d) >= 1:
            # too large: keep as an opaque product atom
            p = {((mk("prodatom", t), 1),): Fraction(1)}
        nd = {}
        for m1, c1 in d.items():
            for m2, c2 in p.items():
                m, s = _mono_mul(m1, m2)
                nd[m] = nd.get(m, 0) + c1 * c2 * s
        d = nd
    return _from_poly(d)


def div(a, b):
    p = _poly_of(b)
    if len(p) == 0:
        return mk("div", a, b)
    if len(p) == 1:
        (m, c), = p.items()
        inv = {tuple((x, -e) for x, e in m): 1 / c}
        if any(x is IMAG for x, e in m):
            return mk("div", a, b)
        return mul(a, _from_poly(inv))
    # normalise leading coefficient
    lead = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[0][1]
    bb = scale(b, 1 / lead)
    return mul(a, _from_poly({((bb, -1),): 1 / lead}))


def power(a, b):
    if is_num(b) and isinstance(cval(b), int) and not isinstance(cval(b), bool):
        n = cval(b)
        if n == 0:
            return const(1)
        if 0 < n <= 4:
            return mul(*([a] * n))
        if -4 <= n < 0:
            return div(const(1), mul(*([a] * (-n))))
    return mk("pow", a, b)


def num_of(t):
    """numeric constant (Fraction) or None"""
    p = _poly_of(t) if (t.op in ("poly",) or is_num(t)) else None
    if p is None:
        return None
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


# ---------------------------------------------------------------- booleans
BOOLOPS = {"lt0", "eq0", "and", "or", "not", "is", "eq", "in", "isinstance", "hasattr", "excond"}
BOOLCALLS = {
    "np.any", "np.all", "np.isnan", "np.isfinite", "np.isinf", "np.iscomplexobj", "np.isrealobj",
    "np.array_equal", "np.allclose", "np.issubdtype", "builtins.callable", "np.isclose", "np.iscomplex",
}


def is_bool(t):
    if t.op in BOOLOPS:
        return True
    if t.op == "const":
        return t.args[0] == "bool"
    if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] in BOOLCALLS:
        return True
    if t.op == "cast" and t.args[0] is DT_BOOL:
        return True
    if t.op == "phi":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op in ("reshape_like",):
        return is_bool(t.args[0])
    return False


DT_BOOL = mk("dtype", "bool")


def tobool(t):
    if is_bool(t):
        return t
    if t is NONE:
        return FALSE
    if t.op == "const" and t.args[0] in ("int", "float", "str"):
        return const(bool(t.args[1]))
    if t.op in ("list", "tuple", "dict"):
        return const(len(t.args[0]) > 0)
    return not_(eq(t, const(0)))


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt0":
        p = _poly_of(t.args[0])
        if all(c.denominator == 1 for c in p.values()):
            return lt0(sub(neg(t.args[0]), const(1)))
        return mk("not", t)
    if t.op == "and":
        return or_(*[not_(x) for x in t.args[0]])
    if t.op == "or":
        return and_(*[not_(x) for x in t.args[0]])
    if not is_bool(t):
        return not_(tobool(t))
    return mk("not", t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args[0])
        else:
            out.append(t)
    return out


def and_(*ts):
    ts = _flat("and", [tobool(t) for t in ts])
    s = set()
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        s.add(t)
    for t in s:
        if not_(t) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda x: x.id)))


def or_(*ts):
    ts = _flat("or", [tobool(t) for t in ts])
    s = set()
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        s.add(t)
    for t in s:
        if not_(t) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk("or", tuple(sorted(s, key=lambda x: x.id)))


def lt0(p):
    v = num_of(p)
    if v is not None:
        return const(v < 0)
    d = _poly_of(p)
    items = sorted(((m, c) for m, c in d.items() if m != ()), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    k = abs(items[0][1])
    # scale by positive factor only when all coefficients stay integral/simple
    if k != 1:
        p = scale(p, 1 / k)
    return mk("lt0", p)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return not_(lt(b, a))


def _nonarith(t):
    if t.op == "const":
        return t.args[0] not in ("int", "float", "complex", "bool")
    return t.op in ("list", "tuple", "dict", "fstr", "dtype", "cls", "func", "lam", "typeof", "slice", "glob")


def eq(a, b):
    if a is b:
        return TRUE
    # == False / == True
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and x.args[0] == "bool":
            return not_(y) if x is FALSE else (tobool(y) if is_bool(y) else _eq_arith(y, const(1)))
    if a.op == "const" and b.op == "const":
        return const(a.args[1] == b.args[1])
    if a.op == "dtype" and b.op == "dtype" and all(isinstance(x.args[0], str) for x in (a, b)):
        return const(a is b)
    if _nonarith(a) or _nonarith(b):
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("eq", x, y)
    if is_bool(a) and is_bool(b):
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("eq", x, y)
    return _eq_arith(a, b)


def _eq_arith(a, b):
    p = sub(a, b)
    v = num_of(p)
    if v is not None:
        return const(v == 0)
    d = _poly_of(p)
    items = sorted(((m, c) for m, c in d.items() if m != ()), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    k = items[0][1]
    if k != 1:
        p = scale(p, 1 / k)
    return mk("eq0", p)


def is_(a, b):
    if a is b and a.op in ("const", "cls", "glob"):
        return TRUE
    if a.op == "const" and b.op == "const":
        return const(a.args[1] is b.args[1] or (a.args[1] == b.args[1] and type(a.args[1]) is type(b.args[1])))
    for x, y in ((a, b), (b, a)):
        if x is NONE and definitely_not_none(y):
            return FALSE
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("is", x, y)


def definitely_not_none(t):
    if t.op in ("poly", "list", "tuple", "dict", "lam", "func", "map", "lt0", "eq0", "and", "or", "not", "array",
                "store", "at", "cast", "cls", "partial", "sum", "bound", "imag"):
        return True
    if t.op == "const":
        return t is not NONE
    if t.op == "call":
        f = t.args[0]
        return f.op == "glob" and f.args[0].startswith("np.")
    if t.op == "phi":
        return definitely_not_none(t.args[1]) and definitely_not_none(t.args[2])
    if t.op == "attr" and t.args[1] in ("mean", "Mean", "variance", "Variance", "error_of_mean", "Sigma"):
        c = t.args[0]
        return c.op == "call" and c.args[0].op == "glob" and c.args[0].args[0].endswith("stats.statistics")
    return False


def phi(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    # canonical polarity
    if c.op == "not":
        return phi(c.args[0], b, a)
    if c.op == "lt0":
        n = not_(c)
        if n.op == "lt0" and n.id < c.id:
            return phi(n, b, a)
    if c.op in ("and", "or"):
        n = not_(c)
        if n.id < c.id:
            return phi(n, b, a)
    # boolean selections
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # same-condition simplification
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    # effect traces: factor the common prefix
    if a.op in ("eff", "eff0") and b.op in ("eff", "eff0"):
        return _phi_eff(c, a, b)
    # nested selections with a shared branch
    if a.op == "phi" and a.args[2] is b:
        return phi(and_(c, a.args[0]), a.args[1], b)
    if a.op == "phi" and a.args[1] is b:
        return phi(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == "phi" and b.args[1] is a:
        return phi(or_(c, b.args[0]), a, b.args[2])
    if b.op == "phi" and b.args[2] is a:
        return phi(or_(c, not_(b.args[0])), a, b.args[1])
    # push phi through equal-shape tuples/dicts
    if a.op == b.op == "tuple" and len(a.args[0]) == len(b.args[0]):
        return mk("tuple", tuple(phi(c, x, y) for x, y in zip(a.args[0], b.args[0])))
    if a.op == b.op == "dict" and [k for k, _ in a.args[0]] == [k for k, _ in b.args[0]]:
        return mk("dict", tuple((k, phi(c, x, y)) for (k, x), (_, y) in zip(a.args[0], b.args[0])))
    # common addend / factor hoisting is left to the comparator
    return mk("phi", c, a, b)


def eff_list(t):
    out = []
    while t.op == "eff":
        out.append(t.args[1])
        t = t.args[0]
    return out[::-1], t


def eff_build(base, items):
    for i in items:
        base = mk("eff", base, i)
    return base


def _phi_eff(c, a, b):
    la, ba = eff_list(a)
    lb, bb = eff_list(b)
    if ba is not bb:
        return mk("phi", c, a, b)
    k = 0
    while k < len(la) and k < len(lb) and la[k] is lb[k]:
        k += 1
    ra, rb = la[k:], lb[k:]
    base = eff_build(ba, la[:k])
    e0 = mk("eff0")
    if len(ra) == 1 and ra[0].op == "raise":
        return eff_build(mk("eff", base, mk("guard", c, ra[0])), rb)
    if len(rb) == 1 and rb[0].op == "raise":
        return eff_build(mk("eff", base, mk("guard", not_(c), rb[0])), ra)
    return mk("eff", base, mk("condeff", c, eff_build(e0, ra), eff_build(e0, rb)))


def assume(t, c, val):
    """simplify the top phi-chain of t under assumption c == val"""
    if t.op == "phi":
        d = t.args[0]
        if d is c:
            return assume(t.args[1] if val else t.args[2], c, val)
        nc = not_(c)
        if d is nc:
            return assume(t.args[2] if val else t.args[1], c, val)
        if val and c.op == "and" and d in c.args[0]:
            return assume(t.args[1], c, val)
        if val and c.op == "and" and not_(d) in c.args[0]:
            return assume(t.args[2], c, val)
        if (not val) and c.op == "or" and d in c.args[0]:
            return assume(t.args[2], c, val)
        if (not val) and c.op == "or" and not_(d) in c.args[0]:
            return assume(t.args[1], c, val)
        return t
    if t is c:
        return const(val)
    return t


# ---------------------------------------------------------------- bit ops
def band(a, b):
    if is_bool(a) and is_bool(b):
        return and_(a, b)
    if is_num(a) and is_num(b) and all(isinstance(cval(x), int) for x in (a, b)):
        return const(cval(a) & cval(b))
    ts = _flat("band", [a, b])
    s = sorted(set(ts), key=lambda x: x.id)
    return mk("band", tuple(s)) if len(s) > 1 else s[0]


def bor(a, b):
    if is_bool(a) and is_bool(b):
        return or_(a, b)
    if is_num(a) and is_num(b) and all(isinstance(cval(x), int) for x in (a, b)):
        return const(cval(a) | cval(b))
    ts = _flat("bor", [a, b])
    s = sorted(set(ts), key=lambda x: x.id)
    return mk("bor", tuple(s)) if len(s) > 1 else s[0]


def invert(a):
    if is_bool(a):
        return not_(a)
    if is_num(a) and isinstance(cval(a), int):
        return const(~cval(a))
    return mk("inv", a)


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(op, args):
    """re-run the normalising constructor for an operator with new children"""
    if op == "poly":
        acc = []
        for m, c in args[0]:
            f = []
            for a, e in m:
                if e > 0:
                    f.extend([a] * e)
                else:
                    x = const(1)
                    for _ in range(-e):
                        x = div(x, a)
                    f.append(x)
            acc.append(scale(mul(*f) if f else const(1), c))
        return add(*acc) if acc else const(0)
    if op == "lt0":
        return lt0(args[0])
    if op == "eq0":
        return _eq_arith(args[0], const(0))
    if op == "eq":
        return eq(*args)
    if op == "is":
        return is_(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args[0])
    if op == "or":
        return or_(*args[0])
    if op == "phi":
        return phi(*args)
    if op in ("min", "max"):
        return minmax(op, args[0])
    if op == "band":
        r = args[0][0]
        for x in args[0][1:]:
            r = band(r, x)
        return r
    if op == "bor":
        r = args[0][0]
        for x in args[0][1:]:
            r = bor(r, x)
        return r
    hook = REBUILD.get(op)
    if hook is not None:
        return hook(*args)
    return mk(op, *args)


REBUILD = {}


def minmax(op, ts):
    ts = _flat(op, list(ts))
    s = sorted(set(ts), key=lambda x: x.id)
    if len(s) == 1:
        return s[0]
    if all(num_of(x) is not None for x in s):
        return sorted(s, key=num_of)[0 if op == "min" else -1]
    return mk(op, tuple(s))


def _map_args(args, f):
    out = []
    ch = False
    for a in args:
        if isinstance(a, T):
            b = f(a)
        elif isinstance(a, tuple):
            b = _map_args(a, f)
        else:
            b = a
        if b is not a and b != a:
            ch = True
        elif b is not a:
            b = a
        out.append(b)
    return tuple(out) if ch else args


def subst(t, m, memo=None):
    """replace terms by the mapping m (dict T->T), re-normalising"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args:
        memo[t] = t
        return t
    na = _map_args(t.args, lambda x: _subst(x, m, memo))
    r = t if na is t.args else rebuild(t.op, na)
    if r is not t and r.src is None:
        r.src = t.src
    memo[t] = r
    return r


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        stack.extend(children(x))
    return False


def walk(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


# ---------------------------------------------------------------- lambda terms
_FRESH = [0]


def fresh(prefix="v"):
    _FRESH[0] += 1
    return mk("fv", prefix, _FRESH[0])


def lam(params, body):
    """close `body` over the fresh variables `params`; height-indexed canonical names"""
    h = body.h
    m = {p: mk("bv", h, i) for i, p in enumerate(params)}
    b = subst(body, m) if params else body
    # substitution can change the height only downwards; recompute until stable
    if b.h != h:
        h2 = b.h
        m2 = {mk("bv", h, i): mk("bv", h2, i) for i in range(len(params))}
        # only rename if no inner lam of height h uses those names (it cannot: inner heights < h)
        b2 = subst(b, m2)
        if b2.h == h2:
            return mk("lam", len(params), h2, b2)
    return mk("lam", len(params), h, b)


def apply_lam(l, args):
    n, h, body = l.args
    m = {mk("bv", h, i): a for i, a in enumerate(args)}
    return subst(body, m)


# ---------------------------------------------------------------- printing
def show(t, depth=5):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o = t.op
    if o == "const":
        return repr(t.args[1])
    if o == "poly":
        parts = []
        for m, c in t.args[0]:
            f = [("%s" % show(a, d)) + ("" if e == 1 else "^%d" % e) for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            parts.append("*".join(f))
        return "(" + " + ".join(parts) + ")"
    if o == "glob":
        return t.args[0]
    if o in ("sym", "param", "fv"):
        return "%s" % (":".join(str(x) for x in t.args))
    if o == "bv":
        return "#%d.%d" % t.args
    if o == "attr":
        return "%s.%s" % (show(t.args[0], d), t.args[1])
    if o == "idx":
        return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if o == "call":
        f, a, k = t.args
        s = [show(x, d) for x in a] + ["%s=%s" % (n, show(v, d)) for n, v in k]
        return "%s(%s)" % (show(f, d), ", ".join(s))
    if o == "lt0":
        return "[%s < 0]" % show(t.args[0], d)
    if o == "eq0":
        return "[%s == 0]" % show(t.args[0], d)
    if o == "lam":
        return "λ%d/%d.%s" % (t.args[0], t.args[1], show(t.args[2], d))
    return "%s(%s)" % (o, ", ".join(show(a, d) for a in t.args))
