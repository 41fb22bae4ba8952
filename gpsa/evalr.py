"""Abstract evaluator: AST of a function -> value-graph summary.

Flow-sensitive, context-sensitive (repository functions are inlined), with
phi-merges at joins and one-pass summarised loops.  It never executes the
analysed program: every value is a term over the function's inputs.
"""
import ast
import hashlib
from .terms import *
from .terms import _poly_of, _from_poly
from . import terms as TM
from .loader import ClassInfo
from . import vocab as V

UNDEF = mk("undef")
EFF0 = mk("eff0")
BOT = mk("bottom")


class Closure:
    def __init__(self, node, frame, module, cls, name, qual, defaults=None, kwdefaults=None):
        self.node = node
        self.frame = frame
        self.module = module
        self.cls = cls
        self.name = name
        self.qual = qual
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}


class State:
    __slots__ = ("frames", "heap", "eff")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.eff = EFF0

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.eff = self.eff
        return s


class Budget(Exception):
    pass


class FALL:
    __slots__ = ("st",)

    def __init__(self, st):
        self.st = st


class EXIT:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st


class BR:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


# ------------------------------------------------------------ index helper
def tup(*xs):
    return mk("tuple", tuple(xs))


FULL = mk("slice", NONE, NONE, NONE)


def normidx(i):
    """trailing full slices select everything"""
    if i.op == "tuple" and len(i.args[0]) > 1 and i.args[0][-1] is FULL:
        parts = list(i.args[0])
        while len(parts) > 1 and parts[-1] is FULL:
            parts.pop()
        i = parts[0] if len(parts) == 1 else mk("tuple", tuple(parts))
    return i


def index(base, i):
    i = normidx(i)
    if i is FULL and base.op in ("idx", "call"):
        return base
    if base.op in ("idx", "call", "param", "fv", "bv", "attr", "poly", "cast", "vmap", "at", "phi"):
        parts = i.args[0] if i.op == "tuple" else (i,)
        if NONE in parts and all(p is NONE or p is FULL or p.op == "ellipsis" for p in parts):
            # new axes only
            k = 0
            for p in parts:
                if p is NONE:
                    base = call_glob("np.expand_dims", [("a", base), ("axis", const(k))])
                    k += 1 if k >= 0 else 0
                elif p is FULL:
                    k += 1
                else:
                    k = -1
            return base
    if base.op in ("tuple", "list") and is_num(i) and isinstance(cval(i), int) and not isinstance(cval(i), bool):
        k = cval(i)
        n = len(base.args[0])
        if -n <= k < n:
            return base.args[0][k]
    if base.op in ("tuple", "list") and i.op == "slice":
        lo, hi, st = i.args
        if all(x is NONE or (is_num(x) and isinstance(cval(x), int)) for x in (lo, hi, st)):
            return mk(base.op, tuple(base.args[0][slice(*[None if x is NONE else cval(x) for x in (lo, hi, st)])]))
    if base.op == "array" and is_num(i) and isinstance(cval(i), int):
        k = cval(i)
        n = len(base.args[0])
        if -n <= k < n:
            return base.args[0][k]
    if base.op == "cast" and base.args[1].op == "array":
        r = index(base.args[1], i)
        if r.op != "idx":
            return cast(base.args[0], r)
    if base.op == "dict" and is_const(i):
        for k, v in base.args[0]:
            if k is i:
                return v
    if base.op == "dict" and not is_const(i) and 0 < len(base.args[0]) <= 8 and all(is_const(k) for k, _ in base.args[0]):
        r = mk("undef", "key")
        for k, v in reversed(base.args[0]):
            r = phi(eq(i, k), v, r)
        return r
    if base.op == "phi" and (base.args[1].op in ("tuple", "list", "dict") or base.args[2].op in ("tuple", "list", "dict")):
        return phi(base.args[0], index(base.args[1], i), index(base.args[2], i))
    if base.op == "call" and base.args[0].op == "glob" and base.args[0].args[0] == "np.sort":
        kw = dict(base.args[2])
        a = kw.get("a")
        if a is not None and len(kw) == 1 and a.op == "array" and len(a.args[0]) == 2 and is_num(i):
            if cval(i) in (0, -2):
                return minmax("min", a.args[0])
            if cval(i) in (1, -1):
                return minmax("max", a.args[0])
    if base.op == "map" and i.op not in ("tuple", "slice", "const") and i.h == 0:
        return apply_lam(base.args[1], [i])
    if base.op == "call" and base.args[0].op == "glob" and base.args[0].args[0] in ELEM1 and len(base.args[2]) == 1 and not base.args[1]:
        return call_glob(base.args[0].args[0], [(base.args[2][0][0], index(base.args[2][0][1], i))])
    if base.op == "store" and base.args[1] is i:
        return base.args[2]
    if base.op == "store":
        w = base.args[1]
        ws, js = (w.args[0], i.args[0]) if w.op == "tuple" and i.op == "tuple" else ((w,), (i,))
        if len(ws) == len(js) and any(apart(p, q) for p, q in zip(ws, js)) and not any(p.op == "tuple" for p in ws + js):
            return index(base.args[0], i)
    if base.op == "at":
        w = base.args[2]
        ws, js = (w.args[0], i.args[0]) if w.op == "tuple" and i.op == "tuple" else ((w,), (i,))
        if len(ws) == len(js) and any(apart(p, q) or beyond(p, q) or beyond(q, p) for p, q in zip(ws, js)) \
                and all(p.op in ("slice", "bv", "fv", "param", "poly") or is_num(p) for p in ws + js):
            return index(base.args[1], i)
    if base.op == "idx" and base.args[1].op == "slice" and is_num(i) and isinstance(cval(i), int) and cval(i) >= 0:
        # an element of a leading or trailing part
        lo, hi, sp = base.args[1].args
        k = cval(i) + (0 if lo is NONE else cval(lo) if is_num(lo) and isinstance(cval(lo), int) and cval(lo) >= 0 else -10 ** 9)
        if k >= 0 and (sp is NONE or is_num(sp) and cval(sp) == 1) and (hi is NONE or is_num(hi) and isinstance(cval(hi), int) and k < cval(hi)):
            return index(base.args[0], const(k))
    if base.op == "store" and i.op == "tuple" and len(i.args[0]) >= 2 and i.args[0][0] is base.args[1] and base.args[2].op in ("idx", "store", "param", "fv"):
        # an element of the row just written
        return index(base.args[2], i.args[0][1] if len(i.args[0]) == 2 else mk("tuple", i.args[0][1:]))
    if base.op == "arangeN" and i.op not in ("tuple", "slice"):
        return add(base.args[0], i) if not (is_num(i) and cval(i) < 0) else mk("idx", base, i)
    return mk("idx", base, i)


TM.REBUILD["idx"] = index


def whole(xs):
    """(r[0], r[1], ...) of a call's result r is r"""
    xs = tuple(xs)
    if len(xs) >= 2 and all(x.op == "idx" and x.args[0] is xs[0].args[0] and is_num(x.args[1]) and cval(x.args[1]) == k for k, x in enumerate(xs)) \
            and xs[0].args[0].op == "call":
        return xs[0].args[0]
    return mk("tuple", xs)


def apart(i, j, OPS=("bv", "fv")):
    """two scalar indices that differ by a nonzero constant"""
    def scalar(t):
        return is_num(t) or t.op in OPS or t.op == "poly" and all(a.op in OPS and e == 1 for m, _ in t.args[0] for a, e in m)
    if not (scalar(i) and scalar(j)):
        return False
    d = num_of(sub(i, j))
    return d is not None and d != 0 and not (is_num(i) and is_num(j) and (cval(i) < 0) != (cval(j) < 0))


def beyond(i, s):
    """position i lies before the part s[lo:]"""
    if s.op != "slice" or s.args[1] is not NONE or s.args[2] is not NONE or s.args[0] is NONE:
        return False
    lo = s.args[0]
    if i.op == "slice" or not apart(i, lo, ("bv", "fv", "param")):
        return False
    return num_of(sub(lo, i)) > 0


def store_(b, i, v):
    i = normidx(i)
    if i.op == "phi":
        return phi(i.args[0], store_(b, i.args[1], v), store_(b, i.args[2], v))
    if i.op == "slice" and i.args[0].op == "phi" and i.args[1] is NONE and i.args[2] is NONE:
        c, p, q = i.args[0].args
        return phi(c, store_(b, mk("slice", p, NONE, NONE), v), store_(b, mk("slice", q, NONE, NONE), v))
    if b.op == "store" and is_num(v) and b.args[2] is v and b.args[1].op == "slice" and i.op != "slice" \
            and b.args[1].args[1] is NONE and b.args[1].args[2] is NONE and b.args[1].args[0] is add(i, const(1)) and i.op not in ("tuple", "phi"):
        # the position just before the part already set to the same number
        return store_(b.args[0], mk("slice", i, NONE, NONE), v)
    if b.op == "dict" and is_const(i):
        items = [(k, x) for k, x in b.args[0] if k is not i] + [(i, v)]
        if all(is_const(k) for k, _ in items):
            items.sort(key=lambda p: repr(p[0].args))
        return mk("dict", tuple(items))
    if b.op == "list" and is_num(i) and isinstance(cval(i), int) and -len(b.args[0]) <= cval(i) < len(b.args[0]):
        xs = list(b.args[0])
        xs[cval(i)] = v
        return mk("list", tuple(xs))
    if b.op == "store" and b.args[1] is i:
        b = b.args[0]
    if v.op == "idx" and v.args[0] is b and v.args[1] is i:
        return b
    if v.op == "store" and b.op not in ("list", "dict", "tuple") and v.args[0] is index(b, i) and counter_view(i) and counter_view(v.args[1]) \
            and i.op not in ("tuple", "slice") and not (v.args[1].op == "tuple" and any(is_const(p) and not is_num(p) for p in v.args[1].args[0])):
        # a[i][j] = x  is  a[i, j] = x
        j = v.args[1]
        return store_(b, mk("tuple", (i,) + (j.args[0] if j.op == "tuple" else (j,))), v.args[2])
    if b.op == "store" and is_num(i) and is_num(b.args[1]) and isinstance(cval(i), int) and isinstance(cval(b.args[1]), int) \
            and 0 <= cval(i) < cval(b.args[1]):
        return mk("store", store_(b.args[0], i, v), b.args[1], b.args[2])
    return mk("store", b, i, v)


TM.REBUILD["store"] = store_


def cast(d, x):
    if d is NONE:
        return x
    if d is TM.DT_BOOL:
        return tobool(x) if x.op not in ("list", "tuple", "array") else mk("cast", d, x)
    if num_of(x) is not None and d.op == "dtype":
        return x
    if x.op == "cast" and x.args[0] is d:
        return x
    return mk("cast", d, x)


TM.REBUILD["cast"] = cast


def getattr_(base, name):
    if base.op == "phi" and name not in ("shape", "dtype", "T", "real", "imag", "ndim", "size") and (
        base.args[1].op in ("new", "tuple", "dict") or base.args[2].op in ("new",)
    ):
        return phi(base.args[0], getattr_(base.args[1], name), getattr_(base.args[2], name))
    if base.op == "new":
        for k, v in base.args[1]:
            if k == name:
                return v
    if base.op == "cast" and name in ("shape", "ndim", "size"):
        return getattr_(base.args[1], name)
    if name == "dtype" and base.op == "cast":
        return base.args[0]
    if base.op == "call" and base.args[0].op == "glob" and base.args[0].args[0] == "netket.stats.Stats" and name in dict(base.args[2]):
        return dict(base.args[2])[name]
    if name in ("real", "imag"):
        return call_glob("np." + name, [("x", base)])
    if name == "T":
        return call_glob("np.transpose", [("a", base)])
    if name == "shape" and base.op == "store":
        return getattr_(base.args[0], "shape")
    if name in ("shape", "dtype") and base.op == "at":
        return getattr_(base.args[1], name)
    if name == "shape" and base.op == "loop":
        r = shape_root(base)
        if r is not base:
            return getattr_(r, "shape")
    return mk("attr", base, name)


def shape_root(t):
    """the array whose shape `t` has, seen through in-place stores and the loops that make them"""
    while True:
        if t.op == "store" and t.args[0].op not in ("list", "dict"):
            t = t.args[0]
        elif t.op == "at":
            t = t.args[1]
        elif t.op == "loop" and t.args[1].op == "lam" and t.args[1].args[2].op == "tuple":
            nc = len(t.args[2])
            np_, h, body = t.args[1].args
            if shape_root(body.args[0][0]) is not mk("bv", h, np_ - nc):
                return t
            t = t.args[2][0]
        else:
            return t


TM.REBUILD["attr"] = getattr_


def length(x):
    if x.op in ("list", "tuple", "dict", "array"):
        return const(len(x.args[0]))
    if x.op == "const" and x.args[0] == "str":
        return const(len(x.args[1]))
    if x.op == "map":
        return x.args[0]
    if x.op == "range":
        return sub(x.args[1], x.args[0])
    if x.op == "arangeN":
        return x.args[1]
    if x.op == "idx" and x.args[1].op == "slice" and x.args[1].args[1] is NONE and x.args[1].args[2] is NONE:
        k = x.args[1].args[0]
        if is_num(k) and isinstance(cval(k), int) and cval(k) >= 0:
            return sub(length(x.args[0]), k)
    return index(getattr_(x, "shape"), const(0))


ELEM1 = {"np.conj", "np.real", "np.imag", "np.abs", "np.exp", "np.log", "np.sqrt", "np.sin", "np.cos", "np.tanh", "np.angle", "np.sign",
         "np.isnan", "np.log1p", "np.expm1", "np.floor", "np.square"}
MOVES = {"np.transpose", "np.reshape", "np.ravel", "np.squeeze", "np.expand_dims", "np.swapaxes", "np.moveaxis"}


def at_(nm, base, i, v, *rest):
    """functional update; additions to one array commute and merge"""
    if nm == "add":
        ups = [(i, v, rest)]
        while base.op == "at" and base.args[0] == "add":
            ups.append((base.args[2], base.args[3], base.args[4:]))
            base = base.args[1]
        if len(ups) > 1:
            acc = {}
            for j, w, r in ups:
                acc[(j, r)] = add(acc[(j, r)], w) if (j, r) in acc else w
            for (j, r), w in sorted(acc.items(), key=lambda p: (p[0][0].id, repr([k for k, _ in p[0][1]]) if p[0][1] and isinstance(p[0][1][0], tuple) else "")):
                base = mk("at", "add", base, j, w, *r)
            return base
    return mk("at", nm, base, i, v, *rest)


TM.REBUILD["at"] = at_


def rank_atleast(t):
    if t.op == "idx" and t.args[1].op == "tuple" and all(p.op == "slice" for p in t.args[1].args[0]):
        return len(t.args[1].args[0])
    if t.op in ("band", "bor", "fdiv", "mod", "poly"):
        return max([0] + [rank_atleast(x) for x in TM.children(t)])
    if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] in ("np.cumsum", "np.cumprod") and t.args[2]:
        return rank_atleast(dict(t.args[2]).get("a", NONE)) if "axis" in dict(t.args[2]) else 1
    return 0


def call_glob(name, kw, args=()):
    kw = [(k, v) for k, v in kw if not _neutral(name, k, v)]
    if name in ("np.cumsum", "np.cumprod") and not args:
        d = dict(kw)
        x, ax = d.get("a"), d.get("axis")
        if x is not None and ax is not None and len(d) == 2 and is_num(ax) and cval(ax) == -1 and x.op == "call" and x.args[0].op == "glob" \
                and x.args[0].args[0] == "np.stack" and not x.args[1]:
            e = dict(x.args[2])
            k = e.get("axis", const(0))
            if e.get("arrays", NONE).op == "tuple" and is_num(k) and cval(k) >= 0 and all(rank_atleast(y) > cval(k) for y in e["arrays"].args[0]):
                # along the last axis each stacked array is treated on its own
                return call_glob("np.stack", [("arrays", mk("tuple", tuple(call_glob(name, [("a", y), ("axis", ax)]) for y in e["arrays"].args[0]))), ("axis", k)])
    if name in ("np.full", "np.full_like") and not args:
        v = dict(kw).get("fill_value")
        if v is not None and not (is_const(v) and not is_num(v)) and not (is_const(v) and isinstance(cval(v), bool)):
            if num_of(v) == 0:
                return call_glob(name.replace("full", "zeros"), [(k, x) for k, x in kw if k != "fill_value"])
            return mul(v, call_glob(name.replace("full", "ones"), [(k, x) for k, x in kw if k != "fill_value"]))
    if name in ("np.real", "np.imag", "np.conj", "np.abs") and len(kw) == 1:
        x = kw[0][1]
        n = num_of(x)
        if n is not None:
            return {"np.real": x, "np.imag": const(0), "np.conj": x, "np.abs": _from_poly({(): abs(n)})}[name]
        if name == "np.conj" and x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] == "np.conj":
            return x.args[2][0][1]
        if name == "np.conj" and x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in ("np.real", "np.imag", "np.abs"):
            return x
        if name == "np.real" and x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in ("np.real", "np.imag", "np.abs"):
            return x
        if name == "np.conj" and x.op == "poly":
            # conjugation distributes over sums and products of atoms
            acc = []
            for m, c in x.args[0]:
                f = [const(1)]
                for a, e in m:
                    if a is IMAG:
                        ca = neg(IMAG)
                    else:
                        ca = call_glob("np.conj", [("x", a)])
                    for _ in range(abs(e)):
                        f.append(ca if e > 0 else div(const(1), ca))
                acc.append(scale(mul(*f), c))
            return add(*acc)
    if name in ELEM1 and len(kw) == 1 and not args:
        x = kw[0][1]
        if x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in MOVES:
            y = dict(x.args[2])
            k = "a" if "a" in y else "x" if "x" in y else None
            if k is not None and not x.args[1]:
                y[k] = call_glob(name, [(kw[0][0], y[k])])
                return call_glob(x.args[0].args[0], list(y.items()))
    if name in MOVES and not args:
        # numeric coefficients leave the plumbing
        y = dict(kw)
        k = "a" if "a" in y else "x" if "x" in y else None
        if k is not None and y[k].op == "poly" and len(y[k].args[0]) == 1:
            (m, c), = y[k].args[0]
            if c != 1 and m:
                y[k] = _from_poly({m: Fraction(1)})
                return scale(call_glob(name, list(y.items())), c)
    if name in ("np.nonzero", "np.flatnonzero", "np.sign") and kw and not args:
        # positive coefficients do not matter
        y = dict(kw)
        k = "a" if "a" in y else "x" if "x" in y else None
        if k is not None and y[k].op == "poly" and len(y[k].args[0]) == 1:
            (m, c), = y[k].args[0]
            if m and c != 1 and (c > 0 or name != "np.sign"):
                y[k] = _from_poly({m: Fraction(1)})
                return call_glob(name, list(y.items()))
        if k is not None and name == "np.nonzero" and y[k].op == "not" and y[k].args[0].op == "eq0":
            y[k] = y[k].args[0].args[0]
            return call_glob(name, list(y.items()))
    if name == "np.transpose" and len(kw) == 1 and not args:
        x = kw[0][1]
        if x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] == "np.transpose" and len(x.args[2]) == 1:
            return x.args[2][0][1]
    if name in ("np.minimum", "np.maximum") and len(args) == 2:
        return minmax("min" if name.endswith("minimum") else "max", args)
    return mk("call", mk("glob", name), tuple(args), tuple(sorted(kw, key=lambda p: p[0])))


def _neutral(name, k, v):
    d = V.DEFAULTS.get(k)
    if d is None:
        return False
    if name in d:
        dv = d[name]
    elif "*" in d:
        dv = d["*"]
    else:
        return False
    if dv == "__none__":
        return False
    if dv == ():
        return v.op == "tuple" and not v.args[0]
    if v.op != "const":
        return False
    return v.args[1] == dv and (v.args[1] is None) == (dv is None)


def _rb_call(f, a, k):
    if f.op == "glob":
        return call_glob(f.args[0], list(k), list(a))
    return mk("call", f, a, k)


TM.REBUILD["call"] = _rb_call


def _rb_len(x):
    return length(x)


# sums over an index -------------------------------------------------------
def mksum(N, n, e):
    """sum_{n in range(N)} e with e a term over the fresh variable n"""
    out = []
    for m, c in _poly_of(e).items():
        inv, dep = [], []
        for a, ex in m:
            (dep if contains(a, lambda x: x is n) else inv).append((a, ex))
        invt = _from_poly({tuple(inv): Fraction(1)})
        if dep:
            body = _from_poly({tuple(dep): Fraction(1)})
            out.append(scale(mul(invt, mk("sum", N, lam([n], body))), c))
        else:
            out.append(scale(mul(invt, N), c))
    return add(*out) if out else const(0)


from fractions import Fraction


def cell_split(out, cv, fixed):
    """out writes one element of cv, the same in every iteration, and reads no other -> (index, new value as a function of CELL) or None"""
    I = []

    def go(o):
        if o is cv:
            return CELL
        if o.op == "store" and o.args[0] is cv:
            if I and I[0] is not o.args[1]:
                return None
            I[:] = [o.args[1]]
            return o.args[2]
        if o.op == "phi":
            a, b = go(o.args[1]), go(o.args[2])
            return None if a is None or b is None else phi(o.args[0], a, b)
        return None
    r = go(out)
    if r is None or not I or not fixed(I[0]):
        return None
    if any(x.op == "slice" for x in walk(I[0])):
        return None
    r = subst(r, {mk("idx", cv, I[0]): CELL})
    if contains(r, lambda x: x is cv):
        return None
    return I[0], r


CELL = mk("fv", "$cell")


def acc_split(out, cv):
    """out == cv + e with e free of cv?  -> e or None"""
    if out is cv:
        return const(0)
    if out.op == "phi":
        c, a, b = out.args
        if contains(c, lambda x: x is cv):
            return None
        ea, eb = acc_split(a, cv), acc_split(b, cv)
        if ea is None or eb is None:
            return None
        return phi(c, ea, eb)
    e = sub(out, cv)
    if contains(e, lambda x: x is cv):
        return None
    return e


def shash(t, memo):
    """order-insensitive structural hash, stable across evaluation order"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "fv":
        s = "fv"
    else:
        parts = []

        def go(a):
            if isinstance(a, T):
                return shash(a, memo)
            if isinstance(a, tuple):
                xs = [go(b) for b in a]
                return "(" + ",".join(xs) + ")"
            return repr(a)

        if t.op in ("poly", "and", "or", "min", "max", "band", "bor"):
            xs = []
            for x in t.args[0]:
                if t.op == "poly":
                    m, c = x
                    xs.append(str(c) + "*".join(sorted(shash(a, memo) + "^%d" % e for a, e in m)))
                else:
                    xs.append(shash(x, memo))
            parts = sorted(xs)
        elif t.op in ("eq", "is"):
            parts = sorted(go(a) for a in t.args)
        else:
            parts = [go(a) for a in t.args]
        s = t.op + "|" + ";".join(parts)
    r = hashlib.md5(s.encode()).hexdigest()
    memo[t] = r
    return r


class Evaluator:
    MAXDEPTH = 40
    MAXSTEPS = 60000

    def __init__(self, tree):
        self.tree = tree
        self.funcs = {}
        self._fid = 0
        self._frame = 0
        self.steps = 0
        self.stack = []
        self.srcmap = {}
        self.modframes = {}
        self.notes = []
        self.cur_mod = []
        self.unres = 0
        self.ostack = []
        self.edges = set()

    # ---------------------------------------------------------- closures
    def newfunc(self, clo):
        self._fid += 1
        self.funcs[self._fid] = clo
        return mk("func", self._fid)

    def newframe(self, st, parent, module, cls=None, kind="f"):
        self._frame += 1
        fid = self._frame
        st.frames[fid] = {"$parent": parent, "$module": module, "$cls": cls}
        return fid

    def at(self, t, node, module):
        if t is not None and isinstance(t, T):
            if t not in self.srcmap and hasattr(node, "lineno"):
                self.srcmap[t] = (module.rel, node.lineno)
        return t

    # ---------------------------------------------------------- name lookup
    def lookup(self, st, fid, name):
        f = fid
        while f is not None:
            env = st.frames.get(f)
            if env is None:
                break
            if name in env:
                return env[name]
            if "$node" in env and name in own_locals(env["$node"]):
                return UNDEF
            module = env["$module"]
            f = env["$parent"]
        return self.global_name(module, name)

    def global_name(self, module, name):
        r = self.tree.resolve(module, name)
        return self.resolved(r, name)

    def resolved(self, r, name):
        if r is None:
            if name in BUILTINS:
                return mk("glob", V.canon("builtins." + name))
            self.unres += 1
            return mk("glob", "?." + name)
        k = r[0]
        if k == "class":
            return mk("cls", r[1].qual)
        if k == "func":
            _, module, nodes = r
            node = nodes[-1]
            key = ("mod", module.name, name)
            if key not in self.modframes:
                clo = Closure(node, None, module, None, name, module.name + "." + name)
                self.modframes[key] = self.newfunc(clo)
            return self.modframes[key]
        if k == "assign":
            _, module, node = r
            key = ("assign", module.name, name)
            if key in self.modframes:
                return self.modframes[key]
            self.modframes[key] = mk("glob", module.name + "." + name)
            st = State()
            fid = self.newframe(st, None, module)
            try:
                v = self.ev(node, st, fid)
                # only keep closed simple values
                self.modframes[key] = v
            except Budget:
                raise
            return self.modframes[key]
        if k == "module":
            return mk("glob", "mod:" + r[1])
        if k == "ext":
            return mk("glob", V.canon(r[1]))
        return mk("glob", "?." + str(r[1]))

    # ---------------------------------------------------------- expressions
    def ev(self, node, st, fid):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget()
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return mk("opaque", type(node).__name__, ast.dump(node)[:200])
        t = m(node, st, fid)
        return self.at(t, node, st.frames[fid]["$module"])

    def e_Constant(self, n, st, f):
        if n.value is Ellipsis:
            return mk("ellipsis")
        return const(n.value)

    def e_Name(self, n, st, f):
        return self.lookup(st, f, n.id)

    def e_Tuple(self, n, st, f):
        return whole(self.evseq(n.elts, st, f))

    def e_List(self, n, st, f):
        return mk("list", self.evseq(n.elts, st, f))

    def e_Set(self, n, st, f):
        return mk("set", tuple(sorted(set(self.evseq(n.elts, st, f)), key=lambda t: t.id)))

    def evseq(self, elts, st, f):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, f)
                if v.op in ("tuple", "list"):
                    out.extend(v.args[0])
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(e, st, f))
        return tuple(out)

    def e_Dict(self, n, st, f):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, st, f)
                if d.op == "dict":
                    for kk, vv in d.args[0]:
                        items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
                else:
                    items.append((mk("dstar"), d))
            else:
                kk, vv = self.ev(k, st, f), self.ev(v, st, f)
                items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
        if all(is_const(k) for k, _ in items):
            items.sort(key=lambda p: repr(p[0].args))
        return mk("dict", tuple(items))

    def e_JoinedStr(self, n, st, f):
        return mk("fstr", tuple(self.ev(v, st, f) for v in n.values))

    def e_FormattedValue(self, n, st, f):
        return self.ev(n.value, st, f)

    def e_Starred(self, n, st, f):
        return mk("star", self.ev(n.value, st, f))

    def e_NamedExpr(self, n, st, f):
        v = self.ev(n.value, st, f)
        self.assign(n.target, v, st, f)
        return v

    def e_IfExp(self, n, st, f):
        c = tobool(self.ev(n.test, st, f))
        if c is TRUE:
            return self.ev(n.body, st, f)
        if c is FALSE:
            return self.ev(n.orelse, st, f)
        s1, s2 = st.copy(), st.copy()
        a = self.ev(n.body, s1, f)
        b = self.ev(n.orelse, s2, f)
        self.merge_into(st, c, s1, s2)
        return phi(c, a, b)

    def e_BoolOp(self, n, st, f):
        vs = [self.ev(v, st, f) for v in n.values]
        if all(is_bool(v) for v in vs):
            return and_(*vs) if isinstance(n.op, ast.And) else or_(*vs)
        r = vs[-1]
        for v in reversed(vs[:-1]):
            r = phi(tobool(v), r, v) if isinstance(n.op, ast.And) else phi(tobool(v), v, r)
        if is_bool(r):
            return r
        # value form `a or b`; when only truthiness is used tobool() below recovers and/or
        return mk("andv" if isinstance(n.op, ast.And) else "orv", tuple(vs)) if r.op == "phi" else r

    def e_UnaryOp(self, n, st, f):
        v = self.ev(n.operand, st, f)
        if isinstance(n.op, ast.Not):
            return not_(truth(v))
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.Invert):
            return invert(v)
        return v

    def e_BinOp(self, n, st, f):
        a = self.ev(n.left, st, f)
        b = self.ev(n.right, st, f)
        return binop(n.op, a, b)

    def e_Compare(self, n, st, f):
        left = self.ev(n.left, st, f)
        res = []
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, st, f)
            res.append(compare(op, left, r))
            left = r
        return and_(*res) if len(res) > 1 else res[0]

    def e_Lambda(self, n, st, f):
        return self.newfunc(self.mkclosure(n, st, f, "<lambda>"))

    def mkclosure(self, n, st, f, name):
        env = st.frames[f]
        d = [self.ev(x, st, f) for x in n.args.defaults]
        kd = {a.arg: (self.ev(x, st, f) if x is not None else None) for a, x in zip(n.args.kwonlyargs, n.args.kw_defaults)}
        return Closure(n, f, env["$module"], env["$cls"], name, env["$module"].name + ":" + name, d, kd)

    def e_Attribute(self, n, st, f):
        # super().x
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super":
            return self.super_attr(n.attr, st, f)
        b = self.ev(n.value, st, f)
        return self.attr(b, n.attr, st, f)

    def super_attr(self, name, st, f):
        ff = f
        selft = None
        while ff is not None:
            env = st.frames[ff]
            if "$self" in env:
                selft = env["$self"]
                break
            ff = env["$parent"]
        cls = st.frames[f]["$cls"]
        if cls is None:
            return mk("super", name)
        r = self.tree.find_method(self.dyn_class(selft, cls), name, after=cls)
        if r is None:
            r2 = None
            for c in self.tree.mro(cls)[1:]:
                if isinstance(c, ClassInfo) and name in c.methods:
                    r2 = (c, c.methods[name])
                    break
            r = r2
        if r is not None and selft is not None:
            return mk("bound", selft, r[0].qual, name)
        ext = [c for c in self.tree.mro(cls) if isinstance(c, str)]
        return mk("superext", selft if selft is not None else NONE, ext[0] if ext else "?", name)

    def dyn_class(self, selft, cls):
        return cls

    def attr(self, b, name, st, f):
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if b.op == "glob":
            g = b.args[0]
            if g.startswith("mod:"):
                mod = self.tree.modules.get(g[4:])
                if mod is not None:
                    r = self.tree.resolve(mod, name)
                    if r is None and g[4:] + "." + name in self.tree.modules:
                        r = ("module", g[4:] + "." + name)
                    if r is not None:
                        return self.resolved(r, name)
                return mk("glob", "?." + g[4:] + "." + name)
            full = V.canon(g + "." + name)
            if full == "np.newaxis":
                return NONE
            if full == "np.inf":
                return const(float("inf"))
            if full == "np.pi" or full == "math.pi":
                return mk("glob", "np.pi")
            return mk("glob", full)
        if b.op == "self":
            ci = self.cls_by_qual(b.args[0])
            if ci is not None:
                return self.self_attr(b, ci, name, st, f)
        if b.op == "new":
            ci = self.cls_by_qual(b.args[0])
            if ci is not None:
                r = self.tree.find_method(ci, name)
                if r is not None:
                    if r[0].is_property(name):
                        return self.call_node(r[1], [b], {}, st, f, r[0].module, r[0])
                    return mk("bound", b, r[0].qual, name)
        if b.op == "cls":
            ci = self.cls_by_qual(b.args[0])
            if ci is not None:
                r = self.tree.find_method(ci, name)
                if r is not None:
                    if r[0].is_static(name):
                        return mk("bound", NONE, r[0].qual, name)
                    return mk("unbound", r[0].qual, name)
        if b.op == "phi" and (b.args[1].op in ("new",) and b.args[2].op in ("new",)):
            return phi(b.args[0], self.attr(b.args[1], name, st, f), self.attr(b.args[2], name, st, f))
        return getattr_(b, name)

    def self_attr(self, b, ci, name, st, f):
        r = self.tree.find_method(ci, name)
        if r is not None:
            c, node = r
            if c.is_property(name):
                key = (c.qual, name)
                if self.stack.count(key) == 0:
                    return self.call_node(node, [b], {}, st, f, c.module, c, key=key)
                return mk("attr", b, name)
            if c.is_static(name):
                return mk("bound", NONE, c.qual, name)
            return mk("bound", b, c.qual, name)
        return mk("attr", b, name)

    def cls_by_qual(self, q):
        mod, _, n = q.rpartition(".")
        m = self.tree.modules.get(mod)
        return m.classes.get(n) if m else None

    def e_Subscript(self, n, st, f):
        b = self.ev(n.value, st, f)
        i = self.ev_index(n.slice, st, f)
        if b.op == "attr" and b.args[1] == "at":
            return mk("atref", b.args[0], i)
        if b.op in ("fv",) or True:
            return index(b, i)

    def ev_index(self, s, st, f):
        if isinstance(s, ast.Slice):
            a = [NONE if x is None else self.ev(x, st, f) for x in (s.lower, s.upper, s.step)]
            if a[0] is const(0) and (a[2] is NONE or num_of(a[2]) == 1):
                a[0] = NONE
            if a[2] is const(1):
                a[2] = NONE
            return mk("slice", *a)
        if isinstance(s, ast.Tuple):
            return mk("tuple", tuple(self.ev_index(x, st, f) if not isinstance(x, ast.Starred) else mk("star", self.ev(x.value, st, f)) for x in s.elts))
        v = self.ev(s, st, f)
        return v

    e_Slice = ev_index

    # ------------------------------------------------------ comprehensions
    def e_ListComp(self, n, st, f):
        return self.comp(n.generators, n.elt, st, f, "list")

    def e_GeneratorExp(self, n, st, f):
        return self.comp(n.generators, n.elt, st, f, "list")

    def e_SetComp(self, n, st, f):
        return mk("setof", self.comp(n.generators, n.elt, st, f, "list"))

    def e_DictComp(self, n, st, f):
        e = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        ast.copy_location(e, n)
        r = self.comp(n.generators, e, st, f, "list")
        if r.op == "list" and all(x.op == "tuple" and is_const(x.args[0][0]) for x in r.args[0]):
            return mk("dict", tuple(sorted(((x.args[0][0], x.args[0][1]) for x in r.args[0]), key=lambda p: repr(p[0].args))))
        return mk("dictof", r)

    def comp(self, gens, elt, st, f, kind):
        st2 = st.copy()
        fid = self.newframe(st2, f, st2.frames[f]["$module"], st2.frames[f]["$cls"])
        return self._comp(gens, elt, st2, fid)

    def _comp(self, gens, elt, st, fid):
        if not gens:
            return mk("list", (self.ev(elt, st, fid),))
        g = gens[0]
        it = self.ev(g.iter, st, fid)
        items = unroll(it)
        if items is not None:
            out = []
            for x in items:
                self.assign(g.target, x, st, fid)
                c = and_(*[truth(self.ev(i, st, fid)) for i in g.ifs]) if g.ifs else TRUE
                if c is FALSE:
                    continue
                if c is not TRUE:
                    return mk("filterlist", it, c, self.ev(elt, st, fid))
                r = self._comp(gens[1:], elt, st, fid)
                if r.op != "list":
                    return mk("nestedcomp", it, r)
                out.extend(r.args[0])
            return mk("list", tuple(out))
        N, elem = iteration(it)
        n = fresh("n")
        self.assign(g.target, elem(n), st, fid)
        c = and_(*[truth(self.ev(i, st, fid)) for i in g.ifs]) if g.ifs else TRUE
        r = self._comp(gens[1:], elt, st, fid)
        r = self.reify(r, st, fid)
        c = self.reify(c, st, fid)
        if c is TRUE:
            if r.op == "list" and len(r.args[0]) == 1:
                return mk("map", N, lam([n], r.args[0][0]))
            return mk("flatmap", N, lam([n], r))
        if r.op == "list" and len(r.args[0]) == 1:
            return mk("filtermap", N, lam([n], c), lam([n], r.args[0][0]))
        return mk("filterflatmap", N, lam([n], c), lam([n], r))

    # ------------------------------------------------------ calls
    def e_Call(self, n, st, f):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return mk("super")
        fn = self.ev(n.func, st, f)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, f)
                if v.op in ("tuple", "list"):
                    args.extend((x, None) for x in v.args[0])
                else:
                    args.append((mk("star", v), None))
            else:
                args.append((self.ev(a, st, f), a))
        kw = []
        for k in n.keywords:
            v = self.ev(k.value, st, f)
            if k.arg is None:
                if v.op == "dict" and all(is_const(a) for a, _ in v.args[0]):
                    kw.extend((cval(a), b, None) for a, b in v.args[0])
                else:
                    kw.append(("**", v, None))
            else:
                kw.append((k.arg, v, k.value))
        return self.call_cases(fn, args, kw, st, f, n)

    def call_cases(self, fn, args, kw, st, f, n):
        """f(**(a if c else b)) is f(**a) if c else f(**b)"""
        for i, (k, v, _) in enumerate(kw):
            if k == "**" and v.op == "dict" and all(is_const(a) for a, _b in v.args[0]):
                return self.call_cases(fn, args, kw[:i] + [(cval(a), b, None) for a, b in v.args[0]] + kw[i + 1:], st, f, n)
            if k == "**" and v.op == "phi" and v.args[1].op in ("dict", "phi") and v.args[2].op in ("dict", "phi"):
                s1, s2 = st.copy(), st.copy()
                a = self.call_cases(fn, args, kw[:i] + [("**", v.args[1], None)] + kw[i + 1:], s1, f, n)
                b = self.call_cases(fn, args, kw[:i] + [("**", v.args[2], None)] + kw[i + 1:], s2, f, n)
                self.merge_into(st, v.args[0], s1, s2)
                return phi(v.args[0], a, b)
        return self.call(fn, [a for a, _ in args], [(k, v) for k, v, _ in kw], st, f,
                         argnodes=[x for _, x in args], kwnodes={k: x for k, _, x in kw}, node=n)

    def call(self, fn, args, kw, st, f, argnodes=None, kwnodes=None, node=None):
        op = fn.op
        if op == "func":
            clo = self.funcs[fn.args[0]]
            return self.call_closure(clo, args, kw, st, f, argnodes, kwnodes, fn)
        if op == "bound":
            selft, cq, name = fn.args
            ci = self.cls_by_qual(cq)
            nodem = ci.methods[name]
            a = args if selft is NONE and ci.is_static(name) else [selft] + args
            an = argnodes if (argnodes is None or len(a) == len(args)) else [None] + argnodes
            key = (cq, name)
            if self.stack.count(key) >= 1 or len(self.stack) > self.MAXDEPTH:
                return self.opaque(mk("attr", selft, name), args, kw, st, f)
            return self.call_node(nodem, a, dict(kw), st, f, ci.module, ci, key=key, argnodes=an, kwnodes=kwnodes)
        if op == "unbound":
            cq, name = fn.args
            ci = self.cls_by_qual(cq)
            key = (cq, name)
            if self.stack.count(key) >= 1:
                return self.opaque(fn, args, kw, st, f)
            return self.call_node(ci.methods[name], args, dict(kw), st, f, ci.module, ci, key=key, argnodes=argnodes, kwnodes=kwnodes)
        if op == "partial":
            inner, pa, pk = fn.args
            kk = dict(pk)
            kk.update(dict(kw))
            return self.call(inner, list(pa) + args, list(kk.items()), st, f,
                             argnodes=None if argnodes is None else [None] * len(pa) + argnodes, kwnodes=kwnodes)
        if op == "phi" and any(x.op in ("func", "bound", "partial", "vmapf", "lam") for x in fn.args[1:]):
            c = fn.args[0]
            s1, s2 = st.copy(), st.copy()
            a = self.call(fn.args[1], args, kw, s1, f)
            b = self.call(fn.args[2], args, kw, s2, f)
            self.merge_into(st, c, s1, s2)
            return phi(c, a, b)
        if op == "vmapf":
            return self.call_vmap(fn, args, kw, st, f)
        if op == "identityf":
            return self.call(fn.args[0], args, kw, st, f, argnodes, kwnodes)
        if op == "lam" and not kw and len(args) == fn.args[0] and all(a.h == 0 for a in args):
            return apply_lam(fn, args)
        if op == "cls":
            return self.construct(fn, args, kw, st, f)
        if op == "glob":
            return self.call_global(fn.args[0], args, kw, st, f, argnodes, kwnodes, node)
        if op == "attr":
            return self.call_method(fn, args, kw, st, f, node)
        if op == "dtype":
            return cast(fn, args[0]) if len(args) == 1 else self.opaque(fn, args, kw, st, f)
        if op == "call" and fn.args[0].op == "glob" and fn.args[0].args[0] == "functools.partial" and args:
            # partial(jit, static_argnums=...)(f)
            return args[0]
        return self.opaque(fn, args, kw, st, f)

    def opaque(self, fn, args, kw, st, f):
        a = tuple(self.reify(x, st, f) for x in args)
        k = tuple(sorted(((n, self.reify(v, st, f)) for n, v in kw), key=lambda p: p[0]))
        return mk("call", self.reify(fn, st, f) if fn.op != "glob" else fn, a, k)

    # ---- reify function values into lambda terms -------------------------
    def reify(self, t, st, f, depth=0):
        if not contains(t, lambda x: x.op in ("func", "bound", "vmapf")):
            return t
        m = {}
        for x in walk(t):
            if x.op in ("func", "vmapf") or (x.op == "bound"):
                m[x] = self.reify1(x, st, f)
        # innermost-first is guaranteed because func terms are leaves (vmapf handled as a whole)
        m = {k: v for k, v in m.items() if v is not k}
        return subst(t, m) if m else t

    def reify1(self, t, st, f):
        if t.op == "vmapf":
            inner = self.reify1(t.args[0], st, f) if t.args[0].op in ("func", "bound", "vmapf") else t.args[0]
            return mk("vmapl", inner, *t.args[1:])
        if t.op == "bound":
            selft, cq, name = t.args
            ci = self.cls_by_qual(cq)
            node = ci.methods[name]
            key = (cq, name)
            if selft.op == "self":
                # a bound method handed to a framework: keep it symbolic (it is an entry of its own)
                return mk("attr", selft, name)
            if self.stack.count(key) >= 1 or len(self.stack) > self.MAXDEPTH:
                return mk("attr", selft, name)
            ar = node.args
            names = [a.arg for a in ar.posonlyargs + ar.args]
            if not ci.is_static(name):
                names = names[1:]
            ps = [fresh(x) for x in names]
            st2 = st.copy()
            st2.eff = EFF0
            v = self.call(t, ps, [], st2, f)
            return lam(ps, self.reify(v, st2, f))
        clo = self.funcs[t.args[0]]
        key = ("reify", id(clo.node))
        if self.stack.count(key) >= 1 or len(self.stack) > self.MAXDEPTH:
            return mk("rec", clo.name)
        ar = clo.node.args
        names = [a.arg for a in ar.posonlyargs + ar.args]
        nd = len(clo.defaults) if clo.frame is not None or isinstance(clo.node, ast.Lambda) else len(ar.defaults)
        ps = [fresh(x) for x in names]
        extra = []
        if ar.vararg:
            extra.append(mk("star", fresh("args")))
        st2 = st.copy()
        st2.eff = EFF0
        heap0 = dict(st2.heap)
        self.stack.append(key)
        try:
            v = self.call_closure(clo, ps + extra, [], st2, f, None, None, t)
            v = self.reify(v, st2, f)
        finally:
            self.stack.pop()
        effs = [v]
        hw = [(b, n, self.reify(x, st2, f)) for (b, n), x in st2.heap.items() if heap0.get((b, n)) is not x]
        if st2.eff is not EFF0 or hw:
            v = mk("effectful", v, self.reify(st2.eff, st2, f), tuple(sorted(((b, n, x) for b, n, x in hw), key=lambda p: (p[1], p[0].id))))
        return lam(ps + [e.args[0] for e in extra], v)

    # ---- inlining --------------------------------------------------------
    def call_closure(self, clo, args, kw, st, f, argnodes=None, kwnodes=None, fterm=None):
        key = id(clo.node)
        if self.stack.count(key) >= 2 or len(self.stack) > self.MAXDEPTH:
            return mk("call", mk("rec", clo.name), tuple(args), tuple(sorted(kw)))
        if clo.frame is None and clo.cls is None:
            # module level function: defaults evaluated in module scope
            return self.call_node(clo.node, args, dict(kw), st, f, clo.module, None, key=key, argnodes=argnodes, kwnodes=kwnodes)
        return self.call_node(clo.node, args, dict(kw), st, f, clo.module, clo.cls, key=key, parent=clo.frame,
                              defaults=clo.defaults, kwdefaults=clo.kwdefaults, argnodes=argnodes, kwnodes=kwnodes)

    def call_node(self, node, args, kw, st, f, module, cls, key=None, parent=None, defaults=None, kwdefaults=None,
                  argnodes=None, kwnodes=None):
        fid = self.newframe(st, parent, module, cls)
        env = st.frames[fid]
        if isinstance(node, ast.FunctionDef):
            env["$node"] = node
        self.bind(node, args, kw, st, fid, module, defaults, kwdefaults)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if cls is not None and parent is None and names and isinstance(node, ast.FunctionDef):
            env["$self"] = env[names[0]]
        init = {n: env.get(n) for n in names}
        env["$rebound"] = frozenset()
        self.edges.add((self.ostack[-1] if self.ostack else None, node))
        self.ostack.append(node)
        self.stack.append(key)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, st, fid)
            out = self.block(node.body, st, fid)
            val, st2 = self.collapse(out)
        finally:
            self.stack.pop()
            self.ostack.pop()
        # copy results back into the caller's state object
        st.frames, st.heap, st.eff = st2.frames, st2.heap, st2.eff
        env2 = st.frames.get(fid)
        if copies_arguments(node):
            return val if val is not BOT else BOT
        # copy-out of in-place mutated array arguments
        if env2 is not None and argnodes is not None:
            reb = env2.get("$rebound", frozenset())
            for nme, an in zip(names, argnodes):
                if an is None or nme in reb:
                    continue
                v = env2.get(nme)
                if v is not None and v is not init.get(nme) and isinstance(an, (ast.Name, ast.Attribute, ast.Subscript)):
                    self.assign(an, v, st, f, mutate=True)
        if env2 is not None and kwnodes:
            reb = env2.get("$rebound", frozenset())
            for nme, an in kwnodes.items():
                if an is None or nme in reb or nme not in env2:
                    continue
                v = env2.get(nme)
                if v is not None and v is not init.get(nme) and nme in init and isinstance(an, (ast.Name, ast.Attribute, ast.Subscript)):
                    self.assign(an, v, st, f, mutate=True)
        return val if val is not BOT else BOT

    def bind(self, node, args, kw, st, fid, module, defaults, kwdefaults):
        env = st.frames[fid]
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        args = list(args)
        star = None
        if args and args[-1].op == "star" and len(args) <= len(pos) + 1:
            star = args.pop().args[0]
        if defaults is None:
            mst = fid
            dvals = [self.ev(d, st, self.modfid(st, module)) for d in a.defaults]
        else:
            dvals = list(defaults)
        dn = dict(zip(pos[len(pos) - len(dvals):], dvals)) if dvals else {}
        for i, nme in enumerate(pos):
            if i < len(args):
                env[nme] = args[i]
            elif nme in kw:
                env[nme] = kw.pop(nme)
            elif star is not None:
                env[nme] = index(star, const(i - len(args)))
            elif nme in dn:
                env[nme] = dn[nme]
            elif "**" in kw:
                env[nme] = mk("kwget", kw["**"], nme)
            else:
                env[nme] = mk("missingarg", nme)
        if a.vararg:
            rest = args[len(pos):]
            if star is not None and len(args) >= len(pos):
                env[a.vararg.arg] = star if not rest else mk("tuple", tuple(rest) + (mk("star", star),))
            else:
                env[a.vararg.arg] = mk("tuple", tuple(rest))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if k.arg in kw:
                env[k.arg] = kw.pop(k.arg)
            elif kwdefaults and kwdefaults.get(k.arg) is not None:
                env[k.arg] = kwdefaults[k.arg]
            elif d is not None and kwdefaults is None:
                env[k.arg] = self.ev(d, st, self.modfid(st, module))
            elif "**" in kw:
                env[k.arg] = mk("kwget", kw["**"], k.arg)
            else:
                env[k.arg] = mk("missingarg", k.arg)
        if a.kwarg:
            rest = sorted((k, v) for k, v in kw.items() if k != "**")
            items = tuple((const(k), v) for k, v in rest)
            if "**" in kw:
                env[a.kwarg.arg] = kw["**"] if not items else mk("dict", items + ((mk("dstar"), kw["**"]),))
            else:
                env[a.kwarg.arg] = mk("dict", items)

    def modfid(self, st, module):
        key = ("modfid", module.name)
        fid = self.modframes.get(key)
        if fid is None:
            self._frame += 1
            fid = self._frame
            self.modframes[key] = fid
        if fid not in st.frames:
            st.frames[fid] = {"$parent": None, "$module": module, "$cls": None}
        return fid

    # ---- constructors ----------------------------------------------------
    def construct(self, fn, args, kw, st, f):
        q = fn.args[0]
        ci = self.cls_by_qual(q)
        args = [self.reify(a, st, f) for a in args]
        kw = [(k, self.reify(v, st, f)) for k, v in kw]
        init = self.tree.find_method(ci, "__init__")
        names = None
        if init is not None:
            ar = init[1].args
            names = [x.arg for x in ar.args][1:]
            if ar.vararg and len(args) > len(names):
                names = None
        else:
            fl = self.tree.dataclass_fields(ci)
            if fl and not any(isinstance(c, str) and not c.endswith("Module") for c in self.tree.mro(ci)):
                names = list(fl)
        if names is not None and len(args) <= len(names) and not any(a.op == "star" for a in args):
            d = list(zip(names, args)) + list(kw)
            d = self.fill_defaults(ci, init, d, st, f)
            return mk("new", q, tuple(sorted(d, key=lambda p: p[0])))
        return mk("call", fn, tuple(args), tuple(sorted(kw, key=lambda p: p[0])))

    def fill_defaults(self, ci, init, d, st, f):
        have = {k for k, _ in d}
        if "**" in have:
            return d
        out = list(d)
        if init is not None:
            ar = init[1].args
            pos = [x.arg for x in ar.args]
            pairs = list(zip(pos[len(pos) - len(ar.defaults):], ar.defaults)) + [
                (k.arg, v) for k, v in zip(ar.kwonlyargs, ar.kw_defaults) if v is not None]
            mod = init[0].module
            for k, v in pairs:
                if k not in have:
                    out.append((k, self.default_value(v, mod)))
        else:
            for k, (c, ann, dv) in self.tree.dataclass_fields(ci).items():
                if k not in have and dv is not None:
                    out.append((k, self.default_value(dv, c.module)))
        return out

    def default_value(self, node, module):
        key = ("default", id(node))
        if key not in self.modframes:
            st = State()
            fid = self.newframe(st, None, module)
            v = self.ev(node, st, fid)
            self.modframes[key] = self.reify(v, st, fid)
        return self.modframes[key]

    # ---- library calls ---------------------------------------------------
    def callf(self, fn, args, st, f):
        return self.call(fn, list(args), [], st, f)

    def call_global(self, g, args, kw, st, f, argnodes, kwnodes, node):
        d = dict(kw)
        star = any(a.op == "star" for a in args) or "**" in d
        if g in V.DTYPES and len(args) == 1 and not kw:
            if g == "builtins.bool":
                return truth(args[0])
            return cast(mk("dtype", V.DTYPES[g]), args[0])
        if not star:
            h = GLOBAL.get(g)
            if h is not None:
                r = h(self, args, d, st, f, argnodes, node)
                if r is not None:
                    return r
        names = V.POS.get(g)
        if "dtype" in d:
            d["dtype"] = dtype_of(d["dtype"])
        if names is not None and not star:
            if g == "np.reshape" and len(args) > 2:
                args = [args[0], mk("tuple", tuple(args[1:]))]
            if g == "np.transpose" and len(args) > 2:
                args = [args[0], mk("tuple", tuple(args[1:]))]
            if len(args) <= len(names):
                for nme, a in zip(names, args):
                    d.setdefault(nme, a)
                args = []
        if "dtype" in d:
            d["dtype"] = dtype_of(d["dtype"])
        if "shape" in d and g in ("np.zeros", "np.ones", "np.empty", "np.full", "random.uniform", "random.choice", "random.normal", "random.randint", "np.reshape"):
            if d["shape"].op == "list":
                d["shape"] = mk("tuple", d["shape"].args[0])
            elif d["shape"].op not in ("tuple", "attr", "star", "phi", "call", "idx"):
                d["shape"] = tup(d["shape"])
        args = [self.reify(a, st, f) for a in args]
        kwl = [(k, self.reify(v, st, f)) for k, v in d.items()]
        if g == "collections.defaultdict" and args and args[0].op == "lam" and args[0].args[0] == 0:
            b = args[0].args[2]
            made = {"list": "list", "set": "set", "dict": "dict"}.get(b.op) if not (b.args and b.args[0]) else "int" if is_num(b) and cval(b) == 0 else None
            if made:
                args[0] = mk("glob", "builtins." + made)
        r = call_glob(g, kwl, args)
        if g in IMPURE_MUT and argnodes:
            k = IMPURE_MUT[g]
            if k < len(argnodes) and isinstance(argnodes[k], (ast.Name, ast.Attribute, ast.Subscript)):
                self.assign(argnodes[k], mk("mutby", r), st, f, mutate=True)
        return r

    def call_method(self, fn, args, kw, st, f, node):
        recv, name = fn.args
        d = dict(kw)
        if recv.op == "atref" and name in ("set", "add", "multiply", "mul", "subtract", "divide", "min", "max", "get", "power", "apply"):
            base, i = recv.args
            nm = {"mul": "multiply"}.get(name, name)
            v = args[0] if args else d.get("values", NONE)
            if nm == "subtract":
                nm, v = "add", neg(v)
            rest = tuple(sorted((k, x) for k, x in d.items() if k != "values"))
            return at_(nm, base, i, v) if not rest else at_(nm, base, i, v, rest)
        if name == "astype" and args:
            return cast(dtype_of(args[0]), recv)
        if name == "copy" and not args:
            return recv
        if name == "item" and not args:
            return recv
        if name == "flatten" and not args:
            return call_glob("np.ravel", [("a", recv)])
        if name == "view":
            pass
        if name in V.METHODS and recv.op not in ("self", "new", "bound", "superext") and not (
            name in ("dot", "mean", "var", "take") and recv.op == "attr" and recv.args[0].op == "self" and False
        ):
            nm = V.canon("np." + name)
            return self.call_global(nm, [recv] + args, kw, st, f, None, None, node)
        # mutating methods on containers / arrays
        if node is not None and isinstance(node.func, ast.Attribute):
            lv = node.func.value
            if isinstance(lv, (ast.Name, ast.Attribute, ast.Subscript)):
                if name == "append" and len(args) == 1:
                    if recv.op == "list":
                        self.assign(lv, mk("list", recv.args[0] + (args[0],)), st, f, mutate=True)
                    else:
                        self.assign(lv, mk("append", recv, self.reify(args[0], st, f)), st, f, mutate=True)
                    return NONE
                if name == "extend" and len(args) == 1:
                    if recv.op == "list" and args[0].op in ("list", "tuple"):
                        self.assign(lv, mk("list", recv.args[0] + args[0].args[0]), st, f, mutate=True)
                    else:
                        self.assign(lv, mk("extend", recv, args[0]), st, f, mutate=True)
                    return NONE
                if name == "fill" and len(args) == 1:
                    self.assign(lv, mk("filled", args[0], getattr_(recv, "shape")), st, f, mutate=True)
                    return NONE
                if name in ("update", "insert", "remove", "clear", "add", "discard", "setdefault", "reverse") and recv.op in (
                        "list", "dict", "set", "append", "mut", "extend", "param", "attr", "call") and recv.op != "glob":
                    r = self.opaque(fn, args, kw, st, f)
                    if name == "update" and recv.op == "dict" and len(args) == 1 and args[0].op == "dict":
                        items = list(recv.args[0])
                        for k, v in args[0].args[0]:
                            items = [(a, b) for a, b in items if a is not k] + [(k, v)]
                        items.sort(key=lambda p: repr(p[0].args))
                        self.assign(lv, mk("dict", tuple(items)), st, f, mutate=True)
                        return NONE
                    if isinstance(lv, (ast.Name,)) or recv.op in ("list", "dict", "set", "append", "mut", "extend"):
                        self.assign(lv, mk("mut", name, recv, tuple(args)), st, f, mutate=True)
                        return r
                if name == "pop" and recv.op in ("list", "dict", "mut", "append", "param"):
                    r = index(recv, args[0]) if args else index(recv, const(-1))
                    self.assign(lv, mk("mut", "pop", recv, tuple(args)), st, f, mutate=True)
                    return r
        if name == "items" and recv.op == "dict" and not args:
            return mk("list", tuple(tup(k, v) for k, v in recv.args[0]))
        if name == "keys" and recv.op == "dict":
            return mk("list", tuple(k for k, v in recv.args[0]))
        if name == "values" and recv.op == "dict":
            return mk("list", tuple(v for k, v in recv.args[0]))
        if name == "get" and recv.op == "dict" and args and is_const(args[0]):
            for k, v in recv.args[0]:
                if k is args[0]:
                    return v
        if name == "format" and recv.op == "const":
            return mk("fstr", (recv,) + tuple(args))
        if name == "replace" and recv.op == "new" and not args:
            pass
        if name in ("Bcast", "Allreduce", "Reduce", "Scatter", "Gather", "Allgather", "Scatterv", "Gatherv") and node is not None:
            # MPI buffer operations write into a buffer argument
            r = self.opaque(fn, args, kw, st, f)
            for an in node.args[::-1]:
                if isinstance(an, (ast.Name, ast.Attribute)) and not (isinstance(an, ast.Attribute) and an.attr == "IN_PLACE"):
                    self.assign(an, mk("mutby", r), st, f, mutate=True)
                    break
            st.eff = mk("eff", st.eff, r)
            return NONE
        return self.opaque(fn, args, kw, st, f)

    # ---- vmap ------------------------------------------------------------
    def call_vmap(self, fn, args, kw, st, f):
        inner, in_axes, out_axes, extra = fn.args
        n = fresh("n")
        if inner.op == "glob" or True:
            pass
        axes = []
        if in_axes.op in ("tuple", "list"):
            axes = list(in_axes.args[0])
        else:
            axes = [in_axes] * len(args)
        if len(axes) != len(args) or any(a.op == "star" for a in args):
            return self.opaque(mk("vmapl", self.reify(inner, st, f), in_axes, out_axes, extra), args, kw, st, f)
        els = []
        for a, ax in zip(args, axes):
            els.append(vix(a, ax, n))
        kws = [(k, vix(v, const(0), n)) for k, v in kw]
        st2 = st.copy()
        st2.eff = EFF0
        r = self.call(inner, els, kws, st2, f)
        r = self.reify(r, st2, f)
        # mutations of heap within vmapped functions are kept
        for k, v in st2.heap.items():
            if st.heap.get(k) is not v:
                st.heap[k] = mk("vmap", out_axes, extra, lam([n], self.reify(v, st2, f)))
        if st2.eff is not EFF0:
            st.eff = mk("eff", st.eff, mk("vmapeff", lam([n], st2.eff)))

        def outer(x, ax):
            if x.op == "tuple":
                axs = ax.args[0] if ax.op in ("tuple", "list") and len(ax.args[0]) == len(x.args[0]) else [ax] * len(x.args[0])
                return mk("tuple", tuple(outer(y, a) for y, a in zip(x.args[0], axs)))
            if extra is NONE and is_num(ax) and cval(ax) == 0 and inner.op == "glob":
                y = rowwise_take(x, n)
                if y is not None:
                    return y
            return mk("vmap", ax, extra, lam([n], x))
        return outer(r, out_axes)

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, f):
        out = FALL(st)
        for i, s in enumerate(stmts):
            out = self.seq(out, s, f)
            if isinstance(out, EXIT):
                break
        return out

    def seq(self, out, s, f):
        if isinstance(out, EXIT):
            return out
        if isinstance(out, BR):
            return self.join(out.c, self.seq(out.a, s, f), self.seq(out.b, s, f))
        return self.stmt(s, out.st, f)

    def join(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, FALL) and isinstance(b, FALL):
            st = State()
            self.merge_into(st, c, a.st, b.st)
            return FALL(st)
        # merge the single fall-through leaves of nested branches when shapes allow
        return BR(c, a, b)

    def merge_into(self, st, c, s1, s2):
        frames = {}
        for fid in set(s1.frames) | set(s2.frames):
            e1, e2 = s1.frames.get(fid), s2.frames.get(fid)
            if e1 is None or e2 is None:
                frames[fid] = e1 if e2 is None else e2
                continue
            e = {}
            for k in set(e1) | set(e2):
                v1, v2 = e1.get(k), e2.get(k)
                if v1 is v2:
                    e[k] = v1
                elif k == "$rebound":
                    e[k] = (v1 or frozenset()) | (v2 or frozenset())
                elif k.startswith("$alias:"):
                    pass
                elif k.startswith("$"):
                    e[k] = v1 if v1 is not None else v2
                else:
                    e[k] = phi(c, v1 if v1 is not None else UNDEF, v2 if v2 is not None else UNDEF)
            frames[fid] = e
        heap = {}
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            v1 = s1.heap.get(k)
            v2 = s2.heap.get(k)
            if v1 is None:
                v1 = mk("attr", *k)
            if v2 is None:
                v2 = mk("attr", *k)
            heap[k] = phi(c, v1, v2)
        eff = phi(c, s1.eff, s2.eff)
        st.frames, st.heap, st.eff = frames, heap, eff

    def collapse(self, out):
        """outcome tree -> (value, state)"""
        if isinstance(out, FALL):
            return NONE, out.st
        if isinstance(out, EXIT):
            if out.kind == "raise":
                return BOT, out.st
            return out.val, out.st
        va, sa = self.collapse(out.a)
        vb, sb = self.collapse(out.b)
        c = out.c
        if va is BOT and vb is BOT:
            st = State()
            self.merge_into(st, c, sa, sb)
            return BOT, st
        if va is BOT:
            st = sb
            st.eff = phi(c, sa.eff, sb.eff)
            return vb, st
        if vb is BOT:
            st = sa
            st.eff = phi(c, sa.eff, sb.eff)
            return va, st
        st = State()
        self.merge_into(st, c, sa, sb)
        return phi(c, va, vb), st

    def stmt(self, s, st, f):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            st.eff = mk("eff", st.eff, mk("opaquestmt", type(s).__name__))
            return FALL(st)
        return m(s, st, f)

    def s_Pass(self, s, st, f):
        return FALL(st)

    def s_Import(self, s, st, f):
        tbl = {}
        st.frames[f]["$module"].add_import(s, tbl)
        for k, imp in tbl.items():
            st.frames[f][k] = self.resolved(self.tree.resolve_import(imp), k)
        return FALL(st)

    s_ImportFrom = s_Import

    def s_Global(self, s, st, f):
        return FALL(st)

    def s_Nonlocal(self, s, st, f):
        env = st.frames[f]
        env["$nonlocal"] = env.get("$nonlocal", frozenset()) | frozenset(s.names)
        return FALL(st)

    def s_FunctionDef(self, s, st, f):
        clo = self.mkclosure(s, st, f, s.name)
        v = self.newfunc(clo)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, f)
            v = self.decorate(dv, v, st, f)
        st.frames[f][s.name] = v
        return FALL(st)

    def decorate(self, dv, v, st, f):
        if dv.op == "glob" and dv.args[0] in ("jax.jit", "numba.jit", "numba.njit", "nn.compact", "builtins.staticmethod", "functools.wraps"):
            return v
        if dv.op == "call" or dv.op == "partial":
            inner = dv.args[0]
            if inner.op == "glob" and inner.args[0] in ("jax.jit", "numba.jit", "numba.njit", "functools.partial", "functools.wraps"):
                return v
        if dv.op == "glob" and dv.args[0] == "jax.vmap":
            return mk("vmapf", v, const(0), const(0), NONE)
        return self.call(dv, [v], [], st, f)

    def s_ClassDef(self, s, st, f):
        st.frames[f][s.name] = mk("localclass", s.name)
        return FALL(st)

    def s_Return(self, s, st, f):
        v = self.ev(s.value, st, f) if s.value is not None else NONE
        return EXIT("return", v, st)

    def s_Raise(self, s, st, f):
        e = NONE
        if s.exc is not None:
            x = s.exc
            if isinstance(x, ast.Call):
                x = x.func
            e = self.ev(x, st, f)
        st.eff = mk("eff", st.eff, mk("raise", e))
        return EXIT("raise", BOT, st)

    def s_Assert(self, s, st, f):
        c = truth(self.ev(s.test, st, f))
        if c is TRUE:
            return FALL(st)
        s2 = st.copy()
        s2.eff = mk("eff", st.eff, mk("raise", mk("glob", "builtins.AssertionError")))
        if c is FALSE:
            return EXIT("raise", BOT, s2)
        st.eff = mk("eff", st.eff, mk("guard", not_(c), mk("raise", mk("glob", "builtins.AssertionError"))))
        return FALL(st)

    def s_Expr(self, s, st, f):
        if isinstance(s.value, ast.Constant):
            return FALL(st)
        v = self.ev(s.value, st, f)
        if v is BOT:
            return EXIT("raise", BOT, st)
        self.effect(v, st, f)
        return FALL(st)

    def effect(self, v, st, f):
        if v.op == "phi":
            s1, s2 = st.copy(), st.copy()
            self.effect(v.args[1], s1, f)
            self.effect(v.args[2], s2, f)
            st.eff = phi(v.args[0], s1.eff, s2.eff)
            return
        if v.op != "call":
            return
        g = v.args[0]
        if g.op == "glob":
            n = g.args[0]
            if n in V.IGNORED_EFFECTS:
                return
            if n not in V.IMPURE and n.startswith(V.PURE_PREFIX):
                return
        st.eff = mk("eff", st.eff, self.reify(v, st, f))

    def s_Assign(self, s, st, f):
        v = self.ev(s.value, st, f)
        if v is BOT:
            return EXIT("raise", BOT, st)
        for t in s.targets:
            self.assign(t, v, st, f)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.note_alias(s.targets[0].id, s.value, st, f)
        return FALL(st)

    def note_alias(self, name, node, st, f):
        """name now denotes (a view of) the array another expression denotes: writes through it reach that array"""
        if isinstance(node, ast.Subscript):
            i = self.ev_index(node.slice, st.copy(), f)
            if not (basic_view(i) or row_view(i)) or not isinstance(node.value, (ast.Name, ast.Attribute, ast.Subscript)):
                return
            b = self.ev(node.value, st.copy(), f)
            if b.op in ("list", "tuple", "dict"):
                return
        elif isinstance(node, ast.Name):
            if node.id not in st.frames[f]:
                return
        elif isinstance(node, ast.Attribute):
            b = self.ev(node.value, st.copy(), f)
            ci = self.cls_by_qual(b.args[0]) if b.op == "self" else None
            if b.op not in ("self", "param", "attr") or (ci is not None and self.tree.find_method(ci, node.attr) is not None):
                return
        else:
            return
        names = frozenset(x.id for x in ast.walk(node) if isinstance(x, ast.Name))
        if name in names:
            return
        st.frames[f]["$alias:" + name] = (node, names)

    def s_AnnAssign(self, s, st, f):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, f), st, f)
        return FALL(st)

    def s_AugAssign(self, s, st, f):
        load = _as_load(s.target)
        cur = self.ev(load, st, f)
        v = self.ev(s.value, st, f)
        if cur.op == "list" and isinstance(s.op, ast.Add) and v.op in ("list", "tuple"):
            r = mk("list", cur.args[0] + v.args[0])
        else:
            r = binop(s.op, cur, v)
        self.assign(s.target, r, st, f)
        return FALL(st)

    def s_Delete(self, s, st, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[f].pop(t.id, None)
            else:
                st.eff = mk("eff", st.eff, mk("del", self.ev(_as_load(t), st, f)))
        return FALL(st)

    def s_If(self, s, st, f):
        c = truth(self.ev(s.test, st, f))
        if c is TRUE:
            return self.block(s.body, st, f)
        if c is FALSE:
            return self.block(s.orelse, st, f)
        s1, s2 = st, st.copy()
        o1 = self.block(s.body, s1, f)
        o2 = self.block(s.orelse, s2, f)
        return self.join(c, o1, o2)

    def s_With(self, s, st, f):
        for it in s.items:
            v = self.ev(it.context_expr, st, f)
            st.eff = mk("eff", st.eff, mk("enter", self.reify(v, st, f)))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("ctx", v), st, f)
        out = self.block(s.body, st, f)

        def close(o):
            if isinstance(o, BR):
                return self.join(o.c, close(o.a), close(o.b))
            o.st.eff = mk("eff", o.st.eff, mk("leave"))
            return o
        return close(out)

    def s_Try(self, s, st, f):
        pre = st.copy()
        o = self.block(s.body, st, f)
        if s.orelse:
            for x in s.orelse:
                o = self.seq(o, x, f)
        for h in s.handlers:
            ht = self.ev(h.type, pre, f) if h.type is not None else NONE
            sh = pre.copy()
            if h.name:
                sh.frames[f][h.name] = mk("exc", ht)
            oh = self.block(h.body, sh, f)
            probe = first_call_probe(s.body)
            cond = mk("excond", ht, probe)
            o = self.join(cond, oh, o)
        if s.finalbody:
            def fin(x):
                if isinstance(x, BR):
                    return self.join(x.c, fin(x.a), fin(x.b))
                if isinstance(x, FALL):
                    return self.block(s.finalbody, x.st, f)
                y = self.block(s.finalbody, x.st, f)
                v, s2 = self.collapse(y)
                return EXIT(x.kind, x.val, s2)
            o = fin(o)
        return o

    # ------------------------------------------------------ assignment
    def assign(self, target, v, st, f, mutate=False):
        if isinstance(target, ast.Name):
            env = st.frames[f]
            if target.id in env.get("$nonlocal", ()):
                p = env["$parent"]
                while p is not None and target.id not in st.frames[p]:
                    p = st.frames[p]["$parent"]
                if p is not None:
                    st.frames[p][target.id] = v
                    return
            if mutate and target.id not in env:
                # mutation of a variable of an enclosing function
                p = env["$parent"]
                while p is not None and target.id not in st.frames.get(p, {}):
                    p = st.frames[p]["$parent"]
                if p is not None:
                    st.frames[p][target.id] = v
                    return
            env[target.id] = v
            if mutate:
                al = env.get("$alias:" + target.id)
                if al is not None:
                    self.assign(al[0], v, st, f, mutate=True)
            else:
                env["$rebound"] = env.get("$rebound", frozenset()) | {target.id}
                for k in [k for k in env if k.startswith("$alias:") and (k == "$alias:" + target.id or target.id in env[k][1])]:
                    del env[k]
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            si = next((i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)), None)
            if si is not None:
                for i, e in enumerate(target.elts):
                    if i < si:
                        self.assign(e, index(v, const(i)), st, f)
                    elif i == si:
                        hi = NONE if i == n - 1 else const(i - n + 1)
                        self.assign(e.value, index(v, mk("slice", const(i), hi, NONE)), st, f)
                    else:
                        self.assign(e, index(v, const(i - n)), st, f)
            else:
                for i, e in enumerate(target.elts):
                    self.assign(e, index(v, const(i)), st, f)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, f)
        elif isinstance(target, ast.Attribute):
            b = self.ev(target.value, st, f)
            if b.op in ("self",):
                ci = self.cls_by_qual(b.args[0])
                stt = self.tree.find_setter(ci, target.attr) if ci else None
                if stt is not None and mutate:
                    # an element of what the property hands out is written: the setter is not involved
                    x = plain_getter(self.tree.find_method(ci, target.attr))
                    if x is not None:
                        st.heap[(b, x)] = v
                    else:
                        st.eff = mk("eff", st.eff, mk("storetmp", self.ev(target, st, f), NONE, v))
                    return
                if stt is not None:
                    key = (stt[0].qual, target.attr, "set")
                    if self.stack.count(key) == 0:
                        self.call_node(stt[1], [b, v], {}, st, f, stt[0].module, stt[0], key=key)
                        return
            st.heap[(b, target.attr)] = self.reify(v, st, f) if v.op == "func" else v
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value, st, f)
            i = self.ev_index(target.slice, st, f)
            nv = self.store(b, i, v)
            if isinstance(target.value, ast.Subscript) and copies(self.ev_index(target.value.slice, st.copy(), f)):
                st.eff = mk("eff", st.eff, mk("storetmp", b, i, v))
            elif isinstance(target.value, (ast.Name, ast.Attribute, ast.Subscript)):
                self.assign(target.value, nv, st, f, mutate=True)
            else:
                st.eff = mk("eff", st.eff, mk("storetmp", b, i, v))

    def store(self, b, i, v):
        return store_(b, i, v)

    # ------------------------------------------------------ loops
    def s_For(self, s, st, f):
        it = self.ev(s.iter, st, f)
        items = unroll(it)
        if items is not None:
            out = FALL(st)
            for x in items:
                def body(o):
                    if isinstance(o, BR):
                        return self.join(o.c, body(o.a), body(o.b))
                    if isinstance(o, EXIT):
                        return o
                    self.assign(s.target, x, o.st, f)
                    return self.strip_continue(self.block(s.body, o.st, f))
                out = body(out)
            out = self.strip_break(out)
            if s.orelse:
                for x in s.orelse:
                    out = self.seq(out, x, f)
            return out
        N, elem = iteration(it)
        n = fresh("n")

        def run(stt):
            self.assign(s.target, elem(n), stt, f)
            return self.block(s.body, stt, f)
        return self.loop(run, N, n, st, f, None, stored_names(s.body))

    def s_While(self, s, st, f):
        def run(stt):
            return self.block(s.body, stt, f)

        def cond(stt):
            return truth(self.ev(s.test, stt, f))
        return self.loop(run, None, None, st, f, cond, stored_names(s.body))

    def strip_continue(self, o):
        if isinstance(o, BR):
            return self.join(o.c, self.strip_continue(o.a), self.strip_continue(o.b))
        if isinstance(o, EXIT) and o.kind == "continue":
            return FALL(o.st)
        return o

    def strip_break(self, o):
        if isinstance(o, BR):
            return self.join(o.c, self.strip_break(o.a), self.strip_break(o.b))
        if isinstance(o, EXIT) and o.kind == "break":
            return FALL(o.st)
        return o

    def s_Break(self, s, st, f):
        return EXIT("break", NONE, st)

    def s_Continue(self, s, st, f):
        return EXIT("continue", NONE, st)

    def loop(self, run, N, n, st, f, cond, seeds=()):
        """summarise a loop: find loop-carried locations, evaluate one symbolic iteration, slice per location"""
        pre = st.copy()
        pre_eff = st.eff
        carried = {}   # loc -> cv
        # syntactic prediction of carried variables (avoids re-evaluating nested loops)
        for nme in seeds:
            ff = f
            while ff is not None and ff in pre.frames:
                if nme in pre.frames[ff]:
                    carried[("v", ff, nme)] = fresh("c")
                    break
                ff = pre.frames[ff]["$parent"]
        for attempt in range(6):
            s = pre.copy()
            s.eff = EFF0
            for loc, cv in carried.items():
                self.setloc(s, loc, cv)
            c = cond(s) if cond is not None else None
            ctest_state = s
            out = run(s)
            out = self.strip_continue(out)
            brk, ret, val, s2 = self.split_exits(out)
            changed = []
            fresh_locs = set()
            for loc, v in self.locations(s2):
                base = self.getloc(pre, loc)
                if loc in carried:
                    continue
                if base is None and loc[0] == "v":
                    fresh_locs.add(loc)
                    continue
                if v is not base:
                    changed.append(loc)
            if not changed:
                break
            for loc in changed:
                carried[loc] = fresh("c")
        else:
            self.notes.append("loop did not stabilise")
        live = set(pre.frames)
        for loc in fresh_locs:
            if loc[1] in live:
                carried[loc] = fresh("c")
        inits = {loc: self.getloc(pre, loc) for loc in carried}
        inits = {loc: (v if v is not None else (mk("attr", *loc[1:]) if loc[0] == "h" else UNDEF)) for loc, v in inits.items()}
        outs = {loc: self.getloc(s2, loc) for loc in carried}
        outs = {loc: (v if v is not None else carried[loc]) for loc, v in outs.items()}
        outs = {loc: self.reify(v, s2, f) for loc, v in outs.items()}
        inits = {loc: self.reify(v, pre, f) for loc, v in inits.items()}
        c = self.reify(c, s2, f) if c is not None else None
        body_eff = self.reify(s2.eff, s2, f)
        if n is not None:
            # attribute writes on a receiver that varies with the iteration are effects of the loop
            for loc in [l for l in carried if l[0] == "h" and contains(l[1], lambda x: x is n)]:
                cv = carried.pop(loc)
                o = subst(outs.pop(loc), {cv: mk("attr", loc[1], loc[2])})
                inits.pop(loc)
                pre.heap.pop((loc[1], loc[2]), None)
                body_eff = mk("eff", body_eff, mk("setattr", loc[1], loc[2], o))
        # the shape of an array that iterations only store into does not vary
        inv = {}
        for loc, cv in carried.items():
            if outs[loc] is not cv and shape_root(outs[loc]) is cv and inits[loc] is not UNDEF:
                inv[mk("attr", cv, "shape")] = getattr_(inits[loc], "shape")
        if inv:
            outs = {loc: subst(v, inv) for loc, v in outs.items()}
            c = subst(c, inv) if c is not None else None
            body_eff = subst(body_eff, inv)
            brk, ret = subst(brk, inv), subst(ret, inv)
            val = subst(val, inv) if val is not None else None
        exitc = or_(brk, ret)
        exitc = self.reify(exitc, s2, f)
        val = self.reify(val, s2, f) if val is not None else None

        # while -> counted loop
        if cond is not None and exitc is FALSE:
            for loc, cv in carried.items():
                if c is not None and c.op == "lt0":
                    d = acc_split(outs[loc], cv)
                    k = num_of(d) if d is not None else None
                    if k == 1:
                        rest = sub(c.args[0], cv)
                        if not contains(rest, lambda x: x in carried.values()):
                            # c: cv + rest < 0  ->  cv runs from init to -rest
                            n = fresh("n")
                            m = {cv: add(inits[loc], n)}
                            for l2 in outs:
                                if l2 != loc:
                                    outs[l2] = subst(outs[l2], m)
                            for l2 in [l for l in carried if l != loc and l[0] == "h" and contains(l[1], lambda x: x is cv)]:
                                o2 = subst(outs.pop(l2), {carried.pop(l2): mk("attr", subst(l2[1], m), l2[2])})
                                inits.pop(l2)
                                pre.heap.pop((l2[1], l2[2]), None)
                                body_eff = mk("eff", body_eff, mk("setattr", l2[1], l2[2], o2))
                            body_eff = subst(body_eff, m)
                            N = sub(neg(rest), inits[loc])
                            outs[loc] = add(cv, const(1))
                            cond = None
                            c = None
                            break

        cvset = {cv: loc for loc, cv in carried.items()}
        final = {}

        def deps(t):
            return {cvset[x] for x in walk(t) if x in cvset}
        depmap = {loc: deps(outs[loc]) for loc in carried}
        gl = set()
        if c is not None:
            gl |= deps(c)
        if exitc is not FALSE:
            gl |= deps(exitc)
            if val is not None:
                gl |= deps(val)
        memo = {}
        simple = cond is None and exitc is FALSE
        for loc, cv in carried.items():
            o = outs[loc]
            if o is cv:
                final[loc] = inits[loc]
                continue
            if simple and not any(loc in depmap[l] for l in carried if l != loc):
                # an accumulator kept in one element of an array
                cs = cell_split(o, cv, lambda i: not contains(i, lambda x: x is n or x in cvset))
                if cs is not None and not (depmap[loc] - {loc}) and inits[loc] is not UNDEF:
                    I, r = cs
                    i0 = index(inits[loc], I)
                    e, p = acc_split(r, CELL), prod_split(r, CELL)
                    if e is not None and not contains(e, lambda x: x is CELL) and r.op in ("poly", "phi"):
                        v = add(i0, mksum(N, n, e))
                    elif p is not None and not contains(p, lambda x: x is CELL):
                        v = mul(i0, mk("prod", N, lam([n], p)))
                    elif contains(r, lambda x: x is CELL):
                        c2 = fresh("c")
                        v = mk("loop", N, lam([n, c2], mk("tuple", (subst(r, {CELL: c2}), tup()))), (i0,))
                    else:
                        v = mk("last", N, lam([n], r), i0)
                    final[loc] = store_(inits[loc], I, v)
                    continue
            if simple:
                # accumulation patterns
                if not (depmap[loc] - {loc}):
                    e = acc_split(o, cv)
                    if e is not None and not contains(e, lambda x: x in cvset) and o.op in ("poly", "phi"):
                        final[loc] = add(inits[loc], mksum(N, n, e))
                        continue
                    r = prod_split(o, cv)
                    if r is not None and not contains(r, lambda x: x in cvset):
                        final[loc] = mul(inits[loc], mk("prod", N, lam([n], r)))
                        continue
                    if o.op == "append" and o.args[0] is cv and not contains(o.args[1], lambda x: x in cvset):
                        mp = mk("map", N, lam([n], o.args[1]))
                        i0 = inits[loc]
                        final[loc] = mp if (i0.op == "list" and not i0.args[0]) else mk("concat", i0, mp)
                        continue
            sl = {loc}
            todo = [loc]
            for g in gl:
                if g not in sl:
                    sl.add(g)
                    todo.append(g)
            while todo:
                x = todo.pop()
                for y in depmap[x]:
                    if y not in sl:
                        sl.add(y)
                        todo.append(y)
            others = sorted(sl - {loc}, key=lambda l: (shash(outs[l], memo), shash(inits[l], memo)))
            order = [loc] + others
            cvs = [carried[l] for l in order]
            parts = [outs[l] for l in order]
            hdr = N if N is not None else NONE
            params = ([n] if n is not None else []) + cvs
            ctl = tuple(x for x in (c, exitc if exitc is not FALSE else None) if x is not None)
            self_dep = loc in depmap[loc] or ctl or any(loc in depmap[l] for l in sl if l != loc) or len(order) > 1
            body = mk("tuple", tuple(parts))
            if not self_dep:
                # value of the last iteration
                final[loc] = mk("last", hdr, lam([n] if n is not None else [], o), inits[loc])
            else:
                final[loc] = mk("loop", hdr, lam(params, mk("tuple", tuple(parts) + (tup(*ctl),))), tuple(inits[l] for l in order))
        st2 = pre
        for loc, v in final.items():
            self.setloc(st2, loc, v)
        st2.eff = pre_eff
        if body_eff is not EFF0:
            used = [carried[l] for l in sorted(carried, key=lambda l: (shash(outs[l], memo), shash(inits[l], memo)))
                    if contains(body_eff, lambda x: x is carried[l])]
            b = lam(([n] if n is not None else []) + used, body_eff)
            st2.eff = mk("eff", pre_eff, mk("loopeff", N if N is not None else NONE, b, tuple(outs[cvset[u]] if False else inits[cvset[u]] for u in used)))
        # copy back
        st.frames, st.heap, st.eff = st2.frames, st2.heap, st2.eff
        if ret is not FALSE:
            ls = sorted(carried, key=lambda l: (shash(outs[l], memo), shash(inits[l], memo)))
            used = [carried[l] for l in ls]
            rc = mk("loopret", N if N is not None else NONE, lam(([n] if n is not None else []) + used, tup(ret, val if val is not None else NONE)),
                    tuple(inits[l] for l in ls))
            st3 = st.copy()
            return BR(mk("excond", mk("glob", "loopreturn"), rc), EXIT("return", mk("loopval", rc), st), FALL(st3))
        return FALL(st)

    def split_exits(self, out):
        """outcome of a loop body -> (break cond, return cond, return value, state)"""
        if isinstance(out, FALL):
            return FALSE, FALSE, None, out.st
        if isinstance(out, EXIT):
            if out.kind == "break":
                return TRUE, FALSE, None, out.st
            if out.kind == "return":
                return FALSE, TRUE, out.val, out.st
            return FALSE, FALSE, BOT, out.st
        b1, r1, v1, s1 = self.split_exits(out.a)
        b2, r2, v2, s2 = self.split_exits(out.b)
        c = out.c
        if v1 is BOT and v2 is not BOT:
            s2.eff = phi(c, s1.eff, s2.eff)
            return b2, r2, v2, s2
        if v2 is BOT and v1 is not BOT:
            s1.eff = phi(c, s1.eff, s2.eff)
            return b1, r1, v1, s1
        st = State()
        self.merge_into(st, c, s1, s2)
        v = v1 if v2 is None else (v2 if v1 is None else phi(c, v1, v2))
        return phi(c, b1, b2), phi(c, r1, r2), v, st

    def locations(self, st):
        for fid, env in st.frames.items():
            for k, v in env.items():
                if not k.startswith("$") and isinstance(v, T):
                    yield ("v", fid, k), v
        for (b, a), v in st.heap.items():
            yield ("h", b, a), v

    def getloc(self, st, loc):
        if loc[0] == "v":
            e = st.frames.get(loc[1])
            if e is None:
                return None
            return e.get(loc[2])
        return st.heap.get((loc[1], loc[2]))

    def setloc(self, st, loc, v):
        if loc[0] == "v":
            if loc[1] in st.frames:
                st.frames[loc[1]][loc[2]] = v
        else:
            st.heap[(loc[1], loc[2])] = v

    # ---- structured functional loops ------------------------------------
    def functional_loop(self, fn, init, N, n, step_args, st, f):
        """fori_loop/scan: fn(step_args(n), carry) ; returns (final carry, per-step result term or None)"""
        leaves, rebuildf = flatten(init)
        cvs = [fresh("c") for _ in leaves]
        s2 = st.copy()
        s2.eff = EFF0
        r = step_args(fn, rebuildf(cvs), s2)
        carry_out, y = r
        outl = flatten_like(init, carry_out)
        if outl is None:
            # carry changed structure: fall back to one opaque carry
            cv = fresh("c")
            s2 = st.copy()
            s2.eff = EFF0
            carry_out, y = step_args(fn, cv, s2)
            leaves, cvs, outl = [init], [cv], [carry_out]
            rebuildf = lambda xs: xs[0]
        outl = [self.reify(x, s2, f) for x in outl]
        y = self.reify(y, s2, f) if y is not None else None
        leaves = [self.reify(x, st, f) for x in leaves]
        if s2.eff is not EFF0:
            st.eff = mk("eff", st.eff, mk("loopeff", N, lam([n] + cvs, self.reify(s2.eff, s2, f)), tuple(leaves)))
        for k, v in s2.heap.items():
            if st.heap.get(k) is not v:
                st.heap[k] = mk("last", N, lam([n], self.reify(v, s2, f)), st.heap.get(k, mk("attr", *k)))
        cvset = {cv: i for i, cv in enumerate(cvs)}
        dep = [{cvset[x] for x in walk(o) if x in cvset} for o in outl]
        memo = {}

        def slice_for(root_deps, i):
            sl = set(root_deps)
            todo = list(sl)
            while todo:
                x = todo.pop()
                for y_ in dep[x]:
                    if y_ not in sl:
                        sl.add(y_)
                        todo.append(y_)
            return sl
        final = []
        for i, (o, cv) in enumerate(zip(outl, cvs)):
            if o is cv:
                final.append(leaves[i])
                continue
            if not (dep[i] - {i}):
                e = acc_split(o, cv)
                if e is not None and o.op in ("poly", "phi"):
                    final.append(add(leaves[i], mksum(N, n, e)))
                    continue
                rr = prod_split(o, cv)
                if rr is not None:
                    final.append(mul(leaves[i], mk("prod", N, lam([n], rr))))
                    continue
            sl = slice_for({i}, i)
            if dep[i] == set():
                final.append(mk("last", N, lam([n], o), leaves[i]))
                continue
            others = sorted(sl - {i}, key=lambda l: (shash(outl[l], memo), shash(leaves[l], memo)))
            order = [i] + others
            final.append(mk("loop", N, lam([n] + [cvs[k] for k in order], mk("tuple", tuple(outl[k] for k in order) + (tup(),))),
                            tuple(leaves[k] for k in order)))
        ys = None
        if y is not None:
            def mky(yy):
                if yy.op == "tuple":
                    return mk("tuple", tuple(mky(z) for z in yy.args[0]))
                if yy is NONE:
                    return NONE
                dy = {cvset[x] for x in walk(yy) if x in cvset}
                if not dy:
                    return mk("map", N, lam([n], yy))
                sl = slice_for(dy, None)
                order = sorted(sl, key=lambda l: (shash(outl[l], memo), shash(leaves[l], memo)))
                return mk("scanys", N, lam([n] + [cvs[k] for k in order], mk("tuple", (yy,) + tuple(outl[k] for k in order))),
                          tuple(leaves[k] for k in order))
            ys = mky(y)
        return rebuildf(final), ys

    # ---------------------------------------------------------- summaries
    def summarize(self, module, node, cls=None, qual="", selfcls=None):
        """summary of one function/method as an entry point"""
        self.steps = 0
        st = State()
        fid = self.newframe(st, None, module, cls)
        env = st.frames[fid]
        env["$node"] = node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        static = cls is not None and any(ast.unparse(d) == "staticmethod" for d in node.decorator_list)
        for i, nme in enumerate(names):
            if i == 0 and cls is not None and not static:
                env[nme] = mk("self", (selfcls or cls).qual)
                env["$self"] = env[nme]
            else:
                env[nme] = mk("param", i - (1 if cls is not None and not static else 0))
        if a.vararg:
            env[a.vararg.arg] = mk("param", "*")
        for k in a.kwonlyargs:
            env[k.arg] = mk("param", k.arg)
        if a.kwarg:
            env[a.kwarg.arg] = mk("param", "**")
        env["$rebound"] = frozenset()
        init = {n: env[n] for n in names if n in env}
        key = (cls.qual, node.name) if cls is not None else id(node)
        self.stack = [key]
        self.ostack = [node]
        out = self.block(node.body, st, fid)
        val, st2 = self.collapse(out)
        ret = self.reify(val, st2, fid)
        heap = {}
        for (b, n), v in st2.heap.items():
            vv = self.reify(v, st2, fid)
            if vv is mk("attr", b, n):
                continue
            heap[(b, n)] = vv
        eff = self.reify(st2.eff, st2, fid)
        muts = {}
        env2 = st2.frames.get(fid, {})
        reb = env2.get("$rebound", frozenset())
        for i, n in enumerate(names):
            if n in reb or copies_arguments(node):
                continue
            v = env2.get(n)
            if v is not None and v is not init[n]:
                muts[i] = self.reify(v, st2, fid)
        return Summary(qual, ret, heap, eff, muts, module, node)


def copies_arguments(node):
    """a traced function receives rebuilt containers: what it does to them stays inside"""
    for d in getattr(node, "decorator_list", ()):
        if ast.unparse(d).startswith(("jax.jit", "partial(jax.jit", "functools.partial(jax.jit")):
            return True
    return False


class Summary:
    def __init__(self, qual, ret, heap, eff, muts, module, node):
        self.qual, self.ret, self.heap, self.eff, self.muts = qual, ret, heap, eff, muts
        self.module, self.node = module, node


# ---------------------------------------------------------------- helpers
_OWN = {}


def own_locals(node):
    """names a function body binds itself (Python scoping: reading one before it is bound is an error)"""
    r = _OWN.get(id(node))
    if r is not None:
        return r[1]
    out, free = set(), set()
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            free.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            pass
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        todo.extend(ast.iter_child_nodes(n))
    _OWN[id(node)] = (node, out - free)
    return out - free


def basic_view(i):
    """an index that selects a sub-array without copying: at least one slice, otherwise integers"""
    parts = i.args[0] if i.op == "tuple" else (i,)
    if not any(p.op == "slice" for p in parts):
        return False
    return all(p.op in ("slice", "fv", "bv") or is_num(p) or (is_const(p) and cval(p) is Ellipsis) or p.op == "poly" for p in parts)


COPYING = {"np.ix_", "np.nonzero", "np.where", "np.argsort", "np.flatnonzero", "np.arange", "np.logical_and", "np.logical_or", "np.logical_not", "np.isin"}


def copies(i):
    """an index that certainly selects a copy: a list, a mask or an array of positions"""
    parts = i.args[0] if i.op == "tuple" else (i,)
    for p in parts:
        if p.op in ("list", "array", "lt0", "eq0", "and", "or", "not") or p.op == "call" and p.args[0].op == "glob" and p.args[0].args[0] in COPYING:
            return True
    return False


def plain_getter(m):
    """the attribute X of a property that does nothing but `return self.X`"""
    if m is None:
        return None
    fn = m[1] if isinstance(m, tuple) else m
    body = [x for x in fn.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and isinstance(body[0].value.value, ast.Name) \
            and fn.args.args and body[0].value.value.id == fn.args.args[0].arg:
        return body[0].value.attr
    return None


def counter_view(i):
    """an index made of loop counters and numbers"""
    parts = i.args[0] if i.op == "tuple" else (i,)
    return all(p.op in ("fv", "bv", "slice") or is_num(p) or p.op == "poly" and all(a.op in ("fv", "bv") for m, _ in p.args[0] for a, _e in m) for p in parts)


def row_view(i):
    """an index made of integers: what it selects, if it can be written into at all, is a sub-array of the indexed array"""
    parts = i.args[0] if i.op == "tuple" else (i,)
    return all(p.op in ("fv", "bv", "poly", "param", "index", "slice") or is_num(p) and isinstance(cval(p), int) or (is_const(p) and cval(p) is Ellipsis) for p in parts)


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t


def stored_names(body):
    out = []

    def base(t):
        while isinstance(t, (ast.Subscript, ast.Starred)):
            t = t.value
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                base(e)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                base(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            base(n.target)
        elif isinstance(n, ast.For):
            base(n.target)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copyto", "fill_diagonal", "put", "shuffle") and n.args:
            base(n.args[0])
        for c in ast.iter_child_nodes(n):
            go(c)
    for b in body:
        go(b)
    return out


def first_call_probe(body):
    return const("try")


def truth(v):
    if v.op == "andv":
        return and_(*[truth(x) for x in v.args[0]])
    if v.op == "orv":
        return or_(*[truth(x) for x in v.args[0]])
    if v.op == "phi":
        return phi(v.args[0], truth(v.args[1]), truth(v.args[2])) if (
            is_bool(truth(v.args[1])) and is_bool(truth(v.args[2]))) else tobool(v)
    return tobool(v)


def dtype_of(t):
    if t.op == "glob" and t.args[0] in V.DTYPES:
        return mk("dtype", V.DTYPES[t.args[0]])
    if t.op == "const" and t.args[0] == "str":
        d = V.DTYPES.get("np." + t.args[1])
        if d:
            return mk("dtype", d)
    return t


def prod_split(o, cv):
    if o.op != "poly" or len(o.args[0]) != 1:
        return None
    m, c = o.args[0][0]
    if dict(m).get(cv) != 1:
        return None
    rest = _from_poly({tuple((a, e) for a, e in m if a is not cv): c})
    if contains(rest, lambda x: x is cv):
        return None
    return rest


def vix(a, ax, n):
    if ax is NONE:
        return a
    if a.op == "tuple":
        axs = ax.args[0] if ax.op in ("tuple", "list") and len(ax.args[0]) == len(a.args[0]) else [ax] * len(a.args[0])
        return mk("tuple", tuple(vix(x, y, n) for x, y in zip(a.args[0], axs)))
    if a.op == "dict" and ax.op == "const":
        return mk("dict", tuple((k, vix(v, ax, n)) for k, v in a.args[0]))
    if is_num(ax) and cval(ax) == 0:
        return index(a, n)
    return mk("vix", a, ax, n)


def mentions(t, v):
    return v in walk(t)


def rowwise_take(x, n):
    """a[n][i[n]] for every row n is take_along_axis(a, i, 1)"""
    def rows(t):
        if t.op == "idx" and t.args[1] is n and not mentions(t.args[0], n):
            return t.args[0]
        return None
    if x.op != "idx":
        return None
    if x.args[1].op == "tuple" and len(x.args[1].args[0]) == 2 and x.args[1].args[0][0] is n and not mentions(x.args[0], n):
        a, i = x.args[0], rows(x.args[1].args[0][1])
    else:
        a, i = rows(x.args[0]), rows(x.args[1])
    if a is None or i is None:
        return None
    return mk("call", mk("glob", "np.take_along_axis"), (), (("arr", a), ("axis", const(1)), ("indices", i)))


def flatten(init):
    if init.op == "tuple":
        parts = [flatten(x) for x in init.args[0]]
        leaves = [l for p, _ in parts for l in p]

        def rb(xs):
            out, i = [], 0
            for p, r in parts:
                out.append(r(xs[i:i + len(p)]))
                i += len(p)
            return mk("tuple", tuple(out))
        return leaves, rb
    if init.op == "dict" and all(is_const(k) for k, _ in init.args[0]):
        keys = [k for k, _ in init.args[0]]
        parts = [flatten(v) for _, v in init.args[0]]
        leaves = [l for p, _ in parts for l in p]

        def rbd(xs):
            out, i = [], 0
            for k, (p, r) in zip(keys, parts):
                out.append((k, r(xs[i:i + len(p)])))
                i += len(p)
            return mk("dict", tuple(out))
        return leaves, rbd
    return [init], (lambda xs: xs[0])


def flatten_like(init, t):
    if init.op == "tuple":
        if t.op == "list":
            t = mk("tuple", t.args[0])
        if t.op == "phi":
            t = mk("tuple", tuple(index(t, const(i)) for i in range(len(init.args[0]))))
        if t.op != "tuple" or len(t.args[0]) != len(init.args[0]):
            t = mk("tuple", tuple(index(t, const(i)) for i in range(len(init.args[0]))))
        out = []
        for a, b in zip(init.args[0], t.args[0]):
            r = flatten_like(a, b)
            if r is None:
                return None
            out.extend(r)
        return out
    if init.op == "dict" and all(is_const(k) for k, _ in init.args[0]):
        out = []
        for k, v in init.args[0]:
            r = flatten_like(v, index(t, k))
            if r is None:
                return None
            out.extend(r)
        return out
    return [t]


def unroll(it):
    if it.op in ("list", "tuple") and len(it.args[0]) <= 24 and not any(x.op == "star" for x in it.args[0]):
        return list(it.args[0])
    if it.op == "range":
        lo, hi, stp = it.args
        if all(is_num(x) and isinstance(cval(x), int) for x in (lo, hi, stp)):
            r = range(cval(lo), cval(hi), cval(stp))
            if len(r) <= 8:
                return [const(i) for i in r]
    if it.op == "zip":
        us = [unroll(x) for x in it.args[0]]
        if us and all(u is not None for u in us):
            return [tup(*xs) for xs in zip(*us)]
        k = next((len(u) for u in us if u is not None), None)
        if k is not None:
            return [tup(*[(u[i] if u is not None else index(x, const(i))) for u, x in zip(us, it.args[0])]) for i in range(k)]
    if it.op == "enumerate":
        u = unroll(it.args[0])
        if u is not None:
            return [tup(add(it.args[1], const(i)), x) for i, x in enumerate(u)]
    if it.op == "reversed":
        u = unroll(it.args[0])
        if u is not None:
            return u[::-1]
    return None


def iteration(it):
    """iterable term -> (N, elem(n))"""
    if it.op == "range":
        lo, hi, stp = it.args
        if num_of(stp) == 1:
            return sub(hi, lo), (lambda n: add(lo, n))
        if num_of(stp) == -1:
            return sub(lo, hi), (lambda n: sub(lo, n))
        return mk("rangelen", lo, hi, stp), (lambda n: add(lo, mul(stp, n)))
    if it.op == "enumerate":
        N, e = iteration(it.args[0])
        return N, (lambda n: tup(add(it.args[1], n), e(n)))
    if it.op == "zip":
        its = [iteration(x) for x in it.args[0]]
        return its[0][0], (lambda n: tup(*[e(n) for _, e in its]))
    if it.op == "reversed":
        N, e = iteration(it.args[0])
        return N, (lambda n: e(sub(sub(N, const(1)), n)))
    if it.op == "arangeN":
        return it.args[1], (lambda n: add(it.args[0], n))
    if it.op == "map":
        return it.args[0], (lambda n: apply_lam(it.args[1], [n]))
    return length(it), (lambda n: index(it, n))


def binop(op, a, b):
    k = type(op).__name__
    if k == "Add":
        if a.op in ("list", "tuple") and b.op == a.op:
            return mk(a.op, a.args[0] + b.args[0])
        if a.op in ("list", "tuple") and b.op in ("call", "map", "attr"):
            return mk("concat", a, b)
        if (a.op == "const" and a.args[0] == "str") or (b.op == "const" and b.args[0] == "str") or a.op == "fstr" or b.op == "fstr":
            if a.op == b.op == "const":
                return const(a.args[1] + b.args[1])
            return mk("fstr", (a, b))
        return add(a, b)
    if k == "Sub":
        return sub(a, b)
    if k == "Mult":
        if a.op == "list" and is_num(b) and isinstance(cval(b), int) and len(a.args[0]) * cval(b) <= 16:
            return mk("list", a.args[0] * cval(b))
        if a.op in ("list", "tuple"):
            return mk("replist", a, b)
        return mul(a, b)
    if k == "Div":
        return div(a, b)
    if k == "Pow":
        return power(a, b)
    if k == "BitAnd":
        return band(a, b)
    if k == "BitOr":
        return bor(a, b)
    if k == "BitXor":
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("bxor", x, y)
    if k == "FloorDiv":
        na, nb = num_of(a), num_of(b)
        if na is not None and nb not in (None, 0):
            return const(int(na // nb))
        return mk("fdiv", a, b)
    if k == "Mod":
        if a.op == "const" and a.args[0] == "str":
            return mk("fstr", (a, b))
        return mk("mod", a, b)
    if k == "MatMult":
        return mk("matmul", a, b)
    if k in ("RShift", "LShift"):
        na, nb = num_of(a), num_of(b)
        if na is not None and nb is not None:
            return const(int(na) >> int(nb) if k == "RShift" else int(na) << int(nb))
        return mk("rshift" if k == "RShift" else "lshift", a, b)
    return mk("binop", k, a, b)


def compare(op, a, b):
    k = type(op).__name__
    if k == "Lt":
        return lt(a, b)
    if k == "LtE":
        return le(a, b)
    if k == "Gt":
        return lt(b, a)
    if k == "GtE":
        return le(b, a)
    if k == "Eq":
        return eq(a, b)
    if k == "NotEq":
        return not_(eq(a, b))
    if k == "Is":
        return is_(a, b)
    if k == "IsNot":
        return not_(is_(a, b))
    if k == "In":
        if b.op in ("list", "tuple", "set") and len(b.args[0]) <= 6:
            return or_(*[eq(a, x) for x in b.args[0]])
        if b.op == "dict" and is_const(a) and all(is_const(x) for x, _ in b.args[0]):
            return const(any(x is a for x, _ in b.args[0]))
        return mk("in", a, b)
    if k == "NotIn":
        return not_(compare(ast.In(), a, b))
    return mk("cmp", k, a, b)


import builtins as _b
BUILTINS = set(dir(_b))
IMPURE_MUT = {"np.copyto": 0, "np.fill_diagonal": 0, "np.random.shuffle": 0, "np.put": 0, "np.add.at": 0}

# ---------------------------------------------------------------- handlers for library functions
GLOBAL = {}


def handler(*names):
    def deco(fn):
        for n in names:
            GLOBAL[n] = fn
        return fn
    return deco


@handler("np.where", "lax.select")
def h_where(E, a, d, st, f, an, node):
    d = dict(d)
    x = a[1] if len(a) > 1 else d.get("x")
    y = a[2] if len(a) > 2 else d.get("y")
    c = a[0] if a else d.get("condition")
    if c is not None and x is not None and y is not None:
        return phi(c, x, y)
    return None


@handler("np.logical_and")
def h_and(E, a, d, st, f, an, node):
    return and_(*a) if len(a) == 2 and not d else None


@handler("np.logical_or")
def h_or(E, a, d, st, f, an, node):
    return or_(*a) if len(a) == 2 and not d else None


@handler("np.logical_not", "np.invert", "np.bitwise_not")
def h_not(E, a, d, st, f, an, node):
    return (not_(a[0]) if is_bool(a[0]) or True else None) if len(a) == 1 and not d else None


@handler("np.bitwise_and")
def h_band(E, a, d, st, f, an, node):
    return band(*a) if len(a) == 2 else None


@handler("np.bitwise_or")
def h_bor(E, a, d, st, f, an, node):
    return bor(*a) if len(a) == 2 else None


@handler("np.add")
def h_add(E, a, d, st, f, an, node):
    return add(*a) if len(a) == 2 and not d else None


@handler("np.subtract")
def h_sub(E, a, d, st, f, an, node):
    return sub(*a) if len(a) == 2 and not d else None


@handler("np.multiply")
def h_mul(E, a, d, st, f, an, node):
    return mul(*a) if len(a) == 2 and not d else None


@handler("np.divide", "np.true_divide")
def h_div(E, a, d, st, f, an, node):
    return div(*a) if len(a) == 2 and not d else None


@handler("np.negative")
def h_neg(E, a, d, st, f, an, node):
    return neg(a[0]) if len(a) == 1 and not d else None


@handler("np.power", "builtins.pow")
def h_pow(E, a, d, st, f, an, node):
    return power(*a) if len(a) == 2 and not d else None


@handler("np.square")
def h_square(E, a, d, st, f, an, node):
    return power(a[0], const(2)) if len(a) == 1 and not d else None


@handler("np.matmul")
def h_matmul(E, a, d, st, f, an, node):
    return mk("matmul", *a) if len(a) == 2 and not d else None


@handler("np.equal")
def h_eq(E, a, d, st, f, an, node):
    return eq(*a) if len(a) == 2 and not d else None


@handler("np.not_equal")
def h_ne(E, a, d, st, f, an, node):
    return not_(eq(*a)) if len(a) == 2 and not d else None


@handler("np.less")
def h_lt(E, a, d, st, f, an, node):
    return lt(*a) if len(a) == 2 and not d else None


@handler("np.less_equal")
def h_le(E, a, d, st, f, an, node):
    return le(*a) if len(a) == 2 and not d else None


@handler("np.greater")
def h_gt(E, a, d, st, f, an, node):
    return lt(a[1], a[0]) if len(a) == 2 and not d else None


@handler("np.greater_equal")
def h_ge(E, a, d, st, f, an, node):
    return le(a[1], a[0]) if len(a) == 2 and not d else None


@handler("builtins.min", "np.minimum")
def h_min(E, a, d, st, f, an, node):
    if not d and len(a) >= 2:
        return minmax("min", a)
    return None


@handler("builtins.max", "np.maximum")
def h_max(E, a, d, st, f, an, node):
    if not d and len(a) >= 2:
        return minmax("max", a)
    return None


@handler("np.take")
def h_take(E, a, d, st, f, an, node):
    d = dict(zip(("a", "indices", "axis"), a), **d)
    ax = d.pop("axis", None)
    if set(d) != {"a", "indices"}:
        return None
    n = 0 if ax is None or ax is NONE else axis_const(ax)
    if n is None or n < 0 or n > 4:
        return None
    return index(d["a"], mk("tuple", (FULL,) * n + (d["indices"],)) if n else d["indices"])


def axis_const(t):
    return cval(t) if t.op == "const" and isinstance(t.args[1], int) and not isinstance(t.args[1], bool) else None


def _stat(kind):
    @handler("nkstats." + kind)
    def h(E, a, d, st, f, an, node):
        if any(x.op == "star" for x in a) or set(d) - {"a", "axis", "keepdims"}:
            return None
        loc = E.call_global("np." + kind, list(a), d, st, f, None, None, None)
        return index(E.call_global("mpi.mpi_%s_jax" % kind, [loc], {}, st, f, None, None, None), const(0))


_stat("mean")
_stat("sum")


@handler("nkstats.subtract_mean")
def h_submean(E, a, d, st, f, an, node):
    x = a[0] if a else d.get("x")
    if x is None or set(d) - {"x", "axis"}:
        return None
    kw = {"keepdims": TRUE}
    ax = a[1] if len(a) > 1 else d.get("axis")
    if ax is not None:
        kw["axis"] = ax
    return sub(x, E.call_global("nkstats.mean", [x], kw, st, f, None, None, None))


@handler("np.floor_divide")
def h_fdiv(E, a, d, st, f, an, node):
    return binop(ast.FloorDiv(), *a) if len(a) == 2 and not d else None


@handler("np.mod", "np.remainder")
def h_mod(E, a, d, st, f, an, node):
    return binop(ast.Mod(), *a) if len(a) == 2 and not d else None


@handler("np.dot")
def h_dot(E, a, d, st, f, an, node):
    return None


@handler("builtins.len")
def h_len(E, a, d, st, f, an, node):
    return length(a[0]) if len(a) == 1 else None


@handler("builtins.range")
def h_range(E, a, d, st, f, an, node):
    if len(a) == 1:
        return mk("range", const(0), a[0], const(1))
    if len(a) == 2:
        return mk("range", a[0], a[1], const(1))
    return mk("range", *a)


@handler("np.arange")
def h_arange(E, a, d, st, f, an, node):
    if d and set(d) - {"dtype"}:
        return None
    if len(a) == 1:
        return mk("arangeN", const(0), a[0])
    if len(a) == 2:
        return mk("arangeN", a[0], sub(a[1], a[0]))
    if len(a) >= 3 and num_of(a[2]) == 1:
        return mk("arangeN", a[0], sub(a[1], a[0]))
    return None


@handler("builtins.enumerate")
def h_enum(E, a, d, st, f, an, node):
    s = a[1] if len(a) > 1 else d.get("start", const(0))
    return mk("enumerate", a[0], s)


@handler("builtins.zip")
def h_zip(E, a, d, st, f, an, node):
    if any(x.op == "star" for x in a):
        return None
    return mk("zip", tuple(a))


@handler("builtins.reversed")
def h_rev(E, a, d, st, f, an, node):
    return mk("reversed", a[0])


@handler("builtins.sum")
def h_bsum(E, a, d, st, f, an, node):
    x = a[0]
    s0 = a[1] if len(a) > 1 else const(0)
    if x.op in ("list", "tuple") and not any(y.op == "star" for y in x.args[0]):
        return add(s0, *x.args[0])
    if x.op == "map":
        n = fresh("n")
        return add(s0, mksum(x.args[0], n, apply_lam(x.args[1], [n])))
    if x.op == "filtermap":
        n = fresh("n")
        return add(s0, mksum(x.args[0], n, phi(apply_lam(x.args[1], [n]), apply_lam(x.args[2], [n]), const(0))))
    return None


@handler("builtins.list")
def h_list(E, a, d, st, f, an, node):
    if not a:
        return mk("list", ())
    if a[0].op in ("tuple", "list"):
        return mk("list", a[0].args[0])
    if a[0].op == "map":
        return a[0]
    return None


@handler("builtins.tuple")
def h_tuple(E, a, d, st, f, an, node):
    if not a:
        return mk("tuple", ())
    if a[0].op in ("tuple", "list"):
        return mk("tuple", a[0].args[0])
    return None


@handler("builtins.dict")
def h_dict(E, a, d, st, f, an, node):
    if not a:
        return mk("dict", tuple(sorted(((const(k), v) for k, v in d.items()), key=lambda p: repr(p[0].args))))
    return None


@handler("builtins.isinstance")
def h_isinst(E, a, d, st, f, an, node):
    x, c = a
    if c.op == "tuple":
        return or_(*[mk("isinstance", x, y) for y in c.args[0]])
    if x.op == "tuple" and c.op == "glob" and c.args[0] == "builtins.tuple":
        return TRUE
    return mk("isinstance", x, c)


@handler("builtins.hasattr")
def h_hasattr(E, a, d, st, f, an, node):
    return mk("hasattr", a[0], a[1])


@handler("builtins.getattr")
def h_getattr(E, a, d, st, f, an, node):
    if len(a) >= 2 and a[1].op == "const" and isinstance(cval(a[1]), str):
        v = E.attr(a[0], cval(a[1]), st, f)
        if len(a) == 3:
            return phi(mk("hasattr", a[0], a[1]), v, a[2])
        return v
    return None


@handler("builtins.type")
def h_type(E, a, d, st, f, an, node):
    return mk("typeof", a[0]) if len(a) == 1 else None


@handler("builtins.map")
def h_map(E, a, d, st, f, an, node):
    if len(a) == 2:
        it = a[1]
        u = unroll(it)
        if u is not None:
            return mk("list", tuple(E.callf(a[0], [x], st, f) for x in u))
        N, el = iteration(it)
        n = fresh("n")
        return mk("map", N, lam([n], E.reify(E.callf(a[0], [el(n)], st, f), st, f)))
    return None


@handler("np.array", "np.asarray")
def h_array(E, a, d, st, f, an, node):
    d = dict(d)
    dt = a[1] if len(a) > 1 else d.pop("dtype", NONE)
    d.pop("copy", None)
    if d or not a:
        return None
    dt = dtype_of(dt)
    x = a[0]
    x = E.reify(x, st, f)
    if x.op in ("list", "tuple"):
        x = mk("array", x.args[0])
    return cast(dt, x)


@handler("np.concatenate")
def h_concat(E, a, d, st, f, an, node):
    d = dict(d)
    xs = a[0] if a else d.get("arrays")
    ax = a[1] if len(a) > 1 else d.get("axis", const(0))
    if xs is not None and xs.op in ("tuple", "list"):
        parts = xs.args[0]
        if num_of(ax) == 0 and parts and all(_arr(p) is not None for p in parts):
            return mk("array", tuple(y for p in parts for y in _arr(p)))
        return call_glob("np.concatenate", [("arrays", mk("tuple", parts)), ("axis", ax)])
    return None


@handler("np.stack")
def h_stack(E, a, d, st, f, an, node):
    d = dict(d)
    xs = a[0] if a else d.get("arrays")
    ax = a[1] if len(a) > 1 else d.get("axis", const(0))
    if xs is not None and xs.op in ("tuple", "list"):
        return call_glob("np.stack", [("arrays", mk("tuple", xs.args[0])), ("axis", ax)])
    return None


def _arr(p):
    if p.op == "array":
        return p.args[0]
    if p.op == "cast" and p.args[1].op == "array":
        return tuple(cast(p.args[0], y) for y in p.args[1].args[0])
    return None


@handler("np.append")
def h_append(E, a, d, st, f, an, node):
    if len(a) == 2 and not d and _arr(a[0]) is not None and a[1].op not in ("array", "list", "tuple", "map"):
        return mk("array", _arr(a[0]) + (a[1],))
    return None


@handler("jax.jit", "numba.jit", "numba.njit", "jax.checkpoint", "jax.remat")
def h_jit(E, a, d, st, f, an, node):
    if a:
        return a[0]
    return mk("call", mk("glob", "jax.jit"), (), ())


@handler("functools.partial", "nkjax.HashablePartial", "jax.tree_util.Partial", "tree.Partial")
def h_partial(E, a, d, st, f, an, node):
    if a:
        if a[0].op == "glob" and a[0].args[0] in ("jax.jit", "numba.jit", "numba.njit"):
            return mk("call", mk("glob", "jax.jit"), (), ())
        if a[0].op == "glob" and a[0].args[0] == "jax.vmap":
            return mk("partial", a[0], tuple(a[1:]), tuple(sorted(d.items())))
        return mk("partial", a[0], tuple(a[1:]), tuple(sorted(d.items())))
    return None


@handler("jax.vmap", "nkjax.vmap_chunked", "nkjax.apply_chunked")
def h_vmap(E, a, d, st, f, an, node):
    d = dict(d)
    if not a:
        return None
    ia = a[1] if len(a) > 1 else d.pop("in_axes", const(0))
    oa = a[2] if len(a) > 2 else d.pop("out_axes", const(0))
    name = node.func.attr if node is not None and isinstance(node.func, ast.Attribute) else (
        node.func.id if node is not None and isinstance(node.func, ast.Name) else "vmap")
    extra = NONE
    if d:
        extra = mk("dict", tuple(sorted(((const(k), v) for k, v in d.items()), key=lambda p: repr(p[0].args))))
    if name in ("apply_chunked",):
        return None
    return mk("vmapf", a[0], ia, oa, extra)


@handler("lax.cond")
def h_cond(E, a, d, st, f, an, node):
    d = dict(d)
    if len(a) >= 3:
        p, t, e = a[:3]
        ops = list(a[3:])
    else:
        p = a[0] if a else d.get("pred")
        t = a[1] if len(a) > 1 else d.get("true_fun")
        e = d.get("false_fun")
        ops = []
    if "operand" in d:
        ops = [d["operand"]]
    if p is None or t is None or e is None:
        return None
    s1, s2 = st.copy(), st.copy()
    x = E.callf(t, ops, s1, f)
    y = E.callf(e, ops, s2, f)
    c = tobool(p)
    x, y = E.reify(x, s1, f), E.reify(y, s2, f)
    E.merge_into(st, c, s1, s2)
    return phi(c, x, y)


@handler("lax.fori_loop")
def h_fori(E, a, d, st, f, an, node):
    if len(a) != 4:
        d = dict(d)
        names = ["lower", "upper", "body_fun", "init_val"]
        for i, x in enumerate(a):
            d[names[i]] = x
        if not all(k in d for k in names):
            return None
        a = [d[k] for k in names]
    lo, hi, fn, init = a
    if all(is_num(x) and isinstance(cval(x), int) for x in (lo, hi)) and cval(hi) - cval(lo) <= 8:
        v = init
        for i in range(cval(lo), cval(hi)):
            v = E.callf(fn, [const(i), v], st, f)
        return v
    n = fresh("n")

    def step(fn_, carry, s2):
        r = E.callf(fn_, [add(lo, n), carry], s2, f)
        return r, None
    r, _ = E.functional_loop(fn, init, sub(hi, lo), n, step, st, f)
    return r


@handler("lax.scan")
def h_scan(E, a, d, st, f, an, node):
    d = dict(d)
    names = ["f", "init", "xs", "length", "reverse", "unroll"]
    for i, x in enumerate(a):
        d[names[i]] = x
    fn, init, xs = d.get("f"), d.get("init"), d.get("xs", NONE)
    if fn is None or init is None:
        return None
    rev = d.get("reverse", FALSE)
    if rev.op != "const":
        return None
    d.pop("unroll", None)
    n = fresh("n")
    leaves, _ = flatten(xs)
    if xs is NONE:
        N = d.get("length", mk("undef"))
    else:
        N = length(leaves[0]) if leaves else mk("undef")
    idxn = sub(sub(N, const(1)), n) if is_true(rev) else n

    def step(fn_, carry, s2):
        x = vix(xs, const(0), idxn) if xs is not NONE else NONE
        r = E.callf(fn_, [carry, x], s2, f)
        return index(r, const(0)), index(r, const(1))
    c, ys = E.functional_loop(fn, init, N, n, step, st, f)
    if ys is None:
        ys = NONE
    if is_true(rev) and ys is not NONE:
        ys = mk("revys", ys)
    return tup(c, ys)


@handler("tree.tree_map")
def h_treemap(E, a, d, st, f, an, node):
    if len(a) < 2 or set(d) - {"is_leaf"}:
        return None
    if any(one_array(x) for x in a[1:]):
        # a single array is a tree of one leaf
        return E.callf(a[0], list(a[1:]), st, f)
    n = fresh("leaf")
    els = [leaf(x, n) for x in a[1:]]
    s2 = st.copy()
    s2.eff = EFF0
    v = E.reify(E.callf(a[0], els, s2, f), s2, f)
    if v.op == "leaf" and v.args[1] is n and n not in set(walk(v.args[0])):
        return v.args[0]
    return mk("treemap", lam([n], v))


def one_array(t):
    if t.op in ("poly", "at", "lt0", "eq0", "band", "bor", "cast", "array", "min", "max"):
        return True
    if t.op == "call" and t.args[0].op == "glob":
        return t.args[0].args[0] in ARRAYS
    if t.op == "vmap":
        return any(isinstance(x, T) and x.op == "lam" and one_array(x.args[2]) for x in t.args)
    if t.op == "phi":
        return one_array(t.args[1]) or one_array(t.args[2])
    return False


ARRAYS = {"np." + n for n in "sum prod mean exp log abs real imag conj zeros ones zeros_like ones_like full resize reshape stack concatenate asarray array "
          "expand_dims squeeze transpose swapaxes cumsum sqrt dot matmul einsum take_along_axis".split()}


def leaf(x, n):
    """the leaf at position n of the tree x"""
    if x.op == "treemap" and x.args[0].op == "lam":
        k, h, body = x.args[0].args
        return subst(body, {mk("bv", h, 0): n})
    if x.op == "phi" and "treemap" in (x.args[1].op, x.args[2].op):
        return phi(x.args[0], leaf(x.args[1], n), leaf(x.args[2], n))
    return mk("leaf", x, n)


@handler("np.split")
def h_split(E, a, d, st, f, an, node):
    d = dict(d)
    ax = d.pop("axis", a[2] if len(a) > 2 else const(0))
    pts = d.pop("indices_or_sections", a[1] if len(a) > 1 else None)
    x = d.pop("ary", a[0] if a else None)
    if d or pts is None or x is None or not (is_num(ax) and isinstance(cval(ax), int) and cval(ax) >= 0):
        return None
    while pts.op == "cast":
        pts = pts.args[1]
    if pts.op not in ("array", "list", "tuple"):
        return None
    bounds = [NONE] + list(pts.args[0]) + [NONE]
    out = []
    for lo, hi in zip(bounds, bounds[1:]):
        s = mk("slice", lo, hi, NONE)
        out.append(index(x, s if cval(ax) == 0 else mk("tuple", (FULL,) * cval(ax) + (s,))))
    return mk("list", tuple(out))


@handler("np.copyto")
def h_copyto(E, a, d, st, f, an, node):
    if len(a) == 2 and not d and an and an[0] is not None:
        lv = an[0]
        if isinstance(lv, ast.Name):
            E.assign(lv, a[1], st, f, mutate=True)
            return NONE
        if isinstance(lv, ast.Attribute):
            b = E.ev(lv.value, st, f)
            ci = E.cls_by_qual(b.args[0]) if b.op == "self" else None
            if ci is not None and E.tree.find_method(ci, lv.attr) is not None:
                st.eff = mk("eff", st.eff, mk("storetmp", a[0], NONE, a[1]))
                return NONE
            E.assign(lv, a[1], st, f, mutate=True)
            return NONE
        if isinstance(lv, ast.Subscript) and (basic_view(E.ev_index(lv.slice, st.copy(), f)) or counter_view(E.ev_index(lv.slice, st.copy(), f))):
            E.assign(lv, a[1], st, f)
            return NONE
        st.eff = mk("eff", st.eff, mk("storetmp", a[0], NONE, a[1]))
        return NONE
    return None
