"""Three-valued comparison of value graphs: EQ / UNK / DIFF.

EQ    the two terms have the same normal form (or are equal after alignment)
DIFF  the terms align down to a sub-term whose difference is decided inside an
      interpreted theory (numeric coefficients, order/equality atoms, Boolean
      structure, distinct inputs, distinct library functions on equal
      arguments, dropped or added summands/factors/conjuncts/effects)
UNK   anything else: an unrecognised rewrite.  UNK never raises an alarm.
"""
import itertools
import time
from collections import Counter
from fractions import Fraction
from .terms import *
from .terms import _poly_of
from . import vocab as V, laws
from .rint import FILLS, separable, confirmed, GENERIC, INTOPS, TRUTHY, construct, superclasses, shape_like as _shape_like_r

EQ, UNK, DIFF = 0, 1, 2
NAMES = {EQ: "EQ", UNK: "UNK", DIFF: "DIFF"}

LEAF = {"const", "param", "self", "fv", "glob", "imag"}
AXISKEYS = {"axis", "in_axes", "out_axes", "axis1", "axis2", "axes", "source", "destination"}
SOFTKEYS = {"dtype", "precision", "name", "chunk_size", "token", "size", "casting", "order", "out", "copy", "rcond", "fill_value",
            "promote_integers", "optimize", "check_finite", "indexing", "length", "unroll", "warn", "static_argnums"}


class Ctx:
    def __init__(self, refnames, curnames, refstrs, curstrs):
        self.refnames, self.curnames = refnames, curnames
        self.refstrs, self.curstrs = refstrs, curstrs
        self.memo = {}
        self.count = 0
        self.budget = 400000
        self.deadline = time.time() + 25
        self.refnodes = self.curnodes = frozenset()
        self.soft = []


class R:
    """verdict with the innermost differing pair"""
    __slots__ = ("v", "why", "r", "c", "p", "top")

    def __init__(self, v, why="", r=None, c=None, p=False, top=None):
        self.v, self.why, self.r, self.c, self.p, self.top = v, why, r, c, p, top


EQR = R(EQ)


def unk(why="", r=None, c=None):
    """undecided by alignment; the vocabulary rule may still decide"""
    return R(UNK, why, r, c)


def keep(why="", r=None, c=None):
    """undecided for good: a rewrite of this kind may preserve the value"""
    return R(UNK, why, r, c, True)


def diff(why, r=None, c=None):
    return R(DIFF, why, r, c)


VALUES = {"call", "poly", "idx", "pow", "cast", "attr", "lt0", "eq0", "min", "max"}


def cmp(x, a, b):
    if a is b:
        return EQR
    k = (a, b)
    m = x.memo.get(k)
    if m is not None:
        return m
    x.count += 1
    if x.count > x.budget:
        return keep("comparison budget exhausted")
    if x.count % 64 == 0 and time.time() > x.deadline:
        x.count = x.budget + 1
        return keep("comparison time")
    x.memo[k] = keep("cyclic")
    r = keep("unbound variable", a, b) if (a.op == "undef") != (b.op == "undef") else _cmp(x, a, b)
    if r.v == UNK and (_only_shape(a, b) or _only_shape(b, a)):
        r = diff("values discarded, only the shape is used", a, b)
    if r.v == UNK and not r.p:
        r = by_vocabulary(x, a, b, r)
    if r.v == DIFF and r.r is None:
        r = R(DIFF, r.why, a, b)
    if r.v == DIFF:
        p, q = r.top or (r.r, r.c)
        if (a.op in MEANING or b.op in MEANING) and (p is not a or q is not b) and isinstance(p, T) and isinstance(q, T):
            # the parts differ; does the whole?
            if not confirmed(a, b, p, q):
                r = keep("parts differ, the whole is not separable: " + r.why, a, b)
        if r.v == DIFF and (p is not a or q is not b) and isinstance(p, T) and isinstance(q, T) and a.op in VALUES and b.op in VALUES and laws.concerned(a, b):
            # a difference of the arguments that the function does not see
            if laws.cancels(a, b, p, q) or laws.orderfree(a, b):
                r = keep("equal by the laws of the functions involved: " + r.why, a, b)
        if r.v == DIFF and a.op == b.op == "eq0" and any(t.op in INTOPS for t in nodes_of([p, q])) and not separable(a, b):
            r = keep("same zeros: " + r.why, a, b)
        if r.v == DIFF:
            r = R(DIFF, r.why, r.r, r.c, top=(a, b))
    x.memo[k] = r
    return r


def strict(x, pairs, why):
    """all parts feed one operation: DIFF only if nothing is unknown"""
    return worst([cmp(x, a, b) for a, b in pairs])


def soft(x, why, a=None, b=None):
    """a difference in array plumbing that is taken as equal, but keeps the observable from being reported as proven"""
    x.soft.append(why)
    return EQR


def worst(res):
    u = next((r for r in res if r.v == UNK and r.p), None) or next((r for r in res if r.v == UNK), None)
    return u or next((r for r in res if r.v == DIFF), EQR)


def _data(t):
    """a value as it is given to the code: an input, a component of one, or what another object returned"""
    while t.op in ("attr", "idx"):
        if t.op == "attr" and _shape_like_r(t) or t.op == "idx" and not is_num(t.args[1]):
            return False
        t = t.args[0]
    return t.op in ("param", "fv", "self") or t.op == "call" and t.args[0].op == "attr"


SHAPEATTR = {"shape", "size", "ndim", "dtype"}
SHAPEFUN = {"np.ones_like", "np.zeros_like", "np.empty_like", "np.full_like", "np.shape", "np.size", "np.ndim", "builtins.len"}


def _only_shape(a, b):
    """a is given data and b uses nothing of it but its shape (at least once), so that b cannot follow its values"""
    if not _data(a) or a.op == "self" or a is b:
        return False
    hit = 0
    todo, seen = [b], set()
    while todo:
        t = todo.pop()
        if t is a:
            return False
        if t in seen:
            continue
        seen.add(t)
        if t.op == "attr" and t.args[0] is a and t.args[1] in SHAPEATTR:
            hit += 1
            continue
        if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] in SHAPEFUN:
            k = [v for n, v in t.args[2] if n in ("a", "x", "obj")] + list(t.args[1][:1])
            if k and k[0] is a:
                hit += 1
                todo.extend(v for v in children(t) if v is not a)
                continue
        if t.op not in ("poly", "call", "cast", "const", "idx", "tuple", "imag", "glob", "dtype") or t.op == "call" and t.args[0].op != "glob":
            return False
        todo.extend(children(t))
    return hit > 0


def _over_processes(t):
    """summand of a sum over all processes"""
    c = t.args[0] if t.op == "idx" and is_num(t.args[1]) and cval(t.args[1]) == 0 else t
    if c.op == "call" and c.args[0].op == "glob":
        n = c.args[0].args[0]
        if (n == "mpi.mpi_sum_jax") == (c is not t) and n in ("mpi.mpi_sum_jax", "mpi.mpi_sum"):
            w = dict(c.args[2]).get("x")
            if w is not None and w.op == "call" and w.args[0].op == "glob" and w.args[0].args[0] == "np.sum" and len(w.args[2]) == 1 and not w.args[1]:
                a = w.args[2][0][1]
                if a.op == "idx" and a.args[0].op == "attr" and a.args[0].args[1] == "shape":
                    return a        # sum of a single number
            return w
    return None


MEANING = {"phi", "poly", "sum", "loop", "scanys", "map", "and", "or", "not", "band", "bor", "bxor", "mod", "fdiv", "rshift", "lshift", "cast"}
THEORY = {"const", "param", "self", "attr", "fv", "bv", "poly", "phi", "lt0", "eq0", "and", "or", "not", "idx", "tuple", "imag",
          "cast", "is", "glob", "dtype", "dict", "list", "array", "eq", "band", "bor", "mod", "fdiv", "rshift",
          "lshift", "bxor", "inv", "min", "max", "arangeN", "slice", "new", "undef"}
HARD = ("call:random.", "call:np.linalg.", "call:sp.linalg.", "call:mpi.", "call:np.exp", "call:np.log", "call:np.sin", "call:np.cos",
        "call:jsp.special.", "call:np.conj", "call:np.real", "call:np.imag", "call:np.angle", "call:nkstats.", "call:netket.stats.", "call:np.sort",
        "call:np.argsort", "call:np.cumsum", "call:np.unique", "call:np.tanh")


PLUMBING = {"call:np." + n for n in (
    "heaviside take take_along_axis clip full full_like zeros ones zeros_like ones_like empty arange linspace eye identity diag diagonal "
    "tile repeat moveaxis swapaxes transpose rollaxis dot vdot inner tensordot einsum matmul append concatenate stack split flip roll "
    "where select pad nonzero flatnonzero resize tri tril triu outer kron multiply add subtract divide mod floor_divide power square "
    "minimum maximum logical_and logical_or logical_not isin in1d asarray meshgrid indices ix_ unravel_index ravel_multi_index "
    "broadcast_arrays result_type promote_types issubdtype iscomplexobj isscalar shape size ndim").split()}
# value-changing reductions and reorderings, with the constructs they can be another spelling of
INSERT = {"call:np." + f: w.split() for fs, w in {
    "max min argmax argmin": "max min sort arg loop scan phi median percentile norm clip any all top_k loopeff",
    "sort argsort": "sort unique loop scan flip arg partition top_k",
    "cumsum cumprod": "loop scan tri cum accumulate sum prod matmul einsum dot",
    "flip": "slice flip loop scan transpose rot sort idx",
    "roll": "concatenate roll take mod idx append loop stack slice",
    "any all": "any all sum max min prod loop nonzero isin in1d array_equal allclose mut dict builtins map",
    "abs": "sqrt conj square phi max real sign norm hypot abs exp log pow",
    "mean": "np.sum mpi_sum mean average dot einsum matmul loop scan nkstats mpi_mean median std var",
    "sign": "phi abs sign lt0",
    "round floor ceil": "fdiv cast mod rint round floor ceil mut",
}.items() for f in fs.split()}
ITER = {"vmap", "lam", "loop", "map", "sum", "prod", "scanys", "vix", "last", "treemap", "leaf", "flatmap", "append", "concat",
        "loopeff", "vmapeff"}


def head(t):
    """vocabulary item of a node outside the decided theory, None inside it"""
    if t.op in THEORY:
        if t.op == "const" and t.args[1] is Ellipsis:
            return "ellipsis"
        if t.op == "attr" and _shape_like_r(t) and t.args[1] in ("shape", "size", "ndim"):
            return "shape"
        return None
    if t.op == "call":
        f = t.args[0]
        if f.op == "glob":
            if f.args[0] in V.SHAPE_ONLY:
                return "shape:" + f.args[0]
            return "call:" + f.args[0]
        if f.op == "attr":
            return "call:." + f.args[1]
        return "call"
    if t.op in ("at", "mut"):
        return t.op + ":" + str(t.args[0])
    if t.op in ("array", "list", "dict"):
        return "%s%d" % (t.op, len(t.args[0]))
    return t.op


def nodes_of(ts):
    seen = set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        todo.extend(children(t))
    return seen


REDUCTIONS = {"call:np." + n for n in "sum prod any all max min mean dot vdot inner".split()} | {"call:builtins." + n for n in "sum any all max min".split()}


def _styles(ts):
    """(callee, (positional, keyword) argument counts)"""
    return {(construct(t), (len(t.args[1]), len(t.args[2]))) for t in ts if t.op == "call"}


def _elements(ts):
    """single elements at constant positions"""
    return {t for t in ts if t.op == "idx" and is_num(t.args[1])}


def by_vocabulary(x, a, b, r):
    """Same constructs, different value.

    Every construct outside the decided theory that occurs only in the reference must be matched by
    one of the same kind occurring only in the current term (no library-level rewrite took place);
    then the two differ exactly where the random interpretation separates them."""
    na, nb = nodes_of([a]), nodes_of([b])
    ua = [t for t in na if t not in nb and t not in x.curnodes]
    ub = [t for t in nb if t not in na and t not in x.refnodes]
    for t in ua:
        if t.op == "attr" and t.args[1] not in x.curnames:
            return keep("renamed attribute " + t.args[1], a, b)
    for t in ub:
        if t.op == "attr" and t.args[1] not in x.refnames:
            return keep("renamed attribute " + t.args[1], a, b)
        if t.op == "call" and t.args[0].op == "glob" and not t.args[0].args[0].startswith("builtins.") and \
                t.args[0].args[0].rpartition(".")[2] not in x.refnames and t.args[0] not in na and not _known(x, t.args[0].args[0]):
            return keep("new library function " + t.args[0].args[0], a, b)
    ha = {h for h in map(head, ua) if h}
    hb = {h for h in map(head, ub) if h}
    for n, p in _styles(ua):
        for m, q in _styles(ub):
            if n == m and p[0] != q[0] and sum(p) == sum(q):
                return keep("arguments of %s by position or by keyword" % n, a, b)
    for p, q, us in ((ha, hb, ub), (hb, ha, ua)):
        if "call:np.sort" in p and "call:np.sort" not in q and any(t.op in ("min", "max", "phi", "lt0") for t in us):
            return keep("order established by comparisons", a, b)
    if (ha - hb) & REDUCTIONS and len(_elements(ub)) >= 2 > len(_elements(ua)):
        return keep("reduction written out", a, b)
    if r.r is not None and r.c is not None and r.r.op == r.c.op == "call":
        p, q = head(r.r), head(r.c)
        if p != q and {p, q} & {"call:np.stack", "call:np.concatenate"} and p in map(head, nodes_of([r.c])) and q in map(head, nodes_of([r.r])):
            return keep("order of %s and %s" % (p[5:], q[5:]), a, b)
    ca, cb = Counter(map(head, ua)), Counter(map(head, ub))
    more = [h for h in sorted(ha | hb) if cb[h] > ca[h] and (h in PLUMBING or h in ITER)]
    less = [h for h in sorted(ha | hb) if cb[h] < ca[h] and (h in PLUMBING or h in ITER)]
    if more and less and not (more[0][5:] in FILLS and less[0][5:] in FILLS and len(more) == len(less) == 1):
        return keep("%s in place of %s: %s" % (more[0], less[0], r.why), r.r or a, r.c or b)
    fills = {d[5:] for d in ha ^ hb if d[5:] in FILLS}
    batch = {"vmap", "lam", "vix", "leaf", "treemap"}
    uops = {t.op for t in ua} | ha
    hard = {d for d in ha if not d.startswith("shape") and d not in PLUMBING and d not in ITER}
    allb = {h for h in map(head, nb) if h} if any(d.startswith("shape") for d in ha) else set()
    inserted = {d for d in hb - ha if d in INSERT and not any(w == o or o.startswith("call:") and w in o[5:] for w in INSERT[d] for o in uops)}
    for d in sorted(ha ^ hb):
        if d.startswith(HARD) or d[5:] in fills:
            continue
        if inserted and (d in inserted or d in batch or d in ha):
            continue        # a reduction or reordering of what the reference uses as it is
        if d in ha and d.startswith("shape") and (d in allb or not hb and hard):
            continue
        if d in ha and not d.startswith("shape") and (d not in PLUMBING or {t.op for t in ub} <= {t.op for t in ua}) and (not hb or (hb <= ha and d not in ITER)):
            continue        # a construct disappeared and nothing took its place
        return keep("constructs differ (%s): %s" % (d, r.why), r.r or a, r.c or b)
    if any(t.op == "missingarg" for t in ub):
        return diff("call leaves a required argument unbound", a, b)
    if a.op == b.op == "eq0":
        sep = separable(a.args[0], b.args[0], fills=fills) and separable(a.args[0], neg(b.args[0]), fills=fills)
    elif a.op == b.op == "lt0":
        sep = separable(a.args[0], b.args[0], fills=fills)
    else:
        sep = separable(a, b, fills=fills)
    if sep and a.op == b.op == "eq0" and any(t.op in INTOPS for t in na | nb):
        sep = separable(a, b, fills=fills)
    if not sep:
        return keep("not separable: " + r.why, a, b)
    if laws.concerned(a, b) and not laws.differ(a, b):
        return keep("equal by the laws of the functions involved: " + r.why, a, b)
    return diff("same constructs, different value (%s)" % r.why, r.r or a, r.c or b)


SPELLINGS = {"np.ravel": "flatten", "np.concatenate": "append", "np.where": "select"}


def _known(x, name):
    if SPELLINGS.get(name) in x.refnames:
        return True
    return any(name in s for s in V.DISTINCT)


def indep(x, pairs, c=None):
    """independent observables: one DIFF decides (c: the pair holds the two cases of that condition)"""
    if c is None:
        res = [cmp(x, a, b) for a, b in pairs]
    else:
        res = [cmp_given(x, c, v, a, b) for v, (a, b) in zip((True, False), pairs)]
    d = next((r for r in res if r.v == DIFF), None)
    if d is not None:
        return d
    u = next((r for r in res if r.v == UNK), None)
    return u if u is not None else EQR


def given(c, val):
    """substitution that holds where condition c has truth value val: p == 0 with a quantity of unit coefficient, solved for it"""
    if c.op == "not":
        return given(c.args[0], not val)
    if (c.op == "and" and val) or (c.op == "or" and not val):
        m = {}
        for y in c.args[0]:
            for k, v in given(y, val).items():
                m.setdefault(k, subst(v, m))
        return m
    if c.op in ("eq", "is") and val:
        p, q = c.args
        if q.op == "const" and p.op not in ("const", "tuple", "list"):
            return {p: q}
        if p.op == "const" and q.op not in ("const", "tuple", "list"):
            return {q: p}
        return {}
    if c.op != "eq0" or not val:
        return {}
    d = _poly_of(c.args[0])
    ms = [m for m in d if len(m) == 1 and m[0][1] == 1 and abs(d[m]) == 1]
    for m in sorted(ms, key=lambda m: (not is_leaf(m[0][0]), m[0][0].id)):
        y = m[0][0]
        if any(a is y for n in d if n is not m for a, _ in n):
            continue
        r = sub(y, scale(c.args[0], 1 / d[m]))
        if not any(z is y for z in walk(r)):
            return {y: r}
    return {}


def cmp_given(x, c, val, a, b):
    """a against b where condition c has truth value val"""
    if a is b:
        return EQR
    a, b = cofactor(a, c, val, None), cofactor(b, c, val, None)
    r = cmp(x, a, b)
    if r.v == EQ:
        return r
    m = given(c, val)
    if not m:
        return r
    a2, b2 = subst(a, m), subst(b, m)
    if a2 is a and b2 is b:
        return r
    s = cmp(x, a2, b2)
    if s.v == DIFF and r.v != DIFF:
        return r
    return s


def is_leaf(t):
    if t.op in LEAF:
        return True
    if t.op == "attr":
        return is_leaf(t.args[0])
    return False


def cofactor(t, c, val, memo):
    """t where condition c has truth value val"""
    m = {}

    def say(y, v):
        if y.op == "not":
            say(y.args[0], not v)
        m[y] = TRUE if v else FALSE
        m[not_(y)] = FALSE if v else TRUE
        if (y.op == "and" and v) or (y.op == "or" and not v):
            for z in y.args[0]:
                say(z, v)
    say(c, val)
    yes = [y for y, v in m.items() if y.op == "isinstance" and v is TRUE]
    if yes:
        for p in walk(t):
            if p.op == "isinstance" and p not in m:
                for y in yes:
                    if y.args[0] is p.args[0] and y.args[1].op in ("glob", "cls") and p.args[1].op in ("glob", "cls"):
                        if p.args[1] in superclasses(y.args[1]):
                            say(p, True)
                        elif y.args[1] not in superclasses(p.args[1]):
                            say(p, False)       # unrelated classes
                        break
    if not any(y in m for p in walk(t) if p.op == "phi" for y in _cond_nodes(p.args[0])):
        return t
    return subst_fix(t, m)


def _cond_nodes(c):
    yield c
    if c.op == "not":
        yield from _cond_nodes(c.args[0])
    elif c.op in ("and", "or"):
        for y in c.args[0]:
            yield from _cond_nodes(y)


def _atoms(c):
    return [y for y in _cond_nodes(c) if y.op not in ("not", "and", "or")]


def subst_fix(t, m):
    # branches may themselves contain further selections on the same condition
    for _ in range(4):
        t2 = subst(t, m)
        if t2 is t:
            return t
        t = t2
    return t


def shape_like(t):
    """terms derived from array shapes/dtypes only"""
    if t.op == "attr":
        return t.args[1] in ("shape", "size", "ndim", "dtype", "n_samples", "n_samples_per_rank") or shape_like(t.args[0])
    if t.op == "idx":
        return shape_like(t.args[0])
    return False


COUNTS = {"n_samples", "n_samples_per_rank"}


def dim(t):
    """extent t = X.shape[k] as alternatives of polynomials over extents of input arrays; None if not known"""
    if t.op != "idx" or t.args[0].op != "attr" or t.args[0].args[1] != "shape" or axis_num(t.args[1]) is None:
        return None
    return _dim(t.args[0].args[0], axis_num(t.args[1]))


def _dim(X, k):
    if X.op == "cast":
        return _dim(X.args[1], k)
    if X.op == "phi":
        u, v = _dim(X.args[1], k), _dim(X.args[2], k)
        return None if u is None or v is None else u | v
    if X.op in ("param", "fv") or X.op == "attr" and X.args[0].op in ("self", "param"):
        return frozenset([(("ext", X, k),)])
    if X.op == "call" and X.args[0].op == "glob":
        n, a, kw = X.args[0].args[0], X.args[1], dict(X.args[2])
        if n in ("np.asarray", "np.array", "np.copy"):
            v = (list(a) + list(kw.values()))[0]
            return _dim(v, k)
        if n == "lax.collapse" and k >= 0 and not kw and len(a) == 3 and axis_num(a[1]) is not None and axis_num(a[2]) is not None:
            s, e = axis_num(a[1]), axis_num(a[2])
            if k < s:
                return _dim(a[0], k)
            if k > s:
                return _dim(a[0], k + e - s - 1)
            out = frozenset([()])
            for i in range(s, e):
                d = _dim(a[0], i)
                if d is None:
                    return None
                out = frozenset(tuple(sorted(p + q, key=str)) for p in out for q in d)
            return out
    if X.op == "idx" and X.args[0].op == "call" and X.args[0].args[0].op == "glob" and X.args[0].args[0].args[0] == "np.array_split":
        c = X.args[0]
        v = list(c.args[1]) + [w for _, w in c.args[2]]
        if len(v) == 2:
            arr = v[0] if c.args[1] else dict(c.args[2]).get("ary", v[0])
            d = _dim(arr, k)
            if d is not None and k == 0:
                return frozenset((("part", p),) for p in d)
            return d
    f = X.args[0] if X.op == "call" else X.args[0].args[0] if X.op == "idx" and X.args[0].op == "call" and is_num(X.args[1]) else None
    if f is not None and not (f.op == "glob" and f.args[0].startswith(("np.", "lax.", "jax."))):
        return frozenset([(("ext", X, k),)])
    return None


def _leaves(p):
    for a in p:
        if a[0] == "part":
            yield from _leaves(a[1])
        else:
            yield a[1]


def dims_differ(a, b):
    """both extents are known, of the same input array, and different"""
    u, v = dim(a), dim(b)
    if u is None or v is None or u == v:
        return False
    return {l for p in u for l in _leaves(p)} == {l for p in v for l in _leaves(p)}


def axis_num(t):
    return cval(t) if t.op == "const" and isinstance(t.args[1], int) and not isinstance(t.args[1], bool) else None


def cmp_axis(x, a, b):
    if a is b:
        return EQR
    na, nb = axis_num(a), axis_num(b)
    if na is not None and nb is not None:
        if (na < 0) != (nb < 0):
            return soft(x, "axis sign", a, b)
        return diff("axis %d became %d" % (na, nb), a, b)
    if a.op in ("tuple", "list") and b.op in ("tuple", "list") and len(a.args[0]) == len(b.args[0]):
        res = [cmp_axis(x, p, q) for p, q in zip(a.args[0], b.args[0])]
        if set(a.args[0]) == set(b.args[0]):
            return soft(x, "axis order")
        if any(r.v == UNK for r in res):
            return unk("axis")
        return worst(res)
    if (a is NONE) != (b is NONE) and (na is not None or nb is not None):
        return diff("axis %s became %s" % (show(a, 2), show(b, 2)), a, b)
    return cmp(x, a, b)


def _cmp(x, a, b):
    # ---- selections: Shannon expansion on the outermost condition
    if a.op == "phi" and b.op == "phi" and a.args[0] is b.args[0]:
        return indep(x, [(a.args[1], b.args[1]), (a.args[2], b.args[2])])
    if a.op == "phi" or b.op == "phi":
        r = _cmp_phi(x, a, b)
        if r is not None:
            return r
    for p, q in ((a, b), (b, a)):
        if p.op == "lam" and q.op == "glob" and (str(q.args[0]).startswith("builtins.") or q in nodes_of([p])):
            return keep("a function wrapped in another", a, b)
    ap, bp = a.op == "poly", b.op == "poly"
    if ap or bp:
        return _cmp_poly(x, a, b)
    if a.op == "const" and b.op == "const":
        return _cmp_const(x, a, b)
    # ---- booleans
    if a.op in ("and", "or") or b.op in ("and", "or"):
        r = _cmp_junct(x, a, b)
        if r is not None:
            return r
    if {a.op, b.op} == {"not", "lt0"}:
        p, q = (a, b) if a.op == "not" else (b, a)
        if p.args[0].op == "eq0":
            d1, d2 = _rel_form(p.args[0])[0], _rel_form(q)[0]
            if len(d1) == 1 and set(d1) == set(d2) and _rel_apart(p.args[0], q, True):
                return diff("equality/order on one quantity with different solutions", a, b)
    for p, q in ((a, b), (b, a)):
        if p.op == "not" and p.args[0].op == "eq0" and q.op == "lt0" and _above(q) is not None and _above(q)[0] is p.args[0].args[0]:
            if _above(q)[1] > 1e-12 and not any(t.op in INTOPS or t.op == "cast" for t in walk(q)):
                return diff("entries up to %g in absolute value are taken for zero" % float(_above(q)[1]) if q is b else "threshold dropped", a, b)
    if a.op == "not" and b.op == "not":
        return cmp(x, a.args[0], b.args[0])
    for p, q, n in ((a, b, 0), (b, a, 1)):
        if p.op == "not" and q.op != "not" and is_bool(q):
            i = cmp(x, p.args[0], q) if n == 0 else cmp(x, q, p.args[0])
            if i.v == EQ:
                return diff("condition negated", a, b)
            if i.v == DIFF and {p.args[0].op, q.op} == {"eq0"}:
                # e.g. x%2 != 0 versus x%2 == 1
                return keep("negated equality with other constant", a, b)
            return unk("negation", a, b)
    if a.op in ("lt0", "eq0") and b.op in ("lt0", "eq0"):
        return _cmp_rel(x, a, b)
    # ---- N against the number of i < N with a property
    for p, q in ((a, b), (b, a)):
        if q.op == "sum" and q.args[0] is p and q.args[1].op == "lam" and q.args[1].args[0] == 1 and p.op != "sum":
            l = open_lam(q.args[1], [fresh("o")])
            if l.op == "phi" and all(is_num(y) for y in l.args[1:]):
                return cmp(x, const(1), l) if p is a else cmp(x, l, const(1))
    # ---- n processes that each hold w: the sum over them is not w
    for p, q, s in ((a, b, "dropped"), (b, a, "added")):
        w = _over_processes(p)
        if w is not None and _over_processes(q) is None and (cmp(x, w, q) if p is a else cmp(x, q, w)).v == EQ:
            return diff("sum over the processes " + s, a, b)
    # ---- shape-derived quantities are not decided unless same array
    if shape_like(a) and shape_like(b):
        if a.op == b.op == "idx" and a.args[0] is b.args[0]:
            return cmp_axis(x, a.args[1], b.args[1])
        if a.op == b.op == "attr" and a.args[0] is b.args[0] and a.args[1] != b.args[1] and {a.args[1], b.args[1]} <= COUNTS:
            return _cmp_attrname(x, a, b)
        if dims_differ(a, b):
            return diff("extent of a different array", a, b)
        return soft(x, "shape-derived", a, b)
    if shape_like(a) or shape_like(b):
        if a.op == b.op == "attr" and a.args[0] is b.args[0] and (a if shape_like(a) else b).args[1] in COUNTS:
            return _cmp_attrname(x, a, b)
        return keep("shape-derived", a, b)
    # ---- leaves
    la, lb = is_leaf(a), is_leaf(b)
    if la and lb:
        return _cmp_leaf(x, a, b)
    if a.op != b.op:
        return _cmp_heads(x, a, b)
    op = a.op
    if op == "attr":
        if a.args[1] == b.args[1]:
            return cmp(x, a.args[0], b.args[0])
        i = cmp(x, a.args[0], b.args[0])
        if i.v == EQ:
            return _cmp_attrname(x, a, b)
        return unk("attribute", a, b)
    if op == "call":
        return _cmp_call(x, a, b)
    if op == "idx":
        (ca, ia), (cb, ib) = _chain(a), _chain(b)
        if len(ia) > 1 and ca is cb and ia == ib:
            return soft(x, "x[i][j] and x[i, j]", a, b)
        if len(ia) == len(ib) > 1 and ca is cb and _rank(a) != _rank(b):
            # one written as x[i][j], the other as x[i, j]
            return worst([_cmp_index(x, p, q) for p, q in zip(ia, ib)])
        i = cmp(x, a.args[0], b.args[0])
        j = _cmp_index(x, a.args[1], b.args[1])
        return worst([i, j])
    if op in ("tuple", "list", "array"):
        p, q = a.args[0], b.args[0]
        if len(p) != len(q):
            return unk("length", a, b)
        return indep(x, list(zip(p, q)))
    if op == "dict":
        return _cmp_dict(x, a, b)
    if op == "set":
        p, q = set(a.args[0]), set(b.args[0])
        return unk("set", a, b)
    if op == "lam":
        return _cmp_lam(x, a, b)
    if op in ("band", "bor", "min", "max"):
        return _match_multiset(x, list(a.args[0]), list(b.args[0]), a, b, "operand of " + op)
    if op == "new":
        if a.args[0] != b.args[0]:
            return diff("constructs %s instead of %s" % (b.args[0], a.args[0]), a, b)
        return _cmp_named(x, dict(a.args[1]), dict(b.args[1]), a, b)
    if op == "cast":
        i = cmp(x, a.args[1], b.args[1])
        if a.args[0] is b.args[0]:
            return i
        if i.v == EQ:
            return _cmp_dtype(x, a.args[0], b.args[0], a, b)
        if i.v == DIFF and a.args[0].op == b.args[0].op == "dtype":
            return i
        return unk("cast", a, b)
    if op == "at":
        if a.args[0] != b.args[0]:
            i = strict(x, [(a.args[1], b.args[1]), (a.args[2], b.args[2]), (a.args[3], b.args[3])], "")
            if i.v == EQ:
                return diff("array update .at[].%s became .%s" % (a.args[0], b.args[0]), a, b)
            return unk("at", a, b)
        if a.args[0] == "add" and (_adds(a)[0].op, len(_adds(a)[1])) == (_adds(b)[0].op, len(_adds(b)[1])) and 2 <= len(_adds(a)[1]) <= 3:
            # additions to one array commute
            (s, us), (t, vs) = _adds(a), _adds(b)
            best = None
            for q in itertools.permutations(vs):
                k = [cmp(x, s, t)] + [r for u, v in zip(us, q) for r in (_cmp_index(x, u[0], v[0]), cmp(x, u[1], v[1]))]
                w = worst(k)
                n = (sum(r.v == EQ for r in k), w.v != DIFF)
                if best is None or n > most:
                    best, most = w, n
            return best if best.v or all(u[2] == () for u in us + vs) else keep("at mode", a, b)
        j = _cmp_index(x, a.args[2], b.args[2])
        k = [cmp(x, a.args[1], b.args[1]), j, cmp(x, a.args[3], b.args[3])]
        w = worst(k)
        return w if w.v else (EQR if a.args[4:] == b.args[4:] else keep("at mode", a, b))
    if op == "store":
        j = _cmp_index(x, a.args[1], b.args[1])
        k = [cmp(x, a.args[0], b.args[0]), j, cmp(x, a.args[2], b.args[2])]
        return worst(k)
    if op in ("loop", "scanys"):
        return _cmp_loop(x, a, b)
    if op in ("sum", "prod", "map", "flatmap"):
        i = cmp(x, a.args[0], b.args[0])
        j = cmp(x, a.args[1], b.args[1])
        if i.v == EQ:
            return j
        if j.v != EQ and sorted(t.id for t in _bounds(a)) == sorted(t.id for t in _bounds(b)):
            return keep("loop nest", a, b)
        if i.v == UNK or j.v == UNK:
            return i if i.v == UNK else j
        return i
    if op == "vmap":
        o = cmp_axis(x, a.args[0], b.args[0])
        k = [o, cmp(x, a.args[1], b.args[1]), cmp(x, a.args[2], b.args[2])]
        return worst(k)
    if op == "vix":
        i = cmp(x, a.args[0], b.args[0])
        j = cmp_axis(x, a.args[1], b.args[1])
        k = cmp(x, a.args[2], b.args[2])
        res = [i, j, k]
        return worst(res)
    if op in ("eff", "eff0"):
        return cmp_eff(x, a, b)
    if op in ("condeff", "guard"):
        i = cmp(x, a.args[0], b.args[0])
        if op == "guard":
            if i.v == EQ:
                return soft(x, "exception type", a, b) if a.args[1] is not b.args[1] else EQR
            return R(i.v, "guard condition: " + i.why, i.r, i.c)
        if i.v == EQ:
            return indep(x, [(a.args[1], b.args[1]), (a.args[2], b.args[2])])
        j = indep(x, [(a.args[1], b.args[1]), (a.args[2], b.args[2])])
        if i.v == DIFF and j.v == EQ:
            return i
        return unk("conditional effect", a, b)
    if op == "raise":
        return soft(x, "exception type", a, b)
    if op == "dtype":
        return _cmp_dtype(x, a, b, a, b)
    if op == "partial":
        i = cmp(x, a.args[0], b.args[0])
        if i.v != EQ:
            return i if i.v == UNK else i
        if len(a.args[1]) != len(b.args[1]):
            return unk("partial", a, b)
        j = strict(x, list(zip(a.args[1], b.args[1])), "")
        k = _cmp_named(x, dict(a.args[2]), dict(b.args[2]), a, b)
        return j if j.v != EQ else k
    if op == "fstr":
        return _cmp_fstr(x, a, b)
    if op == "slice":
        return _cmp_index(x, a, b)
    if op in ("is", "eq"):
        pa, pb = list(a.args), list(b.args)
        r = _match_multiset(x, pa, pb, a, b, "operand of comparison")
        return r
    if op == "mut":
        if a.args[0] != b.args[0] or len(a.args[2]) != len(b.args[2]):
            return unk("mut", a, b)
        return strict(x, [(a.args[1], b.args[1])] + list(zip(a.args[2], b.args[2])), "")
    if op == "excond":
        return keep("exception handler", a, b)
    # generic operator: same head
    pa, pb = children_flat(a.args), children_flat(b.args)
    if len(pa) != len(pb):
        return unk("arity of " + op, a, b)
    for p, q in zip(pa, pb):
        if not (isinstance(p, T) and isinstance(q, T)) and p != q:
            return unk("attribute of " + op, a, b)
    return strict(x, [(p, q) for p, q in zip(pa, pb) if isinstance(p, T)], op)


def _above(t):
    """(x, c) of a relation c < |x|, c > 0"""
    d = dict(_poly_of(t.args[0]))
    c = d.pop((), 0)
    if len(d) == 1 and c > 0:
        (m, k), = d.items()
        if len(m) == 1 and m[0][1] == 1 and k < 0:
            f = m[0][0]
            if f.op == "call" and f.args[0].op == "glob" and f.args[0].args[0] == "np.abs":
                v = list(f.args[1]) + [w for _, w in f.args[2]]
                if len(v) == 1:
                    return v[0], c / -k
    return None


def _bounds(t):
    out = []
    for y in walk(t):
        if y.op in ("sum", "prod", "map"):
            out.append(y.args[0])
    return out


def children_flat(args):
    out = []
    for a in args:
        if isinstance(a, tuple):
            out.append(len(a))
            out.extend(children_flat(a))
        else:
            out.append(a)
    return out


# ------------------------------------------------------------------ leaves
def _cmp_const(x, a, b):
    if a.args[0] == "str" and b.args[0] == "str":
        if b.args[1] in x.refstrs and a.args[1] in x.curstrs:
            return diff("string %r became %r" % (a.args[1], b.args[1]), a, b)
        return soft(x, "string constant", a, b)
    if is_num(a) and is_num(b):
        if num_of(a) == num_of(b):
            return EQR if a.args[0] != "bool" and b.args[0] != "bool" else keep("bool/number", a, b)
        return diff("constant %r became %r" % (a.args[1], b.args[1]), a, b)
    if a is NONE or b is NONE:
        return diff("%r became %r" % (a.args[1], b.args[1]), a, b)
    return unk("constant kinds", a, b)


def _cmp_attrname(x, a, b):
    n, m = a.args[1], b.args[1]
    if m in x.refnames and n in x.curnames:
        return diff("reads .%s instead of .%s" % (m, n), a, b)
    return keep("renamed attribute", a, b)


def _cmp_leaf(x, a, b):
    if a.op == "attr" and b.op == "attr":
        if a.args[1] == b.args[1]:
            return cmp(x, a.args[0], b.args[0])
        i = cmp(x, a.args[0], b.args[0])
        if i.v == EQ:
            return _cmp_attrname(x, a, b)
        if i.v == DIFF and b.args[1] in x.refnames and a.args[1] in x.curnames:
            return diff("different source", a, b)
        return unk("attribute", a, b)
    if a.op == "glob" and b.op == "glob":
        if _distinct(a.args[0], b.args[0]):
            return diff("%s replaced by %s" % (a.args[0], b.args[0]), a, b)
        return keep("library name", a, b)
    if a.op == "glob" or b.op == "glob":
        return keep("library name", a, b)
    if a.op == "self" and b.op == "self":
        return EQR if a.args[0].rpartition(".")[2] == b.args[0].rpartition(".")[2] else unk("self", a, b)
    if "attr" in (a.op, b.op):
        t = a if a.op == "attr" else b
        nm = t.args[1]
        if nm not in (x.curnames if t is a else x.refnames):
            return keep("renamed attribute", a, b)
    if a.op == "const" and a.args[0] == "str" or b.op == "const" and b.args[0] == "str":
        return keep("string", a, b)
    return diff("different input", a, b)


def _distinct(f, g):
    return any(f in s and g in s for s in V.DISTINCT)


VALUE_FUNCS = set().union(*V.DISTINCT) - {"np.zeros", "np.ones", "np.zeros_like", "np.ones_like"}


def _sole_arg(t):
    """single array argument of a value-changing library function"""
    if t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] in VALUE_FUNCS:
        v = [p for p in t.args[1]] + [q for k, q in t.args[2] if k in ("a", "x", "v", "arr")]
        if len(v) == 1:
            return v[0]
    return None


def _cmp_heads(x, a, b):
    # wrapper dropped / added
    for p, q, s in ((a, b, "dropped"), (b, a, "added")):
        w = _sole_arg(p)
        if w is not None:
            f = p.args[0].args[0]
            i = cmp(x, w, q) if s == "dropped" else cmp(x, q, w)
            if i.v == EQ:
                if f in ("np.real", "np.abs") and q.op == "call" and q.args[0].op == "glob" and q.args[0].args[0] in ("np.abs", "np.real", "np.imag"):
                    return keep("idempotent", a, b)
                return diff("%s %s" % (f, s), a, b)
        if p.op == "cast":
            i = cmp(x, p.args[1], q) if s == "dropped" else cmp(x, q, p.args[1])
            if i.v == DIFF:
                return i
            if i.v == EQ:
                return soft(x, "cast")
            return unk("cast", a, b)
        if p.op == "sum" and False:
            pass
    if {a.op, b.op} == {"min", "max"} and a.args[0] == b.args[0]:
        return diff("%s became %s" % (a.op, b.op), a, b)
    if {a.op, b.op} <= {"sum", "prod"}:
        i = strict(x, [(a.args[0], b.args[0]), (a.args[1], b.args[1])], "")
        if i.v == EQ:
            return diff("%s became %s" % (a.op, b.op), a, b)
    if {a.op, b.op} <= {"fdiv", "mod", "rshift", "lshift", "matmul", "bxor"} and len(a.args) == len(b.args) == 2:
        if a.args == b.args:
            return diff("operator %s became %s" % (a.op, b.op), a, b)
    if {a.op, b.op} <= {"band", "bor"} and a.args == b.args:
        return diff("operator %s became %s" % (a.op, b.op), a, b)
    # an update / accumulation step removed or added
    for p, q, s in ((a, b, "removed"), (b, a, "added")):
        if p.op in ("at", "store"):
            base = p.args[1] if p.op == "at" else p.args[0]
            i = cmp(x, base, q) if s == "removed" else cmp(x, q, base)
            if i.v == EQ:
                return diff("element update %s" % s, a, b)
        if p.op == "loop" and len(p.args[2]) >= 1:
            i = cmp(x, p.args[2][0], q) if s == "removed" else cmp(x, q, p.args[2][0])
            if i.v == EQ:
                return diff("loop update %s" % s, a, b)
    # two loop variables / inputs
    return unk("different constructs (%s/%s)" % (a.op, b.op), a, b)


# ------------------------------------------------------------------ structure
def _cmp_phi(x, a, b):
    # choose the condition of the reference first
    if a.op == "phi":
        c = a.args[0]
        bt, bf = cofactor(b, c, True, None), cofactor(b, c, False, None)
        if bt is not b and bf is not b:
            return indep(x, [(a.args[1], bt), (a.args[2], bf)], c)
    if b.op == "phi":
        c = b.args[0]
        at, af = cofactor(a, c, True, None), cofactor(a, c, False, None)
        if at is not a and af is not a:
            return indep(x, [(at, b.args[1]), (af, b.args[2])], c)
    for p, q in ((a, b), (b, a)):
        # a condition that occurs inside a compound one
        for c in _atoms(p.args[0]) if p.op == "phi" else ():
            qt, qf = cofactor(q, c, True, None), cofactor(q, c, False, None)
            if qt is not q and qf is not q:
                pt, pf = cofactor(p, c, True, None), cofactor(p, c, False, None)
                if pt is p or pf is p:
                    continue
                return indep(x, [(pt, qt), (pf, qf)] if p is a else [(qt, pt), (qf, pf)], c)
    if a.op == "phi" and b.op == "phi":
        ca, cb = a.args[0], b.args[0]
        ic = cmp(x, ca, cb)
        r1, r2 = cmp(x, a.args[1], b.args[1]), cmp(x, a.args[2], b.args[2])
        if ic.v == EQ:
            return indep(x, [(a.args[1], b.args[1]), (a.args[2], b.args[2])], ca)
        if r1.v == EQ and r2.v == EQ:
            return ic
        # swapped
        s1, s2 = cmp(x, a.args[1], b.args[2]), cmp(x, a.args[2], b.args[1])
        if s1.v == EQ and s2.v == EQ:
            if not_(cb) is ca:
                return EQR
            j = cmp(x, ca, not_(cb))
            return j
        # one function of one differing quantity
        for u, v in _one_path(ca, cb):
            if subst(a, {u: v}) is b:
                r = cmp(x, u, v)
                return r if r.v != UNK else unk("selection on another quantity", a, b)
        # one branch kept, the other compared
        return unk("selection restructured", a, b)
    # selection versus plain value
    p, q, dropped = (a, b, True) if a.op == "phi" else (b, a, False)
    f = (lambda w, u, v: cmp_given(x, p.args[0], w, u, v)) if dropped else (lambda w, u, v: cmp_given(x, p.args[0], w, v, u))
    r1, r2 = f(True, p.args[1], q), f(False, p.args[2], q)
    if r1.v == EQ and r2.v == EQ:
        return EQR
    if r1.v == EQ or r2.v == EQ:
        o = r2 if r1.v == EQ else r1
        e = p.args[1] if r1.v == EQ else p.args[2]
        if o.v == DIFF and (cmp(x, e, q) if dropped else cmp(x, q, e)).v == EQ:
            return diff("case %s: %s" % ("dropped" if dropped else "added", o.why), o.r, o.c)
        return unk("case %s" % ("dropped" if dropped else "added"), a, b)
    if p.args[1].op in ("lam", "tuple", "dict", "call", "idx") or True:
        if q.op == "poly" or p.op == "poly":
            return None
        return unk("selection", a, b)


def _one_path(a, b):
    """pairs of corresponding subterms as long as exactly one child differs"""
    while a is not b and a.op == b.op:
        p, q = children(a), children(b)
        d = [(u, v) for u, v in zip(p, q) if u is not v]
        if len(p) != len(q) or len(d) != 1:
            return
        a, b = d[0]
        yield a, b


def _rel_form(t):
    d = dict(_poly_of(t.args[0]))
    k = d.pop((), Fraction(0))
    return d, k


def _cmp_rel(x, a, b):
    pa, pb = a.args[0], b.args[0]
    da, ka = _rel_form(a)
    db, kb = _rel_form(b)
    if a.op == b.op:
        if da == db:
            if ka == kb:
                return EQR
            return diff("comparison bound shifted", a, b)
        if a.op == "lt0" and da == {m: -c for m, c in db.items()}:
            return diff("comparison reversed or negated", a, b)
        if a.op == "eq0" and set(da) == set(db):
            return diff("comparison coefficients", a, b)
        return _cmp_poly_rel(x, a, b)
    # equality versus order
    if set(da) == set(db):
        if len(da) >= 2:
            return diff("comparison operator changed", a, b)
        if _rel_apart(a, b, False):
            return diff("equality/order on one quantity with different solutions", a, b)
        return keep("equality/order on one quantity", a, b)
    i = _cmp_poly(x, pa, pb)
    return unk("comparison", a, b)


def _rel_apart(a, b, negated):
    """equality and order relation on one quantity q (c*q + k == 0, c*q + k < 0), optionally one of them negated.  They can stand for
    the same condition only if q never crosses one of the bounds, i.e. if they agree on the integers on one side
    (from the smaller of the two bounds upwards, or from the larger downwards); apart if they disagree on both."""
    def parts(t):
        d, k = _rel_form(t)
        (m, c), = d.items()
        return c, k, (lambda v: c * v + k == 0) if t.op == "eq0" else (lambda v: c * v + k < 0)
    ca, ka, fa = parts(a)
    cb, kb, fb = parts(b)
    ra, rb = -ka / ca, -kb / cb
    if any(r.denominator != 1 for r in (ra, rb)) or max(abs(ra), abs(rb)) > 64:
        return False
    lo, hi = int(min(ra, rb)), int(max(ra, rb))

    def agree(vs):
        return all((fa(Fraction(v)) == fb(Fraction(v))) != negated for v in vs)
    return not agree(range(lo, hi + 4)) and not agree(range(lo - 3, hi + 1))


def _cmp_poly_rel(x, a, b):
    return _cmp_poly(x, a.args[0], b.args[0])


def _cmp_poly(x, a, b):
    da, db = _poly_of(a), _poly_of(b)
    ra = {m: c for m, c in da.items() if db.get(m) != c}
    rb = {m: c for m, c in db.items() if da.get(m) != c}
    if not ra and not rb:
        return EQR
    shared = [m for m in ra if m in rb]
    if shared and len(shared) == len(ra) == len(rb):
        m = shared[0]
        return diff("coefficient %s became %s" % (ra[m], rb[m]), a, b)
    la, lb = list(ra.items()), list(rb.items())
    # pair monomials that compare EQ after alignment
    used = set()
    rest = []
    for m in la:
        hit = None
        for j, n in enumerate(lb):
            if j not in used and _cmp_mono(x, m, n).v == EQ:
                hit = j
                break
        if hit is None:
            rest.append(m)
        else:
            used.add(hit)
    la = rest
    lb = [n for j, n in enumerate(lb) if j not in used]
    if not la and not lb:
        return EQR
    if not lb:
        t = la[0]
        if a.op != "poly" and db == {}:
            return unk("value replaced by 0", a, b)
        if not db:
            return unk("value replaced by 0", a, b)
        return diff("summand dropped: " + _smono(t), a, b)
    if not la:
        if not da:
            return unk("0 replaced by value", a, b)
        return diff("summand added: " + _smono(lb[0]), a, b)
    if len(la) != len(lb) or len(la) > 1:
        return unk("sum restructured", a, b)
    res = []
    taken = set()
    for m in la:
        cand = [(j, _cmp_mono(x, m, n)) for j, n in enumerate(lb) if j not in taken]
        d = [(j, r) for j, r in cand if r.v == DIFF]
        if not d:
            return R(UNK, "summand " + cand[0][1].why, a, b, cand[0][1].p)
        # prefer a partner with the same multiset of heads
        sk = _mono_skel(m)
        d.sort(key=lambda jr: _mono_skel(lb[jr[0]]) != sk)
        taken.add(d[0][0])
        res.append(d[0][1])
    return res[0]


def _mono_skel(mc):
    m, c = mc
    return tuple(sorted((x.op + (x.args[0].args[0] if x.op == "call" and x.args[0].op == "glob" else ""), e) for x, e in m))


def _counts(t):
    """sums of 0/1-like case distinctions: counters of a loop nest"""
    if t.op == "poly":
        d = _poly_of(t)
        return len(d) == 1 and all(len(m) == 1 and m[0][1] == 1 and _counts(m[0][0]) for m in d)
    if t.op == "sum" and t.args[1].op == "lam" and t.args[1].args[0] == 1:
        return _counts(t.args[1].args[2])
    return t.op == "phi" and all(is_num(y) for y in t.args[1:])


def _smono(mc):
    m, c = mc
    return "%s*%s" % (c, "*".join(show(a, 3) + ("^%d" % e if e != 1 else "") for a, e in m))


def _cmp_mono(x, r, c):
    (m1, c1), (m2, c2) = r, c
    d1, d2 = dict(m1), dict(m2)
    for t in list(d1):
        if t in d2 and d1[t] == d2[t]:
            del d1[t]
            del d2[t]
    l1, l2 = list(d1.items()), list(d2.items())
    used = set()
    rest = []
    for t, e in l1:
        hit = next((j for j, (u, g) in enumerate(l2) if j not in used and g == e and cmp(x, t, u).v == EQ), None)
        if hit is None:
            rest.append((t, e))
        else:
            used.add(hit)
    l1 = rest
    l2 = [p for j, p in enumerate(l2) if j not in used]
    if not l1 and not l2:
        return EQR if c1 == c2 else diff("coefficient %s became %s" % (c1, c2))
    for p, q, k, o in ((l1, l2, c1, c2), (l2, l1, c2, c1)):
        # N * r against the sum over i < N of a case distinction
        if len(q) == 1 and q[0][1] == 1 and q[0][0].op == "sum" and (q[0][0].args[0], 1) in p:
            t = q[0][0]
            if t.args[1].op == "lam" and t.args[1].args[0] == 1 and not any(y.op == "sum" for y, _ in p):
                r = scale(const(1), k)
                for y, e in p:
                    if (y, e) != (t.args[0], 1):
                        r = mul(r, *([y] * e if e > 0 else [power(y, const(e))]))
                body = scale(open_lam(t.args[1], [fresh("o")]), o)
                if _counts(body):
                    return cmp(x, r, body) if p is l1 else cmp(x, body, r)
    if len(m1) == 0 or len(m2) == 0:
        # constant versus symbolic summand
        t = (l1 or l2)
        if len(t) == 1 and t[0][1] == 1 and is_leaf(t[0][0]) and (t[0][0].op != "glob"):
            lf = t[0][0]
            if lf.op == "attr" and lf.args[1] not in (x.curnames if l1 else x.refnames):
                return keep("renamed attribute")
            if shape_like(lf):
                return keep("shape-derived")
            return diff("constant/input replaced")
        return unk("constant versus expression")
    if not l1 or not l2:
        if c1 != c2 and abs(c1) != abs(c2):
            return unk("factor and coefficient")
        o = l1 or l2
        return diff("factor %s: %s" % ("dropped" if l1 else "added", show(o[0][0], 3)), None, None)
    if len(l1) == len(l2) == 1:
        (t, e), (u, g) = l1[0], l2[0]
        i = cmp(x, t, u)
        if i.v == EQ:
            if e != g:
                return diff("exponent %d became %d" % (e, g))
            return diff("coefficient %s became %s" % (c1, c2)) if c1 != c2 else EQR
        if i.v == DIFF:
            return i if (c1 == c2 and e == g) else unk("two changes in one product")
        return i
    return unk("product restructured")


def _cmp_junct(x, a, b):
    if a.op in ("and", "or") and b.op in ("and", "or") and a.op != b.op:
        if set(a.args[0]) == set(b.args[0]):
            return diff("%s became %s" % (a.op, b.op), a, b)
        # De Morgan-like restructure with one changed literal is left undecided
        return unk("boolean structure", a, b)
    op = a.op if a.op in ("and", "or") else b.op
    if not (is_bool(a) and is_bool(b)):
        return None
    la = list(a.args[0]) if a.op == op else [a]
    lb = list(b.args[0]) if b.op == op else [b]
    return _match_multiset(x, la, lb, a, b, "conjunct" if op == "and" else "disjunct")


def _match_multiset(x, la, lb, a, b, what):
    sb = list(lb)
    rest = []
    for t in la:
        if t in sb:
            sb.remove(t)
        else:
            rest.append(t)
    la, lb = rest, sb
    rest = []
    used = set()
    for t in la:
        hit = next((j for j, u in enumerate(lb) if j not in used and cmp(x, t, u).v == EQ), None)
        if hit is None:
            rest.append(t)
        else:
            used.add(hit)
    la = rest
    lb = [u for j, u in enumerate(lb) if j not in used]
    if not la and not lb:
        return EQR
    if not lb:
        return diff("%s dropped: %s" % (what, show(la[0], 4)), a, b)
    if not la:
        return diff("%s added: %s" % (what, show(lb[0], 4)), a, b)
    if len(la) != 1 or len(lb) != 1:
        return unk("boolean structure", a, b)
    r = cmp(x, la[0], lb[0])
    return r if r.v == DIFF else R(UNK, what + " " + r.why, a, b, r.p)


def _cmp_dtype(x, d, e, a, b):
    cat = {"bool": "bool", "uint8": "int", "int": "int", "int32": "int", "int8": "int", "int16": "int", "uint32": "int",
           "uint64": "int", "float": "float", "float32": "float", "complex": "complex", "complex64": "complex"}
    if d.op == "dtype" and e.op == "dtype":
        u, v = cat.get(d.args[0]), cat.get(e.args[0])
        if u and v and u != v:
            return diff("dtype %s became %s" % (d.args[0], e.args[0]), a, b)
    return soft(x, "dtype", a, b)


def _adds(t):
    """(array, [(index, addend, mode)]) of a chain of functional additions"""
    ups = []
    while t.op == "at" and t.args[0] == "add":
        ups.append((t.args[2], t.args[3], t.args[4:]))
        t = t.args[1]
    return t, ups


def _cmp_index(x, a, b):
    if a is b:
        return EQR
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args[0]) != len(b.args[0]):
            return unk("index rank", a, b)
        res = [_cmp_index(x, p, q) for p, q in zip(a.args[0], b.args[0])]
        return worst(res)
    if a.op == "slice" and b.op == "slice":
        res = []
        for p, q in zip(a.args, b.args):
            if p is q:
                continue
            if p is NONE or q is NONE:
                o = q if p is NONE else p
                if o.op == "const" or is_leaf(o) and not shape_like(o):
                    res.append(diff("slice bound changed", a, b))
                else:
                    res.append(keep("slice bound", a, b))
            else:
                res.append(cmp(x, p, q))
        if _ends_swapped(a, b) or _ends_swapped(b, a):
            return diff("other end of the array selected", a, b)
        return worst(res)
    if a.op == "slice" or b.op == "slice":
        return unk("slice/index", a, b)
    for p, q in ((a, b), (b, a)):
        # x[-k] against x[n - k]
        if is_num(p) and isinstance(cval(p), int) and cval(p) < 0 and q.op == "poly":
            d = dict(_poly_of(q))
            if d.pop((), 0) == cval(p) and len(d) == 1:
                (m, c), = d.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return keep("index from the end", a, b)
    return cmp(x, a, b)


def _rank(t):
    return len(t.args[1].args[0]) if t.args[1].op == "tuple" else 1


def _chain(t):
    """base and successive element indices"""
    ix = []
    while t.op == "idx":
        i = list(t.args[1].args[0]) if t.args[1].op == "tuple" else [t.args[1]]
        if any(j.op in ("slice", "const") and (j.op == "slice" or j.args[1] in (None, Ellipsis)) for j in i):
            break
        ix[:0] = i
        t = t.args[0]
    return t, ix


def _ends_swapped(a, b):
    """x[-n:] against x[:n]"""
    return (a.args[1] is NONE and b.args[0] is NONE and a.args[2] is NONE and b.args[2] is NONE and a.args[0] is not NONE and b.args[1] is not NONE
            and not shape_like(b.args[1]) and a.args[0] is neg(b.args[1]))


def _cmp_dict(x, a, b):
    da, db = dict(a.args[0]), dict(b.args[0])
    if not all(is_const(k) for k in list(da) + list(db)):
        if len(a.args[0]) != len(b.args[0]):
            return unk("dict", a, b)
        return strict(x, [p for (k1, v1), (k2, v2) in zip(a.args[0], b.args[0]) for p in ((k1, k2), (v1, v2))], "")
    miss = [k for k in da if k not in db]
    extra = [k for k in db if k not in da]
    if miss and extra:
        return keep("dict keys renamed", a, b)
    r = indep(x, [(da[k], db[k]) for k in da if k in db])
    if r.v == DIFF:
        return r
    if miss:
        return diff("dict entry %s dropped" % show(miss[0]), a, b)
    if extra:
        return keep("dict entry added", a, b)
    return r


def _axes(t):
    """a full permutation of axes, counted from the front"""
    if t.op not in ("tuple", "list"):
        return None
    v = [axis_num(y) for y in t.args[0]]
    if None in v:
        return None
    v = [i + len(v) if i < 0 else i for i in v]
    return tuple(v) if sorted(v) == list(range(len(v))) else None


def _cmp_named(x, da, db, a, b):
    miss = [k for k in da if k not in db]
    extra = [k for k in db if k not in da]
    res = []
    for k in da:
        if k in db:
            if k == "axes" and a.op == b.op == "call" and a.args[0].op == "glob" and a.args[0].args[0] == "np.transpose" and _axes(da[k]) and _axes(db[k]) \
                    and len(_axes(da[k])) == len(_axes(db[k])):
                # the order of the axes is what a transposition is about
                r = EQR if _axes(da[k]) == _axes(db[k]) else diff("axes permuted as %s instead of %s" % (_axes(db[k]), _axes(da[k])), a, b)
            elif k in AXISKEYS:
                r = cmp_axis(x, da[k], db[k])
            elif k in ("dtype",) and da[k] is not db[k]:
                r = _cmp_dtype(x, da[k], db[k], a, b)
                if r.v == UNK and is_leaf(da[k]) and is_leaf(db[k]):
                    r = soft(x, "dtype", a, b)
            elif k == "shape" and (da[k].op == "tuple") != (db[k].op == "tuple"):
                u, v = [t.args[0][0] if t.op == "tuple" and len(t.args[0]) == 1 else t for t in (da[k], db[k])]
                r = cmp(x, u, v)
                if r.v == EQ:
                    r = soft(x, "shape", a, b)
            else:
                r = cmp(x, da[k], db[k])
            res.append(r)
    w = worst(res)
    if w.v:
        return w
    hm = [k for k in miss if k not in SOFTKEYS]
    he = [k for k in extra if k not in SOFTKEYS]
    if hm and he:
        return keep("keyword renamed", a, b)
    if hm:
        return diff("argument %s dropped" % hm[0], a, b)
    if he:
        return diff("argument %s=%s added" % (he[0], show(db[he[0]], 3)), a, b)
    if miss or extra:
        return soft(x, "soft argument %s" % (miss + extra))
    return EQR


def _cmp_call(x, a, b):
    fa, aa, ka = a.args
    fb, ab, kb = b.args
    if fa is not fb:
        if fa.op == "glob" and fb.op == "glob":
            if _distinct(fa.args[0], fb.args[0]):
                va, vb = [v for k, v in ka] + list(aa), [v for k, v in kb] + list(ab)
                pa = [v for k, v in ka if k in ("a", "x", "v")] + list(aa)
                pb = [v for k, v in kb if k in ("a", "x", "v")] + list(ab)
                if len(pa) == len(pb) and pa and strict(x, list(zip(pa, pb)), "").v == EQ:
                    return diff("%s replaced by %s" % (fa.args[0], fb.args[0]), a, b)
            # nested wrappers
            return _cmp_heads_call(x, a, b)
        i = cmp(x, fa, fb)
        if i.v != EQ:
            if i.v == DIFF:
                # same method on a different receiver
                j = _args(x, aa, ka, ab, kb, a, b)
                if j.v != UNK:
                    return i
            return unk("callee", a, b)
    return _args(x, aa, ka, ab, kb, a, b)


def _fill_of(t):
    """the content a filled array repeats"""
    n, d = t.args[0].args[0], dict(t.args[2])
    if n in ("np.zeros", "np.zeros_like"):
        return const(0)
    if n in ("np.ones", "np.ones_like"):
        return const(1)
    if n == "np.tile":
        return d.get("A")
    return None


def _cmp_heads_call(x, a, b):
    if (a.args[0].args[0] == "np.tile") != (b.args[0].args[0] == "np.tile"):
        u, v = _fill_of(a), _fill_of(b)
        if u is not None and v is not None and not any(t.op == "call" and t.args[0].op == "glob" and t.args[0].args[0] in SHAPEFUN for t in nodes_of([u, v])) and separable(u, v):
            return diff("array filled with another content", a, b)
    for p, q, s in ((a, b, "dropped"), (b, a, "added")):
        w = _sole_arg(p)
        if w is not None:
            i = cmp(x, w, q) if s == "dropped" else cmp(x, q, w)
            if i.v == EQ:
                f = p.args[0].args[0]
                if f in ("np.real", "np.abs") and q.args[0].op == "glob" and q.args[0].args[0] in ("np.abs", "np.real", "np.imag"):
                    return keep("idempotent", a, b)
                return diff("%s %s" % (f, s), a, b)
    return unk("callee", a, b)


def _args(x, aa, ka, ab, kb, a, b):
    if len(aa) != len(ab):
        return unk("positional arguments", a, b)
    da, db = dict(ka), dict(kb)
    if a.op == b.op == "call" and a.args[0] is b.args[0] and a.args[0].op == "glob" and a.args[0].args[0] in TRUTHY:
        # only whether the entries vanish matters
        for k in ("a", "x"):
            if k in da and k in db and da[k] is not db[k]:
                da[k], db[k] = tobool(da[k]), tobool(db[k])
    i = strict(x, list(zip(aa, ab)), "")
    j = _cmp_named(x, da, db, a, b)
    return worst([i, j])


def _cmp_lam(x, a, b):
    if a.args[0] != b.args[0]:
        return unk("parameters", a, b)
    n = a.args[0]
    if a.args[1] == b.args[1]:
        return cmp(x, a.args[2], b.args[2])
    vs = [fresh("o") for _ in range(n)]
    ba = open_lam(a, vs)
    bb = open_lam(b, vs)
    return cmp(x, ba, bb)


def open_lam(l, vs):
    n, h, body = l.args
    return subst(body, {mk("bv", h, i): v for i, v in enumerate(vs)})


def _cmp_loop(x, a, b):
    Na, la, ia = a.args
    Nb, lb, ib = b.args
    n0 = cmp(x, Na, Nb)
    if la.args[0] != lb.args[0] or len(ia) != len(ib):
        return unk("loop state", a, b)
    nb = la.args[0]
    off = nb - len(ia)          # 1 when there is an index variable
    same = la.args[1] == lb.args[1]
    vs = [mk("bv", la.args[1], i) for i in range(nb)] if same else [fresh("o") for _ in range(nb)]
    A = la.args[2] if same else open_lam(la, vs)
    head = 1 if a.op == "loop" else 0
    k = len(ia)
    idxs = list(range(head, k))
    best = None
    perms = itertools.permutations(idxs) if len(idxs) <= 4 else [tuple(idxs)]
    for p in perms:
        order = list(range(head)) + list(p)
        wv = list(vs)
        for pos, src in enumerate(order):
            wv[off + src] = vs[off + pos]
        B = open_lam(lb, wv)
        if a.op == "loop":
            pa = list(A.args[0])
            pb = [B.args[0][j] for j in order] + [B.args[0][-1]]
        else:
            pa = list(A.args[0])
            pb = [B.args[0][0]] + [B.args[0][1 + j] for j in order]
        if len(pa) != len(pb):
            return unk("loop state", a, b)
        res = [cmp(x, u, v) for u, v in zip(ia, [ib[j] for j in order])] + [cmp(x, u, v) for u, v in zip(pa, pb)] + [n0]
        score = (sum(r.v == EQ for r in res), sum(r.v == DIFF for r in res))
        if best is None or score > best[0]:
            best = (score, res)
        if all(r.v == EQ for r in res):
            return EQR
    return worst(best[1])


def _cmp_fstr(x, a, b):
    def flat(t):
        out = []
        for p in t.args[0]:
            if p.op == "fstr":
                out.extend(flat(p))
            elif p.op == "const" and p.args[0] == "str":
                if p.args[1] == "":
                    continue
                if out and out[-1].op == "const" and out[-1].args[0] == "str":
                    out[-1] = const(out[-1].args[1] + p.args[1])
                else:
                    out.append(p)
            else:
                out.append(p)
        return out
    pa, pb = flat(a), flat(b)
    if pa == pb:
        return EQR
    va = [p for p in pa if p.op != "const"]
    vb = [p for p in pb if p.op != "const"]
    miss = [p for p in va if p not in vb]
    extra = [p for p in vb if p not in va]
    if miss and not extra:
        return diff("string no longer depends on %s" % show(miss[0], 3), a, b)
    if len(pa) == len(pb):
        return strict(x, list(zip(pa, pb)), "")
    return keep("string", a, b)


# ------------------------------------------------------------------ effects
def cmp_eff(x, a, b):
    la, _ = eff_list(a)
    lb, _ = eff_list(b)
    if la == lb:
        return EQR
    used = set()
    ra = []
    order = []
    for t in la:
        hit = next((j for j, u in enumerate(lb) if j not in used and (u is t)), None)
        if hit is None:
            hit = next((j for j, u in enumerate(lb) if j not in used and u.op == t.op and cmp(x, t, u).v == EQ), None)
        if hit is None:
            ra.append(t)
        else:
            used.add(hit)
            order.append(hit)
    rb = [u for j, u in enumerate(lb) if j not in used]
    if not ra and not rb:
        return EQR if order == sorted(order) else keep("effects reordered", a, b)
    if any(t.op == "storetmp" for t in ra + rb):
        return keep("write into a temporary array", a, b)
    if ra and not rb:
        return diff("effect dropped: %s" % show(ra[0], 5), a, b)
    if not ra:
        return keep("effect added: %s" % show(rb[0], 4), a, b)
    for t in ra:
        for u in rb:
            if u.op == "condeff" and t.op != "condeff" and _sometimes_off(x, t, u):
                return diff("effect takes place only under a condition: %s" % show(t, 4), a, b)
    if len(ra) == len(rb):
        # pair in order
        res = [cmp(x, t, u) for t, u in zip(ra, rb)]
        return worst(res)
    return unk("effects", a, b)


def _sometimes_off(x, t, u):
    """effect t, unconditional before, happens in one case of u only, on a numeric condition over quantities it does not itself use"""
    c, yes, no = u.args
    k = c.args[0] if c.op == "not" else c
    if k.op not in ("lt0", "eq0") or any(_shape_like_r(y) or y.op == "call" and y.args[0].op == "glob" for y in walk(k)):
        return False
    q = {y for y in walk(k) if y.op in ("attr", "param", "fv", "bv") and y.op != "self"}
    if not q or q & set(walk(t)):
        return False
    def has(e):
        return any(w is t or w.op == t.op and cmp(x, t, w).v == EQ for w in eff_list(e)[0])
    return has(yes) != has(no)


def _state(module):
    """attributes of self that some method assigns and some method reads"""
    import ast
    w, r = set(), set()
    for n in ast.walk(module.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            (w if isinstance(n.ctx, ast.Store) else r).add(n.attr)
    return w & r


def cmp_summary(x, r, c):
    """compare two function summaries -> list of R (DIFF first)"""
    out = []
    x.refnodes = nodes_of([r.ret, r.eff] + list(r.heap.values()) + list(r.muts.values()))
    x.curnodes = nodes_of([c.ret, c.eff] + list(c.heap.values()) + list(c.muts.values()))
    out.append(("return value", cmp(x, r.ret, c.ret)))
    for k, t in r.heap.items():
        b, n = k
        kk = None
        if k in c.heap:
            kk = k
        else:
            for (b2, n2) in c.heap:
                if n2 == n and (b2 is b or cmp(x, b, b2).v == EQ):
                    kk = (b2, n2)
                    break
        if kk is None:
            if n not in x.curnames:
                out.append(("attribute ." + n, unk("attribute renamed or removed")))
            elif t.op == "phi" and mk("attr", b, n) in t.args:
                out.append(("attribute ." + n, diff("conditional write of .%s dropped" % n, t, mk("attr", b, n))))
            else:
                base_ok = b.op == "self" or any(b2 is b for b2, _ in c.heap) or b.op == "param"
                out.append(("attribute ." + n, diff("write of .%s dropped" % n, t, mk("attr", b, n)) if base_ok else unk("write of .%s not found" % n)))
        else:
            out.append(("attribute ." + n, cmp(x, t, c.heap[kk])))
    if getattr(r.node, "name", "") not in ("__init__", "setup", "__post_init__", ""):
        for (b, n), t in c.heap.items():
            if b.op == "self" and not any(n2 == n for _, n2 in r.heap) and n in _state(r.module):
                old = mk("attr", b, n)
                if t is not old and separable(old, t):
                    out.append(("attribute ." + n, diff(".%s is now overwritten" % n, old, t)))
    for i, t in r.muts.items():
        if i in c.muts:
            out.append(("in-place result in argument %s" % i, cmp(x, t, c.muts[i])))
        else:
            out.append(("in-place result in argument %s" % i, diff("in-place write to argument dropped", t, None)))
    for i, t in c.muts.items():
        if i not in r.muts:
            n = [a.arg for a in c.node.args.posonlyargs + c.node.args.args]
            out.append(("in-place result in argument %s" % i, diff("argument %s is now modified in place" % (n[i] if i < len(n) else i), None, t)))
    out.append(("effects", cmp_eff(x, r.eff, c.eff)))
    if x.soft:
        out.append(("array plumbing", keep("taken as equal: " + ", ".join(sorted(set(x.soft))[:6]))))
    return out
