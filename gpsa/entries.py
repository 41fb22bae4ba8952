"""Observable entry points of a tree and their comparison with the reviewed reference.

An entry is something code outside the package (a user, NetKet, Flax, JAX) can reach: a public
function, a public or framework-called method, a dispatch-registered kernel, a class's
construction interface, a module's import-time effects.  Private helpers are not entries: they
are inlined into the entries that use them, so extracting, merging or renaming them is invisible.
"""
import ast
from .loader import Tree, ClassInfo
from .evalr import Evaluator, Summary, Budget
from .terms import *
from . import compare as C

HOOKS = {"_conditional", "_init_cache", "_init_state", "_reset", "_sample_chain", "_sample_next", "_forward_and_backward",
         "_solve", "_conditionals", "_estimate_stats", "_log_additional_data"}


def _is_entry_name(n):
    return not n.startswith("_") or (n.startswith("__") and n.endswith("__")) or n in HOOKS


def referenced_names(tree):
    out = set()
    for m in tree.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Name):
                out.add(n.id)
    return out


def vocabulary(tree):
    ns, ss = set(), set()
    for m in tree.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                ns.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                ns.add(n.name)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                ns.add(n.target.id)
            elif isinstance(n, ast.keyword) and n.arg:
                ns.add(n.arg)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                ss.add(n.value)
    return ns, ss


def dec_text(d):
    return ast.unparse(d)


def is_dispatch(node):
    return any(".dispatch" in dec_text(d) for d in node.decorator_list)


def dispatch_head(node):
    for d in node.decorator_list:
        t = dec_text(d)
        if ".dispatch" in t:
            return t.split(".dispatch")[0].split(".")[-1]
    return None


def ann_sig(tree, m, node):
    """dispatch signature: resolved annotation names of the positional parameters"""
    out = []
    for a in node.args.posonlyargs + node.args.args:
        if a.annotation is None:
            out.append("-")
        else:
            c = tree.class_of_expr(m, a.annotation)
            if isinstance(c, ClassInfo):
                out.append(c.name)
            elif isinstance(c, str):
                out.append(c.split(".")[-1])
            else:
                out.append(ast.unparse(a.annotation).split(".")[-1])
    return tuple(out)


def dispatch_table(tree):
    """(generic function, annotation signature) -> (Module, node)"""
    t = {}
    for m in tree.modules.values():
        for l in m.functions.values():
            for fn in l:
                h = dispatch_head(fn)
                if h:
                    t[(h, ann_sig(tree, m, fn))] = (m, fn)
    return t


class Entry:
    __slots__ = ("key", "kind", "module", "cls", "node", "selfcls")

    def __init__(self, key, kind, module, cls, node, selfcls=None):
        self.key, self.kind, self.module, self.cls, self.node, self.selfcls = key, kind, module, cls, node, selfcls or cls


def collect(tree):
    """entries of the reference tree: list of Entry"""
    refd = referenced_names(tree)
    out = []
    for mn, m in tree.modules.items():
        out.append(Entry((mn, "", "<module>"), "module", m, None, None))
        for n, l in m.functions.items():
            for fn in l:
                if is_dispatch(fn):
                    out.append(Entry((mn, "", "%s[%s]" % (dispatch_head(fn), ",".join(ann_sig(tree, m, fn)))), "dispatch", m, None, fn))
                elif fn is l[-1] and (_is_entry_name(n) or n not in refd) and n != "_":
                    out.append(Entry((mn, "", n), "func", m, None, fn))
        for cn, c in m.classes.items():
            if cn.startswith("_") and cn in refd:
                continue
            out.append(Entry((mn, cn, "<class>"), "class", m, c, None))
            for n, fn in c.methods.items():
                if _is_entry_name(n) or n not in refd:
                    out.append(Entry((mn, cn, n), "method", m, c, fn))
            for n, fn in c.setters.items():
                out.append(Entry((mn, cn, n + "="), "setter", m, c, fn))
    return out


def locate(e, ref, cur, _cache={}):
    """the current tree's counterpart of reference entry e -> Entry or None"""
    mn, cn, n = e.key
    if e.kind == "dispatch":
        t = dispatch_table(cur)
        r = t.get((dispatch_head(e.node), ann_sig(ref, e.module, e.node)))
        return r and Entry(e.key, e.kind, r[0], None, r[1])
    m = cur.modules.get(mn)
    if m is None:
        return None
    if e.kind == "module":
        return Entry(e.key, e.kind, m, None, None)
    if e.kind == "func":
        r = cur.resolve(m, n)
        if r and r[0] == "func":
            return Entry(e.key, e.kind, r[1], None, r[2][-1])
        return None
    r = cur.resolve(m, cn)
    if not r or r[0] != "class":
        return None
    c = r[1]
    if e.kind == "class":
        return Entry(e.key, e.kind, c.module, c, None)
    if e.kind == "setter":
        r = cur.find_setter(c, n[:-1])
        return r and Entry(e.key, e.kind, r[0].module, r[0], r[1], c)
    r = cur.find_method(c, n)
    return r and Entry(e.key, e.kind, r[0].module, r[0], r[1], c)


def extra_overrides(ref, cur):
    """methods the current tree overrides in a class where the reference inherits them from a repo class"""
    out = []
    for mn, m in ref.modules.items():
        for cn, c in m.classes.items():
            m2 = cur.modules.get(mn)
            r = m2 and cur.resolve(m2, cn)
            if not r or r[0] != "class":
                continue
            c2 = r[1]
            for n, fn in c2.methods.items():
                if n in c.methods:
                    continue
                o = ref.find_method(c, n)
                if o:
                    out.append((Entry((mn, cn, n), "method", o[0].module, o[0], o[1], c), Entry((mn, cn, n), "method", c2.module, c2, fn, c2)))
    return out


# ---------------------------------------------------------------------------
def params_of(node, drop_self):
    a = node.args
    pos = a.posonlyargs + a.args
    dfl = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    pos = [(p.arg, d) for p, d in zip(pos, dfl)]
    if drop_self:
        pos = pos[1:]
    kwo = [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    return pos, kwo, bool(a.vararg), bool(a.kwarg)


def defval(tree, m, node):
    return Evaluator(tree).default_value(node, m)


def cmp_default(x, ref, rm, rd, cur, cm, cd):
    try:
        return C.cmp(x, defval(ref, rm, rd), defval(cur, cm, cd))
    except Exception as e:
        return C.unk("default not evaluated: %r" % e)


KINDDECS = ("property", "staticmethod", "classmethod")


def cmp_signature(x, ref, e, cur, o):
    out = []
    rk = {k for k in KINDDECS if any(dec_text(d) == k for d in e.node.decorator_list)}
    ck = {k for k in KINDDECS if any(dec_text(d) in (k, "cached_property", "functools.cached_property") and
                                     (k == "property" or dec_text(d) == k) for d in o.node.decorator_list)}
    if e.kind in ("method",) and rk != ck:
        return [("decorators", C.diff("method kind changed from %s to %s" % (sorted(rk) or "plain", sorted(ck) or "plain")))]
    rmeth = e.kind in ("method", "setter") and "staticmethod" not in rk
    cmeth = o.kind in ("method", "setter") and "staticmethod" not in ck
    rp, rkw, rv, rkk = params_of(e.node, rmeth)
    cp, ckw, cv, ckk = params_of(o.node, cmeth)
    rn, cn = [p[0] for p in rp], [p[0] for p in cp]
    if e.kind == "dispatch":
        rpr = [dec_text(k.value) for d in e.node.decorator_list if isinstance(d, ast.Call) for k in d.keywords if k.arg == "precedence"]
        cpr = [dec_text(k.value) for d in o.node.decorator_list if isinstance(d, ast.Call) for k in d.keywords if k.arg == "precedence"]
        if rpr and not cpr:
            out.append(("dispatch precedence", C.diff("dispatch precedence dropped")))
        return out
    common_r = [n for n in rn if n in cn]
    common_c = [n for n in cn if n in rn]
    if common_r != common_c:
        out.append(("signature", C.diff("positional parameters reordered: (%s) -> (%s)" % (", ".join(rn), ", ".join(cn)))))
    elif rn != cn[:len(rn)]:
        gone = [n for n in rn if n not in cn]
        if len(cn) < len(rn) and not cv and not any(n in dict(ckw) for n in gone):
            out.append(("signature", C.diff("parameter %s no longer accepted" % ", ".join(gone)) if not ckk else C.unk("parameters changed")))
        else:
            out.append(("signature", C.unk("parameters renamed")))
    else:
        for n, d in cp[len(rn):]:
            if d is None:
                out.append(("signature", C.diff("new required parameter %s" % n)))
    if rv and not cv or rkk and not ckk:
        out.append(("signature", C.diff("variadic parameters no longer accepted")))
    cd = dict(cp + ckw)
    for n, d in rp + rkw:
        if n not in cd:
            if n in dict(rkw) and not ckk:
                out.append(("signature", C.diff("keyword parameter %s no longer accepted" % n)))
            continue
        if d is not None and cd[n] is None:
            out.append(("signature", C.diff("parameter %s lost its default" % n)))
        elif d is not None and cd[n] is not None:
            r = cmp_default(x, ref, e.module, d, cur, o.module, cd[n])
            if r.v:
                out.append(("default of %s" % n, r))
    return out


def field_default(tree, c, d):
    return defval(tree, c.module, d)


def cmp_class(x, ref, e, cur, o):
    out = []
    rb = [b.split(".")[-1] if isinstance(b, str) else b.name for b in ref.mro(e.cls)[1:]]
    cb = [b.split(".")[-1] if isinstance(b, str) else b.name for b in cur.mro(o.cls)[1:]]
    for b in rb:
        if b not in cb and b not in ("object", "ABC"):
            known = any(b in m.classes for m in cur.modules.values()) or not any(b in m.classes for m in ref.modules.values())
            out.append(("bases", C.diff("no longer derives from %s" % b) if known else C.unk("base %s not found" % b)))
    rf, cf = ref.dataclass_fields(e.cls), cur.dataclass_fields(o.cls)
    rn, cn = list(rf), list(cf)
    common_r = [n for n in rn if n in cn]
    common_c = [n for n in cn if n in rn]
    if common_r != common_c and _positional(ref, e.cls):
        out.append(("fields", C.diff("field order changed: (%s) -> (%s)" % (", ".join(rn), ", ".join(cn)))))
    for n in rn:
        if n not in cf:
            out.append(("field " + n, C.diff("field %s removed" % n) if n in x.curnames else C.unk("field %s renamed" % n)))
            continue
        d1, d2 = rf[n], cf[n]
        if d1[2] is None and d2[2] is None:
            continue
        if d1[2] is not None and d2[2] is None:
            out.append(("field " + n, C.diff("field %s lost its default" % n)))
        elif d1[2] is None:
            continue
        else:
            try:
                r = C.cmp(x, field_default(ref, d1[0], d1[2]), field_default(cur, d2[0], d2[2]))
            except Exception as ex:
                r = C.unk(repr(ex))
            if r.v:
                out.append(("default of field " + n, r))
    # plain class attributes
    ra = {n: v for n, a, v in e.cls.fields if a is None and v is not None}
    ca = {n: (c, v) for c in reversed(cur.mro(o.cls)) if isinstance(c, ClassInfo) for n, a, v in c.fields if v is not None}
    for n, v in ra.items():
        if n not in ca:
            out.append(("class attribute " + n, C.diff("class attribute %s removed" % n) if n in x.curnames else C.unk("renamed")))
            continue
        try:
            r = C.cmp(x, defval(ref, e.module, v), defval(cur, ca[n][0].module, ca[n][1]))
        except Exception as ex:
            r = C.unk(repr(ex))
        if r.v:
            out.append(("class attribute " + n, r))
    rd = [dec_text(d).split("(")[0].split(".")[-1] for d in e.cls.node.decorator_list]
    cd = [dec_text(d).split("(")[0].split(".")[-1] for d in o.cls.node.decorator_list]
    for d in rd:
        if d not in cd:
            out.append(("decorators", C.unk("class decorator %s not found" % d)))
    return out


def _positional(tree, c):
    return True


SKIP_MODULE = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)


def module_summary(tree, m):
    body = [s for s in m.tree.body if not isinstance(s, SKIP_MODULE)]
    node = ast.FunctionDef(name="<module>", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=body or [ast.Pass()], decorator_list=[], lineno=1, col_offset=0)
    E = Evaluator(tree)
    from .evalr import State
    st = State()
    fid = E.newframe(st, None, m, None)
    st.frames[fid]["$rebound"] = frozenset()
    E.steps = 0
    E.stack = [id(node)]
    out = E.block(node.body, st, fid)
    _, st2 = E.collapse(out)
    env = {k: E.reify(v, st2, fid) for k, v in st2.frames[fid].items() if not k.startswith("$") and isinstance(v, T)}
    return env, E.reify(st2.eff, st2, fid)


def cmp_module(x, ref, e, cur, o):
    out = []
    try:
        renv, reff = module_summary(ref, e.module)
        cenv, ceff = module_summary(cur, o.module)
    except Exception as ex:
        return [("import effects", C.unk(repr(ex)))]
    out.append(("import effects", C.cmp_eff(x, reff, ceff)))
    for n, v in renv.items():
        if n.startswith("_") and not n.startswith("__"):
            continue
        if n == "__all__":
            continue
        if n in cenv:
            out.append(("global " + n, C.cmp(x, v, cenv[n])))
        elif cur.resolve(o.module, n) is None:
            out.append(("global " + n, C.diff("public name %s no longer defined" % n)))
    # names importable from a package
    for n in list(e.module.functions) + list(e.module.classes) + list(e.module.imports):
        if n.startswith("_"):
            continue
        r = ref.resolve(e.module, n)
        if r is None or r[0] not in ("func", "class", "assign"):
            continue
        if n in e.module.imports and not e.module.is_pkg:
            continue
        r2 = cur.resolve(o.module, n)
        if r2 is None or r2[0] == "missing":
            out.append(("export " + n, C.diff("public name %s no longer importable from %s" % (n, e.module.name))))
        elif r[0] == "class" and r2[0] == "class" and r[1].name != r2[1].name:
            if any(r[1].name in mm.classes for mm in cur.modules.values()):
                out.append(("export " + n, C.diff("public name %s now refers to %s instead of %s" % (n, r2[1].name, r[1].name))))
        elif r[0] == "func" and r2[0] == "func" and r[2][-1].name != r2[2][-1].name:
            if any(r[2][-1].name in mm.functions for mm in cur.modules.values()):
                out.append(("export " + n, C.diff("public name %s now refers to %s instead of %s" % (n, r2[2][-1].name, r[2][-1].name))))
    return [(a, b) for a, b in out]


def summary(tree, e, edges=None):
    E = Evaluator(tree)
    s = E.summarize(e.module, e.node, e.cls, e.key[2], selfcls=e.selfcls)
    if edges is not None:
        own = owners(tree)
        edges.update((own.get(id(a)), own.get(id(b))) for a, b in E.edges)
    return s


def owners(tree):
    """id(function or lambda node) -> key of the module-level function or method it belongs to"""
    r = getattr(tree, "_owners", None)
    if r is None:
        r = tree._owners = {}
        tree._onode = {}
        for mn, m in tree.modules.items():
            def reg(top, key):
                tree._onode[key] = top
                for n in ast.walk(top):
                    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                        r[id(n)] = key
            for n, l in m.functions.items():
                for i, fn in enumerate(l):
                    reg(fn, (mn, "", n if not is_dispatch(fn) else "%s[%s]" % (dispatch_head(fn), ",".join(ann_sig(tree, m, fn)))))
            for cn, c in m.classes.items():
                for n, fn in c.methods.items():
                    reg(fn, (mn, cn, n))
                for n, fn in c.setters.items():
                    reg(fn, (mn, cn, n + "="))
    return r


def same_source(ref, cur, key):
    _memo = cur.__dict__.setdefault("_samesrc", {})
    k = key
    r = _memo.get(k)
    if r is None:
        owners(ref), owners(cur)
        a, b = ref._onode.get(key), cur._onode.get(key)
        r = _memo[k] = a is not None and b is not None and ast.dump(a) == ast.dump(b)
    return r


def _scaffold(m):
    """module text outside function bodies, per class and module; imports as a table"""
    out = []
    for st in m.tree.body:
        if isinstance(st, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(st, ast.ClassDef):
            out.append(("class", st.name, tuple(ast.dump(b) for b in st.bases), tuple(ast.dump(d) for d in st.decorator_list),
                        tuple(ast.dump(x) for x in st.body if not isinstance(x, ast.FunctionDef))))
        else:
            out.append(ast.dump(st))
    return out


def same_scaffold(ref, cur, mn):
    _memo = cur.__dict__.setdefault("_samesc", {})
    k = mn
    r = _memo.get(k)
    if r is None:
        a, b = ref.modules.get(mn), cur.modules.get(mn)
        r = a is not None and b is not None and [s for s in _scaffold(a)] == [s for s in _scaffold(b)] \
            and all(b.imports.get(n) == v for n, v in a.imports.items())
        _memo[k] = r
    return r


def entry_for(tree, key, selfcls):
    """an ad-hoc entry for any module-level function or method"""
    owners(tree)
    mn, cn, n = key
    node = tree._onode.get(key)
    m = tree.modules.get(mn)
    if node is None or m is None:
        return None
    if not cn:
        return Entry(key, "dispatch" if is_dispatch(node) else "func", m, None, node)
    c = m.classes[cn]
    sc = selfcls if selfcls is not None and c in tree.mro(selfcls) else c
    return Entry(key, "setter" if n.endswith("=") else "method", m, c, node, sc)


def congruent(ref, cur, e, o, re, ce, equal):
    """The entry's own text is unchanged and every function it reaches that did change is itself proven equal:
    equal functions are interchangeable.  equal(key, selfcls name) decides the latter."""
    own = owners(ref)
    owners(cur)
    rk, ck = own.get(id(e.node)), owners(cur).get(id(o.node))
    if rk is None or rk != ck:
        return False
    succ_r, succ_c = {}, {}
    for a, b in re:
        succ_r.setdefault(a, set()).add(b)
    for a, b in ce:
        succ_c.setdefault(a, set()).add(b)
    seen, todo = set(), [rk]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if k is None or not same_scaffold(ref, cur, k[0]):
            return False
        if same_source(ref, cur, k):
            if succ_r.get(k, set()) != succ_c.get(k, set()) and not all(
                    x in succ_r.get(k, set()) and x in succ_c.get(k, set()) for x in succ_r.get(k, set()) | succ_c.get(k, set())):
                return False
            todo.extend(succ_c.get(k, ()))
            continue
        if k == rk or not equal(k, e):
            return False
    return True


def compare_entry(x, ref, e, cur, o, re=None, ce=None):
    """-> list of (observable, R)"""
    if e.kind == "module":
        return cmp_module(x, ref, e, cur, o)
    if e.kind == "class":
        return cmp_class(x, ref, e, cur, o)
    out = cmp_signature(x, ref, e, cur, o)
    try:
        s1 = summary(ref, e, re)
        s2 = summary(cur, o, ce)
    except Budget as ex:
        return out + [("body", C.unk("evaluation budget: %s" % ex))]
    except RecursionError:
        return out + [("body", C.unk("recursion"))]
    out += C.cmp_summary(x, s1, s2)
    return out
