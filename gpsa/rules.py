"""Reference-free rules (see DESIGN.md).  Each takes the parsed tree and returns
(findings, instances analysed, description).  A construct a rule does not recognise yields no finding."""
import ast
import builtins
import symtable

from .loader import ClassInfo


class Finding:
    def __init__(self, construct, file, line, message):
        self.construct, self.file, self.line, self.message = construct, file, line, message


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


# ----------------------------------------------------------------------------------------------- shared helpers
def functions(tree):
    """every function of the package: (module, qualified name, node, enclosing class or None)"""
    for m, q, st, cls, _ in functions_in(tree):
        yield m, q, st, cls


def functions_in(tree):
    """as `functions`, with the enclosing functions"""
    for m in tree.modules.values():
        def walk(body, prefix, cls, outer=()):
            for st in body:
                if isinstance(st, FUNC):
                    q = prefix + st.name
                    yield m, q, st, cls, outer
                    yield from walk(st.body, q + ".", None, outer + (st,))
                elif isinstance(st, ast.ClassDef):
                    yield from walk(st.body, prefix + st.name + ".", m.classes.get(st.name) if not outer else None, outer)
                else:
                    for f in ("body", "orelse", "finalbody"):
                        yield from walk(getattr(st, f, []) or [], prefix, cls, outer)
                    for h in getattr(st, "handlers", []) or []:
                        yield from walk(h.body, prefix, cls, outer)
        yield from walk(m.tree.body, "", None)


def own(node):
    """nodes of a function (or statement) without the bodies of nested functions and classes, in source order"""
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, FUNC + (ast.ClassDef, ast.Lambda)):
            continue
        yield ch
        yield from own(ch)


def local_imports(fn, module):
    t = {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            module.add_import(n, t)
    return t


def dotted(tree, module, node, extra=None):
    """fully qualified dotted name of a Name/Attribute chain, or None"""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    imp = (extra or {}).get(node.id) or module.imports.get(node.id)
    if imp is None:
        if node.id in module.functions or node.id in module.classes or node.id in module.assigns:
            base = module.name + "." + node.id
        else:
            return None
    elif imp[0] == "mod":
        base = imp[1]
    else:
        base = imp[1] + "." + imp[2]
    return ".".join([base] + parts[::-1])


def package_function(tree, module, node, extra=None):
    """the package function a call target denotes: (module, node) or None"""
    if isinstance(node, ast.Name):
        r = tree.resolve(module, node.id)
        if r is None and extra and node.id in extra:
            r = tree.resolve_import(extra[node.id])
        if r and r[0] == "func" and len(r[2]) == 1:
            return r[1], r[2][0]
        return None
    d = dotted(tree, module, node, extra)
    if d and "." in d:
        mod, name = d.rsplit(".", 1)
        m = tree.modules.get(mod)
        if m and name in m.functions and len(m.functions[name]) == 1:
            return m, m.functions[name][0]
        if m:
            r = tree.resolve(m, name)
            if r and r[0] == "func" and len(r[2]) == 1:
                return r[1], r[2][0]
    return None


def bound_names(fn):
    """names a function binds itself (parameters, assignments, loops, imports, nested definitions)"""
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, FUNC + (ast.ClassDef,)) and n is not fn:
            out.add(n.name)
    return out


def text(n):
    return ast.dump(n)


# ------------------------------------------------------------------------------------- restore-on-exit (C21, C25)
def r_restore(tree):
    """`old = X.a; X.a = v; ... calls ...; X.a = old`: every call made while the replacement is in place has to lie
    in a `try` whose `finally` (or bare except that re-raises, plus the normal exit) writes the old value back."""
    out, n = [], 0
    for m, q, fn, _ in functions(tree):
        saves = {}
        stores = {}
        for x in own(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores[x.id] = stores.get(x.id, 0) + 1
        for st in own(fn):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                    and isinstance(st.value, ast.Attribute) and stores.get(st.targets[0].id) == 1:
                saves[st.targets[0].id] = (text(ast.parse(ast.unparse(st.value), mode="eval").body), st)
        for var, (key, save) in saves.items():
            sets, restores = [], []
            for st in own(fn):
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Attribute) and text(ast.parse(ast.unparse(t), mode="eval").body) == key \
                                and st.lineno > save.lineno:
                            if isinstance(st.value, ast.Name) and st.value.id == var:
                                restores.append(st)
                            else:
                                sets.append(st)
            if not sets or not restores:
                continue
            n += 1
            bad = _uncovered(fn, sets, restores)
            if bad is not None:
                out.append(Finding(q + ": " + ast.unparse(sets[0].targets[0]), m.rel, bad.lineno,
                                   "%s is replaced at line %d and written back at line %d, but `%s` in between can leave the "
                                   "function early without the write-back (no finally)" % (
                                       ast.unparse(sets[0].targets[0]), sets[0].lineno, restores[-1].lineno,
                                       ast.unparse(bad)[:70])))
    return out, n, "save / replace / write-back sequences on an attribute of another object"


def _uncovered(fn, sets, restores):
    """first call (or yield) after a replacement that no finally with a write-back covers; None if all are covered"""
    state = {"bad": None}

    def risky(st):
        for x in [st] + list(own(st)):
            if isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await)):
                return x
        return None

    def walk(body, dirty, covered):
        for st in body:
            if state["bad"] is not None:
                return dirty
            if st in sets:
                r = risky(st.value)
                if dirty and not covered and r is not None:
                    state["bad"] = r
                    return dirty
                dirty = True
                continue
            if st in restores:
                dirty = False
                continue
            if isinstance(st, FUNC + (ast.ClassDef,)):
                continue
            if isinstance(st, ast.Try):
                cov = covered or any(r in list(ast.walk(ast.Module(st.finalbody, []))) for r in restores) or any(
                    (h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"))
                    and any(r in list(ast.walk(ast.Module(h.body, []))) for r in restores) for h in st.handlers)
                d = walk(st.body, dirty, cov)
                for h in st.handlers:
                    walk(h.body, d, cov)
                d = walk(st.orelse, d, cov)
                d = walk(st.finalbody, d, covered)
                dirty = d
                continue
            if isinstance(st, ast.With):
                # a context manager may do the write-back itself
                return False
            if isinstance(st, (ast.If, ast.For, ast.While)):
                head = getattr(st, "test", None) or getattr(st, "iter", None)
                r = risky(head)
                if dirty and not covered and r is not None:
                    state["bad"] = r
                    return dirty
                d1 = walk(st.body, dirty, covered)
                d2 = walk(st.orelse, dirty, covered)
                dirty = d1 or d2
                continue
            r = risky(st)
            if dirty and not covered and r is not None:
                state["bad"] = r
                return dirty
        return dirty

    walk(fn.body, False, False)
    return state["bad"]


# ---------------------------------------------------------------------------- guard-written-last, atomic saves (C23)
EXISTS = {"os.path.exists", "os.path.isfile", "os.path.lexists"}
SAVERS = {"numpy.save": 0, "numpy.savez": 0, "numpy.savez_compressed": 0, "numpy.savetxt": 0, "os.replace": 1, "os.rename": 1,
          "shutil.move": 1, "jax.numpy.save": 0}


def _saver_arg(tree, m, call, extra, depth=0):
    """argument expression naming the file a call writes, or None"""
    d = dotted(tree, m, call.func, extra)
    if d in SAVERS:
        i = SAVERS[d]
        return call.args[i] if len(call.args) > i else None
    pf = package_function(tree, m, call.func, extra)
    if pf and depth < 3:
        pm, pn = pf
        params = [a.arg for a in pn.args.posonlyargs + pn.args.args]
        last = None
        ex = local_imports(pn, pm)
        for c in own(pn):
            if isinstance(c, ast.Call):
                a = _saver_arg(tree, pm, c, ex, depth + 1)
                if a is not None:
                    last = a
        if last is not None:
            names = [x.id for x in ast.walk(last) if isinstance(x, ast.Name) and x.id in params]
            if len(names) == 1:
                i = params.index(names[0])
                if i < len(call.args):
                    return call.args[i]
                for k in call.keywords:
                    if k.arg == names[0]:
                        return k.value
    return None


def _subst(fn):
    """single-assignment locals of a function -> their value"""
    cnt, val = {}, {}
    for st in own(fn):
        if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
            cnt[st.id] = cnt.get(st.id, 0) + 1
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            val[st.targets[0].id] = st.value
    return {k: v for k, v in val.items() if cnt.get(k) == 1}


def _expand(e, sub, depth=0):
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in sub and depth < 6:
                t = _expand(sub[n.id], {k: v for k, v in sub.items() if k != n.id}, depth + 1)
                return ast.parse(t, mode="eval").body
            return n
    return ast.unparse(T().visit(ast.parse(ast.unparse(e), mode="eval").body))


def r_guard_last(tree):
    out, n = [], 0
    for m, q, fn, _ in functions(tree):
        extra = local_imports(fn, m)
        sub = _subst(fn)
        for st in own(fn):
            if not isinstance(st, ast.If):
                continue
            tests = [c for c in ast.walk(ast.parse(_expand(st.test, sub), mode="eval")) if isinstance(c, ast.Call) and c.args
                     and dotted(tree, m, c.func, extra) in EXISTS]
            if not tests:
                continue
            guards = [_expand(c.args[0], sub) for c in tests]
            for body in (st.body, st.orelse):
                simple = all(isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Assert, ast.If, ast.For, ast.While,
                                            ast.With, ast.Try, ast.Import, ast.ImportFrom, ast.Pass) + FUNC) for x in body)
                saves = []
                for x in body:
                    for c in [x] + list(own(x)):
                        if isinstance(c, ast.Call):
                            a = _saver_arg(tree, m, c, extra)
                            if a is not None:
                                saves.append((c.lineno, c.col_offset, _expand(a, sub), x, c))
                if not saves:
                    continue
                n += 1
                saves.sort(key=lambda s: s[:2])
                paths = [s[2] for s in saves]
                if not simple or any(p not in paths for p in guards) or set(paths) <= set(guards):
                    continue       # the guard is not one of the files, or all of them are tested
                if any(s[3] is not s[4] and isinstance(s[3], (ast.For, ast.While)) for s in saves):
                    continue
                after = paths[max(i for i, p in enumerate(paths) if p in guards) + 1:]
                late = [p for p in after if p not in guards]
                if late:
                    out.append(Finding(q + ": " + guards[0], m.rel, saves[-1][0],
                                       "the test for %s decides whether the whole data set exists, but %s is written after it: "
                                       "an interruption in between leaves a partial data set that later runs accept" % (guards[0], late[0])))
    return out, n, "existence-guarded data sets: the file that is tested has to be written last"


# ------------------------------------------------------------------------------------------ collectives (C22)
RANKS = {"rank", "_rank", "node_number", "Get_rank"}
COLL_METHODS = {"Bcast", "bcast", "Allreduce", "allreduce", "Gather", "gather", "Allgather", "allgather", "Scatter", "scatter",
                "Reduce", "reduce", "Barrier", "barrier", "Alltoall", "alltoall"}


def _is_coll(tree, m, call, extra):
    f = call.func
    d = dotted(tree, m, f, extra) or ""
    last = d.rsplit(".", 1)[-1]
    if d.startswith("netket") and (last.startswith("mpi_") and last not in ("mpi_available",)):
        return True
    if d.startswith("netket.stats") and last in ("statistics", "mean", "sum", "var", "subtract_mean", "total_size"):
        return True
    if isinstance(f, ast.Attribute) and f.attr in COLL_METHODS:
        b = dotted(tree, m, f.value, extra) or ""
        if "comm" in b.rsplit(".", 1)[-1].lower():
            return True
    return False


def r_collectives(tree):
    memo = {}

    def has(m, fn, cls, depth=0):
        """number of collectives (transitively) a function issues, as a flag"""
        k = id(fn)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = bool(colls(m, fn, fn.body, cls, depth))
        memo[k] = r
        return r

    def colls(m, fn, body, cls, depth=0):
        extra = local_imports(fn, m)
        res = []
        for st in body:
            for c in [st] + list(own(st)):
                if not isinstance(c, ast.Call):
                    continue
                if _is_coll(tree, m, c, extra):
                    res.append(c)
                    continue
                if depth > 4:
                    continue
                pf = package_function(tree, m, c.func, extra)
                if pf and has(pf[0], pf[1], None, depth + 1):
                    res.append(c)
                elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self" and cls:
                    r = tree.find_method(cls, c.func.attr)
                    if r and has(r[0].module, r[1], r[0], depth + 1):
                        res.append(c)
        return res

    def names(m, fn, cls, call):
        """name under which a collective-issuing call is matched between branches"""
        return call.func.attr if isinstance(call.func, ast.Attribute) else getattr(call.func, "id", "?")

    out, n = [], 0
    for m, q, fn, cls in functions(tree):
        extra = local_imports(fn, m)
        sub = _subst(fn)

        def rankdep(e, depth=0):
            for x in [e] + list(own(e)):
                if isinstance(x, ast.Attribute) and x.attr in RANKS:
                    d = dotted(tree, m, x, extra) or ""
                    if d.startswith("netket") or "comm" in ast.unparse(x.value).lower():
                        return True
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    d = dotted(tree, m, x, extra) or ""
                    if d.startswith("netket") and d.rsplit(".", 1)[-1] in RANKS:
                        return True
                    v = sub.get(x.id)
                    if v is not None and depth < 4 and isinstance(v, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name, ast.Attribute)) \
                            and rankdep(v, depth + 1):
                        return True
            return False

        def scan(body, rest):
            """rest: statement lists that follow `body` in the enclosing blocks"""
            for i, st in enumerate(body):
                after = [body[i + 1:]] + rest
                if isinstance(st, FUNC + (ast.ClassDef,)):
                    continue
                for x in own(st):
                    if isinstance(x, ast.IfExp) and rankdep(x.test):
                        check(x, [ast.Expr(x.body)], [ast.Expr(x.orelse)], None)
                if isinstance(st, (ast.If, ast.While)) and rankdep(st.test):
                    if isinstance(st, ast.While):
                        check(st, st.body, [], None)
                    else:
                        check(st, st.body, st.orelse, after)
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(st, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        scan(b, after)
                for h in getattr(st, "handlers", []) or []:
                    scan(h.body, after)

        def exits(body):
            return any(isinstance(s, (ast.Return, ast.Continue, ast.Break)) for s in body)

        def check(st, a, b, after):
            nonlocal n
            n += 1
            ca, cb = colls(m, fn, a, cls), colls(m, fn, b, cls)
            later = [c for blk in (after or []) for c in colls(m, fn, blk, cls)]
            ea, eb = exits(a), exits(b)
            la = ca + ([] if ea else later)
            lb = cb + ([] if eb else later)
            na, nb = [names(m, fn, cls, c) for c in la], [names(m, fn, cls, c) for c in lb]
            if len(na) != len(nb):
                c = (la if len(la) > len(lb) else lb)[0]
                if ca or cb:
                    c = (ca or cb)[0]
                out.append(Finding(q + ": " + ast.unparse(c.func), m.rel, c.lineno,
                                   "`%s` is a collective operation, but the condition at line %d differs between processes: %d collectives "
                                   "on one side, %d on the other, so some processes wait for ever" % (
                                       ast.unparse(c.func), st.lineno, len(na), len(nb))))

        scan(fn.body, [])
    return out, n, "branches on the process rank: both sides must issue the same number of collectives"


# ------------------------------------------------------------------------------------------ PRNG keys (C12)
NOT_CONSUMING = {"fold_in", "key_data", "wrap_key_data", "PRNGKey", "key", "key_impl", "clone"}


def r_keys(tree):
    out, n = [], 0
    for m, q, fn, _ in functions(tree):
        extra = local_imports(fn, m)

        def uses(e):
            """consuming uses in evaluation order: (variable, call)"""
            res = []
            for x in [e] + list(own(e)):
                if isinstance(x, ast.Call):
                    d = dotted(tree, m, x.func, extra) or ""
                    if d.startswith("jax.random.") and d.rsplit(".", 1)[1] not in NOT_CONSUMING:
                        k = x.args[0] if x.args else next((w.value for w in x.keywords if w.arg == "key"), None)
                        if isinstance(k, ast.Name):
                            res.append((k.id, x))
            return res

        def names_of(t):
            return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]

        def expr(e, st, loop):
            nonlocal n
            for v, c in uses(e):
                n += 1
                sig = text(ast.parse(ast.unparse(c), mode="eval").body)
                old = st.get(v)
                if old is not None and old[0] != sig:
                    out.append(Finding(q + ": " + v, m.rel, c.lineno,
                                       "the random key `%s` is used again: it was consumed by `%s` at line %d already, so the two draws "
                                       "are correlated" % (v, ast.unparse(old[1].func), old[1].lineno)))
                st[v] = (sig, c)

        def run(body, st):
            """st: variable -> consuming call on some path; returns the state after, None if the block always leaves"""
            for s in body:
                if isinstance(s, FUNC + (ast.ClassDef,)):
                    st.pop(s.name, None)
                    continue
                if isinstance(s, ast.Assign):
                    expr(s.value, st, False)
                    for t in s.targets:
                        for v in names_of(t):
                            st.pop(v, None)
                elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                    if s.value is not None:
                        expr(s.value, st, False)
                    for v in names_of(s.target):
                        st.pop(v, None)
                elif isinstance(s, ast.If):
                    expr(s.test, st, False)
                    a = run(s.body, dict(st))
                    b = run(s.orelse, dict(st))
                    if a is None and b is None:
                        return None
                    st = {**(a or {}), **(b or {})} if a is not None and b is not None else (a if b is None else b)
                elif isinstance(s, (ast.For, ast.While)):
                    expr(s.iter if isinstance(s, ast.For) else s.test, st, False)
                    if isinstance(s, ast.For):
                        for v in names_of(s.target):
                            st.pop(v, None)
                    a = run(s.body, dict(st))
                    if a is not None:
                        st = {**st, **a}
                    b = run(s.orelse, dict(st))
                    st = b if b is not None else st
                elif isinstance(s, ast.Try):
                    a = run(s.body, dict(st))
                    for h in s.handlers:
                        run(h.body, dict(st))
                    st = a if a is not None else st
                    a = run(s.finalbody, st)
                    st = a if a is not None else st
                elif isinstance(s, ast.With):
                    a = run(s.body, st)
                    if a is None:
                        return None
                    st = a
                elif isinstance(s, (ast.Return, ast.Raise)):
                    v = getattr(s, "value", None) or getattr(s, "exc", None)
                    if v is not None:
                        expr(v, st, False)
                    return None
                elif isinstance(s, (ast.Continue, ast.Break)):
                    return None
                else:
                    expr(s, st, False)
            return st

        run(fn.body, {})
    return out, n, "jax.random calls: no key variable is consumed by two different draws on one path"


# ------------------------------------------------------------------------------------------ fast updates (C08)
def r_fast_update(tree):
    out, n = [], 0
    for m in tree.modules.values():
        for ci in m.classes.values():
            on = None
            for c in tree.mro(ci):
                if isinstance(c, ClassInfo):
                    for name, ann, d in c.fields:
                        if name == "apply_fast_update" and on is None:
                            on = d
            if not (isinstance(on, ast.Constant) and on.value is True):
                continue
            r = tree.find_method(ci, "__call__")
            if r is None:
                continue
            n += 1
            a = r[1].args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            if a.kwarg is None and not {"cache_intermediates", "update_sites"} <= params:
                out.append(Finding(ci.qual, m.rel, r[1].lineno,
                                   "%s sets apply_fast_update by default, but its __call__ does not take cache_intermediates and update_sites" % ci.node.name))
    return out, n, "models which advertise fast updates take the cache arguments"


# ------------------------------------------------------------------------- imports, names, signatures, attributes (C24)
def r_imports(tree):
    out, n = [], 0
    for m in tree.modules.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.ImportFrom):
                continue
            t = {}
            m.add_import(x, t)
            for local, imp in t.items():
                if imp[0] != "from" or imp[2] == "*":
                    continue
                if imp[1].split(".")[0] != "GPSKet":
                    continue
                n += 1
                base = tree.modules.get(imp[1])
                if base is None:
                    if not any(k.startswith(imp[1] + ".") for k in tree.modules):
                        out.append(Finding(m.name + ": " + imp[1], m.rel, x.lineno, "module %s does not exist in the package" % imp[1]))
                    continue
                if "__getattr__" in base.functions or any(isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) for s in ast.walk(base.tree)):
                    continue
                if tree.resolve(base, imp[2]) is None and imp[1] + "." + imp[2] not in tree.modules and not _top_binds(base, imp[2]):
                    out.append(Finding(m.name + ": " + imp[1] + "." + imp[2], m.rel, x.lineno,
                                       "%s imports %s from %s, which does not define it" % (m.name, imp[2], imp[1])))
                elif tree.resolve(base, imp[2]) is not None and tree.resolve(base, imp[2])[0] == "missing":
                    out.append(Finding(m.name + ": " + imp[1] + "." + imp[2], m.rel, x.lineno,
                                       "%s imports %s from %s, which itself fails to import it" % (m.name, imp[2], imp[1])))
    return out, n, "imports from inside the package name something that exists"


def _top_binds(m, name):
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
            return True
        if isinstance(x, FUNC + (ast.ClassDef,)) and x.name == name:
            return True
        if isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == name for a in x.names):
            return True
    return False


def r_names(tree):
    out, n = [], 0
    bi = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__"}
    for m in tree.modules.values():
        try:
            with open(m.path) as f:
                top = symtable.symtable(f.read(), m.rel, "exec")
        except (SyntaxError, OSError):
            continue
        if any(isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) for s in ast.walk(m.tree)):
            continue
        glob = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                glob |= set(x.names)

        def visit(t):
            nonlocal n
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global():
                    n += 1
                    nm = s.get_name()
                    if nm not in glob and nm not in bi:
                        line = next((x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)
                                     and x.lineno >= t.get_lineno()), t.get_lineno())
                        out.append(Finding(m.name + "." + t.get_name() + ": " + nm, m.rel, line,
                                           "the name `%s` is defined nowhere: using it raises NameError" % nm))
            for c in t.get_children():
                visit(c)
        visit(top)
    return out, n, "global names that functions refer to are defined"


TRANSPARENT = {"jax.jit", "jit", "staticmethod", "classmethod", "functools.partial", "partial", "numba.njit", "nb.njit", "njit", "nb.jit",
               "numba.jit", "abc.abstractmethod", "abstractmethod", "functools.wraps", "nn.compact", "nkjax.vmap_chunked"}


def _transparent(fn):
    for d in fn.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        u = ast.unparse(e)
        if u in ("partial", "functools.partial") and isinstance(d, ast.Call) and d.args:
            u = ast.unparse(d.args[0])
        if u not in TRANSPARENT and u.rsplit(".", 1)[-1] not in ("jit", "njit", "compact", "abstractmethod", "staticmethod", "classmethod"):
            return False
    return True


def _sig_error(fn, call, skip):
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if len(call.args) > len(pos) and a.vararg is None:
        return "takes %d positional arguments, %d given" % (len(pos), len(call.args))
    given = set(pos[: len(call.args)])
    kw = {x.arg for x in a.args[max(0, skip - len(a.posonlyargs)):] + a.kwonlyargs}
    for k in call.keywords:
        if k.arg not in kw and a.kwarg is None:
            return "has no argument `%s`" % k.arg
        if k.arg in given:
            return "gets `%s` twice" % k.arg
        given.add(k.arg)
    nd = len(a.defaults)
    allpos = [x.arg for x in a.posonlyargs + a.args]
    required = set(allpos[: len(allpos) - nd][skip:]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    miss = required - given
    if miss:
        return "misses the required argument `%s`" % sorted(miss)[0]
    return None


def r_signatures(tree):
    out, n = [], 0
    for m, q, fn, cls, outer in functions_in(tree):
        extra = local_imports(fn, m)
        bound = bound_names(fn)
        for o in outer:
            bound |= bound_names(o)
        static = any(ast.unparse(d) == "staticmethod" for d in fn.decorator_list)
        for c in own(fn):
            if not isinstance(c, ast.Call):
                continue
            base = c.func
            while isinstance(base, ast.Attribute):
                base = base.value
            if isinstance(base, ast.Name) and base.id in bound and base.id != "self" and base.id not in extra:
                continue
            err = None
            pf = package_function(tree, m, c.func, extra)
            if pf and _transparent(pf[1]):
                n += 1
                err = _sig_error(pf[1], c, 0)
            elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self" and cls and not static \
                    and fn.args.args and fn.args.args[0].arg == "self":
                r = tree.find_method(cls, c.func.attr)
                if r and _transparent(r[1]) and not r[0].is_property(c.func.attr):
                    n += 1
                    err = _sig_error(r[1], c, 0 if r[0].is_static(c.func.attr) else 1)
            elif isinstance(c.func, (ast.Name, ast.Attribute)):
                k = None
                if isinstance(c.func, ast.Name):
                    r = tree.resolve(m, c.func.id) or (tree.resolve_import(extra[c.func.id]) if c.func.id in extra else None)
                    k = r[1] if r and r[0] == "class" else None
                if isinstance(k, ClassInfo) and not k.node.decorator_list:
                    r = tree.find_method(k, "__init__")
                    if r and r[0] is k and _transparent(r[1]):
                        n += 1
                        err = _sig_error(r[1], c, 1)
            if err:
                out.append(Finding(q + ": " + ast.unparse(c.func), m.rel, c.lineno, "call of `%s`: it %s" % (ast.unparse(c.func), err)))
    return out, n, "calls of package functions, methods and constructors fit the callee's parameters"


def r_attributes(tree):
    """classes without external bases: every attribute read from self is provided by the hierarchy"""
    out, n = [], 0
    subs = {}
    allc = [ci for m in tree.modules.values() for ci in m.classes.values()]
    for ci in allc:
        for c in tree.mro(ci):
            if isinstance(c, ClassInfo):
                subs.setdefault(c.qual, []).append(ci)
    stored = {}
    for m in tree.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                stored.setdefault(x.attr, True)
    for ci in allc:
        if tree.has_external_base(ci) or ci.node.decorator_list or ci.node.keywords:
            continue
        have = set(dir(object))
        dyn = False
        family = [c for c in tree.mro(ci) if isinstance(c, ClassInfo)]
        if any(len(s.qual) for s in subs.get(ci.qual, []) if s is not ci and tree.has_external_base(s)):
            continue
        for c in family:
            have |= set(c.methods) | set(c.setters)
            have |= {f[0] for f in c.fields}
            for x in ast.walk(c.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    have.add(x.attr)
                if isinstance(x, ast.Name) and x.id in ("setattr", "vars") or isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__setattr__"):
                    dyn = True
            for st in c.node.body:
                if isinstance(st, ast.Assign):
                    have |= {t.id for t in st.targets if isinstance(t, ast.Name)}
            if "__getattr__" in c.methods or "__getattribute__" in c.methods:
                dyn = True
        if dyn:
            continue
        # methods that only run on subclasses which provide more: an attribute every concrete subclass provides is fine
        leaves = [s for s in subs.get(ci.qual, []) if s is not ci]
        for name, fn in ci.methods.items():
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    n += 1
                    if x.attr in have or x.attr in stored:
                        continue
                    if leaves:
                        continue
                    out.append(Finding(ci.qual + "." + name + ": " + x.attr, ci.module.rel, x.lineno,
                                       "`self.%s` is read, but no method of %s or its bases ever provides it" % (x.attr, ci.node.name)))
    return out, n, "attributes read from self are provided by the class or its bases (classes without external bases)"


def r_inplace(tree):
    """no public function or method writes into an argument (directly, through a view, through an attribute it is kept in, or through
    a callee) which the reviewed code leaves alone"""
    import os
    from .inplace import Analysis
    from .loader import Tree
    ref = Tree(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "reference"), tag="ref")
    an, ra = Analysis(tree, list(functions(tree))), Analysis(ref, list(functions(ref)))
    known = {}
    for m, q, i in ra.facts():
        known.setdefault((m, q), set()).add(i)
    defined = {(f.m.name, f.q): f for f in ra.fns}
    out = []
    for (m, q, i), (f, line, msg) in sorted(an.facts().items(), key=lambda p: p[0]):
        g = defined.get((m, q))
        if g is None or any(x.startswith("_") and not x.endswith("__") for x in q.split(".")) or q.count(".") > (1 if f.cls is not None else 0):
            continue
        names = {g.params[k] for k in known.get((m, q), ()) if k < len(g.params)}
        if i in known.get((m, q), ()) or f.params[i] in names:
            continue
        out.append(Finding("%s.%s" % (m, q), f.m.rel, line, "%s %s, which belongs to the caller" % (q, msg)))
    return out, len(an.fns), "functions analysed for writes into their arguments"


# ------------------------------------------------------------------------------------------- distinct-positions (C04)
def r_positions(tree):
    """x.at[p].set(v) with repeated positions in p keeps an unspecified one of the values.  Position lists that are grown with
    `append` hold a site twice where a second move acts on it again; they must not reach such an assignment."""
    out, n = [], 0
    for m in tree.modules.values():
        defs, parent = {}, {}
        for _, q, fn, _, outer in functions_in_module(m):
            defs.setdefault(fn.name, []).append(fn)
            parent[fn] = outer[-1] if outer else None
        calls = [c for c in ast.walk(m.tree) if isinstance(c, ast.Call)]
        where = {}
        for fn in parent:
            for x in own(fn):
                where[x] = fn

        def is_append(c):
            d = dotted(tree, m, c.func)
            return d in ("jax.numpy.append", "numpy.append")

        def params(fn):
            return [a.arg for a in fn.args.posonlyargs + fn.args.args]

        def bindings(fn, name):
            """expressions (with component number) bound to a local name"""
            for x in own(fn):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            yield x.value, None
                        elif isinstance(t, ast.Tuple):
                            for k, e in enumerate(t.elts):
                                if isinstance(e, ast.Name) and e.id == name:
                                    yield x.value, k

        def repeats(e, fn, k=None, seen=()):
            if len(seen) > 12:
                return False
            if isinstance(e, ast.Tuple) and k is not None:
                return k < len(e.elts) and repeats(e.elts[k], fn, None, seen)
            if isinstance(e, ast.Call):
                if is_append(e):
                    return True
                if isinstance(e.func, ast.Name):
                    for g in defs.get(e.func.id, ()):
                        for r in own(g):
                            if isinstance(r, ast.Return) and r.value is not None and (g, k) not in seen and repeats(r.value, g, k, seen + ((g, k),)):
                                return True
                    return False
                d = dotted(tree, m, e.func)
                if d and d.split(".")[0] in ("jax", "numpy") and d.rsplit(".", 1)[1] in ("asarray", "array", "concatenate", "reshape", "ravel", "copy"):
                    return any(repeats(a, fn, None, seen) for a in e.args[:1])
                return False
            if isinstance(e, (ast.List, ast.Tuple)):
                return any(repeats(x, fn, None, seen) for x in e.elts)
            if isinstance(e, ast.Name):
                f = fn
                while f is not None:
                    b = list(bindings(f, e.id))
                    key = (f, e.id, k)
                    if key in seen:
                        return False
                    if b and any(repeats(v, f, c if c is not None else k, seen + (key,)) for v, c in b):
                        return True
                    if e.id in params(f):
                        i = params(f).index(e.id)
                        for c in calls:
                            if isinstance(c.func, ast.Name) and c.func.id == f.name and f in defs.get(f.name, ()):
                                a = c.args[i] if i < len(c.args) else next((w.value for w in c.keywords if w.arg == e.id), None)
                                if a is not None and not isinstance(a, ast.Starred) and c in where and repeats(a, where[c], None, seen + (key,)):
                                    return True
                        return False
                    if b:
                        return False
                    f = parent[f]
            return False

        for c in calls:
            f = c.func
            if isinstance(f, ast.Attribute) and f.attr == "set" and isinstance(f.value, ast.Subscript) and isinstance(f.value.value, ast.Attribute) \
                    and f.value.value.attr == "at" and c in where:
                n += 1
                if repeats(f.value.slice, where[c]):
                    out.append(Finding("%s.%s" % (m.name, where[c].name), m.rel, c.lineno,
                                       "the positions %s of this assignment are grown with append and can repeat; which value is kept is unspecified" % ast.unparse(f.value.slice)))
    return out, n, "functional array assignments whose positions were traced"


def functions_in_module(m):
    class One:
        modules = {m.name: m}
    return functions_in(One)


RULES = {"distinct-positions": r_positions, "restore-on-exit": r_restore, "guard-written-last": r_guard_last, "rank-collectives": r_collectives, "key-linear": r_keys,
         "fast-update-arguments": r_fast_update, "imports-resolve": r_imports, "names-defined": r_names, "signatures-fit": r_signatures,
         "attributes-provided": r_attributes, "arguments-left-alone": r_inplace}
FLOOR = {}
