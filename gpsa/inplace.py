"""Which arguments a function may write into (alias analysis, flow-sensitive inside a function, per attribute across the methods of a class).

A value aliases an argument only through constructs that hand the same memory on (names, attributes, slices, views, np.asarray);
anything else is taken to be fresh, so every reported write is one that reaches the caller's object when the path is taken.
Facts of the reviewed reference are the documented outputs (kernels that fill arrays they are given); new ones are findings."""
import ast

VIEWS = {"T", "real", "imag", "flat"}
VIEW_METHODS = {"reshape", "ravel", "squeeze", "transpose", "view", "swapaxes"}
VIEW_FUNCS = {"asarray", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "moveaxis", "expand_dims", "atleast_1d", "atleast_2d", "asanyarray",
              "ascontiguousarray"}
WRITERS = {"copyto", "fill_diagonal", "put", "shuffle", "place", "putmask"}
MUTATORS = {"sort", "fill", "append", "extend", "insert", "clear", "remove", "setdefault", "partition", "itemset", "update", "pop", "popitem", "reverse"}
ARRAY_ATTRS = {"shape", "dtype", "T", "ndim", "size", "dot", "conj", "conjugate", "astype", "reshape", "copy", "flatten", "ravel", "sum", "mean", "prod",
               "any", "all", "max", "min", "argsort", "nonzero", "cumsum", "squeeze", "transpose", "real", "imag"}
ARRAY_FUNCS = {"dot", "einsum", "sum", "prod", "concatenate", "unique", "argsort", "reshape", "asarray", "nonzero", "block", "diag", "outer", "matmul",
               "cumsum", "take", "argmax", "argmin", "mean", "max", "min", "any", "all", "copy", "tile", "repeat", "split", "transpose"}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
NOTHING = frozenset()


def params(fn):
    a = fn.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def traced(fn):
    """arrays of jax are never written in place"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ("jnp", "jax", "nkjax"):
            return True
    return False


class Fn:
    """one function: what it writes into and what its attributes alias on exit"""

    def __init__(self, an, m, q, fn, cls):
        self.an, self.m, self.q, self.fn, self.cls = an, m, q, fn, cls
        self.writes = []          # (origin, line, is_augmented_name, attr or None)
        self.exit = {}
        self.evid = set()
        self.params = params(fn)
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
        self.self = self.params[0] if cls is not None and self.params and not self.static else None
        self.traced = traced(fn)

    def run(self):
        self.writes, self.exit = [], {}
        env = {p: frozenset([("param", p)]) for p in self.params if p != self.self}
        self.attrs = {}
        self.block(self.fn.body, env, self.attrs)
        self.leave(self.attrs)

    def leave(self, attrs):
        for k, v in attrs.items():
            self.exit[k] = self.exit.get(k, NOTHING) | v

    # ------------------------------------------------------------ values
    def ev(self, e, env, at):
        if isinstance(e, ast.Name):
            return env.get(e.id, NOTHING)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.self:
                return at.get(e.attr, frozenset([("attr", e.attr)]))
            if e.attr in VIEWS:
                return self.ev(e.value, env, at)
            return NOTHING
        if isinstance(e, ast.Subscript):
            parts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if any(isinstance(p, (ast.List, ast.Compare)) for p in parts):
                return NOTHING
            if any(isinstance(p, ast.Slice) for p in parts) and all(
                    isinstance(p, (ast.Slice, ast.Constant)) or isinstance(p, ast.UnaryOp) and isinstance(p.operand, ast.Constant) for p in parts):
                return self.ev(e.value, env, at)
            return NOTHING
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy") and f.attr in VIEW_FUNCS and e.args:
                    if f.attr == "asarray" and (len(e.args) > 1 or any(k.arg == "dtype" for k in e.keywords)):
                        return NOTHING
                    return self.ev(e.args[0], env, at)
                if f.attr in VIEW_METHODS and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "jnp", "jax")):
                    return self.ev(f.value, env, at)
            return NOTHING
        if isinstance(e, ast.IfExp):
            return self.ev(e.body, env, at) | self.ev(e.orelse, env, at)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.ev(v, env, at) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.ev(e.value, env, at)
        return NOTHING

    # ------------------------------------------------------------ statements
    def write(self, os, node, aug=False, attr=None):
        for o in os:
            self.writes.append((o, node.lineno, aug, attr))

    def exprs(self, node, env, at):
        """writes and evidence inside the expressions of one statement"""
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and n.attr in ARRAY_ATTRS:
                self.evid |= self.ev(n.value, env, at) | self.attrname(n.value)
            if isinstance(n, ast.Subscript):
                self.evid |= self.ev(n.value, env, at) | self.attrname(n.value)
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            lib = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy")
            if lib and f.attr in ARRAY_FUNCS:
                for a in n.args:
                    self.evid |= self.ev(a, env, at) | self.attrname(a)
            if lib and f.attr in WRITERS and n.args:
                self.write(self.ev(n.args[0], env, at), n)
            elif isinstance(f, ast.Attribute) and f.attr == "at" and isinstance(f.value, ast.Attribute) and n.args:
                self.write(self.ev(n.args[0], env, at), n)
            elif isinstance(f, ast.Attribute) and f.attr in MUTATORS and not lib:
                self.write(self.ev(f.value, env, at), n)
            for k in n.keywords:
                if k.arg == "out":
                    self.write(self.ev(k.value, env, at), n)
            g = self.an.callee(self, f)
            if g is not None:
                off = 1 if g.self is not None else 0
                for i, a in enumerate(n.args):
                    if i + off < len(g.params) and g.params[i + off] in self.an.mut.get(g, ()):
                        self.write(self.ev(a, env, at), n)
                for k in n.keywords:
                    if k.arg in self.an.mut.get(g, ()):
                        self.write(self.ev(k.value, env, at), n)

    def attrname(self, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.self:
            return {("attr", e.attr)}
        return NOTHING

    def bind(self, t, v, env, at):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.self:
            at[t.attr] = v
        elif isinstance(t, ast.Subscript):
            self.write(self.ev(t.value, env, at), t)
            # a slot of something else now holds it: not followed
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e.value if isinstance(e, ast.Starred) else e, NOTHING, env, at)

    def block(self, body, env, at):
        """returns True if the end is not reached"""
        for s in body:
            if self.stmt(s, env, at):
                return True
        return False

    def merge(self, env, at, alts):
        live = [x for x in alts if x is not None]
        if not live:
            return True
        for k in set().union(*[set(e) for e, _ in live]):
            env[k] = frozenset().union(*[e.get(k, NOTHING) for e, _ in live])
        for k in set().union(*[set(a) for _, a in live]):
            at[k] = frozenset().union(*[a.get(k, frozenset([("attr", k)])) for _, a in live])
        return False

    def stmt(self, s, env, at):
        if isinstance(s, FUNC + (ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return False
        if isinstance(s, ast.If):
            self.exprs(s.test, env, at)
            alts = []
            for b in (s.body, s.orelse):
                e, a = dict(env), dict(at)
                alts.append(None if self.block(b, e, a) else (e, a))
            return self.merge(env, at, alts)
        if isinstance(s, (ast.For, ast.While)):
            self.exprs(s.iter if isinstance(s, ast.For) else s.test, env, at)
            for _ in range(2):
                e, a = dict(env), dict(at)
                if isinstance(s, ast.For):
                    self.bind(s.target, NOTHING, e, a)
                self.block(s.body, e, a)
                self.merge(env, at, [(dict(env), dict(at)), (e, a)])
            return self.block(s.orelse, env, at)
        if isinstance(s, ast.With):
            for i in s.items:
                self.exprs(i.context_expr, env, at)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, NOTHING, env, at)
            return self.block(s.body, env, at)
        if isinstance(s, ast.Try):
            r = self.block(s.body, env, at) | self.block(s.orelse, env, at)
            for h in s.handlers:
                e, a = dict(env), dict(at)
                self.block(h.body, e, a)
                self.merge(env, at, [(dict(env), dict(at)), (e, a)])
            self.block(s.finalbody, env, at)
            return bool(r and not s.handlers)
        if isinstance(s, ast.Assign):
            self.exprs(s.value, env, at)
            for t in s.targets:
                if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                    vs = [self.ev(v, env, at) for v in s.value.elts]
                    for x, v in zip(t.elts, vs):
                        self.bind(x, v, env, at)
                else:
                    self.bind(t, self.ev(s.value, env, at), env, at)
            return False
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.exprs(s.value, env, at)
                self.bind(s.target, self.ev(s.value, env, at), env, at)
            return False
        if isinstance(s, ast.AugAssign):
            self.exprs(s.value, env, at)
            t = s.target
            if isinstance(t, ast.Subscript):
                self.write(self.ev(t.value, env, at), s)
            elif not self.traced:
                at_ = next(iter(self.attrname(t)), (None, None))[1]
                self.write(self.ev(t, env, at), s, True, at_)
            return False
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ev(t.value, env, at), s)
            return False
        self.exprs(s, env, at)
        if isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return):
                self.leave(at)
            return True
        return isinstance(s, (ast.Break, ast.Continue)) and False


class Analysis:
    def __init__(self, tree, functions):
        self.tree = tree
        self.fns = [Fn(self, m, q, fn, cls) for m, q, fn, cls in functions if not any(isinstance(d, ast.Name) and d.id == "overload" for d in fn.decorator_list)]
        self.by_node = {id(f.fn): f for f in self.fns}
        self.mut = {}
        for _ in range(4):
            old = {k: set(v) for k, v in self.mut.items()}
            for f in self.fns:
                f.run()
            for f in self.fns:
                self.mut[f] = {o[1] for o, _, aug, attr in f.writes if o[0] == "param" and (not aug or self.array(f, o, attr))}
            if old == self.mut:
                break

    def callee(self, f, e):
        if isinstance(e, ast.Name):
            r = self.tree.resolve(f.m, e.id)
            n = r[2] if isinstance(r, tuple) and len(r) > 2 else r
            if isinstance(n, list):
                n = n[-1]
            return self.by_node.get(id(n))
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == f.self and f.cls is not None:
            r = self.tree.find_method(f.cls, e.attr)
            return self.by_node.get(id(r[1])) if r else None
        return None

    def methods(self, ci):
        out = {}
        for k in self.tree.mro(ci):
            if isinstance(k, str):
                continue
            for n, fn in k.methods.items():
                f = self.by_node.get(id(fn))
                if f is not None and n not in out:
                    out[n] = f
        return out

    def related(self, f):
        """the function itself, or the methods that share its object"""
        if f.cls is None:
            return [f]
        out = []
        for m in self.tree.modules.values():
            for ci in m.classes.values():
                if f.cls in self.tree.mro(ci):
                    for g in self.methods(ci).values():
                        if g not in out:
                            out.append(g)
        return out or [f]

    def array(self, f, o, attr):
        if o in f.evid:
            return True
        names = {attr} if attr else set()
        if o[0] == "attr":
            names.add(o[1])
        return any(("attr", a) in g.evid for a in names for g in self.related(f))

    def facts(self):
        """{(module, function, position of the argument): (line, message)}"""
        out = {}
        for f in self.fns:
            for o, line, aug, attr in f.writes:
                if o[0] == "param" and (not aug or self.array(f, o, attr)):
                    out.setdefault((f.m.name, f.q, f.params.index(o[1])), (f, line, "writes into its argument `%s`" % o[1]))
        for m in self.tree.modules.values():
            for ci in m.classes.values():
                ms = self.methods(ci)
                held = {}
                for f in ms.values():
                    for a, os in f.exit.items():
                        for o in os:
                            if o[0] == "param":
                                held.setdefault(a, []).append((f, o[1]))
                for g in ms.values():
                    for o, line, aug, attr in g.writes:
                        if o[0] == "attr" and o[1] in held and (not aug or self.array(g, o, attr)):
                            for f, p in held[o[1]]:
                                out.setdefault((f.m.name, f.q, f.params.index(p)),
                                               (f, f.fn.lineno, "keeps its argument `%s` as self.%s, which %s (line %d) writes into" % (p, o[1], g.q, line)))
        return out
