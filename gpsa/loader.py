"""Parse a source tree and index modules, classes, functions and imports (nothing is imported)."""
import ast
import os


class ClassInfo:
    def __init__(self, module, node, qual):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = qual
        self.methods = {}
        self.setters = {}
        self.fields = []          # ordered (name, annotation node|None, default node|None)
        self.bases = node.bases
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [ast.unparse(d) for d in st.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    self.setters[st.name] = st
                else:
                    self.methods[st.name] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.annotation, st.value))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.fields.append((t.id, None, st.value))

    def is_property(self, name):
        m = self.methods.get(name)
        if m is None:
            return False
        for d in m.decorator_list:
            s = ast.unparse(d)
            if s in ("property", "cached_property", "functools.cached_property", "abc.abstractproperty"):
                return True
        return False

    def is_static(self, name):
        return any(ast.unparse(d) == "staticmethod" for d in self.methods[name].decorator_list)

    def is_classmethod(self, name):
        return any(ast.unparse(d) == "classmethod" for d in self.methods[name].decorator_list)


class Module:
    def __init__(self, name, path, rel, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.src = src
        self.tree = ast.parse(src, filename=rel)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.functions = {}   # name -> list of FunctionDef (several for dispatch)
        self.classes = {}
        self.assigns = {}     # name -> value node (last)
        self.imports = {}     # local name -> ('mod', dotted) | ('from', module, attr)
        self._index(self.tree.body)

    def _index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions.setdefault(st.name, []).append(st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st, self.name + "." + st.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._index(st.body)
                for h in getattr(st, "handlers", []):
                    self._index(h.body)
                self._index(st.orelse)
        for st in body:
            self.add_import(st, self.imports)

    def add_import(self, st, table):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    table[a.asname] = ("mod", a.name)
                else:
                    table[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                table[a.asname or a.name] = ("from", base, a.name)


class Tree:
    """A parsed package tree rooted at `root` (e.g. /repo)."""

    def __init__(self, root, packages=("GPSKet",), tag="cur"):
        self.root = root
        self.tag = tag
        self.modules = {}
        self.errors = []
        for pkg in packages:
            base = os.path.join(root, pkg)
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d not in ("__pycache__", ".git"))
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    try:
                        with open(path, encoding="utf-8") as fh:
                            src = fh.read()
                        self.modules[name] = Module(name, path, rel, src)
                    except (SyntaxError, UnicodeDecodeError, OSError) as e:
                        self.errors.append((rel, str(e)))

    # --- name resolution -------------------------------------------------
    def resolve(self, module, name, _depth=0):
        """-> ('func', Module, [nodes]) | ('class', ClassInfo) | ('assign', Module, node) |
              ('module', dotted) | ('ext', dotted) | None"""
        if _depth > 12:
            return None
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.functions:
            return ("func", module, module.functions[name])
        if name in module.assigns:
            return ("assign", module, module.assigns[name])
        if name in module.imports:
            return self.resolve_import(module.imports[name], _depth)
        # submodule of a package
        sub = module.name + "." + name
        if module.is_pkg and sub in self.modules:
            return ("module", sub)
        return None

    def resolve_import(self, imp, _depth=0):
        if imp[0] == "mod":
            return ("module", imp[1]) if imp[1] in self.modules else ("ext", imp[1])
        _, base, attr = imp
        if base in self.modules:
            m = self.modules[base]
            r = self.resolve(m, attr, _depth + 1)
            if r is not None:
                return r
            if base + "." + attr in self.modules:
                return ("module", base + "." + attr)
            return ("missing", base + "." + attr)
        return ("ext", base + "." + attr)

    def class_of_expr(self, module, node):
        if isinstance(node, ast.Name):
            r = self.resolve(module, node.id)
            if r and r[0] == "class":
                return r[1]
            if r and r[0] in ("ext", "module"):
                return r[1]
            return None
        if isinstance(node, ast.Attribute):
            b = self.class_of_expr(module, node.value)
            if isinstance(b, str):
                if b in self.modules:
                    r = self.resolve(self.modules[b], node.attr)
                    if r and r[0] == "class":
                        return r[1]
                    if r and r[0] in ("module", "ext"):
                        return r[1]
                return b + "." + node.attr
        if isinstance(node, ast.Subscript):
            return self.class_of_expr(module, node.value)
        return None

    def mro(self, ci):
        """simple linearisation: class, then bases depth-first; strings = external bases"""
        out = [ci]
        for b in ci.bases:
            c = self.class_of_expr(ci.module, b)
            if isinstance(c, ClassInfo):
                for x in self.mro(c):
                    if x not in out:
                        out.append(x)
            elif isinstance(c, str):
                if c not in out:
                    out.append(c)
            else:
                s = ast.unparse(b)
                if s not in out:
                    out.append(s)
        return out

    def find_method(self, ci, name, after=None):
        mro = self.mro(ci)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro[1:]
        for c in mro:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c, c.methods[name]
        return None

    def find_setter(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if name in c.setters:
                    return c, c.setters[name]
                if name in c.methods:
                    return None
        return None

    def has_external_base(self, ci):
        return any(isinstance(c, str) and c not in ("object", "abc.ABC") for c in self.mro(ci))

    def dataclass_fields(self, ci):
        """field order (base first, overriding keeps position) for dataclass-like classes"""
        order = {}
        for c in reversed([c for c in self.mro(ci) if isinstance(c, ClassInfo)]):
            for n, ann, d in c.fields:
                if ann is not None:
                    order[n] = (c, ann, d)
        return order

    def count_functions(self):
        return sum(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) for m in self.modules.values() for n in ast.walk(m.tree))
