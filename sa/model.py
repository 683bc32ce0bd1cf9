"""Program model: modules, bindings, classes and scopes of the analysed package.

Everything is read from the source text with `ast`; nothing is imported."""
import ast
import os

PKG = "pieshell"


class AnalysisError(Exception):
    """The analysis could not be carried out (anchor gone, syntax error, limit hit)."""


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


class FuncInfo(object):
    def __init__(self, node, module, cls, parent, qualname):
        self.node, self.module, self.cls, self.parent, self.qualname = node, module, cls, parent, qualname
        self.name = getattr(node, "name", "<lambda>")
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = False
        self.locals = set()
        self.globals_decl = set()
        self.nonlocals_decl = set()
        self.decorators = list(getattr(node, "decorator_list", []))
        self._scan()

    def _scan(self):
        a = self.node.args
        for arg in list(getattr(a, "posonlyargs", [])) + a.args + a.kwonlyargs:
            self.locals.add(arg.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]
        sc = _ScopeScan()
        for s in body:
            sc.visit(s)
        self.is_gen = sc.has_yield
        self.globals_decl = sc.globals_decl
        self.nonlocals_decl = sc.nonlocals_decl
        self.locals |= sc.stored
        self.locals -= self.globals_decl
        self.locals -= self.nonlocals_decl

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in list(getattr(a, "posonlyargs", [])) + a.args]

    @property
    def loc(self):
        return "%s:%s" % (self.module.rel, self.qualname)

    def __repr__(self):
        return "<fn %s>" % self.loc


class _ScopeScan(ast.NodeVisitor):
    """Names bound in one function body (not in nested functions)."""
    def __init__(self):
        self.stored = set()
        self.globals_decl = set()
        self.nonlocals_decl = set()
        self.has_yield = False

    def visit_FunctionDef(self, node):
        self.stored.add(node.name)
        for d in node.decorator_list + node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stored.add(node.name)
        for d in node.decorator_list + node.bases:
            self.visit(d)

    def visit_Lambda(self, node):
        for d in node.args.defaults:
            self.visit(d)

    def _comp(self, node):
        # only the first iterable is evaluated in this scope; named expressions leak out
        self.visit(node.generators[0].iter)
        for sub in ast.walk(node):
            if isinstance(sub, ast.NamedExpr):
                self.stored.add(sub.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.stored.add(node.id)

    def visit_Global(self, node):
        self.globals_decl.update(node.names)

    def visit_Nonlocal(self, node):
        self.nonlocals_decl.update(node.names)

    def visit_ExceptHandler(self, node):
        if node.name:
            self.stored.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.stored.add(a.asname or a.name.split(".")[0])

    def visit_ImportFrom(self, node):
        for a in node.names:
            if a.name != "*":
                self.stored.add(a.asname or a.name)

    def visit_Yield(self, node):
        self.has_yield = True
        self.generic_visit(node)
    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, node):
        if node.name:
            self.stored.add(node.name)
        self.generic_visit(node)

    def visit_MatchStar(self, node):
        if node.name:
            self.stored.add(node.name)


class ClassInfo(object):
    def __init__(self, node, module, parent, qualname, prog):
        self.node, self.module, self.parent, self.qualname, self.prog = node, module, parent, qualname, prog
        self.name = node.name
        self.methods = {}     # name -> FuncInfo
        self.props = {}       # name -> {"get": FuncInfo, "set":, "del":}
        self.attrs = {}       # name -> expr
        self.classes = {}
        self._mro = None
        self._collect(node.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, FUNCS):
                fi = FuncInfo(s, self.module, self, None, self.qualname + "." + s.name)
                fi.parent_cls_scope = self
                self.prog.register(fi)
                kind = None
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        kind = "get"
                    elif isinstance(d, ast.Attribute) and d.attr == "cached_property":
                        kind = "get"
                    elif isinstance(d, ast.Name) and d.id == "cached_property":
                        kind = "get"
                    elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter"):
                        kind = {"setter": "set", "deleter": "del", "getter": "get"}[d.attr]
                if kind:
                    if kind == "get" or s.name not in self.props:
                        self.props.setdefault(s.name, {})
                    self.props[s.name] = dict(self.props[s.name])
                    self.props[s.name][kind] = fi
                    self.methods.pop(s.name, None)
                    self.attrs.pop(s.name, None)
                else:
                    self.methods[s.name] = fi
                    self.attrs.pop(s.name, None)
                    self.props.pop(s.name, None)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self.module, self, self.qualname + "." + s.name, self.prog)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # alias of a method in the same class
                        if isinstance(s.value, ast.Name) and s.value.id in self.methods:
                            self.methods[t.id] = self.methods[s.value.id]
                        elif (isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)
                              and s.value.func.id == "property"):
                            acc = {}
                            names = ["get", "set", "del"]
                            for k, a in zip(names, s.value.args):
                                if isinstance(a, ast.Name) and a.id in self.methods:
                                    acc[k] = self.methods[a.id]
                            for kw in s.value.keywords:
                                k = {"fget": "get", "fset": "set", "fdel": "del"}.get(kw.arg)
                                if k and isinstance(kw.value, ast.Name) and kw.value.id in self.methods:
                                    acc[k] = self.methods[kw.value.id]
                            self.props[t.id] = acc
                        else:
                            self.attrs[t.id] = s.value
                            self.methods.pop(t.id, None)
                            self.props.pop(t.id, None)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                if isinstance(s.value, (ast.Tuple, ast.List)):
                                    self.attrs[e.id] = s.value.elts[i]
                                else:
                                    self.attrs[e.id] = ast.copy_location(
                                        ast.Subscript(s.value, ast.Constant(i), ast.Load()), s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for b in ("body", "orelse", "finalbody"):
                    self._collect(getattr(s, b, []))

    @property
    def mro(self):
        """List of ClassInfo and (for classes outside the package) dotted names."""
        if self._mro is None:
            self._mro = [self]   # recursion guard
            seqs = []
            direct = []
            for b in self.node.bases:
                r = self.prog.resolve_class_expr(self.module, b, self)
                direct.append(r)
                seqs.append(list(r.mro) if isinstance(r, ClassInfo) else [r])
            seqs.append(list(direct))
            res = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in o[1:] for o in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                seqs = [[x for x in s if x is not c and x != c] for s in seqs]
            if "object" not in res:
                res.append("object")
            self._mro = res
        return self._mro

    def find(self, name):
        """(kind, what, owner) of a class attribute, or None."""
        for c in self.mro:
            if isinstance(c, ClassInfo):
                if name in c.props:
                    return ("prop", c.props[name], c)
                if name in c.methods:
                    return ("method", c.methods[name], c)
                if name in c.attrs:
                    return ("attr", c.attrs[name], c)
                if name in c.classes:
                    return ("class", c.classes[name], c)
        return None

    @property
    def ext_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassInfo)]

    def is_subclass(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s:%s>" % (self.module.rel, self.qualname)


class Module(object):
    def __init__(self, prog, name, path, rel, source=None):
        self.prog, self.name, self.path, self.rel = prog, name, path, rel
        if source is None:
            with open(path, "rb") as f:
                source = f.read()
        self.source = source
        try:
            self.tree = ast.parse(self.source, path)
        except SyntaxError as e:
            raise AnalysisError("cannot parse %s: %s" % (rel, e))
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.bind = {}    # name -> [(kind, payload, conditional)]
        self.stars = []
        self.funcs = {}
        self.classes = {}

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def collect(self):
        self._collect(self.tree.body, False)
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Global):
                pass
        self.global_writes = set()
        for node in ast.walk(self.tree):
            if isinstance(node, FUNCS):
                g = set()
                for s in ast.walk(node):
                    if isinstance(s, ast.Global):
                        g.update(s.names)
                if g:
                    for s in ast.walk(node):
                        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store) and s.id in g:
                            self.global_writes.add(s.id)

    def absname(self, node):
        if not node.level:
            return node.module
        base = self.package.split(".")
        base = base[:len(base) - (node.level - 1)]
        return ".".join(base + ([node.module] if node.module else []))

    def add(self, name, kind, payload, cond):
        if not cond:
            self.bind[name] = []
        self.bind.setdefault(name, []).append((kind, payload))

    def _collect(self, body, cond):
        for s in body:
            if isinstance(s, FUNCS):
                fi = FuncInfo(s, self, None, None, s.name)
                self.prog.register(fi)
                self.funcs[s.name] = fi
                self.add(s.name, "func", fi, cond)
            elif isinstance(s, ast.ClassDef):
                ci = ClassInfo(s, self, None, s.name, self.prog)
                self.classes[s.name] = ci
                self.add(s.name, "class", ci, cond)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.add(a.asname, "module", a.name, cond)
                    else:
                        self.add(a.name.split(".")[0], "module", a.name.split(".")[0], cond)
            elif isinstance(s, ast.ImportFrom):
                mod = self.absname(s)
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(mod)
                    else:
                        self.add(a.asname or a.name, "from", (mod, a.name), cond)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in targets:
                    self._target(t, s.value, cond or isinstance(s, ast.AugAssign))
            elif isinstance(s, (ast.If, ast.While)):
                self._collect(s.body, True)
                self._collect(s.orelse, True)
            elif isinstance(s, ast.For):
                self._target(s.target, None, True)
                self._collect(s.body, True)
                self._collect(s.orelse, True)
            elif isinstance(s, ast.Try):
                self._collect(s.body, True)
                for h in s.handlers:
                    self._collect(h.body, True)
                self._collect(s.orelse, True)
                self._collect(s.finalbody, cond)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        self._target(i.optional_vars, None, True)
                self._collect(s.body, cond)

    def _target(self, t, value, cond):
        if isinstance(t, ast.Name):
            self.add(t.id, "expr", value, cond)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                v = None
                if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                    v = value.elts[i]
                self._target(e, v, cond)


class Program(object):
    def __init__(self, root):
        self.root = root
        self.pkgdir = os.path.join(root, PKG)
        self.modules = {}
        self.functions = []
        self.by_node = {}
        if not os.path.isdir(self.pkgdir):
            raise AnalysisError("no package directory %s" % self.pkgdir)
        for d, dirs, files in os.walk(self.pkgdir):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.pkgdir)
                name = PKG + "." + rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-len(".__init__")]
                self.modules[name] = Module(self, name, path, rel)
        for m in self.modules.values():
            m.collect()
        self.package = sorted(self.modules.values(), key=lambda m: m.rel)
        # nested functions and lambdas
        for m in self.modules.values():
            self._nested(m)

    def add_source(self, name, source):
        """Adds code that uses the package (a scenario) to the program that is analysed; it is never run."""
        m = Module(self, PKG + "." + name, name + ".py", name + ".py", source)
        self.modules[m.name] = m
        m.collect()
        self._nested(m)
        return m

    def register(self, fi):
        self.functions.append(fi)
        self.by_node[fi.node] = fi

    def _nested(self, m):
        prog = self

        class V(ast.NodeVisitor):
            def __init__(self):
                self.stack = []

            def func(self, node):
                if node not in prog.by_node:
                    parent = self.stack[-1] if self.stack else None
                    name = getattr(node, "name", "<lambda>")
                    q = (parent.qualname + "." if parent else "") + name
                    fi = FuncInfo(node, m, None, parent, q)
                    prog.register(fi)
                fi = prog.by_node[node]
                self.stack.append(fi)
                self.generic_visit(node)
                self.stack.pop()
            visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = func

            def visit_ClassDef(self, node):
                if self.stack:   # class nested in a function
                    ci = ClassInfo(node, m, None, self.stack[-1].qualname + "." + node.name, prog)
                    prog.by_node[node] = ci
                self.generic_visit(node)
        V().visit(m.tree)

    # -- resolution ---------------------------------------------------------
    def resolve(self, module, name, seen=None):
        """All things a module-level name can denote: list of (kind, payload, module)."""
        seen = seen or set()
        if (module.name, name) in seen:
            return []
        seen.add((module.name, name))
        if name in module.bind:
            res = []
            for kind, payload in module.bind[name]:
                if kind == "from":
                    res.extend(self.resolve_from(payload[0], payload[1], seen))
                elif kind == "module":
                    res.append(self.module_value(payload))
                else:
                    res.append((kind, payload, module))
            return res
        sub = module.name + "." + name
        for s in reversed(module.stars):
            if s in self.modules:
                r = self.resolve(self.modules[s], name, seen)
                if r and not name.startswith("_"):
                    return r
        if sub in self.modules and module.is_pkg:
            return [("module", sub, None)]
        return []

    def module_value(self, dotted):
        if dotted in self.modules:
            return ("module", dotted, None)
        return ("ext", dotted, None)

    def resolve_from(self, mod, name, seen=None):
        if mod in self.modules:
            m = self.modules[mod]
            r = self.resolve(m, name, seen)
            if r:
                return r
            if mod + "." + name in self.modules:
                return [("module", mod + "." + name, None)]
            return [("missing", (mod, name), m)]
        return [("ext", (mod + "." if mod else "") + name, None)]

    def resolve_class_expr(self, module, expr, scope_cls=None):
        """ClassInfo or dotted external name of a base class expression."""
        if isinstance(expr, ast.Name):
            if scope_cls is not None and scope_cls.parent is not None and expr.id in scope_cls.parent.classes:
                return scope_cls.parent.classes[expr.id]
            rs = self.resolve(module, expr.id)
            for r in rs:
                if r[0] == "class":
                    return r[1]
                if r[0] == "ext":
                    return r[1]
                if r[0] == "expr" and isinstance(r[1], (ast.Name, ast.Attribute)):
                    return self.resolve_class_expr(r[2], r[1])
            return expr.id
        if isinstance(expr, ast.Attribute):
            b = self.resolve_any(module, expr.value)
            for r in b:
                if r[0] == "module":
                    for x in self.resolve_from(r[1], expr.attr):
                        if x[0] == "class":
                            return x[1]
                        if x[0] == "ext":
                            return x[1]
                if r[0] == "ext":
                    return r[1] + "." + expr.attr
                if r[0] == "class" and expr.attr in r[1].classes:
                    return r[1].classes[expr.attr]
        return "?" + ast.dump(expr)[:40]

    def resolve_any(self, module, expr):
        if isinstance(expr, ast.Name):
            return self.resolve(module, expr.id)
        if isinstance(expr, ast.Attribute):
            res = []
            for r in self.resolve_any(module, expr.value):
                if r[0] == "module":
                    res.extend(self.resolve_from(r[1], expr.attr))
                elif r[0] == "ext":
                    res.append(("ext", r[1] + "." + expr.attr, None))
            return res
        return []

    # -- anchors --------------------------------------------------------------
    def module(self, rel):
        if rel.endswith(".py"):
            rel = rel[:-3].replace("/", ".")
            if rel == "__init__" or rel.endswith(".__init__"):
                rel = rel[:-9]
        name = PKG + ("." + rel if rel else "")
        if name not in self.modules:
            raise AnalysisError("anchor gone: module %s" % name)
        return self.modules[name]

    def cls(self, rel, name):
        m = self.module(rel)
        for r in self.resolve(m, name):
            if r[0] == "class":
                return r[1]
        raise AnalysisError("anchor gone: class %s in %s" % (name, m.name))

    def func(self, rel, name):
        m = self.module(rel)
        for r in self.resolve(m, name):
            if r[0] == "func":
                return r[1]
        raise AnalysisError("anchor gone: function %s in %s" % (name, m.name))

    def method(self, rel, cls, name):
        f = self.cls(rel, cls).find(name)
        if f is None or f[0] != "method":
            raise AnalysisError("anchor gone: method %s.%s in %s" % (cls, name, rel))
        return f[1]

    def all_classes(self):
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                if isinstance(node, ast.ClassDef):
                    c = self.by_node.get(node) or self._find_cls(m, node)
                    if c is not None:
                        yield c

    def _find_cls(self, m, node):
        def rec(classes):
            for c in classes.values():
                if c.node is node:
                    return c
                r = rec(c.classes)
                if r:
                    return r
        return rec(m.classes)

    def subclasses(self, base):
        return [c for c in self.all_classes() if base in c.mro and c is not base]
