"""C24: every name, member, attribute and call form the code depends on exists."""
from .names import *
from . import calls_index

TECHNIQUE = ("name resolution over the scopes, imports and class hierarchies of the whole package: every variable, module "
             "member and attribute of the package's own objects that is read, and every call whose callee is one of the "
             "package's functions; a forward dataflow analysis for variables that nothing can have bound yet")
KNOWN_DECORATORS = {"property", "staticmethod", "classmethod", "contextlib.contextmanager", "functools.wraps", "init.register",
                    "pieshell.init.register", "abc.abstractmethod", "functools.lru_cache"}
# there only while a prompt is
INTERACTIVE = {"sys.ps1", "sys.ps2", "sys.last_type", "sys.last_value", "sys.last_traceback"}


def check(chk):
    chk.rule("variable", "every variable that is read is bound somewhere")
    chk.rule("bound", "no variable is read where nothing can have bound it")
    chk.rule("member", "every member of a module exists")
    chk.rule("attribute", "every attribute of the package's own objects that is read exists")
    chk.rule("settable", "no attribute is set that can only be read")
    chk.rule("call", "every call of one of the package's functions fits its parameters")
    chk.rule("roles", "no two arguments are given in each other's place")
    chk.rule("raisable", "what is raised or caught is an exception")
    N = Names(chk)
    for m in chk.prog.package:
        at = calls_index.where(m.tree)
        Module(chk, N, m, at).run()
    chk.assumptions += ["attributes of objects whose class is not known from the code around them are not checked",
                        "attributes that objects of Environment and commands make up are commands"]


class Module(object):
    def __init__(self, chk, N, m, at):
        self.chk, self.N, self.m, self.at = chk, N, m, at

    def ob(self, rule, ok, node, text):
        self.chk.ob(rule, ok, "%s:%s:%d" % (self.m.rel, self.at.get(node, "") or "<module>", getattr(node, "lineno", 0)), text)

    def run(self):
        N, m = self.N, self.m
        guarded = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and any(catches(h, ("NameError", "AttributeError", "ImportError")) for h in n.handlers):
                for x in n.body:
                    guarded |= set(ast.walk(x))
        # (what tries whether something is there may find it is not)
        for n in ast.walk(m.tree):
            if n in guarded:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and hasattr(n, "_scope"):
                self.variable(n)
            elif isinstance(n, ast.Attribute):
                self.attribute(n)
            elif isinstance(n, ast.Call):
                self.call(n)
            elif isinstance(n, ast.ImportFrom):
                self.import_(n)
            elif isinstance(n, ast.Raise) and n.exc is not None:
                self.raisable(n.exc.func if isinstance(n.exc, ast.Call) else n.exc, n)
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                for t in (n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]):
                    self.raisable(t, n)
        for n in ast.walk(m.tree):
            if isinstance(n, FUNCS):
                Flow(self, n).run()

    def variable(self, n):
        l = n._scope.lookup(n.id)
        if l[0] == "local":
            return
        N = self.N
        ok = n.id in N.bound[self.m] or hasattr(builtins, n.id) or n.id in MODULE_NAMES or N.open_module(self.m)
        if not ok:
            s = n._scope
            while s is not None and not ok:
                ok = bool(s.star)
                s = s.parent
        self.ob("variable", ok, n, "%s is not defined" % n.id)

    def import_(self, n):
        mod = self.m.absname(n)
        if mod in self.N.prog.modules:
            t = self.N.prog.modules[mod]
            for a in n.names:
                if a.name != "*":
                    ok = a.name in self.N.bound[t] or a.name in MODULE_NAMES or self.N.open_module(t)
                    self.ob("member", ok, n, "%s has no %s to import" % (mod, a.name))
        elif mod and (mod == "pieshell" or mod.startswith("pieshell.")):
            self.ob("member", False, n, "there is no module %s" % mod)

    def attribute(self, n):
        if isinstance(n.ctx, ast.Load) and hasattr(n, "_scope"):
            d = self.N.denotes(n)
            base = self.N.denotes(n.value)
            if base and base[0][0] in ("module", "ext"):
                # bound several times: one of them may have it
                ok = not d or any(x[0] != "missing" for x in d) or d[0][1] in INTERACTIVE or (
                    base[0][0] == "ext" and n.attr in self.assigned(base[0][1]))
                self.ob("member", ok, n, "%s does not exist" % (d[0][1] if d else "?"))
                return
        b = self.builtin(n.value)
        if b is not None and isinstance(n.ctx, ast.Load):
            self.ob("attribute", hasattr(b, n.attr), n, "%s has no attribute %s" % (n.value.id, n.attr))
            return
        c = self.own(n.value) or self.made(n.value)
        if c is None:
            if isinstance(n.ctx, ast.Load) and n.attr.startswith("_") and not n.attr.startswith("__") and not self.foreign():
                self.ob("attribute", n.attr in self.N.defined or n.attr in self.N.common or self.external(n), n,
                        "nothing has an attribute %s" % n.attr)
            return
        if isinstance(n.ctx, ast.Store):
            f = c.find(n.attr)
            ro = f and f[0] == "prop" and "set" not in f[1] and not c.find("__setattr__")
            self.ob("settable", not ro, n, "%s of %s can only be read" % (n.attr, c.name))
            return
        if not isinstance(n.ctx, ast.Load):
            return
        names, closed = self.N.attrs(c)
        if n.attr in names or n.attr in self.N.dynamic or hasattr(object, n.attr):
            self.ob("attribute", True, n, "")
        elif closed:
            # set by others on what may be one of these
            self.ob("attribute", self.set_elsewhere(n.attr), n, "%s has no attribute %s" % (c.name, n.attr))
        elif n.attr.startswith("_") and not n.attr.startswith("__"):
            self.ob("attribute", n.attr in self.N.defined or n.attr in self.N.common, n, "%s has no attribute %s" % (c.name, n.attr))

    def assigned(self, what):
        """What the package sets on something from outside."""
        key = ("assigned", what)
        if key not in self.N.stats:
            self.N.stats[key] = {n.attr for m in self.N.prog.package for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)
                                 and isinstance(n.ctx, ast.Store) and hasattr(n.value, "_scope")
                                 and ("ext", what) in self.N.denotes(n.value)}
        return self.N.stats[key]

    def foreign(self):
        """The module deals with objects of libraries that are not known here."""
        if not hasattr(self, "_foreign"):
            self._foreign = False
            for n in ast.walk(self.m.tree):
                for a in n.names if isinstance(n, ast.Import) else ():
                    top = a.name.split(".")[0]
                    self._foreign |= top not in sys.stdlib_module_names and top not in self.N.prog.modules
                if isinstance(n, ast.ImportFrom):
                    top = (self.m.absname(n) or "").split(".")[0]
                    self._foreign |= top not in sys.stdlib_module_names and top not in self.N.prog.modules
        return self._foreign

    def set_elsewhere(self, attr):
        for m in self.N.prog.package:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and not (
                        isinstance(n.value, ast.Name) and n.value.id == "self"):
                    return True
        return False

    def external(self, n):
        """Hangs on something from outside the package."""
        while isinstance(n, (ast.Attribute, ast.Call, ast.Subscript)):
            n = n.func if isinstance(n, ast.Call) else n.value
        d = self.N.denotes(n) if isinstance(n, ast.Name) else []
        if any(x[0] == "ext" for x in d):
            return True
        # or on what was made from it
        s = getattr(n, "_scope", None)
        if not isinstance(n, ast.Name) or s is None:
            return True
        l = s.lookup(n.id)
        if l[0] != "local":
            return False
        for x in ast.walk(l[1].node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in x.targets):
                if any(isinstance(y, ast.Name) and any(z[0] == "ext" for z in self.N.denotes(y)) for y in ast.walk(x.value)):
                    return True
        return False

    def builtin(self, v):
        """The builtin a name denotes."""
        if isinstance(v, ast.Name) and hasattr(v, "_scope") and v._scope.lookup(v.id)[0] == "global" \
                and v.id not in self.N.bound[self.m] and not self.N.open_module(self.m) and not self.N.denotes(v):
            return getattr(builtins, v.id, None)

    def made(self, v):
        """The class of the package a variable holds an object of: it is bound once, to a new one."""
        if not isinstance(v, ast.Name) or not hasattr(v, "_scope"):
            return None
        l = v._scope.lookup(v.id)
        if l[0] != "local" or l[2] is not None or l[1].kind != "function" or isinstance(l[1].node, ast.Lambda) \
                or v.id in [a.arg for a in args_of(l[1].node)]:
            return None
        given = None
        for x in ast.walk(l[1].node):
            if isinstance(x, ast.Name) and x.id == v.id and isinstance(x.ctx, (ast.Store, ast.Del)):
                if given is not None:
                    return None
                given = x
            elif isinstance(x, ast.ExceptHandler) and x.name == v.id or isinstance(x, FUNCS + (ast.ClassDef,)) \
                    and x is not l[1].node and x.name == v.id:
                return None
        for x in ast.walk(l[1].node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and x.targets[0] is given and isinstance(x.value, ast.Call):
                f = x.value.func
                if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "type" and len(f.args) == 1:
                    return self.own(f.args[0])
                d = self.N.denotes(f) if hasattr(f, "_scope") else []
                if len(d) == 1 and d[0][0] == "class":
                    n = d[0][1].find("__new__")
                    if n is None and not any(k.arg == "metaclass" for y in d[0][1].mro if isinstance(y, ClassInfo)
                                             for k in y.node.keywords):
                        return d[0][1]
        return None

    def own(self, v):
        """The class of the package an expression is an object of."""
        if not isinstance(v, ast.Name) or not hasattr(v, "_scope"):
            return None
        s = v._scope
        l = s.lookup(v.id)
        if l[0] != "local" or l[2] is not None or l[1].kind != "function" or l[1].cls is None:
            return None
        f = l[1].node
        a = f.args.posonlyargs + f.args.args if not isinstance(f, ast.Lambda) else []
        if not a or a[0].arg != v.id or any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in
                                            f.decorator_list) or f.name == "__new__":
            return None
        # not given another value
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == v.id and isinstance(x.ctx, (ast.Store, ast.Del)):
                return None
        fi = self.N.prog.by_node.get(l[1].cls)
        if fi is None:
            fi = self.N.prog._find_cls(self.m, l[1].cls)
        return fi if isinstance(fi, ClassInfo) else None

    def plain(self, fi):
        """Called as written: no decorator that could change how."""
        for d in fi.decorators if hasattr(fi, "decorators") else fi.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            if isinstance(x, ast.Name) and x.id in ("staticmethod", "classmethod", "property"):
                continue
            if dotted_text(x) not in KNOWN_DECORATORS:
                return False
        return True

    def call(self, n):
        if not hasattr(n, "_scope"):
            return
        f = n.func
        targets = []            # (function, whether self is given already, what it is called)
        d = self.N.denotes(f)
        for x in d:
            if x[0] == "func":
                kinds = decorated(x[1])
                if x[2] is not None:
                    targets.append((x[1], "classmethod" in kinds))
                else:
                    targets.append((x[1], False))
            elif x[0] == "class":
                t = self.constructor(x[1])
                if t is None:
                    return
                if t != "any":
                    targets.append((t, True))
            else:
                return
        if not d and isinstance(f, ast.Attribute):
            c = self.own(f.value)
            if c is None and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" \
                    and n._cls is not None:
                c = self.N.prog._find_cls(self.m, n._cls)
                for k in (c.mro[1:] if c else ()):
                    if isinstance(k, ClassInfo) and f.attr in k.methods:
                        targets.append((k.methods[f.attr], "staticmethod" not in decorated(k.methods[f.attr])))
                        break
            elif c is not None:
                found = c.find(f.attr)
                if found and found[0] == "method":
                    # or what a subclass has made of it
                    all_ = {found[1]} | {s.methods[f.attr] for s in self.N.prog.subclasses(c) if f.attr in s.methods}
                    targets = [(t, "staticmethod" not in decorated(t)) for t in all_]
            elif f.attr not in self.N.common and not self.known_outside(f.attr):
                defs = [k.methods[f.attr] for k in self.N.prog.all_classes() if f.attr in k.methods]
                attrs = [k for k in self.N.prog.all_classes() if f.attr in k.attrs or f.attr in k.props]
                if defs and not attrs and not self.external(f):
                    targets = [(t, "staticmethod" not in decorated(t)) for t in defs]
        if not targets or any(not self.plain(t) for t, _ in targets):
            return
        bad = [binds(t, n, b) for t, b in targets]
        name = dotted_text(f) or "the function"
        self.ob("call", any(x is None for x in bad), n, "%s %s" % (name, next((x for x in bad if x), "")))
        for t, b in targets[:1] if len(targets) == 1 else []:
            sw = swapped(t, n, b)
            self.ob("roles", sw is None, n, "%s is given %s for %s and the other way round" % ((name,) + (sw or ("", ""))))

    def known_outside(self, name):
        """A method of something that does not belong to the package may be called that."""
        if not hasattr(self.N, "ext_names"):
            out = set()
            for m in self.N.prog.package:
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for a in n.names:
                            st, o = outside(a.name if isinstance(n, ast.Import) else "%s.%s" % (n.module, a.name))
                            if st == "yes":
                                for x in [o] + [getattr(o, y, None) for y in dir(o)]:
                                    if isinstance(x, (type, type(sys))):
                                        out |= set(dir(x))
            self.N.ext_names = out
        return name in self.N.ext_names

    def constructor(self, c):
        """The function whose parameters a call of the class must fit; "any" if it is not known."""
        new, init = c.find("__new__"), c.find("__init__")
        if any(k.arg == "metaclass" for x in c.mro if isinstance(x, ClassInfo) for k in x.node.keywords):
            for x in c.mro:
                if isinstance(x, ClassInfo):
                    for k in x.node.keywords:
                        if k.arg == "metaclass":
                            mc = self.N.prog.resolve_class_expr(x.module, k.value)
                            if not isinstance(mc, ClassInfo) or mc.find("__call__"):
                                return "any"
        if new and new[2].name != "DescribableObject" and not init:
            return "any"
        if init and init[0] == "method":
            if new and new[2] in c.mro and c.mro.index(new[2]) < c.mro.index(init[2]):
                return "any"
            return init[1]
        return "any"

    def raisable(self, x, n):
        d = self.N.denotes(x) if hasattr(x, "_scope") else []
        bad = None
        if isinstance(x, ast.Constant):
            bad = repr(x.value)
        elif isinstance(x, ast.Name) and hasattr(x, "_scope") and x._scope.lookup(x.id)[0] == "global" and not d \
                and x.id not in self.N.bound[self.m]:
            o = getattr(builtins, x.id, None)
            if o is not None and not (isinstance(o, type) and issubclass(o, BaseException)):
                bad = x.id
        for r in d:
            if r[0] == "class":
                k = r[1]
                if not any(issubclass(t, BaseException) for t in (getattr(builtins, b, outside(b)[1] if "." in b else None) for b in k.ext_bases)
                           if isinstance(t, type)) and all(b == "object" for b in k.ext_bases):
                    bad = k.name
            elif r[0] == "ext":
                st, o = outside(r[1])
                if st == "yes" and not (isinstance(o, type) and issubclass(o, BaseException)) and not isinstance(o, tuple):
                    bad = r[1]
        self.ob("raisable", bad is None, n, "%s is no exception" % bad)


def catches(h, names):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(t, ast.Name) and t.id in names for t in ts)


def decorated(fi):
    return [d.id for d in fi.node.decorator_list if isinstance(d, ast.Name)]


def dotted_text(x):
    parts = []
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if isinstance(x, ast.Name):
        return ".".join([x.id] + parts[::-1])
    return ".".join(["..."] + parts[::-1]) if parts else None


class Flow(object):
    """Local variables that may have been bound so far; reading one that cannot have been is an error."""

    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.scope = mod.N.scopes.get(fn)

    def run(self):
        s = self.scope
        if s is None:
            return
        self.locals_ = {n for n in s.bound}
        # inner functions can bind what they declare nonlocal
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Nonlocal):
                self.locals_ -= set(n.names)
        have = {a.arg for a in args_of(self.fn)}
        self.block(self.fn.body, have)

    def block(self, body, have):
        """-> variables that may be bound after it; None if it cannot end normally"""
        for st in body:
            have = self.stmt(st, have)
            if have is None:
                return None
        return have

    def stmt(self, st, have):
        if isinstance(st, FUNCS + (ast.ClassDef,)):
            for x in st.decorator_list:
                self.expr(x, have)
            return have | {st.name}
        if isinstance(st, ast.If):
            self.expr(st.test, have)
            a = self.block(st.body, have | walrus(st.test))
            b = self.block(st.orelse, have | walrus(st.test))
            return self.join(a, b)
        if isinstance(st, (ast.While, ast.For, ast.AsyncFor)):
            # what the body binds may have been bound by an earlier round
            if not isinstance(st, ast.While):
                self.expr(st.iter, have)
            h = have | stored(st)
            if isinstance(st, ast.While):
                self.expr(st.test, h)
            self.block(st.body, h)
            r = self.block(st.orelse, h)
            return h if r is None else h | r
        if isinstance(st, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            h = have | {n for x in st.body for n in stored(x)}
            a = self.block(st.body, have)
            out = self.block(st.orelse, a) if a is not None else None
            for hd in st.handlers:
                if hd.type is not None:
                    self.expr(hd.type, h)
                r = self.block(hd.body, h | ({hd.name} if hd.name else set()))
                if r is not None and hd.name:
                    # the variable goes with the handler
                    r = r - {hd.name} if hd.name not in have and hd.name not in {n for x in st.body for n in stored(x)} else r
                out = self.join(out, r)
            f = self.block(st.finalbody, h | {n for x in st.handlers for n in stored(x)} | {n for x in st.orelse for n in stored(x)})
            if f is None and st.finalbody:
                return None
            return out if out is None else out | {n for x in st.finalbody for n in stored(x)}
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.expr(i.context_expr, have)
                if i.optional_vars is not None:
                    have = have | stored(i.optional_vars)
            r = self.block(st.body, have)
            # the manager may swallow what ends the body early
            return have | stored(st) if r is None and not ends(st.body) else (r if r is not None else None)
        if isinstance(st, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            for x in ast.iter_child_nodes(st):
                self.expr(x, have)
            return None
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    have = have - {t.id}
            return have
        if isinstance(st, getattr(ast, "Match", ())):
            return have | stored(st)
        for x in ast.iter_child_nodes(st):
            self.expr(x, have)
        return have | stored(st)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def expr(self, x, have):
        have = have | walrus(x)
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and getattr(n, "_scope", None) is self.scope \
                    and n.id in self.locals_ and n.id not in self.scope.globals_:
                self.mod.ob("bound", n.id in have, n, "%s cannot have a value here" % n.id)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))


def stored(x):
    out = set()
    for n in ast.walk(x):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, FUNCS + (ast.ClassDef,)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split(".")[0]) for a in n.names}
        elif isinstance(n, (getattr(ast, "MatchAs", ()), getattr(ast, "MatchStar", ()))) and n.name:
            out.add(n.name)
    return out


def walrus(x):
    return {n.target.id for n in ast.walk(x) if isinstance(n, ast.NamedExpr)}
