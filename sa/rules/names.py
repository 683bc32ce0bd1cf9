"""Names, members, attributes and call forms, decided over the syntax trees of the whole package."""
import ast
import builtins
import importlib
import sys

from .common import *
from ..model import FUNCS, ClassInfo, FuncInfo

MODULE_NAMES = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__",
                "__annotations__", "__dict__", "WindowsError", "__class__", "__module__", "__qualname__"}
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
_ext = {}


def outside(dotted):
    """("yes", object), ("no", None) or ("unknown", None) for a dotted name outside the package."""
    if dotted in _ext:
        return _ext[dotted]
    parts = dotted.split(".")
    res = ("unknown", None)
    if parts[0] in sys.stdlib_module_names and parts[0] not in ("this", "antigravity", "idlelib", "turtle", "tkinter"):
        obj, i = None, 0
        for n in range(len(parts), 0, -1):
            try:
                obj, i = importlib.import_module(".".join(parts[:n])), n
                break
            except Exception:
                continue
        if obj is not None:
            res = ("yes", obj)
            for p in parts[i:]:
                if not (isinstance(obj, type(sys)) or isinstance(obj, type)):
                    res = ("unknown", None)
                    break
                if not hasattr(obj, p):
                    res = ("no", None)
                    break
                obj = getattr(obj, p)
                res = ("yes", obj)
    _ext[dotted] = res
    return res


class Scope(object):
    """Where a name is bound: a function, class body or module."""

    def __init__(self, kind, node, parent, module, cls=None):
        self.kind, self.node, self.parent, self.module, self.cls = kind, node, parent, module, cls
        self.bound = {}         # name -> list of import resolutions, or None if bound otherwise
        self.globals_, self.nonlocals = set(), set()
        self.star = False

    def bind(self, name, what=None):
        if what is None or self.bound.get(name, ()) is None:
            self.bound[name] = None
        else:
            self.bound.setdefault(name, []).append(what)

    def lookup(self, name):
        """("local", scope, imports or None), ("global",) or ("missing",)"""
        s, first = self, True
        while s is not None:
            if s.kind == "module":
                return ("global",)
            if name in s.globals_:
                return ("global",)
            if (first or s.kind != "class") and name in s.bound and name not in s.nonlocals:
                return ("local", s, s.bound[name])
            s, first = s.parent, False if s.kind != "comp" else first
        return ("global",)


def args_of(node):
    a = node.args
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]


class Binder(ast.NodeVisitor):
    """What a scope binds, without what its inner scopes bind."""

    def __init__(self, scope):
        self.s = scope

    def inner(self, node):
        self.s.bind(node.name)
        for d in node.decorator_list:
            self.visit(d)
        if isinstance(node, FUNCS):
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
                self.visit(d)
        else:
            for b in node.bases + [k.value for k in node.keywords]:
                self.visit(b)
    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = inner

    def visit_Lambda(self, node):
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)

    def comp(self, node):
        # the targets belong to the comprehension; walruses inside to this scope
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.s.bind(n.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.s.bind(node.id)

    def visit_ExceptHandler(self, node):
        if node.name:
            self.s.bind(node.name)
        self.generic_visit(node)

    def visit_Global(self, node):
        self.s.globals_.update(node.names)

    def visit_Nonlocal(self, node):
        self.s.nonlocals.update(node.names)

    def visit_Import(self, node):
        for a in node.names:
            if a.asname:
                self.s.bind(a.asname, ("module", a.name))
            else:
                self.s.bind(a.name.split(".")[0], ("module", a.name.split(".")[0]))

    def visit_ImportFrom(self, node):
        mod = self.s.module.absname(node)
        for a in node.names:
            if a.name == "*":
                self.s.star = mod
            else:
                self.s.bind(a.asname or a.name, ("from", mod, a.name))

    def visit_MatchAs(self, node):
        if node.name:
            self.s.bind(node.name)
        self.generic_visit(node)

    def visit_MatchStar(self, node):
        if node.name:
            self.s.bind(node.name)


class Names(object):
    def __init__(self, chk):
        self.chk, self.prog = chk, chk.prog
        self.bound = {}         # module -> names bound in it
        self.scopes = {}        # node -> Scope
        self.stats = {}
        for m in self.prog.package:
            self.build(m)
        for m in self.prog.package:
            self.module_names(m, set())
        self.universe()

    # -- scopes -------------------------------------------------------------------------------------------------------
    def build(self, m):
        top = Scope("module", m.tree, None, m)
        self.scopes[m.tree] = top
        b = Binder(top)
        for s in m.tree.body:
            b.visit(s)
        self.inner(m.tree, top, None)

    def inner(self, node, scope, cls):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, FUNCS + (ast.Lambda,)):
                s = Scope("function", c, scope, scope.module, cls if scope.kind == "class" else None)
                for a in args_of(c):
                    s.bind(a.arg)
                b = Binder(s)
                for x in (c.body if isinstance(c.body, list) else [c.body]):
                    b.visit(x)
                for n in s.nonlocals | s.globals_:
                    s.bound.pop(n, None)
                self.scopes[c] = s
                # decorators and defaults belong outside
                for x in getattr(c, "decorator_list", []) + c.args.defaults + [d for d in c.args.kw_defaults if d]:
                    self.mark(x, scope, cls)
                for x in (c.body if isinstance(c.body, list) else [c.body]):
                    self.mark(x, s, cls)
            elif isinstance(c, ast.ClassDef):
                s = Scope("class", c, scope, scope.module, c)
                b = Binder(s)
                for x in c.body:
                    b.visit(x)
                self.scopes[c] = s
                for x in c.decorator_list + c.bases + [k.value for k in c.keywords]:
                    self.mark(x, scope, cls)
                for x in c.body:
                    self.mark(x, s, c)
            else:
                self.mark(c, scope, cls)

    def mark(self, node, scope, cls):
        """Every node knows its scope."""
        if isinstance(node, FUNCS + (ast.ClassDef, ast.Lambda)):
            self.inner(ast.Module(body=[node], type_ignores=[]), scope, cls)
            return
        if isinstance(node, COMPS):
            s = Scope("comp", node, scope, scope.module, None)
            b = Binder(s)
            for g in node.generators:
                b.visit(g.target)
            self.scopes[node] = s
            first = node.generators[0].iter
            self.mark(first, scope, cls)
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.comprehension):
                    for x in ast.iter_child_nodes(c):
                        if x is not first:
                            self.mark(x, s, cls)
                else:
                    self.mark(c, s, cls)
            return
        node._scope, node._cls = scope, cls
        for c in ast.iter_child_nodes(node):
            self.mark(c, scope, cls)

    def module_names(self, m, busy):
        if m in self.bound:
            return self.bound[m]
        if m in busy:
            return set(self.scopes[m.tree].bound)
        out = set(self.scopes[m.tree].bound)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out |= {x for x in n.names if any(
                    isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Store) for y in ast.walk(m.tree))}
                fs = [y for y in ast.walk(m.tree) if isinstance(y, FUNCS + (ast.ClassDef,)) and y.name in n.names]
                out |= {y.name for y in fs}
        for star in m.stars:
            if star in self.prog.modules:
                out |= {x for x in self.module_names(self.prog.modules[star], busy | {m}) if not x.startswith("_")}
            else:
                st, obj = outside(star)
                out |= set(dir(obj)) if st == "yes" else set()
        if m.is_pkg:
            out |= {x[len(m.name) + 1:].split(".")[0] for x in self.prog.modules if x.startswith(m.name + ".")}
        # set from elsewhere
        for o in self.prog.package:
            for n in ast.walk(o.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    for r in self.prog.resolve_any(o, n.value):
                        if r[0] == "module" and r[1] == m.name:
                            out.add(n.attr)
        self.bound[m] = out
        return out

    def open_module(self, m):
        """Names may come from elsewhere."""
        return any(s not in self.prog.modules and outside(s)[0] != "yes" for s in m.stars)

    # -- resolution ---------------------------------------------------------------------------------------------------
    def denotes(self, node, scope=None):
        """What a name or attribute chain denotes: list of ("module", dotted) ("ext", dotted) ("class"/"func", info)
        ("missing", text) or [] if it is not known."""
        scope = scope or getattr(node, "_scope", None)
        if isinstance(node, ast.Name) and scope is not None:
            l = scope.lookup(node.id)
            if l[0] == "local":
                if l[2] is None:
                    return []
                return [x for i in l[2] for x in self.imported(i)]
            m = scope.module
            res = []
            for r in self.prog.resolve(m, node.id):
                res += self.norm(r)
            if any(r[0] in ("expr",) for r in self.prog.resolve(m, node.id)):
                return []
            return res
        if isinstance(node, ast.Attribute):
            out = []
            for r in self.denotes(node.value, scope):
                if r[0] == "module":
                    m = self.prog.modules[r[1]]
                    if node.attr not in self.bound[m] and node.attr not in MODULE_NAMES and not self.open_module(m) \
                            and "__getattr__" not in self.bound[m]:
                        out.append(("missing", "%s.%s" % (r[1], node.attr)))
                        continue
                    for x in self.prog.resolve_from(r[1], node.attr):
                        out += self.norm(x)
                elif r[0] == "ext":
                    d = r[1] + "." + node.attr
                    out.append(("missing", d) if outside(d)[0] == "no" else ("ext", d))
                elif r[0] == "class":
                    f = r[1].find(node.attr)
                    if f and f[0] == "method":
                        out.append(("func", f[1], r[1]))
                    elif f and f[0] == "class":
                        out.append(("class", f[1]))
                elif r[0] == "missing":
                    return []
            return out
        return []

    def norm(self, r):
        if r[0] == "module":
            return [("module", r[1])]
        if r[0] == "ext":
            return [("ext", r[1])]
        if r[0] == "class":
            return [("class", r[1])]
        if r[0] == "func":
            return [("func", r[1], None)]
        return []

    def imported(self, i):
        if i[0] == "module":
            return [self.norm(self.prog.module_value(i[1]))[0]]
        if i[1] in self.prog.modules:
            out = []
            for r in self.prog.resolve_from(i[1], i[2]):
                out += self.norm(r)
            return out
        return [("ext", "%s.%s" % (i[1], i[2]))]

    # -- attribute names ------------------------------------------------------------------------------------------------
    def universe(self):
        """Names of attributes that the package's objects can have."""
        self.defined = set()
        self.dynamic = set()
        for m in self.prog.package:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.defined.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                        "hasattr", "getattr", "setattr", "delattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.dynamic.add(n.args[1].value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("__setattr__",) and len(
                        n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.dynamic.add(n.args[1].value)
        for c in self.prog.all_classes():
            self.defined |= set(c.methods) | set(c.props) | set(c.attrs) | set(c.classes)
        self.defined |= self.dynamic
        self.common = set()
        for t in (object, type, str, bytes, int, float, list, tuple, dict, set, frozenset, BaseException, OSError, type(len),
                  type(self.universe), type(lambda: 0), type(sys), property, classmethod, range, slice, StopIteration,
                  SystemExit, UnicodeError, ImportError, SyntaxError):
            self.common |= set(dir(t))
        self.families = {}

    def family(self, c):
        """The class, those it inherits from, and those that inherit from it or share a subclass."""
        if c not in self.families:
            out = {c}
            for s in [c] + list(self.prog.subclasses(c)):
                out |= {x for x in s.mro if isinstance(x, ClassInfo)}
                out |= {x for x in [s]}
            self.families[c] = out
        return self.families[c]

    def attrs(self, c):
        """(names its objects can have, whether that is all)"""
        names, closed = set(), True
        for k in self.family(c):
            names |= set(k.methods) | set(k.props) | set(k.attrs) | set(k.classes)
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id in ("self", "cls", k.name):
                    names.add(n.attr)
                    continue
            # (methods may call their object something else)
            for f in k.methods.values():
                a = f.node.args.posonlyargs + f.node.args.args
                if a:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                                and n.value.id == a[0].arg:
                            names.add(n.attr)
            if k.find("__getattr__") or k.find("__getattribute__"):
                closed = False
            for kw in k.node.keywords:
                if kw.arg == "metaclass":
                    names |= set(dir(type))
            for b in k.ext_bases:
                t = getattr(builtins, b, None) if "." not in b else outside(b)[1]
                if isinstance(t, type):
                    names |= set(dir(t))
                elif b != "object":
                    closed = False
            # class decorators can add what they like
            if k.node.decorator_list:
                closed = False
        # attributes set on it from outside: anything set on something that is not known
        return names, closed


def signature(fi):
    return fi.node.args


def binds(fi, call, bound):
    """None if the call's arguments fit the function's parameters, else what does not."""
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    ndef = len(a.defaults)
    required = pos[:len(pos) - ndef]
    if bound:
        if pos:
            pos, required = pos[1:], required[1:] if len(required) else required
        elif not a.vararg:
            return "takes no arguments at all"
    kwonly = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    kwstar = any(k.arg is None for k in call.keywords)
    given = [x for x in call.args if not isinstance(x, ast.Starred)]
    if len(given) > len(pos) and not a.vararg:
        return "takes %d positional arguments but is given %d" % (len(pos), len(given))
    filled = set(pos[:len(given)]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in filled:
            return "is given %s twice" % k.arg
        if k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            return "takes no argument %s" % k.arg
        filled.add(k.arg)
    if not star and not kwstar:
        lacking = [x for x in required if x not in filled] + [x for x in kwreq if x not in filled]
        if lacking:
            return "is not given %s" % ", ".join(lacking)
    elif not kwstar:
        lacking = [x for x in kwreq if x not in filled]
        if lacking:
            return "is not given %s" % ", ".join(lacking)
    return None


def swapped(fi, call, bound):
    """Two arguments whose names are those of each other's parameters."""
    pos = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
    if bound:
        pos = pos[1:]
    got = {}
    for p, x in zip(pos, call.args):
        if isinstance(x, ast.Starred):
            break
        got[p] = name_of(x)
    for k in call.keywords:
        if k.arg:
            got[k.arg] = name_of(k.value)
    for p, n in got.items():
        if n and n != p and n in got and got[n] == p:
            return p, n
    return None


def name_of(x):
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute):
        return x.attr.lstrip("_")
    return None
