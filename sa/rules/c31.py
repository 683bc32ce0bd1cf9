"""C31: pysh modules are imported when found, in a scope and an environment of their own."""
from .envworld import *

TECHNIQUE = ("path-sensitive abstract interpretation of finding and loading over an abstract file system and import state; what "
             "is executed, where, and what it and its importer see of each other is compared with what is specified")
FIND, LOAD, MOD = "module.py:Finder.find_module", "module.py:Loader.load_module", "module.py:Module.__getattr__"
SOURCE = '''
import sys
import os
import types
import world
from pieshell import module
def setup():
    e = environ.Environment("/w", {"EXP": "e", "P2": "p"}, True)
    s = environ.EnvScope(env=e, secret="mine", shared="importer")
    e._scope = s
    environ.envScope = s
    return s
def found(name, path):
    l = module.Finder().find_module(name, path)
    if l is None:
        return None
    return l.load_module(name)
def f():
    setup()
    found(%(name)s, %(path)s)
    return 1
def body_nothing(scope):
    return None
'''
LOADING = '''
def load(name="pkg.foo"):
    return module.Finder().find_module(name, ["/mods"]).load_module(name)
def is_(a, b):
    return a is b
def isolated():
    s = setup()
    e = s["env"]
    m = load()
    o = world.ran()
    d = dict.__getitem__(o, "env")
    return [("it is run in a scope", isinstance(o, environ.EnvScope), True),
            ("it is run in the scope of the importer", o is s, False),
            ("its environment is that of the importer", d is e, False),
            ("its exports are those of the importer", d._exports is e._exports, False),
            ("its exports are", dict(d._exports), {"EXP": "e", "P2": "p"}),
            ("its directory is", d._cwd, "/w"),
            ("its environment is interactive", d._interactive, True),
            ("its environment knows its scope", d._scope is o, True),
            ("the importer's environment knows its scope", e._scope is s, True),
            ("the importer's environment is", s["env"] is e, True),
            ("the importer's variables are", dict.__contains__(o, "secret") or dict.__contains__(o, "shared"), False),
            ("the module sees secret", isinstance(o["secret"], str), False),
            ("the module has secret", isinstance(m.secret, str), False),
            ("the module is registered", sys.modules["pkg.foo"] is m, True),
            ("the names registered are", sorted(sys.modules), ["pkg.foo", "sys"]),
            ("the importer's scope is still current", environ.envScope is s, True)]
def body_isolated(scope):
    world.registered("pkg.foo" in sys.modules)
def body_vars(scope):
    scope["v"] = "1"
    scope["shared"] = "module"
    scope["EXP"] = "changed"
    scope["env"]._cd("/w/sub")
    scope["env"]._exports["NEW"] = "n"
def vars():
    s = setup()
    e = s["env"]
    m = load()
    o = world.ran()
    res = [("the importer's shared is", s["shared"], "importer"),
           ("the importer's EXP is", s["EXP"], "e"),
           ("the importer has v", dict.__contains__(s, "v"), False),
           ("the importer's directory is", e._cwd, "/w"),
           ("the importer has NEW", "NEW" in e._exports, False),
           ("v of the module is", m.v, "1"),
           ("shared of the module is", m.shared, "module"),
           ("EXP of the module is", m.EXP, "changed"),
           ("NEW of the module is", m.NEW, "n"),
           ("v of the module by name is", getattr(m, "v"), "1"),
           ("env of the module is", m.env is o["env"], True)]
    m.v = "2"
    m.w = "3"
    m.EXP = "again"
    s["EXP"] = "mine"
    setattr(m, "u", "4")
    o["x"] = "5"
    return res + [("v assigned in the module is", o["v"], "2"), ("w assigned in the module is", o["w"], "3"),
                  ("v is then", m.v, "2"), ("w is then", m.w, "3"), ("EXP assigned in the module is", o["EXP"], "again"),
                  ("EXP as exported is", o["env"]._exports["EXP"], "again"), ("u assigned in the module is", o["u"], "4"),
                  ("x assigned in the scope is", m.x, "5"), ("the importer's EXP is then", s["EXP"], "mine"),
                  ("the importer has w", dict.__contains__(s, "w"), False),
                  ("the attributes include", "v" in dir(m) and "w" in dir(m), True)]
def body_twice(scope):
    scope["count"] = "done"
def twice():
    s = setup()
    m = load()
    a = world.ran()
    n = load("pkg.bar")
    b = world.ran()
    m.v = "foo"
    n.v = "bar"
    return [("two modules share a scope", a is b, False), ("two modules share an environment", a["env"] is b["env"], False),
            ("two modules share exports", a["env"]._exports is b["env"]._exports, False),
            ("v of the one is", m.v, "foo"), ("v of the other is", n.v, "bar"),
            ("the one is registered", sys.modules["pkg.foo"] is m, True), ("the other is registered", sys.modules["pkg.bar"] is n, True)]
def body_circular(scope):
    scope["early"] = "e"
    if "inner" not in sys.modules:
        world.inner(load("inner"))
def circular():
    setup()
    m = load()
    o = world.ran()
    return [("early of the outer is", m.early, "e"), ("early of the inner is", sys.modules["inner"].early, "e"),
            ("both are the same", m is sys.modules["inner"], False)]
def body_changed(scope):
    return None
def changed():
    s = setup()
    s["env"]._cd("/w/sub")
    s["EXP"] = "later"
    s["env"]._exports["NEW"] = "n"
    m = load()
    o = world.ran()
    return [("the directory is", o["env"]._cwd, "/w/sub"), ("EXP is", o["EXP"], "later"), ("NEW is", o["NEW"], "n")]
def body_other(scope):
    return None
def other():
    s = setup()
    s["env"] = environ.Environment("/v", {"Z": "z"}, True)
    m = load()
    o = world.ran()
    return [("the directory is", o["env"]._cwd, "/v"), ("Z is", o["Z"], "z"), ("EXP is exported", "EXP" in o["env"]._exports, False),
            ("the environment is the importer's", o["env"] is s["env"], False)]
def body_reload(scope):
    scope["n"] = "new"
def reload():
    setup()
    m = load()
    a = world.ran()
    m.n = "old"
    m.mine = "kept"
    n = load()
    b = world.ran()
    return [("reloading gives the same module", m is n, True), ("reloading runs it in the same scope", a is b, True),
            ("n is", m.n, "new"), ("what was assigned is", m.mine, "kept"), ("it is registered", sys.modules["pkg.foo"] is m, True)]
def body_special(scope):
    scope["__all__"] = "all"
def special():
    setup()
    m = load()
    return [("it has __all__", m.__all__, "all"), ("it has __path__", hasattr(m, "__path__"), False),
            ("it has __wrapped__", getattr(m, "__wrapped__", "none"), "none")]
def body_importer(scope):
    return None
def importer():
    s = setup()
    m = load()
    m.secret = "module's"
    return [("the importer's secret is", s["secret"], "mine"), ("the module's secret is", m.secret, "module's")]
def failing():
    setup()
    try:
        found("pkg.foo", ["/locked"])
    except PermissionError:
        return [("the module is registered", "pkg.foo" in sys.modules, False)]
    return [("reading fails", False, True)]
def body_failing(scope):
    return None
'''
LOADS = ("isolated", "vars", "twice", "circular", "changed", "other", "reload", "special", "importer", "failing")
TREE = {"/start": ["here.pysh", "x"], "/a": ["foo.pysh", "only_a.pysh", "plain.py", "dir.pysh/"], "/a/dir.pysh": [], "/b": ["foo.pysh", "only_b.pysh", "dir.pysh"],
        "/empty": [], "/a/pkg": ["foo.pysh", "deep.pysh"], "/mods": ["foo.pysh", "bar.pysh", "inner.pysh"], "/locked": ["foo.pysh"], "/w": ["rel.pysh", "sub/"], "/w/sub": [],
        "/v": []}
# name, path argument, sys.path, the file that is to be run
FINDS = [("foo", None, ["/a", "/b"], "/a/foo.pysh"), ("foo", None, ["/b", "/a"], "/b/foo.pysh"), ("foo", None, ["/empty", "/b", "/a"], "/b/foo.pysh"),
         ("foo", None, ["/missing", "/b"], "/b/foo.pysh"), ("foo", None, ["/empty"], None), ("foo", None, [], None),
         ("only_b", None, ["/a", "/b"], "/b/only_b.pysh"), ("plain", None, ["/a"], None), ("nope", None, ["/a", "/b"], None),
         ("rel", None, [""], "/w/rel.pysh"), ("rel", None, ["/a", ""], "/w/rel.pysh"), ("rel", None, ["/a", "."], "/w/rel.pysh"), ("foo", None, ["", "/a"], "/a/foo.pysh"),
         ("pkg.foo", ["/a/pkg"], ["/b"], "/a/pkg/foo.pysh"), ("pkg.deep", ("/empty", "/a/pkg"), ["/b"], "/a/pkg/deep.pysh"),
         ("pkg.only_a", ["/a/pkg"], ["/a"], None), ("a.b.c.foo", ["/b"], ["/a"], "/b/foo.pysh"), ("pkg.foo", "/a/pkg", ["/b"], "/a/pkg/foo.pysh"),
         ("pkg.foo", [], ["/a"], None), ("pkg.foo", (), ["/a"], None), ("dir", None, ["/a", "/b"], "/b/dir.pysh"), ("dir", None, ["/a"], None),
         ("pkg", None, ["/a"], None), ("foo.pysh", None, ["/a"], None), ("pkg.foo", "NS", ["/b"], "/a/pkg/foo.pysh"), ("pkg.nope", "NS", ["/b"], None),
         ("foo", None, ("/a", "/b"), "/a/foo.pysh"), ("foo", None, ["/a/", "/b"], "/a/foo.pysh")]
NS = '''
class NS(object):
    """The path of a namespace package: it can only be iterated over."""
    def __iter__(self):
        return iter(["/a/pkg"])
'''


class Imports(object):
    """What importing uses of the interpreter."""

    def __init__(self, w, paths, body):
        self.w, self.body = w, body
        st = w.st
        E = w.hooks.ext
        self.meta = st.new("list", None, None, (K("ordinary"),))
        st.user["ext"] = dict(st.user["ext"])
        st.user["ext"].update({"sys.modules": st.new("dict", None, None, {K("sys"): K("sys")}), "sys.meta_path": self.meta,
                               "sys.path": Tup(tuple(map(K, paths))) if isinstance(paths, tuple) else
                               st.new("list", None, None, tuple(map(K, paths)))})
        for n in ("open", "io.open", "codecs.open"):
            E[n] = self.open
        E[".read"] = self.read
        E[".close"] = lambda it, st, r, a, k: [(st, NONE)] if self.file(r) else None
        E["code.InteractiveConsole"] = E["code.InteractiveInterpreter"] = self.console
        E[".runsource"] = E[".runcode"] = E[".push"] = self.run
        E["types.ModuleType.__setattr__"] = E["object.__setattr__"] = self.put
        E["world.ran"] = lambda it, st, r, a, k: [(st, st.user["ran"][-1][1] if st.user.get("ran") else NONE)]
        E["world.registered"] = self.registered
        E["world.inner"] = lambda it, st, r, a, k: [(st, NONE)]

    @staticmethod
    def file(v):
        return isinstance(v, T) and v.op == "file"

    def put(self, it, st, recv, args, kwargs):
        n = st.res(args[1])
        if not isinstance(n, K):
            return None
        st.mut(st.res(args[0])).f[n.v] = args[2]
        return [(st, NONE)]

    def open(self, it, st, recv, args, kwargs):
        p = st.res(args[0])
        if not isinstance(p, K):
            return None
        p = self.w.fs.norm(st, p.v)
        if p.startswith("/locked"):
            return [it.raise_new(st, "PermissionError")]
        if self.w.fs.isdir(p):
            return [it.raise_new(st, "IsADirectoryError")]
        if not self.w.fs.exists(p):
            return [it.raise_new(st, "FileNotFoundError")]
        return [(st, T("file", K(p)))]

    def read(self, it, st, recv, args, kwargs):
        if not self.file(recv):
            return None
        v = T("content", recv.args[0])
        st.tinfo[v] = "str"
        return [(st, v)]

    def console(self, it, st, recv, args, kwargs):
        return [(st, T("console", args[0] if args else kwargs.get("locals", NONE)))]

    def run(self, it, st, recv, args, kwargs):
        if not isinstance(recv, T) or recv.op != "console":
            return None
        src, scope = st.res(args[0]), st.res(recv.args[0])
        st.user["ran"] = st.user.get("ran", ()) + ((src.args[0].v if isinstance(src, T) and src.op == "content" else None, scope),)
        fn = self.w.mod.funcs.get("body_" + self.body)
        return it.call(st, FnV(fn, None), [scope], {}, None, self.w.run.fr)

    def registered(self, it, st, recv, args, kwargs):
        st.user["registered"] = st.user.get("registered", ()) + (st.res(args[0]),)
        return [(st, NONE)]


def check(chk):
    chk.rule("first", "a module is loaded when a file of its name is in the directories searched, from the first of them that has one")
    chk.rule("precedence", "modules of pieshell are looked for after ordinary ones")
    chk.rule("own", "a module runs in a scope and an environment of its own, derived from the interactive one")
    chk.rule("registered", "a module is registered before it runs")
    for name, path, paths, want in FINDS:
        w = World(chk, NS + SOURCE % {"name": repr(name), "path": "NS()" if path == "NS" else repr(path)}, fork="parent", dirs=TREE)
        Imports(w, paths, "nothing")
        what = "importing %s with path %s and sys.path %s" % (name, path, paths)
        done = 0
        for s, v in w.start():
            done += 1
            if isinstance(v, Abrupt):
                chk.ob("first", False, exc_loc(s, v) or FIND, "%s: %s is raised" % (what, cls_name(exc_class(s, v))), s)
                continue
            have = [f for f, scope in s.user.get("ran", ())]
            chk.ob("first", have == ([want] if want else []), FIND, "%s runs %s" % (what, have or "nothing"), s)
        chk.ob("first", done > 0, FIND, "%s cannot be carried out" % what)
    w = World(chk, SOURCE % {"name": "''", "path": "None"}, fork="parent", dirs=TREE)
    imp = Imports(w, [], "nothing")
    w.modules("module.py")
    names = [w.st.res(x) for x in w.it.known_seq(w.st, imp.meta) or ()]
    cls = [getattr(w.st.obj(x).cls, "name", None) for x in names if isinstance(x, Ref)]
    chk.ob("precedence", len(names) == 2 and names[0] == K("ordinary") and len(cls) == 1, "module.py",
           "sys.meta_path becomes %s" % [x.v if isinstance(x, K) else "a finder of pieshell" for x in names], w.st)
    for fn in LOADS:
        w = World(chk, SOURCE % {"name": "''", "path": "None"} + LOADING, fork="parent", dirs=TREE)
        Imports(w, ["/mods"], fn)
        done = 0
        for s, v in w.start(fn=fn):
            done += 1
            if isinstance(v, Abrupt):
                chk.ob("own", False, exc_loc(s, v) or LOAD, "%s: %s is raised" % (fn, cls_name(exc_class(s, v))), s)
                continue
            for what, have, want in plain(s, v):
                chk.ob("own", have == want, MOD if " of the module " in what else LOAD, "%s: %s %r instead of %r" % (fn, what, have, want), s)
            if fn == "isolated":
                chk.ob("registered", s.user.get("registered") == (TRUE,), LOAD, "the module is not registered when its code runs", s)
        chk.ob("own", done > 0, LOAD, "%s cannot be carried out" % fn)
