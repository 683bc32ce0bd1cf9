"""C20: state changed for the duration of an operation has its former value when the operation ends, however it ends."""
import ast
import itertools

from ..values import DELETED
from .envworld import *

TECHNIQUE = ("path-sensitive abstract interpretation of the operations that change global state for their duration, ending "
             "normally and with an exception raised inside, alone and nested, observing the state afterwards")
PRE = '''
import os
import sys
import builtins as pybuiltins
from pieshell import jedi_completion
from pieshell.utils import copy as copy_


class Boom(BaseException):
    pass
class Bad(object):
    def __init__(self, exc):
        self.exc = exc
    def __repr__(self):
        raise self.exc
class Guard(object):
    """Displays what it holds, whatever happens."""
    def __init__(self, x):
        self.x = x
    def __repr__(self):
        try:
            return "<" + self.x.__repr__() + ">"
        except BaseException:
            return "<>"
class Plain(object):
    def __init__(self, *x):
        self.x = x
    def __repr__(self):
        for i in self.x:
            repr(i)
        return "plain"
class Named(Guard):
    def __repr__(self):
        try:
            return "<" + self.x.__name__ + ">"
        except BaseException:
            return "<>"
def use(inp):
    return inp
def fun(env, *arg):
    return function.Function(env, use, *arg)
class Later(object):
    """Displays what it holds directly."""
    def __init__(self, x):
        self.x = x
    def __repr__(self):
        return self.x.__repr__()
def attempt(fn, *arg):
    try:
        return fn(*arg)
    except BaseException:
        return "failed"
'''
EXCS = ("ValueError('x')", "KeyboardInterrupt()", "Boom()")


def world(chk, body, mods=("pipeline/base.py",)):
    l = World(chk, PRE + body, fork="parent")
    for fi in l.prog.functions:
        if fi.name == "run_interactive":
            l.hooks.pkg[fi] = ran
    l.modules(*mods)
    return l


def ran(it, st, slf, args, kwargs):
    st.emit(Ev("ran", "display"))
    return [(st, NONE)]


def results(chk, l, rule, loc, what):
    n = 0
    for s, v in l.start():
        if isinstance(v, Abrupt):
            chk.ob(rule, False, exc_loc(s, v) or loc, "%s: %s is raised" % (what, cls_name(exc_class(s, v))), s)
            continue
        n += 1
        yield s, v
    chk.ob("ends", n > 0, loc, "%s never ends" % what)


# -- display nesting: what is displayed first and whether a pipeline displayed afterwards is run ---------------------
DISPLAYS = [
    # (name, statements, times p is run in the end)
    ("nothing", "pass", 1),
    ("an object", "repr(Plain())", 1),
    ("an object holding the pipeline", "repr(Plain(p))", 1),
    ("an object holding the pipeline at the prompt", "Plain(p).__repr__()", 1),
    ("an object in an object", "repr(Plain(Plain(p), p))", 1),
    ("a list of pipelines", "repr([p, p])", 1),
    ("it with repr()", "repr(p)", 1),
    ("it before", "p.__repr__()", 2),
    ("an object whose display fails, twice", "attempt(repr, Bad(%(e)s)); attempt(repr, Bad(%(e)s))", 1),
    ("an object whose display fails", "attempt(repr, Bad(%(e)s))", 1),
    ("an object holding one whose display fails", "attempt(repr, Plain(Bad(%(e)s)))", 1),
    ("an object holding one whose display fails and then the pipeline", "attempt(repr, Plain(Bad(%(e)s), p))", 1),
    ("an object holding a nest that fails and then the pipeline", "attempt(repr, Plain(Plain(Bad(%(e)s)), Later(p)))", 1),
    ("an object holding a nest that fails and then the pipeline at the prompt",
     "attempt(Plain(Plain(Bad(%(e)s)), Later(p)).__repr__)", 1),
    ("an object whose display is caught, and then the pipeline in it", "repr(Plain(Guard(Bad(%(e)s)), Later(p)))", 1),
    ("a pipeline whose display fails", "attempt(repr, fun(n, Bad(%(e)s)))", 1),
    ("a pipeline with a bad name", "attempt(repr, q('%%(nosuch)s'))", 1),
    ("a pipeline with a bad name by itself", "attempt(q('%%(nosuch)s').__repr__)", 1),
    ("it as part of a pipeline at the prompt", "fun(n, p).__repr__()", 1),
    ("it as part of a failing pipeline", "attempt(repr, fun(n, p, Bad(Boom())) | q('%%(nosuch)s'))", 1),
]


def display(chk):
    for name, stmt, n in DISPLAYS:
        for e in EXCS if "%(e)s" in stmt else ("",):
            what = "displaying %s%s" % (name, e and " with " + e.split("(")[0])
            l = world(chk, "def f():\n    e = environ.Environment('/w', {'A': 'b'}, interactive=True)\n"
                           "    n = environ.Environment('/w', {'A': 'b'})\n    p = e.aa('x')\n    q = n.qq\n    %s\n    p.__repr__()\n"
                      % (stmt % {"e": e}))
            for s, v in results(chk, l, "nesting", "pipeline/base.py:pipeline_repr", what):
                k = len([ev for ev in s.trace() if ev.kind == "ran"])
                chk.ob("nesting", k == n, "pipeline/base.py:pipeline_repr",
                       "after %s, a pipeline is run %d times instead of %d when displayed" % (what, k, n), s)


# -- display environment: in which places the environment is named ----------------------------------------------------
TEXTS = [
    ("nothing", "pass", "n.aa('x')", 1),
    ("a pipeline", "repr(n.zz)", "n.aa('x')", 1),
    ("a pipeline whose display fails", "attempt(n.aa('%(nosuch)s').__repr__)", "n.aa('x')", 1),
    ("a pipeline by its name", "n.zz.__name__", "n.aa('x')", 1),
    ("a pipeline by a name that fails", "attempt(getattr, n.aa('%(nosuch)s'), '__name__')", "n.aa('x')", 1),
    ("a pipe", "repr(n.zz | n.yy)", "n.aa('x') | n.bb", 1),
    ("a pipe that fails", "attempt((n.zz | n.yy('%(nosuch)s')).__repr__)", "n.aa('x') | n.bb", 1),
    ("a pipe of two environments", "repr(n.zz | m.yy)", "n.aa('x') | m.bb", 2),
    ("a pipe of two environments with a failure", "attempt((n.zz | m.yy('%(nosuch)s')).__repr__)", "(n.aa('x') | m.bb) | n.cc",
     2),
    ("a pipeline in another", "pass", "fun(n, Guard(m.bb('x'))) | n.cc", 2),
    ("a failing pipeline in another", "pass", "fun(n, Guard(m.bb('%(nosuch)s'))) | n.cc", 1),
    ("a failing pipeline of the same environment in another", "pass", "fun(n, Guard(n.bb('%(nosuch)s'))) | n.cc", 1),
    ("a failing pipeline deep in another", "pass",
     "(fun(n, Guard(n.zz | fun(m, Guard(n.aa('%(nosuch)s')), 'y'))) | n.cc) + n.dd", 2),
    ("a pipeline failing by its name in another", "pass", "fun(n, Named(m.bb('%(nosuch)s'))) | n.cc", 1),
    ("the name of a pipeline in another", "pass", "fun(n, Named(m.bb('x'))) | n.cc", 1),
]


def parts(s, v):
    """Constant pieces of a text."""
    v = s.res(v)
    if isinstance(v, K):
        return str(v.v)
    if isinstance(v, T):
        return "".join(parts(s, a) if isinstance(a, (K, T)) else "" for a in v.args)
    if isinstance(v, Tup):
        return "".join(parts(s, a) for a in v.items)
    return ""


def named(chk):
    loc = "pipeline/base.py:Pipeline.__repr__"
    for name, stmt, expr, n in TEXTS:
        l = world(chk, "def f():\n    n = environ.Environment('/w', {'A': 'b'})\n    m = environ.Environment('/v', {})\n"
                       "    p = %s\n    %s\n    return str.count(repr(p), ' in '), repr(p)\n" % (expr, stmt))
        what = "after displaying %s, %s" % (name, expr)
        for s, v in results(chk, l, "shown", loc, what):
            s0 = s.res(v)
            k = parts(s, s0.items[1]).count(" in ") if isinstance(s0, Tup) else None
            chk.ob("shown", k == n, loc, "%s names environments %s times instead of %d" % (what, k, n), s)


# -- context managers ---------------------------------------------------------------------------------------------------
ENDS = [("normally", "pass")] + [("with " + e.split("(")[0], "raise " + e) for e in EXCS] + [("by leaving", "return")]


def managed(chk):
    loc = "environ.py:Environment.temporary_env"
    setup = ("    a = environ.Environment('/w', {'A': 'b'})\n    b = environ.Environment('/v', {})\n"
             "    c = environ.Environment('/w/sub', {})\n    s = environ.EnvScope(env=a, x=1)\n    s['env'] = a\n    log_ = []\n")
    for (n1, e1), (n2, e2) in itertools.product(ENDS, ENDS):
        for outer, inner in (("a", "b"), ("a", "a"), ("b", "b"), ("b", "c")):
            # the outer one makes b current, the inner one c or a again
            if outer == "b" and inner == "c":
                in_ = "a.temporary_env(b)"
            else:
                in_ = {"b": "b.temporary_env(c)", "a": "a.temporary_env(c)"}[inner]
            src = ("def go(s, a, b, c, log_):\n    with a.temporary_env(b):\n        log_.append(s['env'] is b)\n"
                   "        attempt(go2, s, a, b, c, log_)\n        log_.append(s['env'] is b)\n        %s\n"
                   "def go2(s, a, b, c, log_):\n    with %s:\n        log_.append(s['env'] is %s)\n        %s\n"
                   "def f():\n%s    attempt(go, s, a, b, c, log_)\n    log_.append(s['env'] is a)\n    return log_\n") % (
                e1, in_, "b" if in_ == "a.temporary_env(b)" else "c", e2, setup)
            what = "temporary environments ending %s and, inside, %s (%s)" % (n1, n2, in_)
            for s, v in results(chk, world(chk, src), "environment", loc, what):
                chk.ob("environment", plain(s, v) == [True] * 4, loc, "%s: the current environment was right at points %r" % (
                    what, plain(s, v)), s)
    prompt(chk)
    session(chk)


def prompt(chk):
    loc = "environ.py:EnvScope.__exit__"
    for before in ("'>>> '", "None", None):
        for nest in ("s", "t"):
            for (n1, e1), (n2, e2) in itertools.product(ENDS, ENDS):
                src = ("def go(s, t, log_):\n    with s:\n        log_.append(sys.ps1 is s)\n        attempt(go2, %s, log_)\n"
                       "        log_.append(sys.ps1 is s)\n        %s\n"
                       "def go2(t, log_):\n    with t:\n        log_.append(sys.ps1 is t)\n        %s\n"
                       "def f():\n    e = environ.Environment('/w', {})\n    s = environ.EnvScope(env=e)\n    t = environ.EnvScope(env=e)\n"
                       "    log_ = []\n    attempt(go, s, t, log_)\n    log_.append(getattr(sys, 'ps1', 'no'))\n"
                       "    attempt(go, s, t, log_)\n    log_.append(getattr(sys, 'ps1', 'no'))\n    return log_\n") % (nest, e1, e2)
                l = world(chk, src)
                want = {"'>>> '": ">>> ", "None": None, None: "no"}[before]
                l.st.tfields[(Ext("sys"), "ps1")] = DELETED if before is None else K(want)
                what = "%s, with the prompt %s, ending %s and, inside, %s" % (
                    "a scope in itself" if nest == "s" else "a scope in another", before or "missing", n1, n2)
                for s, v in results(chk, l, "prompt", loc, what):
                    got = plain(s, v)
                    ok = got[:3] + got[4:7] == [True] * 6 and all(
                        g == want or before == "None" and g == "no" for g in (got[3], got[7]))
                    chk.ob("prompt", ok, loc, "%s: prompts are right at points %r" % (what, got), s)


def copying(chk):
    """The thread-local state of copying, the attribute of it that matters and what sets it for a while."""
    m = World(chk, "def f():\n    pass\n", fork="parent").prog.module("utils/copy.py")
    state = memo = manager = None
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).endswith("local"):
            state = n.targets[0].id
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and ast.unparse(n.value) == state:
            memo = n.attr
    for n in m.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name != "deepcopy" and any(
                isinstance(x, ast.Attribute) and x.attr == memo for x in ast.walk(n)):
            manager = n.name
    return (state, memo, manager) if state and memo else (None, None, None)


def session(chk):
    state, memo, manager = copying(chk)
    if manager is None:
        return
    loc = "utils/copy.py:" + manager
    for (n1, e1), (n2, e2) in itertools.product(ENDS, ENDS):
        src = ("def now():\n    return getattr(copy_.STATE, 'MEMO', None)\n"
               "def go(a, b, log_):\n    with copy_.MANAGER(a):\n        log_.append(now() is a)\n        attempt(go2, b, log_)\n"
               "        log_.append(now() is a)\n        attempt(copy_.deepcopy, [Uncopyable()])\n        log_.append(now() is a)\n"
               "        %s\n"
               "def go2(b, log_):\n    with copy_.MANAGER(b):\n        log_.append(now() is b)\n        %s\n"
               "class Uncopyable(object):\n    def __deepcopy__(self, memo=None):\n        raise Boom()\n"
               "def f():\n    a = {'k': 'v'}\n    b = {'k2': 'v'}\n    log_ = []\n    before = now()\n    attempt(go, a, b, log_)\n"
               "    log_.append(now() is before)\n    attempt(copy_.deepcopy, [Uncopyable()])\n    log_.append(now() is before)\n"
               "    return log_\n") % (e1, e2)
        src = src.replace("STATE", state).replace("MEMO", memo).replace("MANAGER", manager)
        what = "copy sessions ending %s and, inside, %s" % (n1, n2)
        l = world(chk, src)
        for s, v in results(chk, l, "session", loc, what):
            chk.ob("session", plain(s, v) == [True] * 6, loc, "%s: the session was right at points %r" % (what, plain(s, v)), s)


def completion(chk):
    loc = "jedi_completion.py:setup_readline.JediRL.complete"
    fails = ("nothing", "os.getcwd", "jedi.Interpreter", ".complete", "name")
    for fail in fails:
        for cls in ("FileNotFoundError", "ValueError", "KeyboardInterrupt") if fail != "nothing" else ("",):
            src = ("def f(scope):\n    jedi_completion.setup_readline([scope])\n    return 1\n"
                   "def g(complete):\n    attempt(complete, 'x', 0)\n    return 1\n")
            l = world(chk, src, ())
            path = l.st.new("list", None, None, (K("/lib"), K("/site")))
            l.st.user["ext"] = dict(l.st.user["ext"], **{"sys.path": path})
            got = []
            E = l.hooks.ext
            E["readline.set_completer"] = lambda it, st, r, a, k: (got.append((st, a[0])), [(st, NONE)])[1]

            def boom(n, res):
                def h(it, st, r, a, k):
                    if n == fail:
                        return [it.raise_new(st, cls)]
                    return [(st, res(st))] if res else None
                return h
            E["os.getcwd"] = boom("os.getcwd", lambda st: K("/w"))
            interp = T("sym", "interpreter")
            E["jedi.Interpreter"] = boom("jedi.Interpreter", lambda st: interp)
            E[".complete"] = lambda it, st, r, a, k: boom(".complete", lambda st: T("sym", "completions"))(
                it, st, r, a, k) if r == interp else None
            what = "completing while %s%s" % (fail if fail == "nothing" else fail + " raises ", cls)
            l.start(T("sym", "scope"))
            chk.ob("ends", bool(got), loc, "no completer is set")
            for st, c in got[:1]:
                res = l.it.call(st.fork(), FnV(l.mod.funcs["g"], None), [c], {}, None, l.run.fr)
                chk.absorb(l.it, res)
                for s, v in res:
                    p = plain(s, path)
                    chk.ob("path", p == ["/lib", "/site"], loc, "%s leaves sys.path as %r" % (what, p), s)


# -- the pipeline that gets terminal stop requests ---------------------------------------------------------------------
PROC_ = '''
class Env(object):
    def __init__(self, interactive):
        self._interactive = interactive
        self.running_pipelines = []
class Pipe(object):
    def __init__(self, interactive):
        self._env = Env(interactive)
class Item(running.BaseRunningItem):
    def __init__(self):
        self.is_running = True
        self.is_failed = False
def make(interactive):
    return running.RunningPipeline([Item()], Pipe(interactive))
def handler():
    running.make_stop_signal_handler()
    return running.stop_signal_handler
'''


def foreground(chk):
    loc = "pipeline/running.py:RunningPipeline.wait"
    ends = {"finishes": None, "fails": None, "is suspended": None, "is cancelled": "asyncio.CancelledError",
            "is interrupted": "KeyboardInterrupt", "is closed": "GeneratorExit", "gets an error": "ValueError"}
    for end, (i1, i2) in itertools.product(ends, ((True, True), (False, True), (True, False), (None, True), (None, False))):
        src = PROC_ + (
            "async def outer():\n    x = %s\n    y = make(%r)\n    os.sync(y)\n    %s\n"
            "def f():\n    h = stop_handler()\n    return h\n"
            "async def go(h):\n    x = make(%r)\n    y = make(%r)\n    os.sync(x, y)\n    await attempt_(x if %r else y)\n"
            "    h.handle_event(None)\n    return x.pipeline_suspended, y.pipeline_suspended\n"
            "async def attempt_(p):\n    try:\n        await p.wait()\n    except BaseException:\n        pass\n") % (
            "None", bool(i2), "pass", bool(i1), bool(i2), i1 is not None)
        l = world(chk, src, ())
        run_fg(chk, l, end, ends[end], i1, i2, loc)


def run_fg(chk, l, end, cls, i1, i2, loc):
    """While x is waited for (if i1 is given), y is; y's wait ends as given. Stop requests go to x then, if it is
    interactive, and to nothing after x's wait."""
    what = "waiting for a%s pipeline that %s%s" % (
        "n interactive" if i2 else " background", end,
        "" if i1 is None else " while waiting for a%s one" % ("n interactive" if i1 else " background"))
    hooks = l.hooks
    st = l.st
    it = l.it
    m = l.prog.module("pipeline/running.py")
    res = it.call(st, FnV(l.prog.func("pipeline/running.py", "make_stop_signal_handler"), None), [], {}, None, l.run.fr)
    res = it.bind(res, lambda s, _: it.load_global(m, "stop_signal_handler", s, l.run.fr, None))
    hooks.ext["os.sync"] = lambda it, s, r, a, k: (s.user.__setitem__("xy", tuple(a)), [(s, NONE)])[1]
    # awaiting: x's wait first makes y be waited for, then y's wait ends as given, then x's process ends

    def awaits(it, s, v):
        n = s.user.get("waits", 0)
        s.user["waits"] = n + 1
        x, y = s.user["xy"]
        if i1 is not None and n == 0:
            r = it.call(s, FnV(l.mod.funcs["attempt_"], None), [y], {}, None, l.run.fr)
            r = it.bind(r, lambda s, c: it.await_(s, c, None, l.run.fr))

            def after(s, _):
                s = s.fork()
                p = s.fork()
                rr = it.bind(it.getattr(p, p.user["h"], "handle_event", None, l.run.fr),
                             lambda s2, h: it.call(s2, h, [NONE], {}, None, l.run.fr))
                rr = it.bind(rr, lambda s2, _: two(it, s2, x, y))
                for s2, v2 in rr:
                    s.user.setdefault("during", [])
                    s.user["during"] = s.user["during"] + [plain(s2, v2)]
                finish(s, x)
                return [(s, NONE)]
            return it.bind(r, after)
        if cls:
            finish(s, y)
            return [it.raise_new(s, cls)]
        if end == "is suspended":
            s.mut(y).f["pipeline_suspended"] = TRUE
            return [(s, NONE)]
        finish(s, y, end == "fails")
        return [(s, NONE)]

    def finish(s, p, failed=False):
        for i in s.obj(s.obj(p).f["processes"]).d:
            s.mut(i).f["is_running"] = FALSE
            s.mut(i).f["is_failed"] = K(failed)

    def two(it, s, x, y):
        return it.bind(it.getattr(s, x, "pipeline_suspended", None, l.run.fr),
                       lambda s1, a: it.bind(it.getattr(s1, y, "pipeline_suspended", None, l.run.fr),
                                             lambda s2, b: [(s2, Tup([a, b]))]))
    hooks.awaits = awaits

    def go(s, h):
        s.user["h"] = h
        r = it.call(s, FnV(l.mod.funcs["go"], None), [h], {}, None, l.run.fr)
        return it.bind(r, lambda s2, c: it.await_(s2, c, None, l.run.fr))
    res = it.bind(res, go)
    chk.absorb(it, res)
    n = 0
    for s, v in res:
        if isinstance(v, Abrupt):
            chk.ob("foreground", False, exc_loc(s, v) or loc, "%s: %s is raised" % (what, cls_name(exc_class(s, v))), s)
            continue
        n += 1
        after = plain(s, v)
        ysus = end == "is suspended"
        chk.ob("foreground", after[0] is False and after[1] in (False, ysus), loc,
               "after %s, a stop request suspends it" % what, s)
        for d in s.user.get("during", ()):
            chk.ob("foreground", d[0] is bool(i1), loc, "after %s, a stop request %s the outer one" % (
                what, "does not suspend" if i1 else "suspends"), s)
            chk.ob("foreground", d[1] in (False, ysus), loc, "after %s, a stop request suspends the inner one" % what, s)
    chk.ob("ends", n > 0, loc, "%s never ends" % what)


def check(chk):
    chk.rule("nesting", "a pipeline of an interactive environment is run by display exactly when it is displayed by itself, "
                        "whatever was displayed before and however that ended")
    chk.rule("shown", "the environment is named where it differs from that of the surrounding display, whatever failed before")
    chk.rule("environment", "a scope's current environment is the former one again after a temporary one")
    chk.rule("prompt", "the prompt is the former one again after a scope")
    chk.rule("session", "the copy session is the former one again after a copy")
    chk.rule("path", "the module search path is the former one again after a completion")
    chk.rule("foreground", "terminal stop requests go to the pipeline waited for before, after a wait")
    chk.rule("ends", "the operation ends")
    display(chk)
    named(chk)
    managed(chk)
    completion(chk)
    foreground(chk)
