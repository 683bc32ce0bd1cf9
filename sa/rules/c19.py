"""C19: the copy of a pipeline that is run is complete and shares no containers or pipelines."""
from .c18 import *

TECHNIQUE = ("path-sensitive abstract interpretation of copying every kind of pipeline, alone and inside every other kind, "
             "followed by a comparison of the two object graphs")
LOC = "utils/copy.py:deepcopy"
EXTRA = {
    "a command with every kind of value": "env.aa(R('%x'), ['l', ['m']], ('t', ['u']), {'k': ['v']}, {}, [], ' s\\tS ', '', b'bytes', 5, 2.5, None, "
                                          "use, flag=False, deep=[env.bb(['w'])])",
    "redirections of every kind": "((((env.aa | Redirect(0, '/i', 5, 0o600)) | Redirect(1, PIPE)) | Redirect(2, STRING)) "
                                  "| Redirect(2, TMP)) | Redirect(7, 9, 1, 0o644, 4, True)",
    "lent redirections": "env.aa | Redirects(Redirect(0, 9), Redirect(1, '/o', 1025, 0o400), Redirect(7, 8, 0))",
    "a function with many arguments": "function.Function(env, grow, ['x', {'y': [1]}], env.bb('z'), k={'a': [env.cc]}, l=('t',))",
    "a method": "env.aa | Thing().method",
    "a group of pipes": "(env.aa | env.bb) + (env.cc('1') | (env.dd + env.ee))",
    "a command of another environment": "environ.Environment('/v', {'B': '1'}, interactive=True).aa('x')",
}
INSIDE = {
    "": "p", " in a pipe": "p | env.zz", " at the end of a pipe": "env.zz | p", " in a group": "env.zz + p",
    " redirected": "p > '/zz'", " as an argument": "env.zz(p)", " as an option": "env.zz('x', k=p)",
    " in a list argument": "env.zz(['y', p])", " in a dictionary argument": "env.zz({'y': p})",
    " twice in a pipe": "p | p", " twice in a group": "p + p", " twice as an argument": "env.zz(p, p, k=[p])",
    " deep inside": "((env.zz(env.yy(p)) | env.xx) + env.ww) > '/zz'",
}
STATE = ("_started", "_redirects", "_running", "_print")


class Copies(object):
    def __init__(self, l, run=False):
        self.run = run
        self.pipeline = l.prog.cls("pipeline/base.py", "Pipeline")
        self.function = l.prog.cls("pipeline/function.py", "Function")
        self.redirs = [l.prog.cls("redir.py", n) for n in ("Redirect", "Redirects")]
        self.env = l.prog.cls("environ.py", "Environment")
        self.problems, self.seen, self.n = [], {}, 0

    def kind(self, o):
        if isinstance(o.cls, ClassInfo):
            if self.env in o.cls.mro:
                return "env"
            if self.pipeline in o.cls.mro:
                return "pipeline"
            if any(r in o.cls.mro for r in self.redirs):
                return "redirect"
            if o.kind in ("list", "dict", "set"):
                return "container"
            return "value" if o.cls.module.rel.startswith("environ.py") else "other"
        return "container" if o.kind in ("list", "dict", "set") else "other"

    def fields(self, o):
        return {k: v for k, v in o.f.items() if not k.startswith(STATE)}

    def compare(self, s, a, b, where):
        a, b = s.res(a), s.res(b)
        self.n += 1
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                self.compare(s, x, y, where)
            return
        if not (isinstance(a, Ref) and isinstance(b, Ref)):
            if a != b:
                self.problems.append("%s is %s instead of %s" % (where, text(s, b), text(s, a)))
            return
        o, p = s.obj(a), s.obj(b)
        kind = self.kind(o)
        if kind in ("env", "other"):
            if a != b:
                self.problems.append("%s is another %s" % (where, "environment" if kind == "env" else "object"))
            return
        if kind in ("pipeline", "container"):
            if a == b:
                self.problems.append("%s is shared with the original" % where)
                return
            if b.oid in self.seen:
                self.problems.append("%s and %s are the same object" % (self.seen[b.oid], where))
                return
            self.seen[b.oid] = where
        if a == b:
            return
        if o.cls is not p.cls or o.kind != p.kind:
            self.problems.append("%s is a %s instead of a %s" % (where, cname(p), cname(o)))
            return
        f, g = self.fields(o), self.fields(p)
        for k in sorted(set(f) | set(g)):
            if k.startswith("__") and k not in f:
                continue
            if k not in f or k not in g:
                if k in f:
                    self.problems.append("%s.%s is missing" % (where, k))
                continue
            if self.run and s.res(f[k]) in (NONE, FALSE):
                continue       # what running it has set
            if s.res(f[k]) == s.res(g[k]) and self.function in getattr(o.cls, "mro", ()) and k not in ("_arg", "_kw"):
                continue       # what a Python stage iterates over is not copied
            self.compare(s, f[k], g[k], "%s.%s" % (where, k))
        if isinstance(o.d, tuple) or isinstance(o.d, dict):
            x, y = o.d, p.d
            if isinstance(x, dict):
                if not isinstance(y, dict) or sorted(map(repr, x)) != sorted(map(repr, y)):
                    self.problems.append("%s has other keys" % where)
                    return
                for k in x:
                    self.compare(s, x[k], y.get(k, NONE), "%s[%s]" % (where, text(s, k)))
            elif not isinstance(y, tuple) or len(x) != len(y):
                self.problems.append("%s has another length" % where)
            else:
                for i, (u, v) in enumerate(zip(x, y)):
                    self.compare(s, u, v, "%s[%d]" % (where, i))


def cname(o):
    return o.cls.name if isinstance(o.cls, ClassInfo) else o.kind


def text(s, v):
    v = s.res(v)
    if isinstance(v, Ref):
        return "a " + cname(s.obj(v))
    return repr(v)


def check(chk):
    chk.rule("complete", "a copy has the kind, environment, commands, arguments, options and redirections of the original")
    chk.rule("separate", "no list, dictionary or pipeline of a copy belongs to the original or occurs twice in the copy")
    chk.rule("copied", "a pipeline can be copied and what is run is the copy")
    for kind, expr in list(KINDS.items()) + list(EXTRA.items()):
        for name, inside in INSIDE.items():
            for how, act in (("copied", "copy_.deepcopy(p)"), ("run", "getattr(p.run(), 'pipeline', None)")):
                if how == "run" and (kind not in ("a command", "a command with arguments", "a function", "a group")
                                     or "twice" not in name and name):
                    continue
                one(chk, kind + name, expr, inside, how, act)


    for expr in ("Redirect(0, '/i', 5, 0o600)", "Redirect('stdout', PIPE)", "Redirect(2, STRING, pipe=7)",
                 "Redirect(7, 9, 1, 0o644, 4, True)", "Redirect(2, 1, borrowed=True)"):
        one(chk, expr, expr, "p", "copied", "copy_.deepcopy(p)")


def one(chk, what, expr, inside, how, act):
    l = World(chk, "import os\nfrom pieshell.utils import copy as copy_\n" + PRE +
              "def f():\n    env = environ.Environment('/w', {'A': 'b'})\n    p = %s\n    p = %s\n    return p, %s\n" % (
                  expr, inside, act), fork="parent").init_log()
    l.hooks.recursion = 24
    n = 0
    for s, v in l.start():
        if isinstance(v, Abrupt):
            chk.ob("copied", False, exc_loc(s, v) or LOC, "%s cannot be %s: %s" % (what, how, cls_name(exc_class(s, v))), s)
            continue
        n += 1
        p, c = s.res(v).items
        if s.res(c) == NONE:
            continue
        cp = Copies(l, how == "run")
        cp.compare(s, p, c, "the " + {"copied": "copy", "run": "pipeline run"}[how])
        bad = sorted(set(cp.problems))
        shared = [b for b in bad if b.endswith(("with the original", "are the same object"))]
        other = [b for b in bad if b not in shared]
        chk.ob("separate", not shared, LOC, "copying %s, %s" % (what, "; ".join(shared[:3])), s, "%s, %s" % (what, how))
        chk.ob("complete", not other, LOC, "copying %s, %s" % (what, "; ".join(other[:3])), s, "%s: %d values" % (what, cp.n))
    chk.ob("copied", n > 0, LOC, "%s cannot be %s" % (what, how))
