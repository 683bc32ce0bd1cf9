"""Pipelines of every structure, and the descriptors each of their stages has to end up with."""
from .launch import *

ANY = "?"


def PIPE(n, end):
    return ("pipe", "?" + n, end)


def TMP(n=None):
    return ("tmp", "?" + n if n else ANY)


def FILE(path, flag=ANY, mode=ANY):
    return ("file", path, flag, mode)


T0, T1, T2 = TTY[0], TTY[1], TTY[2]
USER = ("user", 9)
OUT = "OUT"            # the standard output of the whole pipeline
SRC = '''
def gen():
    yield "x"
def use(inp):
    return inp
env = environ.Environment(None, {"A": "b"})
'''


class Shape(object):
    def __init__(self, expr, stages, py=(), shell=(), args=None, pre="", modes=("run", "iter")):
        self.expr, self.py, self.shell, self.args, self.pre, self.modes = expr, py, shell, args or {}, pre, modes
        self.stages = {n: dict(((0, T0), (1, OUT), (2, TMP())), **{}) for n in stages}
        for n, d in stages.items():
            for k, v in d.items():
                if v is None:
                    self.stages[n].pop(k, None)
                else:
                    self.stages[n][k] = v


def st(i=None, o=None, e=None, **kw):
    d = {}
    if i:
        d[0] = i
    if o:
        d[1] = o
    if e:
        d[2] = e
    for k, v in kw.items():
        d[int(k[1:])] = v
    return d


def shapes():
    S = Shape
    r, w = (lambda n: PIPE(n, "r")), (lambda n: PIPE(n, "w"))
    yield S("env.aa", {"aa": st()})
    yield S("env.aa | env.bb", {"aa": st(o=w("x")), "bb": st(i=r("x"))})
    yield S("env.aa | env.bb | env.cc", {"aa": st(o=w("x")), "bb": st(i=r("x"), o=w("y")), "cc": st(i=r("y"))})
    yield S("env.aa | (env.bb | env.cc)", {"aa": st(o=w("x")), "bb": st(i=r("x"), o=w("y")), "cc": st(i=r("y"))})
    yield S("env.aa + env.bb", {"aa": st(e=TMP("s")), "bb": st(e=TMP("s"))})
    yield S("(env.aa + env.bb) | env.cc", {"aa": st(o=w("x"), e=TMP("s")), "bb": st(o=w("x"), e=TMP("s")),
                                           "cc": st(i=r("x"))})
    yield S("env.aa | (env.bb + env.cc)", {"aa": st(o=w("x")), "bb": st(i=r("x"), e=TMP("s")),
                                           "cc": st(i=r("x"), e=TMP("s"))})
    yield S("(env.aa | env.bb) + env.cc", {"aa": st(o=w("x")), "bb": st(i=r("x")), "cc": st()})
    yield S("env.cc + (env.aa | env.bb)", {"aa": st(o=w("x")), "bb": st(i=r("x")), "cc": st()})
    # redirections
    yield S("env.aa | '/out'", {"aa": st(o=FILE("/out"))}, modes=("run",))
    yield S("'/in' | env.aa", {"aa": st(i=FILE("/in"))})
    yield S("(env.aa < '/in') > '/out'", {"aa": st(i=FILE("/in"), o=FILE("/out"))}, modes=("run",))
    yield S("'/in' | (env.aa | env.bb)", {"aa": st(i=FILE("/in"), o=w("x")), "bb": st(i=r("x"))})
    yield S("(env.aa | env.bb) | '/out'", {"aa": st(o=w("x")), "bb": st(i=r("x"), o=FILE("/out"))}, modes=("run",))
    yield S("(env.aa + env.bb) | '/out'", {"aa": st(o=FILE("/out")), "bb": st(o=FILE("/out"))}, modes=("run",))
    yield S("(env.aa | Redirect('stderr', '/err')) | env.bb", {"aa": st(o=w("x"), e=FILE("/err")), "bb": st(i=r("x"))})
    yield S("(env.aa | env.bb) | Redirect('stderr', '/err')", {"aa": st(o=w("x"), e=FILE("/err")),
                                                              "bb": st(i=r("x"), e=FILE("/err"))})
    yield S("env.aa | (env.bb | Redirect(5, '/five'))", {"aa": st(o=w("x")), "bb": st(i=r("x"), n5=FILE("/five"))},
            pre="Redirect.fd_flags[5] = 0")
    yield S("env.aa | Redirect(2, 1)", {"aa": st(e=T1)})
    yield S("env.aa | Redirect(1, 9)", {"aa": st(o=USER)}, modes=("run",))
    yield S("(env.aa | Redirect(2, 9)) | env.bb", {"aa": st(o=w("x"), e=USER), "bb": st(i=r("x"))})
    yield S("(env.aa + env.bb) | Redirect(2, 9)", {"aa": st(e=USER), "bb": st(e=USER)})
    yield S("((env.aa | env.bb) | Redirect(2, 9)) + env.cc", {"aa": st(o=w("x"), e=USER), "bb": st(i=r("x"), e=USER),
                                                            "cc": st()})
    yield S("env.aa | Redirect(1, TMP)", {"aa": st(o=TMP("t"))}, modes=("run",))
    yield S("env.aa | Redirect(1, STRING) | Redirect(2, TMP)", {"aa": st(o=TMP("t"), e=TMP("u"))}, modes=("run",))
    yield S("(env.aa | Redirect(2, PIPE)) | env.bb", {"aa": st(o=w("x"), e=w("z")), "bb": st(i=r("x"))}, shell=[r("z")])
    yield S("env.aa | Redirect(0, PIPE)", {"aa": st(i=r("z"))}, shell=[w("z")])
    yield S("env.aa | ('/in' | env.bb)", {"aa": st(o=w("x")), "bb": st(i=FILE("/in"))})
    yield S("env.aa + ('/in' | (env.bb + env.cc))", {"aa": st(), "bb": st(i=FILE("/in")), "cc": st(i=FILE("/in"))})
    # redirections given when it is run
    yield S("env.aa | env.bb", {"aa": st(o=w("x"), e=USER), "bb": st(i=r("x"), e=USER)}, modes=("run2-9",))
    yield S("(env.aa | env.bb) + env.cc", {"aa": st(o=w("x"), e=USER), "bb": st(i=r("x"), e=USER), "cc": st(e=USER)},
            modes=("run2-9",))
    yield S("env.aa(env.bb)", {"aa": st(e=USER), "bb": st(o=w("x"), e=USER)}, args={"aa": ["aa", ("/dev/fd/", r("x"))]},
            modes=("run2-9",))
    yield S("env.aa | Redirect(2, '/err')", {"aa": st(i=USER, e=FILE("/err"))}, modes=("run0-9",))
    yield S("builtins.ClearDirCacheBuiltin(env, ['x']) + env.aa", {"aa": st(i=USER)}, modes=("run0-9",))
    # Python stages
    yield S("gen() | env.aa", {"aa": st(i=r("x"))}, py=[w("x")])
    yield S("['x', 'y'] | env.aa | env.bb", {"aa": st(i=r("x"), o=w("y")), "bb": st(i=r("y"))}, py=[w("x")])
    yield S("env.aa | use", {"aa": st(o=w("x"))}, py=[r("x"), OUT])
    yield S("env.aa | use | env.bb", {"aa": st(o=w("x")), "bb": st(i=r("y"))}, py=[r("x"), w("y")])
    yield S("gen() | (env.aa | use)", {"aa": st(i=r("x"), o=w("y"))}, py=[w("x"), r("y"), OUT])
    yield S("(env.aa | use) | '/out'", {"aa": st(o=w("x"))}, py=[r("x"), FILE("/out")], modes=("run",))
    yield S("(env.aa | Redirect(2, 9)) | (env.bb + env.cc) | use", {
        "aa": st(o=w("x"), e=USER), "bb": st(i=r("x"), o=w("y")), "cc": st(i=r("x"), o=w("y"))}, py=[r("y"), OUT])
    # arguments
    A = lambda n: ("/dev/fd/", r(n))
    W = lambda n: ("/dev/fd/", w(n))
    yield S("env.aa(env.bb)", {"aa": st(), "bb": st(o=w("x"))}, args={"aa": ["aa", A("x")]})
    yield S("env.aa('-f', env.bb, gen())", {"aa": st(), "bb": st(o=w("x"))}, py=[w("y")],
            args={"aa": ["aa", "-f", A("x"), A("y")]})
    yield S("env.aa(env.bb(env.cc))", {"aa": st(), "bb": st(o=w("x")), "cc": st(o=w("y"))},
            args={"aa": ["aa", A("x")], "bb": ["bb", A("y")]})
    yield S("env.aa(env.bb | env.cc)", {"aa": st(), "bb": st(o=w("x")), "cc": st(i=r("x"), o=w("y"))},
            args={"aa": ["aa", A("y")]})
    yield S("env.aa(env.bb + env.cc)", {"aa": st(), "bb": st(o=w("x")), "cc": st(o=w("x"))},
            args={"aa": ["aa", A("x")]})
    yield S("env.aa(use)", {"aa": st()}, py=[r("x"), OUT], args={"aa": ["aa", W("x")]})
    yield S("env.aa(use) | env.bb", {"aa": st(o=w("o")), "bb": st(i=r("o"))}, py=[r("x"), w("o")],
            args={"aa": ["aa", W("x")]})
    yield S("env.aa(in_file=env.bb)", {"aa": st(), "bb": st(o=w("x"))}, args={"aa": ["aa", ("--in-file=/dev/fd/", r("x"))]})
    yield S("env.aa | env.bb(['x'])", {"aa": st(o=w("x")), "bb": st(i=r("x"))}, py=[w("y")], args={"bb": ["bb", A("y")]})
    yield S("(env.aa | Redirect(2, 9))  | env.bb(env.cc) | Redirect(7, '/seven', 0)", {
        "aa": st(o=w("x"), e=USER, n7=FILE("/seven")), "bb": st(i=r("x"), n7=FILE("/seven")),
        "cc": st(i=r("x"), o=w("y"), n7=FILE("/seven"))}, args={"bb": ["bb", A("y")]})
    # builtins
    yield S("builtins.ClearDirCacheBuiltin(env, ['x']) + env.aa", {"aa": st()})
    yield S("env.aa + (builtins.ClearDirCacheBuiltin(env, ['x']) | '/out')", {"aa": st()})
    yield S("env.aa + builtins.ClearDirCacheBuiltin(env, ['x'])", {"aa": st()})
    yield S("builtins.Remote(env, ['remote', 'host', env.aa])", {"ssh": st()})
    yield S("env.aa | builtins.Remote(env, ['remote', 'host', env.aa])", {"aa": st(o=w("x")), "ssh": st(i=r("x"))})
    yield S("builtins.BashSource(env, ['bashsource', 'f'])", {"bash": st()}, py=[r("x"), OUT],
            args={"bash": ["bash", "-l", "-i", "-c", None, W("x")]})
    yield S("builtins.SubShell(env, ['subshell', env.aa])", {"?subshell": st()})
    yield S("env.bb | builtins.SubShell(env, ['subshell', env.aa])", {"bb": st(o=w("x")), "?subshell": st(i=r("x"))})


MODES = {
    "run": "return (%s).run()",
    "iter": "return (%s).__aiter__()",
    "run2-9": "return (%s).run([Redirect(2, 9)])",
    "run0-9": "return (%s).run([Redirect(0, 9)])",
    "bytes": "return (%s).run([Redirect('stdout', PIPE)]).iterbytes()",
}


class Result(object):
    """What a launch did: final states of parent and children."""

    def __init__(self, shape, mode, launch, initial):
        self.shape, self.mode, self.launch, self.initial = shape, mode, launch, initial
        self.children, self.parents, self.errors = [], [], []
        self.note = ""

    @property
    def name(self):
        return self.shape.expr + {
            "run": "", "iter": " (iterated)", "bytes": " (as bytes)"}.get(self.mode, " (redirected when run)") + self.note


class Binding(object):
    def __init__(self, out):
        self.b, self.out = {}, out

    def assign(self, pats, items, content):
        """Pairs patterns with items, [(pattern, item or None)], consistently if that is possible."""
        def go(i, left):
            if i == len(pats):
                return []
            for x in left:
                keep = dict(self.b)
                if self.match(pats[i], content(x)):
                    t = go(i + 1, [y for y in left if y is not x])
                    if t is not None:
                        return [(pats[i], x)] + t
                self.b = keep
            return None
        t = go(0, list(items))
        if t is None:
            t, left = [], list(items)
            for p in pats:
                hit = [x for x in left if self.match(p, content(x))][:1]
                t.append((p, hit[0] if hit else None))
                left = [x for x in left if not hit or x is not hit[0]]
        return t

    def match(self, pat, content):
        if pat == OUT:
            pat = self.out
        if content is None or pat[0] != content[0] or len(pat) != len(content):
            return False
        todo = []
        for p, c in zip(pat[1:], content[1:]):
            if p == ANY:
                continue
            if isinstance(p, str) and p.startswith("?"):
                key = (pat[0], p)
                if self.b.get(key, c) != c or any(k[0] == pat[0] and v == c and k != key for k, v in self.b.items()):
                    return False
                todo.append((key, c))
            else:
                c = c.v if isinstance(c, K) else c
                if c != p:
                    return False
        self.b.update(todo)
        return True


def show(c):
    if c is None:
        return "nothing"
    if c[0] == "tty":
        return "the shell's descriptor %d" % c[1]
    if c[0] == "pipe":
        return "the %s end of pipe %s" % ("reading" if c[2] == "r" else "writing", str(c[1]).lstrip("?"))
    if c[0] == "file":
        v = [x.v if isinstance(x, K) else x for x in c[1:]]
        return "file %s" % v[0] if v[1] == ANY else "file %s opened with flags %s, mode %s" % tuple(v)
    if c[0] == "tmp":
        return "a temporary file" if c[1] in (ANY,) else "temporary file %s" % str(c[1]).lstrip("?")
    if c[0] == "user":
        return "the user's descriptor"
    return "a descriptor of the shell"


def launched(chk, which=None, modes=None, fork="both", setup=None, sel=None):
    """Analyse every shape; yields Result."""
    for sh in (which or shapes()):
        for mode in sh.modes:
            if modes and mode not in modes:
                continue
            if sel and not sel(sh, mode):
                continue
            src = SRC + "def f():\n    %s\n    %s\n" % (sh.pre or "pass", MODES[mode] % sh.expr)
            yield run_shape(chk, sh, mode, src, fork, setup)


def run_shape(chk, sh, mode, src, fork="both", setup=None):
    l = Launch(chk, src, fork=fork)
    if setup:
        setup(l)
    sub = [fi for fi in l.prog.functions if fi.name == "run_interactive"]
    l.hooks.pkg.update({fi: lambda it, s, slf, a, k: l.hooks.stop(s, "subshell", ()) for fi in sub})
    l.init_log()
    initial = dict(l.hooks.table(l.st))
    r = Result(sh, mode, l, initial)
    for s, v in l.start():
        if s.user.get("child"):
            ev = [e for e in s.trace() if e.kind == "stop"]
            if isinstance(v, Abrupt) and v.out[0] == "stop":
                r.children.append((s, ev[-1]))
            else:
                r.errors.append((s, v, None))
        elif isinstance(v, Abrupt):
            r.errors.append((s, v, None))
        else:
            r.parents.append((s, v))
    return r


def stage_of(s, ev):
    """Name of the program a child becomes."""
    if ev.name == "subshell":
        return "?subshell"
    if not ev.name.startswith("exec"):
        return None
    lst = arg_list(s, ev)
    if lst and isinstance(lst[0], K):
        return lst[0].v
    return None


def arg_list(s, ev):
    if len(ev.args) < 2:
        return None
    v = s.res(ev.args[1])
    if isinstance(v, Tup):
        return [s.res(x) for x in v.items]
    if isinstance(v, Ref) and s.obj(v).kind == "list":
        return [s.res(x) for x in s.obj(v).d]
    return None


def child_problems(r, s, ev, b):
    """(kind, text) for every way the program's descriptors differ from what the expression says."""
    name = stage_of(s, ev)
    out = []
    if name not in r.shape.stages:
        return name, [("stage", "a program %r is started that is not part of the pipeline" % (name,))]
    want = dict(r.shape.stages[name])
    have = ev.extra
    sub = name == "?subshell"
    args = arg_list(s, ev) if not sub else None
    for i, p in enumerate(r.shape.args.get(name, ())):
        a = args[i] if args and i < len(args) else None
        if isinstance(p, tuple):
            n = None
            if isinstance(a, K) and isinstance(a.v, str) and a.v.startswith(p[0]) and a.v[len(p[0]):].isdigit():
                n = int(a.v[len(p[0]):])
            if n is None:
                out.append(("argument", "argument %d of %s is %r instead of a /dev/fd name" % (i, name, a)))
            elif n in want:
                out.append(("argument", "argument %d of %s names descriptor %d, which is redirected" % (i, name, n)))
            else:
                want[n] = p[1]
    for n, p in sorted(want.items()):
        c = have.get(n)
        if c is not None and c[1] and not sub:
            out.append(("wrong", "descriptor %d of %s is closed when it is executed" % (n, name)))
        elif not b.match(p, c and c[0]):
            q = b.out if p == OUT else p
            out.append(("wrong", "descriptor %d of %s is %s instead of %s" % (n, name, show(c and c[0]), show(q))))
    for n, (c, cloexec) in sorted(have.items()):
        if n in want or cloexec and not sub:
            continue
        if sub and r.initial.get(n) == (c, cloexec) and n > 9:
            continue   # the log's own descriptor
        out.append(("extra", "%s stays open in %s" % (show(c), name)))
    return name, out


def parent_problems(r, s, b):
    out = []
    have = dict(r.launch.hooks.table(s))
    for n, (c, x) in sorted(r.initial.items()):
        if n not in have:
            out.append(("lent", "%s is closed in the shell" % show(c)))
        elif have[n][0] != c:
            out.append(("lent", "%s is replaced in the shell by %s" % (show(c), show(have[n][0]))))
    tr = s.trace()
    for e in tr:
        if e.kind == "fd" and e.name == "close" and isinstance(e.args[0], K) and e.args[0].v in r.initial:
            out.append(("lent", "%s is closed in the shell" % show(r.initial[e.args[0].v][0])))
        if e.kind == "fd" and e.name in ("closed-twice", "not-open", "unknown"):
            out.append(("twice", "the shell closes or uses a descriptor that is not open"))
    keep = [p for p in list(r.shape.py) + list(r.shape.shell)]
    if not r.mode.startswith("run"):
        keep.append(PIPE("out", "r"))
    left = [(n, c) for n, (c, x) in sorted(have.items()) if n not in r.initial]
    for p, hit in b.assign(keep, left, lambda x: x[1]):
        if hit is not None:
            left.remove(hit)
        else:
            out.append(("lost", "%s is not open in the shell" % show(b.out if p == OUT else p)))
    for n, c in left:
        out.append(("kept", "%s stays open in the shell" % show(c)))
    return out


def watch_problems(r, s, b):
    """Python stages and the reader watch the right descriptors, each its own."""
    out = []
    watched = [(e.args[0], e.extra) for e in s.trace() if e.kind == "watch"]
    nums = [n for n, c in watched]
    for n in set(nums):
        if nums.count(n) > 1:
            out.append(("shared", "two handlers watch the same descriptor"))
    want = list(r.shape.py)
    if not r.mode.startswith("run"):
        want.append(PIPE("out", "r"))
    left = list(watched)
    for p, hit in b.assign(want, left, lambda w: w[1]):
        if hit is not None:
            left.remove(hit)
        else:
            out.append(("unread", "nothing reads or writes %s in the shell" % show(b.out if p == OUT else p)))
    for n, c in left:
        out.append(("watched", "%s is used by a Python stage or reader" % show(c)))
    return out


def judge(chk, r, rules):
    """rules: kind of problem -> rule name."""
    b = Binding(PIPE("out", "w") if not r.mode.startswith("run") else T1)
    loc = "pipeline/base.py:Pipeline.run"
    n = 0
    for s, v, _ in r.errors:
        if s.user.get("child"):
            continue
        chk.ob("launch", False, exc_loc(s, v) or loc, "launching %s fails with %s" % (r.name, cls_name(exc_class(s, v))), s)
    seen = set()
    for s, ev in r.children:
        name, ps = child_problems(r, s, ev, b)
        seen.add(name)
        report(chk, r, ps, rules, "pipeline/command.py:Command._child", s)
    for name in r.shape.stages:
        chk.ob("launch", name in seen, loc, "in %s, %s is not started" % (r.name, name))
    chk.ob("launch", bool(r.parents), loc, "launching %s does not end normally" % r.name)
    for s, v in r.parents:
        report(chk, r, watch_problems(r, s, b), rules, "pipeline/function.py:Function._run", s)
        report(chk, r, parent_problems(r, s, b), rules, loc, s)
    return b


def report(chk, r, problems, rules, loc, s):
    bad = set()
    for kind, text in problems:
        rule = rules.get(kind)
        if rule:
            bad.add(rule)
            chk.ob(rule, False, loc, "in %s, %s" % (r.name, text), s)
    for rule in set(rules.values()) - bad:
        chk.ob(rule, True, loc, "", s, "in %s: nothing found against %r" % (r.name, rule))
