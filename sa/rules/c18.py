"""C18: composing, calling, displaying or running pipelines leaves them as they were."""
from .envworld import *
from . import shapes as SH

TECHNIQUE = ("path-sensitive abstract interpretation of every operation on every kind of pipeline, comparing all objects "
             "reachable from its operands before and after; and of repeated runs of shared pipelines of every structure, "
             "comparing the processes started each time")
LOC = "pipeline/base.py:Pipeline"

PRE = '''
def gen():
    yield "x"
def use(inp):
    return inp
def grow(inp, l, k=None):
    l.append(2)
    k["b"] = 2
    return l
class Thing(object):
    def method(self, inp):
        return inp
'''
KINDS = {
    "a command": "env.aa",
    "a command with arguments": "env.aa('x', 'y', long=True, opt='z')",
    "a command with a nested pipeline": "env.aa(env.bb, [1, 2], key=env.cc)",
    "the root command": "env._",
    "a pipe": "env.aa('x') | env.bb",
    "a group": "env.aa('x') + env.bb('y')",
    "a redirected command": "env.aa > '/f'",
    "a pipeline redirected twice": "('/in' | (env.aa | env.bb)) | Redirects(Redirect(2, '/e'), Redirect(1, '/o'))",
    "a function": "[1, 2] | env.aa",
    "a piped function": "env.aa | use",
    "a function with arguments": "function.Function(env, grow, [1], k={'a': 1})",
    "a builtin": "builtins.ClearDirCacheBuiltin(env, ['x', 'y'])",
    "a cd": "builtins.CdBuiltin(env, ['cd', '/v'])",
}
# operations on p and q; the result is a pipeline of its own if "new"
OPS = [
    ("p('x')", "new", "command"), ("p('x', k='v')", "new", "command"), ("p(q)", "new", "command"),
    ("p(k=q)", "new", "command"), ("p([1, 'a'])", "new", "command"), ("p.other", "new", "command"),
    ("p.other.third('x')", "new", "command"), ("p - q", "new", "minus"), ("-p", None, "neg"), ("q(p)", "new", "qcommand"),
    ("p | q", "new", None), ("q | p", "new", None), ("p | p", "new", None), ("p + q", "new", None), ("p + p", "new", None),
    ("p > '/f'", "new", None), ("p < '/f'", "new", None), ("p | '/f'", "new", None), ("'/f' | p", "new", None),
    ("p | None", "new", None), ("p | True", None, None), ("p | use", "new", None), ("p | Thing().method", "new", None),
    ("gen() | p", "new", None), ("['a', 'b'] | p", "new", None), ("p | Redirect('stderr', '/e')", "new", None),
    ("p | r", "new", None), ("p | rs", "new", None), ("rs | p", "new", None), ("(p | rs) | rs", "new", None),
    ("(p | q) + (q | p)", "new", None),
]
USES = ["p.run()", "p.run([Redirect(2, '/e')])", "p.run([Redirect('stdout', STRING)])", "p.run(Redirects(env._redirects, rs))", "p.__aiter__()",
        "iter(p)", "repr(p)", "(p | q).run()", "(q | p).run()", "(p + q).run()", "(p > '/g').run()",
        "(p | rs).run()", "(p | p).run()", "p & True", "~p", "p & q", "p.run() and p.run()", "copy_.deepcopy(p)"]


r_, w_ = (lambda n: SH.PIPE(n, "r")), (lambda n: SH.PIPE(n, "w"))
# two pipelines made from the same command, each with the stages of the other
SHARED = [
    ("a | env.bb", "a('2') | env.bb", ({"aa": SH.st(o=w_("x")), "bb": SH.st(i=r_("x"))},)),
    ("a | env.bb", "a.other | env.bb", ({"aa": SH.st(o=w_("x")), "bb": SH.st(i=r_("x"))},)),
    ("env.bb | a", "env.bb | (a | Redirect(2, TMP))", ({"bb": SH.st(o=w_("x")), "aa": SH.st(i=r_("x"))},)),
]


class Snap(object):
    """Objects reachable from the arguments of os.sync(), each time it is called."""

    def __init__(self, world):
        self.prog = world.prog
        self.env = world.prog.cls("environ.py", "Environment")
        world.hooks.ext["os.sync"] = self.sync

    def sync(self, it, st, recv, args, kwargs):
        st.user["snaps"] = st.user.get("snaps", ()) + (self.reach(st, args),)
        return [(st, NONE)]

    def reach(self, st, args):
        out, todo = {}, [(v, ("pq", "rs")[i > 1][i % 2]) for i, v in enumerate(args)]
        while todo:
            v, name = todo.pop()
            v = st.res(v)
            if isinstance(v, Tup):
                todo += [(x, name) for x in v.items]
                continue
            if not isinstance(v, Ref) or v.oid in out:
                continue
            o = st.obj(v)
            if isinstance(o.cls, ClassInfo):
                if self.env in o.cls.mro or not o.cls.module.rel.startswith(("pipeline/", "redir.py", "environ.py")):
                    continue
            elif o.kind not in ("list", "dict", "set"):
                continue
            d = dict(o.d) if isinstance(o.d, dict) else o.d
            out[v.oid] = (name, o.kind, o.cls, dict(o.f), d, o.meta.get("open"))
            todo += [(x, name) for x in o.f.values()]
            if isinstance(d, dict):
                todo += [(x, name) for kv in d.items() for x in kv]
            elif isinstance(d, tuple):
                todo += [(x, name) for x in d]
        return out

    @staticmethod
    def changes(a, b):
        for oid, (name, kind, cls, f, d, op) in a.items():
            if oid not in b:
                continue       # no longer reachable: the holder has changed
            n2, k2, c2, f2, d2, op2 = b[oid]
            what = cls.name if isinstance(cls, ClassInfo) else kind
            if cls is not c2:
                yield "the class of a %s" % what
            for k in sorted(f):
                if f2.get(k) != f[k]:
                    yield "%s of a %s" % (k, what)
            if d != d2 or op != op2:
                yield "the contents of a %s" % what


def world(chk, body, fork="parent"):
    l = World(chk, "import os\nfrom pieshell.utils import copy as copy_\n" + PRE + body, fork=fork)
    l.snap = Snap(l)
    return l.init_log()


def applies(op, kind):
    cmd = "command" in kind and not kind.startswith("a redirected") or kind in ("a builtin", "a cd")
    if op == "command":
        return cmd
    if op == "minus":
        return cmd
    if op == "neg":
        return kind == "a command"
    return True


def unchanged(chk, kind, expr, op, new, repeat=True):
    q = "env.qq" if " - " in op or op == "-p" else "env.qq('u') | env.vv" if "p - " not in op and "q(" not in op else "env.qq('u')"
    body = ("def f():\n    env = environ.Environment('/w', {'A': 'b'})\n    p = %s\n    q = %s\n    r = Redirect('stderr', '/e')\n"
            "    rs = Redirects(Redirect('stderr', '/e'), Redirect('stdin', '/i'))\n    os.sync(p, q, r, rs)\n"
            "    x = %s\n    os.sync(p, q, r, rs)\n    return p, q, x\n" % (expr, q, op))
    l = world(chk, body)
    what = "%s, p being %s" % (op, kind)
    n = 0
    for s, v in l.start():
        if isinstance(v, Abrupt):
            chk.ob("works", False, exc_loc(s, v) or LOC, "%s raises %s" % (what, cls_name(exc_class(s, v))), s)
            continue
        n += 1
        snaps = s.user.get("snaps", ())
        a, b = snaps[0], snaps[-1]
        bad = sorted(set("%s" % c for c in l.snap.changes(a, b)))
        chk.ob("unchanged", not bad, LOC, "%s changes %s" % (what, ", ".join(bad)), s, "%s: %d objects compared" % (what, len(a)))
        if new:
            p, q, x = [s.res(i) for i in s.res(v).items]
            chk.ob("new", x not in (p, q), LOC, "%s gives one of its operands" % what, s)
            ok = isinstance(x, Ref) and isinstance(s.obj(x).cls, ClassInfo) and l.prog.cls("pipeline/base.py", "Pipeline") in s.obj(x).cls.mro
            chk.ob("new", ok, LOC, "%s does not give a pipeline" % what, s)
    chk.ob("works", n > 0, LOC, "%s never ends normally" % what)


def again(chk, sh, mode, how, src):
    """Every process started belongs to the pipeline as written, whichever run it belongs to."""
    r = SH.run_shape(chk, sh, mode, src, setup=mark)
    r.note = " (%s)" % how
    for s, v, _ in r.errors:
        if not s.user.get("child"):
            chk.ob("repeat", False, exc_loc(s, v) or LOC, "%s fails with %s" % (r.name, cls_name(exc_class(s, v))), s)
    chk.ob("works", bool(r.parents), LOC, "%s never ends normally" % r.name)
    runs = {}
    for s, ev in r.children:
        k = (s.user.get("snaps_n", 0))
        runs.setdefault(k, []).append((s, ev))
    for k in range(2):
        kids = runs.get(k, [])
        b = SH.Binding(SH.PIPE("out", "w") if not mode.startswith("run") else SH.T1)
        bad, seen = [], []
        for s, ev in kids:
            name, ps = SH.child_problems(r, s, ev, b)
            seen.append(name)
            bad += [(s, t) for kind, t in ps if kind != "extra"]
        for s, t in bad:
            chk.ob("repeat", False, LOC, "in run %d of %s, %s" % (k + 1, r.name, t), s)
        for n in sh.stages:
            chk.ob("repeat", seen.count(n) == 1, LOC, "in run %d of %s, %s is started %d times" % (k + 1, r.name, n, seen.count(n)),
                   kids[0][0] if kids else None)


def mark(l):
    def sync(it, st, recv, args, kwargs):
        st.user["snaps_n"] = st.user.get("snaps_n", 0) + 1
        return [(st, NONE)]
    l.hooks.ext["os.sync"] = sync


def check(chk):
    chk.rule("unchanged", "an operation on pipelines changes nothing that is reachable from its operands")
    chk.rule("new", "composing pipelines gives a new pipeline")
    chk.rule("works", "the operation is possible")
    chk.rule("repeat", "each of several runs of the same pipeline object starts the same processes, connected the same way")
    for kind, expr in KINDS.items():
        for op, new, on in OPS:
            if applies(on, kind):
                unchanged(chk, kind, expr, op, new)
        for op in USES:
            if kind == "the root command" or kind == "a cd" and " | " in op:
                continue
            if ("redirected" in kind or kind in ("a builtin", "a cd")) and op in ("(p | q).run()", "p & q", "(p | p).run()"):
                continue       # its output goes to a file, so it cannot be piped on
            unchanged(chk, kind, expr, op, None)
    for sh in SH.shapes():
        for mode in sh.modes:
            if "SubShell" in sh.expr:
                continue
            act = (SH.MODES[mode] % "p").replace("return ", "")
            src = "import os\n" + SH.SRC + "def f():\n    %s\n    p = %s\n    %s\n    os.sync()\n    return %s\n" % (
                sh.pre or "pass", sh.expr, act, act)
            again(chk, sh, mode, "run twice", src)
    for first, second, name in SHARED:
        src = "import os\n" + SH.SRC + "def f():\n    a = env.aa('1')\n    b = %s\n    c = %s\n    b.run()\n    os.sync()\n    return c.run()\n"
        sh = SH.Shape("%s and %s" % (first, second), *name)
        again(chk, sh, "run", "sharing a command", src % (first, second))
