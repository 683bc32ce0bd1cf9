"""C26: what a redirection opens, and which of several redirections wins."""
import os

from .shapes import *

TECHNIQUE = ("path-sensitive abstract interpretation of launches over a descriptor-table domain: the files (path, flags, "
             "mode) installed at exec are compared with a table of specifications and their precedence")
RD, WC = os.O_RDONLY, os.O_WRONLY | os.O_CREAT
WA, RW = os.O_WRONLY | os.O_APPEND, os.O_RDWR


def I(p, flag=RD, mode=0o777):
    return FILE(p, flag, mode)


def O(p, flag=WC, mode=0o777):
    return FILE(p, flag, mode)


def opened():
    S = Shape
    for fd, name in ((0, "stdin"), (1, "stdout"), (2, "stderr")):
        d = RD if fd == 0 else WC
        for how in (repr(name), repr(fd)):
            yield S("env.aa | Redirect(%s, '/f')" % how, {"aa": {fd: FILE("/f", d, 0o777)}})
            yield S("env.aa | Redirect(%s, '/f', os.O_WRONLY | os.O_APPEND)" % how, {"aa": {fd: FILE("/f", WA, 0o777)}})
            yield S("env.aa | Redirect(%s, '/f', os.O_RDWR, 0o600)" % how, {"aa": {fd: FILE("/f", RW, 0o600)}})
            yield S("env.aa | Redirect(%s, '/f', mode=0o640)" % how, {"aa": {fd: FILE("/f", d, 0o640)}})
            yield S("env.aa | Redirect(%s, '/f', 0)" % how, {"aa": {fd: FILE("/f", 0, 0o777)}})
            yield S("env.aa | Redirect(%s, '/f', mode=0)" % how, {"aa": {fd: FILE("/f", d, 0)}})
    yield S("env.aa | Redirect(6, '/f', os.O_RDWR, 0o600)", {"aa": {6: FILE("/f", RW, 0o600)}})
    yield S("env.aa | '/f'", {"aa": {1: O("/f")}})
    yield S("env.aa | b'/f'", {"aa": {1: O(b"/f")}})
    yield S("env.aa > '/f'", {"aa": {1: O("/f")}})
    yield S("env.aa < '/f'", {"aa": {0: I("/f")}})
    yield S("'/f' | env.aa", {"aa": {0: I("/f")}})
    yield S("b'/f' | env.aa", {"aa": {0: I(b"/f")}})
    yield S("env.aa | None", {"aa": {1: O("/dev/null")}})
    yield S("None | env.aa", {"aa": {0: I("/dev/null")}})
    yield S("env.aa | use | '/f'", {"aa": {1: PIPE("x", "w")}}, py=[PIPE("x", "r"), O("/f")])
    yield S("Redirect('stdin', '/g', os.O_RDWR, 0o600) | "
            "(env.aa | use | Redirect('stdout', '/f', os.O_RDWR, 0o600))",
            {"aa": {0: FILE("/g", RW, 0o600), 1: PIPE("x", "w")}}, py=[PIPE("x", "r"), FILE("/f", RW, 0o600)])


def wins():
    S = Shape
    w, r = PIPE("x", "w"), PIPE("x", "r")
    D = ("environ.Environment(None, {'A': 'b'}, redirects=Redirects(Redirect(0, 0, borrowed=True), Redirect(1, '/d1'), "
         "Redirect(2, '/d2')))")
    dflt = {0: T0, 1: O("/d1"), 2: O("/d2")}

    def S2(expr, stages, **kw):
        return S(expr, {n: {**dflt, **d} for n, d in stages.items()}, pre="e = " + D, **kw)
    yield S2("e.aa", {"aa": {}})
    yield S2("e.aa | '/p'", {"aa": {1: O("/p")}})
    yield S2("(e.aa | '/p') | Redirect(2, '/q')", {"aa": {1: O("/p"), 2: O("/q")}})
    yield S2("(e.aa | '/p') | Redirect(1, '/q', os.O_RDWR)", {"aa": {1: O("/p")}})
    yield S2("(e.aa | Redirect(2, '/p')) | Redirect('stderr', '/q')", {"aa": {2: O("/p")}})
    yield S2("e.aa | e.bb", {"aa": {1: w}, "bb": {0: r}})
    yield S2("(e.aa | e.bb) | '/p'", {"aa": {1: w}, "bb": {0: r, 1: O("/p")}})
    yield S2("'/p' | (e.aa | e.bb)", {"aa": {0: I("/p"), 1: w}, "bb": {0: r}})
    yield S2("(e.aa | e.bb) | Redirect(0, '/p')", {"aa": {0: I("/p"), 1: w}, "bb": {0: r}})
    yield S2("(e.aa | e.bb) | Redirect(2, '/p')", {"aa": {1: w, 2: O("/p")}, "bb": {0: r, 2: O("/p")}})
    yield S2("((e.aa | Redirect(2, '/p')) | e.bb) | Redirect(2, '/q')", {"aa": {1: w, 2: O("/p")}, "bb": {0: r, 2: O("/q")}})
    yield S2("(e.aa + (e.bb | '/p')) | '/q'", {"aa": {1: O("/q")}, "bb": {1: O("/p")}})
    yield S2("e.aa | ('/p' | e.bb)", {"aa": {1: w}, "bb": {0: I("/p")}})
    yield S2("(e.aa | use) | Redirect(1, '/p', os.O_RDWR)", {"aa": {1: w}}, py=[r, FILE("/p", RW)])
    for mode, given in (("1", {1: O("/r1")}), ("12", {1: O("/r1"), 2: O("/r2")}), ("22", {2: O("/r2")})):
        g = {**dflt, **given}
        yield S("e.aa", {"aa": g}, pre="e = " + D, modes=("run" + mode,))
        yield S("e.aa | Redirect(2, '/q')", {"aa": {**g, **{2: O("/q")}}}, pre="e = " + D, modes=("run" + mode,))
        yield S("e.aa | e.bb", {"aa": {**g, **{1: w}}, "bb": {**g, **{0: r}}}, pre="e = " + D, modes=("run" + mode,))
        yield S("(e.aa | '/p') + e.bb", {"aa": {**g, **{1: O("/p")}}, "bb": g}, pre="e = " + D, modes=("run" + mode,))
    # defaults set on an environment, and inherited by those derived from it
    for der in ("", "e = e()", "e = e(exports={})"):
        pre = "e = environ.Environment(None, {'A': 'b'}); e | '/d'; Redirect(2, '/e', os.O_RDWR, 0o600) | e; " + (der or "pass")
        d = {1: O("/d"), 2: FILE("/e", RW, 0o600)}
        yield S("e.aa", {"aa": d}, pre=pre)
        yield S("e.aa | '/p'", {"aa": {**d, **{1: O("/p")}}}, pre=pre)
    yield S("e.aa", {"aa": {0: I("/i")}}, pre="e = environ.Environment(None, {'A': 'b'}); '/i' | e")
    yield S("e.aa", {"aa": {0: I("/dev/null")}}, pre="e = environ.Environment(None, {'A': 'b'}); None | e")
    # redirections registered one after another
    yield S("env.aa | Redirects(Redirect(1, '/x'), Redirect(1, '/y', mode=0o600))", {"aa": {1: O("/y", mode=0o600)}})
    yield S("env.aa | Redirects(Redirect(1, '/x'), Redirect(2, '/z')).redirect('stdout', '/y')", {"aa": {1: O("/y"), 2: O("/z")}})
    yield S("env.aa | Redirects(Redirect(1, '/x'), Redirect(2, '/z')).merge(Redirects(Redirect(1, '/y')))",
            {"aa": {1: O("/y"), 2: O("/z")}})
    yield S("env.aa | Redirects(Redirects(Redirect(1, '/x'), Redirect(2, '/z')), Redirect(1, '/y'))",
            {"aa": {1: O("/y"), 2: O("/z")}})
    yield S("env.aa | Redirects(Redirect(1, '/y'), Redirects(Redirect(1, '/x'), Redirect(2, '/z')))",
            {"aa": {1: O("/x"), 2: O("/z")}})


MODES.update({
    "run1": "return (%s).run([Redirect(1, '/r1')])",
    "run12": "return (%s).run([Redirect('stdout', '/r1'), Redirect('stderr', '/r2')])",
    "run22": "return (%s).run([Redirect(2, '/no'), Redirect(2, '/r2')])",
})


def check(chk):
    chk.rule("launch", "every stage is started")
    chk.rule("opened", "each redirection installs the file given, opened with the flag and mode given, or the defaults of its "
             "descriptor; names and numbers of the standard descriptors mean the same")
    chk.rule("wins", "of several redirections of one descriptor the latest and innermost is installed, and all others are kept")
    for group, rule in ((opened, "opened"), (wins, "wins")):
        for sh in group():
            for mode in sh.modes if sh.modes != ("run", "iter") else ("run",):
                r = run_shape(chk, sh, mode, "import os\n" + SRC + "def f():\n    %s\n    %s\n" % (
                    sh.pre or "pass", MODES[mode] % sh.expr))
                b = Binding(T1)
                seen = set()
                for s, ev in r.children:
                    name, ps = child_problems(r, s, ev, b)
                    seen.add(name)
                    report(chk, r, ps, {"wrong": rule}, "redir.py:Redirects", s)
                for s, v in r.parents:
                    report(chk, r, watch_problems(r, s, b), {"unread": rule, "watched": rule}, "redir.py:Redirects", s)
                ok = seen >= set(sh.stages) and r.parents
                chk.ob("launch", ok, "pipeline/base.py:Pipeline.run", "launching %s fails" % r.name)
