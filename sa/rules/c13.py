"""C13: arguments reach the program literally apart from the documented expansion."""
from .fsworld import *
from .shapes import arg_list
from . import calls_index

TECHNIQUE = ("path-sensitive abstract interpretation of launching commands against an abstract file system: the argument "
             "list exec is given is computed from the source for each kind of argument; a query over every call of the "
             "package for interpreters of command lines")
LOC = "pipeline/command.py:BaseCommand._arg_list"
DIRS = {"/w": ["a1", "a2", "-rf", "b c", "~", ".hid", "sub/", "[z]", "%(A)s", "u*", "uv"], "/w/sub": ["-v", "k1"],
        "/w2": ["a9"], "/start": ["a7", "zz7", "zz*"], "/v": ["q1", "-q"], "/home/u": ["h1", "-h"], "/": ["bin", "-root"], "/opt": ["o1"]}
VARS = {"A": "val", "HOMEISH": "~/x", "PAT": "a*", "SUB": "%(A)s", "STAR": "*", "EMPTY": "", "WITH": "two words",
        "TILDE": "~", "PSUB": "%(A)s*"}
# what is passed, what the program is given
CASES = (
    ("'x'", ["x"]),
    ("'x', 'y z', ''", ["x", "y z", ""]),
    ("'$A', '`ls`', ';', '&&', '|', '>', '\\\\', '\\'', '\"', '#', '!'", ["$A", "`ls`", ";", "&&", "|", ">", "\\", "'",
                                                                         '"', "#", "!"]),
    ("'%(A)s'", ["val"]),
    ("'<%(A)s/%(WITH)s>'", ["<val/two words>"]),
    ("'%(SUB)s'", ["%(A)s"]),
    ("'%(EMPTY)s'", [""]),
    ("'%(HOMEISH)s'", ["/home/u/x"]),
    ("'%(TILDE)s'", ["/home/u"]),
    ("'~'", ["/home/u"]), ("'~/x'", ["/home/u/x"]), ("'~bob/x'", ["/home/bob/x"]), ("'x~'", ["x~"]),
    ("'a*'", ["./a1", "./a2"]),
    ("'%(PAT)s'", ["./a1", "./a2"]),
    ("'*'", ["./a1", "./a2", "./-rf", "./b c", "./~", "./sub", "./[z]", "./%(A)s", "./u*", "./uv"]),
    ("'%(STAR)s'", ["./a1", "./a2", "./-rf", "./b c", "./~", "./sub", "./[z]", "./%(A)s", "./u*", "./uv"]),
    ("'-*'", ["./-rf"]),
    ("'?1'", ["./a1"]), ("'[%%u]*'", ["./%(A)s", "./u*", "./uv"]), ("'u[*]'", ["./u*"]), ("'%(PSUB)s'", ["./%(A)s"]),
    ("' x ', 'y\\n', '\\t'", [" x ", "y\n", "\t"]),
    ("'[ab]*'", ["./a1", "./a2", "./b c"]),
    ("'[~]'", ["./~"]),
    ("'sub/*'", ["./sub/-v", "./sub/k1"]),
    ("'*/-v'", ["./sub/-v"]),
    ("'./a*'", ["./a1", "./a2"]),
    ("'../w2/*'", ["/w2/a9"]),
    ("'/w/a*'", ["./a1", "./a2"]),
    ("'/v/*'", ["/v/q1", "/v/-q"]),
    ("'~/h*'", ["/home/u/h1"]),
    ("'/opt/*'", ["/opt/o1"]),
    ("'zz*'", ["zz*"]), ("'-z?'", ["-z?"]), ("'[!'", ["[!"]), ("'~/zz*'", ["/home/u/zz*"]),
    ("'a*', 'zz*', 'x'", ["./a1", "./a2", "zz*", "x"]),
    ("R('a*')", ["a*"]), ("R('~')", ["~"]), ("R('%(A)s')", ["%(A)s"]), ("R('~/%(A)s*')", ["~/%(A)s*"]), ("R('')", [""]),
    ("R('*'), '*1'", ["*", "./a1"]),
    ("k='v'", ["--k=v"]), ("long_name='v'", ["--long-name=v"]), ("k=''", ["--k="]),
    ("v=True", ["--v"]), ("v=False", []), ("no_v=True, x=False, y_z='1'", ["--no-v", "--y-z=1"]),
    ("k='%(A)s'", ["--k=val"]), ("k='~/x'", ["--k=/home/u/x"]), ("k=R('~/%(A)s*')", ["--k=~/%(A)s*"]),
    ("k='a*'", ["--k=./a1", "--k=./a2"]), ("k='zz*'", ["--k=zz*"]), ("k=R('_')", ["--k=_"]), ("k_='a_b'", ["--k-=a_b"]),
    ("'x', k='1', l='2'", ["x", "--k=1", "--l=2"]),
    ("{'k': '1'}, 'x', {'l_m': True, 'n': False}", ["--k=1", "x", "--l-m"]),
    ("k=' v '", ["--k= v "]), ("k=0", ["--k=0"]), ("k=1", ["--k=1"]), ("k=None", ["--k=None"]),
    ("'--x', '-y', '--'", ["--x", "-y", "--"]),
)
FORMS = (("env.aa(%s)", ["aa"]), ("env._('aa', %s)", ["aa"]), ("env.aa.sub_x(%s)", ["aa", "sub_x"]),
         ("env.aa('p')(%s)", ["aa", "p"]), ("command.Command(env, ['aa'])(%s)", ["aa"]))
SETTINGS = (
    # environment, cases
    ("environ.Environment('/v', %r)", (("'*'", ["./q1", "./-q"]), ("'/w/a*'", ["/w/a1", "/w/a2"]),
                                       ("'/v/-*'", ["./-q"]), ("'../v/q?'", ["./q1"]))),
    ("environ.Environment('/', %r)", (("'b*'", ["/bin"]), ("'-*'", ["/-root"]), ("'w/a*'", ["/w/a1", "/w/a2"]),
                                      ("'/v/*'", ["/v/q1", "/v/-q"]))),
    ("environ.Environment('/w', {'A': 'other'})(cwd='/v', exports=%r)", (("'%(A)s', '-*'", ["val", "./-q"]),)),
    ("environ.Environment('/v', %r, True)(cwd='/w')", (("'a*'", ["./a1", "./a2"]),)),
    ("environ.Environment('/w', {'A': 'other'})._cd('/v')(exports=%r)", (("'-*', '%(A)s'", ["./-q", "val"]),)),
)


def check(chk):
    chk.rule("arguments", "the program is given exactly the given arguments, each expanded once, in order")
    chk.rule("prefix", "a name matched by a relative pattern starts with './' or '/'")
    chk.rule("no-shell", "no part of the package hands a command line to a shell, except the startup of bash that "
                         "bashsource needs")
    chk.rule("reached", "the program is started")
    chk.assumptions += ["the file system and the exported variables are the abstract ones enumerated here"]
    env = "environ.Environment('/w', %r)" % (VARS,)
    for args, want in CASES:
        forms = FORMS if args in ("'a*'", "k='a*'", "R('~')", "'%(A)s'") else FORMS[:1]
        for form, pre in forms:
            one(chk, env, form % args, args, pre + want)
    for e, cases in SETTINGS:
        for args, want in cases:
            one(chk, e % (VARS,), "env.aa(%s)" % args, args, ["aa"] + want)
    one(chk, env, "env.aa('x', 'y')('z') | env.bb('zz*')", "'x'", ["aa", "x", "y", "z"])
    one(chk, env, "env.bb | env.aa('zz*', '-*')", "'zz*'", ["aa", "zz*", "./-rf"])
    one(chk, env, "env.bb('-*') + env.aa('-*') | '/out'", "'-*'", ["aa", "./-rf"])
    calls_index.no_shell(chk, "no-shell")


def one(chk, env, expr, args, want):
    l = Launch(chk, "env = %s\ndef f():\n    return (%s).run()\n" % (env, expr), fork="both" if "bb" in expr else "child",
               name="args")
    l.hooks.pkg.pop(l.prog.method("environ.py", "Environment", "_expand_argument"), None)
    FS(DIRS).install(l.hooks)
    l.st.user["cwd"] = K("/start")
    l.hooks.loop_bound, l.hooks.while_bound, l.hooks.max_states = 3, 12, 2000
    l.init_log()
    n = 0
    what = expr if env.startswith("environ.Environment('/w', {'A': 'val'") else "%s with %s" % (
        expr, env.split("{'A': 'val'")[0])
    for s, v in l.start():
        for ev in [e for e in s.trace() if e.kind == "stop" and e.name.startswith("exec")]:
            lst = arg_list(s, ev)
            if not lst or lst[0] != K("aa"):
                if lst and lst[0] == K("bb"):
                    continue
            n += 1
            have = [x.v if isinstance(x, K) else repr(x) for x in lst or ()]
            same = sorted(map(str, have)) == sorted(want) and [h for h in map(str, have) if not h.startswith("./")] == [
                w for w in want if not w.startswith("./")]
            chk.ob("arguments", same, LOC, "%s: the program is given %r instead of %r" % (what, have, want), s)
            if "'/" not in args and "~" not in args and "%" not in args:
                for h in have[1:]:
                    if str(h).endswith(("-rf", "-v", "-q")) and h not in want:
                        chk.ob("prefix", str(h)[0] in "./", LOC, "%s: a matched name is given as %r" % (what, h), s)
    chk.ob("reached", n > 0, LOC, "%s is not started" % what)

