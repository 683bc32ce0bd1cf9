"""C17: names in shell code resolve and assign in the documented order."""
import itertools

from .envworld import *
from .shapes import arg_list

TECHNIQUE = ("path-sensitive abstract interpretation of looking up, assigning and expanding names in scopes, for every "
             "combination of the places a name can be defined in; the result is compared with the documented order")
LOC, SET = "environ.py:EnvScope.__getitem__", "environ.py:EnvScope.__setitem__"
EXPAND, FUNC = "environ.py:Environment._expand_argument", "environ.py:Environment.pyshfunction"
NAMES = ("foo", "len", "exports", "_", "sort", "A_B", "env2", "print", "R", "name")
BUILTIN = ("len", "print")


def expected(name, own, exp, par):
    if name == "_":
        return "root"
    if own:
        return "own"
    if name == "exports":
        return "exports"
    if exp:
        return "exp"
    if par:
        return "par"
    if name in BUILTIN:
        return "builtin"
    return "command"


PRE = ("class Box(object):\n    pass\ndef boxed(x):\n    return x\n"
       "def show(s, e, name):\n"
       "    v = s[name]\n"
       "    if v is e._exports: return 'exports'\n"
       "    if v is %s: return 'builtin'\n"
       "    if isinstance(v, str): return v\n"
       "    if isinstance(v, command.BaseCommand):\n"
       "        if v._env is not e: return 'a command of another environment'\n"
       "        if v._arg == []: return 'root'\n"
       "        if v._arg == [name]: return 'command'\n"
       "        return repr(v._arg)\n"
       "    return 'something else'\n")


def src(name, own, exp, par, body, how="plain"):
    b = name if name in BUILTIN else "None"
    kw = "".join([", %s='own'" % name if own else ""])
    d = {"K": "k"}
    if exp:
        d[name] = "exp"
    pars = {"Q": "q"}
    if par:
        pars[name] = "par"
    parent = {"dict": repr(pars), "scope": "environ.EnvScope(env=other, **%r)" % pars}.get(how)
    setup = ("    other = environ.Environment('/v', {'K2': 'k2', %r: 'wrong'})\n    e = environ.Environment('/w', %r)\n" % (
        name if name not in ("exports",) else "zz", d))
    if how == "plain":
        setup += "    s = environ.EnvScope(env=e%s)\n" % kw
    else:
        setup += "    s = environ.EnvScope(env=e, _parent_scope=%s%s)\n" % (parent, kw)
    return PRE % b + "def f():\n" + setup + body


def run(chk, source, rule, loc, what):
    """The values f returns, one for each path."""
    l = World(chk, source)
    out = []
    for s, v in l.start():
        if isinstance(v, Abrupt):
            chk.ob(rule, False, loc, "%s: raises" % what, s)
            continue
        out.append((s, plain(s, v), l))
    chk.ob("reached", bool(out), loc, "%s never ends" % what)
    return out


def where(name, own, exp, par, how):
    ps = [w for w, b in (("variable of the scope", own), ("exported variable", exp), ("variable of the enclosing scope", par),
                         ("Python builtin", name in BUILTIN)) if b]
    return "%s, being %s%s" % (name, " and ".join(ps) or "nothing", ", in a nested scope" if how != "plain" else "")


def check(chk):
    chk.rule("lookup", "a name denotes, in this order, a variable of the scope, exports, an exported variable, a variable of "
                       "the enclosing scope, a Python builtin, a command of the scope's environment")
    chk.rule("assign", "assigning the name of an exported variable changes that export only, any other name the scope only")
    chk.rule("expansion", "variables in arguments are looked up in the scope the environment belongs to, or in its exports")
    chk.rule("function", "a function given to pyshfunction sees a scope of its own inside its former one")
    chk.rule("reached", "the operation comes to an end")
    for name in NAMES:
        for own, exp, how in itertools.product((False, True), (False, True), ("plain", "dict", "dict+", "scope", "scope+")):
            if name in ("_",) and own or name == "exports" and exp and how != "plain":
                continue
            par = how.endswith("+")
            h = how.rstrip("+")
            if name == "exports" and par:
                continue
            what = where(name, own, exp, par, h)
            for s, v, l in run(chk, src(name, own, exp, par, "    return show(s, e, %r)\n" % name, h), "lookup", LOC, what):
                chk.ob("lookup", v == expected(name, own, exp, par), LOC, "%s, denotes %s instead of %s" % (
                    what, v, expected(name, own, exp, par)), s)
            if name != "exports":
                assign(chk, name, own, exp, par, h, what)
    rebinding(chk)
    expansion(chk)
    function(chk)


def assign(chk, name, own, exp, par, how, what):
    body = ("    s[%r] = 'new'\n    return dict(e._exports), dict.get(s, %r, 'none'), %s, s['env'] is e, s['Q'] if %r else 'q', "
            "dict(other._exports)\n" % (name, name, "show(s, e, %r)" % name, how != "plain"))
    for s, v, l in run(chk, src(name, own, exp, par, body, how), "assign", SET, what):
        if not isinstance(v, tuple) or len(v) != 6:
            chk.ob("assign", False, SET, "%s: assigning gives %r" % (what, v), s)
            continue
        was = {"K": "k", name: "exp"} if exp else {"K": "k"}
        exports = dict(was)
        if name == "_":
            ok = v[0] == was and v[2] == "root"
        elif exp:
            exports[name] = "new"
            ok = v[0] == exports and v[1] == ("own" if own else "none") and v[2] == ("own" if own else "new")
        else:
            ok = v[0] == was and v[1] == "new" and v[2] == "new"
        ok = ok and v[3] is True and v[4] == "q" and v[5] == {"K2": "k2", name: "wrong"}
        chk.ob("assign", ok, SET, "%s: after assigning to it the exports are %r, it is %r and denotes %r" % (
            what, v[0], v[1], v[2]), s)
        chk.ob("assign", plain(s, l.proc) == PROC, SET, "%s: assigning changes the variables of the process" % what, s)


def rebinding(chk):
    """Assigning another environment to env changes what names mean."""
    src_ = ("def f():\n    e = environ.Environment('/w', {'A': '1'})\n    d = environ.Environment('/v', {'B': '2'})\n"
            "    s = environ.EnvScope(env=e, x='own')\n    s['env'] = d\n%s")
    for s, v, l in run(chk, src_ % "    return s['B'], s['A']._env is d, s['exports'] is d._exports, s['env'] is d, s['x'], "
                                   "s['ls']._env is d\n", "lookup", LOC, "after assigning env"):
        chk.ob("lookup", v == ("2", True, True, True, "own", True), LOC,
               "after assigning env, names of the scope have the values %r" % (v,), s)
    given(chk, src_ % "    d.aa('%(x)s%(B)s').run()\n", ["own2"], "'%(x)s%(B)s' after assigning env")
    given(chk, src_ % "    s['env'] = e\n    t = environ.EnvScope(env=e, x='other')\n    t['env'] = d\n"
                      "    d.aa('%(x)s%(B)s').run()\n", ["other2"], "'%(x)s%(B)s' after assigning it to another scope's env")
    given(chk, src_ % "    s['ls']('%(x)s%(B)s').run()\n", ["own2"], "'%(x)s%(B)s' after assigning env", "ls")


def given(chk, source, want, what, name="aa"):
    """The program name is given exactly these arguments."""
    l = World(chk, source)
    l.init_log()
    n = 0
    for s, v in l.start():
        for ev in [x for x in s.trace() if x.kind == "stop" and x.name.startswith("exec")]:
            lst = [x.v if isinstance(x, K) else repr(x) for x in arg_list(s, ev) or ()]
            if lst[:1] == [name]:
                n += 1
                chk.ob("expansion", lst[1:] == want, EXPAND, "%s: the program is given %r" % (what, lst[1:]), s)
    chk.ob("expansion", n > 0, EXPAND, "%s: the program is not started" % what)


def expansion(chk):
    for name in ("foo", "len", "A_B"):
        for own, exp, how in itertools.product((False, True), (False, True), ("plain", "dict+", "scope+")):
            par = how.endswith("+")
            want = expected(name, own, exp, par)
            if want in ("builtin", "command"):
                continue
            what = "%%(%s)s in the scope of the environment, it being %s" % (name, where(name, own, exp, par, how.rstrip("+")))
            body = "    s['env'] = e\n    e.aa('<%%(%s)s>', '%%(K)s', k='%%(K)s').run()\n" % name
            given(chk, src(name, own, exp, par, body, how.rstrip("+")), ["<%s>" % want, "k", "--k=k"], what)
    body = "    s['env'] = e\n    other.aa('%(K2)s%(foo)s').run()\n"
    given(chk, src("foo", True, True, False, body), ["k2wrong"], "variables in arguments of an environment without a scope")
    for form in ("environ.Environment('/w', {'A': '1'})",
                 "environ.EnvScope(env=environ.Environment('/v', {'A': '0'}))['env']('/w', exports={'A': '1'})",
                 "environ.Environment('/w', {'A': '0'})(exports={'A': '1'})"):
        given(chk, "def f():\n    e = %s\n    e.aa('%%(A)s').run()\n" % form, ["1"], "%(A)s without a scope")


def function(chk):
    l = World(chk, "def g():\n    pass\ndef f():\n    e = environ.Environment('/w', {'A': '1'})\n    s = e.pyshfunction(g)\n"
                   "    s['new'] = 'n'\n    s['A'] = '2'\n"
                   "    return s['par'], s['A'], s['ls']._env is e, s['new'], s['len'] is len, e._exports\n")
    glob = l.st.new("dict", None, None, {K("par"): K("p"), K("A"): K("wrong")})
    l.st.tfields[(FnV(l.mod.funcs["g"], None), "__globals__")] = glob
    l.hooks.ext["types.FunctionType"] = lambda it, st, r, a, k: [(st, k["globals"] if "globals" in k else a[1])]
    for s, v in l.start():
        have = None if isinstance(v, Abrupt) else plain(s, v)
        chk.ob("function", have == ("p", "2", True, "n", True, {"A": "2"}), FUNC,
               "names of a function given to pyshfunction are %r" % (have,), s)
        chk.ob("function", plain(s, glob) == {"par": "p", "A": "wrong"}, FUNC,
               "a function given to pyshfunction changes the scope around it to %r" % (plain(s, glob),), s)
