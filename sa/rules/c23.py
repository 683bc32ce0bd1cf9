"""C23: a pipeline survives being sent to another shell, whatever its environment has been used for."""
import re

from .pickling import *
from .shapes import arg_list

TECHNIQUE = ("abstract interpretation of the package's reducers, state methods and attribute lookups in a walk over the "
             "objects of a pipeline that follows the pickle protocol, after each way of using its environment; and of "
             "launching the original and the restored pipeline, comparing the programs started")
LOC = "pipeline/base.py:describable_object_reduce"
LOC_E = "environ.py:Environment.__getstate__"

SOURCE = '''
import os, pickle
def gen():
    yield "x"
def f():
    env = environ.Environment(%(env)s)
    %(before)s
    p = %(expr)s
    %(after)s
    data = pickle.dumps(p)
    q = pickle.loads(data)
    os.sync()
    %(use)s
    return q.run()
def g():
    env = environ.Environment(%(env)s)
    p = %(expr)s
    os.sync()
    %(use)s
    return p.run()
'''
ENV = "'/w', {'A': 'b'}"
# expression, programs it starts
KINDS = (
    ("env.aa", ["aa"]),
    ("env.aa('x', 'y z', long_opt='v', flag=True)", ["aa"]),
    ("env.aa(R('*'), R('~/%(A)s'))", ["aa"]),
    ("env.aa('%(A)s', '*', '~')", ["aa"]),
    ("env.aa(k=R('*'))", ["aa"]),
    ("env.aa.sub('x')", ["aa"]),
    ("env._('aa', 'x')", ["aa"]),
    ("env.aa('x') | env.bb('y')", ["aa", "bb"]),
    ("env.aa + env.bb('y')", ["aa", "bb"]),
    ("(env.aa | env.bb) + env.cc", ["aa", "bb", "cc"]),
    ("env.aa > '/f'", ["aa"]),
    ("'/f' | env.aa | '/g'", ["aa"]),
    ("env.aa | Redirect('stderr', '/e', mode=0o600)", ["aa"]),
    ("env.aa | Redirect(2, '/e', os.O_RDWR) | Redirect('stdout', TMP)", ["aa"]),
    ("env.aa | Redirect('stdout', STRING)", ["aa"]),
    ("env.aa | Redirects(Redirect(2, 1, borrowed=True), Redirect(1, '/o'))", ["aa"]),
    ("(env.aa | env.bb) | Redirects(Redirect(0, '/i'), Redirect(1, '/o'))", ["aa", "bb"]),
    ("env.aa(env.bb('x'))", ["aa", "bb"]),
    ("env.aa(env.bb | env.cc, R('*'))", ["aa", "bb", "cc"]),
    ("env.aa | environ.Environment('/v', {'C': 'd'}).bb", ["aa", "bb"]),
    ("(env('/v').aa | env.bb)", ["aa", "bb"]),
    ("env.aa({'k': ['x', 'y']})", None),
    ("builtins.CdBuiltin(env, ['cd', '/v'])", []),
    ("builtins.ClearDirCacheBuiltin(env, ['clear_dir_cache'])", []),
    ("builtins.CdBuiltin(env, ['cd', '/v']) + env.aa", ["aa"]),
)
ENVS = ("'/w', {'A': 'b'}", "'/w'", "'/v', {}, True", "'/w', {'A': 'b'}, redirects=Redirects(Redirect(0, 0), Redirect(1, '/out'), Redirect(2, 2))",
        "'/w', {'A': 'b', 'B': 'x y', 'C': ''}")
# what happened before the pipeline was made, and before it is sent
HISTORIES = (
    ("env.zz.run()", "pass"),
    ("(env.zz | env.zz).run(); env.zz.run()", "pass"),
    ("builtins.ClearDirCacheBuiltin(env, ['x']).run()", "pass"),
    ("pass", "p.run()"),
    ("pass", "p.run(); p.run()"),
    ("pass", "p.run([Redirect('stdout', STRING)])"),
    ("pass", "p.run([Redirect('stdout', PIPE)])"),
    ("pass", "iter(p)"),
    ("pass", "repr(p)"),
    ("pass", "p | env.zz"),
    ("pass", "(p | env.zz).run()"),
    ("pass", "(env.zz + p).run()"),
    ("dir(env)", "dir(env)"),
    ("s = environ.EnvScope(env=env); s['env'] = env", "pass"),
    ("s = environ.EnvScope(env=env); s['env'] = env; s['x'] = env.zz", "env.zz.run()"),
    ("s = environ.EnvScope(env=env); s['env'] = env", "s['env'] = env('/v')"),
    ("d = env('/v'); d.zz.run()", "d.zz.run()"),
    ("env._cd('/v')", "env.zz.run(); env._cd('/w')"),
    ("env._exports['N'] = '1'", "env._exports['A'] = 'late'"),
    ("env._redirects.redirect(1, '/later')", "pass"),
    ("pass", "pickle.loads(pickle.dumps(env.zz)).run()"),
    ("pass", "p = pickle.loads(pickle.dumps(p)); p.run()"),
    ("gen() | env.zz", "(gen() | env.zz).run()"),
)
# histories that change what the original does as well
SAME = {"env._cd('/v')": ("env._cd('/v')", "env._cd('/w')"),
        "env._exports['N'] = '1'": ("env._exports['N'] = '1'", "env._exports['A'] = 'late'"),
        "env._redirects.redirect(1, '/later')": ("env._redirects.redirect(1, '/later')", "pass")}


def check(chk):
    chk.rule("sendable", "the pipeline can be taken apart and put together again")
    chk.rule("local", "nothing that belongs to the process is sent along")
    chk.rule("same", "the restored pipeline starts the same programs with the same arguments, directory, variables and files")
    chk.rule("interactive", "the restored environment is interactive if the original is")
    chk.rule("reached", "the scenario can be carried out")
    chk.rule("remote", "the pipeline is sent to the other host complete")
    chk.assumptions += ["pickle follows its documented protocol (that of Python 3.9)",
                        "both shells find the package and the same files"]
    for expr, names in KINDS:
        one(chk, ENV, expr, names)
    for env in ENVS[1:]:
        one(chk, env, "env.aa('*', R('*')) | env.bb", ["aa", "bb"])
        one(chk, env, "env.aa('x') > '/f'", ["aa"])
    for expr, names in (KINDS[2], KINDS[7], KINDS[15], KINDS[18]):
        for before, after in HISTORIES:
            one(chk, ENV, expr, names, before, after)
    for env in (ENV, "'/w', {'A': 'b'}, True"):
        for d, c in (("builtins.CdBuiltin(env, ['cd', '/v'])", "pass"), ("env._", "q._env._cd('/v')")):
            interactive(chk, env, d, c)
    for expr, names in KINDS:
        started(chk, expr)
    for inner in ("env.aa(R('*'), 'x')", "env.aa | env.bb", "env.aa > '/f'"):
        remote(chk, inner)


def world(chk, src, fork="both"):
    l = World(chk, PICKLED + src, fork=fork)
    l.it.main_fr = l.run.fr
    l.pickler = Pickler(l)
    l.hooks.ext["os.sync"] = sync
    l.hooks.max_states = 20000
    l.hooks.endless = True
    return l.init_log()


PICKLED = "import os, pickle\n"


def sync(it, st, recv, args, kwargs):
    st.user["synced"] = st.nev
    return [(st, NONE)]


def outcomes(l, fn):
    """(programs started by the pipeline itself, how else it ended)."""
    progs, ends = set(), []
    out = l.start(fn=fn)
    for s, v in out:
        at = s.user.get("synced")
        for i, ev in enumerate(s.trace()):
            if ev.kind == "stop" and ev.name.startswith("exec") and at is not None and i >= at:
                lst = arg_list(s, ev)
                args = tuple(re.sub("^/dev/fd/.*", "/dev/fd", str(x.v)) if isinstance(x, K) else repr(x) for x in lst) if lst else None
                env = plain(s, ev.args[2]) if len(ev.args) > 2 else PROC
                fds = {n: norm(x[0]) for n, x in ev.extra.items() if n in (0, 1, 2)}
                progs.add((args, s.user["cwd"].v if isinstance(s.user["cwd"], K) else None, repr(sorted(env.items())) if isinstance(
                    env, dict) else repr(env), tuple(sorted(fds.items()))))
        if not s.user.get("child"):
            ends.append((s, v, at))
    return progs, ends


def norm(c):
    if c[0] == "pipe":
        return "pipe", c[2]
    return c[0], " ".join(map(str, c[1:])) if c[0] in ("tty", "file") else ""


def one(chk, env, expr, names, before="pass", after="pass"):
    d = {"env": env, "expr": expr, "before": before, "after": after, "use": "pass"}
    what = "%s in Environment(%s)%s" % (expr, env, "" if (before, after) == ("pass", "pass") else ", after %s" % "; ".join(
        x for x in (before, after) if x != "pass"))
    l = world(chk, SOURCE % d)
    have, ends = outcomes(l, "f")
    sent(chk, what, ends)
    b = {"env": env, "expr": expr, "before": "pass", "after": "pass", "use": "pass"}
    src = SOURCE % b
    if before in SAME:
        src = src.replace("    p = %s\n    os.sync" % expr, "    %s\n    p = %s\n    %s\n    os.sync" % (
            SAME[before][0], expr, SAME[before][1]))
    l2 = world(chk, src)
    want, ends2 = outcomes(l2, "g")
    chk.ob("reached", bool(ends2) and not any(isinstance(v, Abrupt) for s, v, at in ends2), LOC, "%s cannot be run" % what)
    started = set(a[0][0] for a in want if a[0])
    if names is not None:
        chk.ob("reached", started == set(names), LOC, "%s starts %s" % (what, sorted(started)))
    if any(at is not None for s, v, at in ends):
        for p in sorted(want - have, key=str):
            chk.ob("same", False, LOC_E, "%s: the original starts %s but the restored one does not%s" % (
                what, show(p), difference(p, have)))
        for p in sorted(have - want, key=str):
            chk.ob("same", False, LOC_E, "%s: the restored pipeline starts %s" % (what, show(p)))
        chk.ob("same", True, LOC, "%s: %d programs compared" % (what, len(want)))


def show(p):
    return "%s in %s with %s and %s" % (" ".join(map(repr, p[0] or ())), p[1], p[2], ", ".join("%d: %s" % (n, " ".join(c)) for n, c in p[3]))


def difference(p, have):
    for h in have:
        if h[0] == p[0]:
            return ": " + show(h)
    return ""


def sent(chk, what, ends):
    n = 0
    for s, v, at in ends:
        for e in s.trace():
            if e.kind == "unpicklable":
                chk.ob("sendable", False, LOC, "%s: %s at %s" % (what, e.args[0].v, e.args[1].v or "the top"), s)
            elif e.kind == "localstate":
                chk.ob("local", False, LOC_E, "%s: a %s is sent along as %s" % (what, e.name, e.args[0].v), s)
        if isinstance(v, Abrupt) and v.out[0] == "raise":
            chk.ob("sendable", False, exc_loc(s, v) or LOC, "%s: %s is raised" % (what, cls_name(exc_class(s, v))), s)
        else:
            n += 1
            chk.ob("local", True, LOC_E, "%s: no object of the process is sent" % what, s)
    chk.ob("sendable", n > 0, LOC, "%s is never sent" % what)


def interactive(chk, env, expr, use):
    d = {"env": env, "expr": expr, "before": "os.chdir('/start')", "after": "pass", "use": use}
    what = "%s in Environment(%s)" % (expr, env)
    l = world(chk, SOURCE % d, "parent")
    n = 0
    for s, v in l.start():
        n += 1
        if isinstance(v, Abrupt) and "_env" not in use:
            continue
        moved = s.user["cwd"] == K("/v")
        chk.ob("interactive", moved == ("True" in env), LOC_E, "%s: after cd, the shell is in %r" % (what, s.user["cwd"]), s)
    chk.ob("reached", n > 0, LOC, "%s cannot be carried out" % what)


def started(chk, expr):
    """What run() has made of the pipeline is a pipeline as well."""
    src = ("def f():\n    env = environ.Environment(%s)\n    p = (%s).run().pipeline\n    os.sync()\n    return pickle.loads(pickle.dumps(p))\n" % (ENV, expr))
    what = "%s, once started" % expr
    l = world(chk, src, "parent")
    sent(chk, what, outcomes(l, "f")[1])


def remote(chk, inner):
    src = "def f():\n    env = environ.Environment('/w', {'A': 'b'})\n    p = %s\n    env.zz.run()\n    os.sync(p)\n    return builtins.Remote(env, ['remote', 'host', p]).run()\n" % inner
    l = world(chk, src)
    what = "remote of %s" % inner
    have, ends = outcomes(l, "f")
    sent(chk, what, ends)
    texts = [t for s, v, at in ends for t, _, _ in s.user.get("pickles", ())][:1]
    args = [p[0] for p in have if p[0] and p[0][0] == "ssh"]
    text = texts[0].decode("ascii", "replace") if texts else None
    ok = len(args) == 1 and texts and args[0][1] == "host" and args[0][-1] == "pieshell --pcmd='%s'" % text
    chk.ob("remote", ok, "pipeline/builtins.py:Remote._run", "%s: ssh is given %r" % (what, args))
