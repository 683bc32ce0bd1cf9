"""C30: the list of running pipelines holds exactly the unfinished ones."""
from .sched import *
from . import c21

TECHNIQUE = ("path-sensitive abstract interpretation of starting, child exits, stage ends and waiting in every order over an "
             "abstract event loop; after each event the environment's list is compared with the stages that have ended")
LOC = "pipeline/base.py:Pipeline.run"
SOURCE = '''
env2 = environ.Environment("/w2", {"A": "b"})
ienv = environ.Environment("/w", {"A": "b"}, True)
def ran(p):
    world.ran(p, p.pipeline._env)
    return p
def theenv():
    return env
def bi(e):
    return builtins.CdBuiltin(e, ["cd", "/x"])
def f():
    return ran((%s).run())
def f2():
    ran((%s).run())
    return ran(env.zz.run())
def f3():
    ran(env.zz.run())
    return ran((%s).run())
def other():
    ran(env2.zz.run())
    return ran((%s).run())
def same():
    p = (%s)
    ran(p.run())
    return ran(p.run())
def pos():
    return +(%s)
def text():
    return str(%s)
async def awaited():
    return await (%s)
async def lines():
    async for x in (%s):
        pass
async def w1(p):
    await p.wait()
def again(p):
    ran(env.zz.run())
def builtin(p):
    ran(bi(env).run())
def signal(p):
    p.suspend()
'''
N = SOURCE.count("%s")
x = lambda i, how="exit0": ("exit", 1000 + i, how)
W1, AGAIN, BI, SUSP = ("do", "w1", "w1"), ("do", "again", "again"), ("do", "builtin", "builtin"), ("do", "signal", "signal")


class Case(object):
    def __init__(self, expr, todo, fn="f", tasks="fifo", fault=None, name="", **kw):
        self.expr, self.todo, self.fn, self.tasks, self.fault, self.kw = expr, todo, fn, tasks, fault, kw
        self.name = "%s%s with %s%s%s" % (expr, "" if fn == "f" else " (%s)" % fn, ", ".join(
            str(e[2] if e[0] == "exit" else e[1]) for e in todo) or "nothing", ", output being %s" % list(fault)[0] if fault else "",
            "" if tasks == "fifo" else ", tasks " + tasks)


def cases():
    C = Case
    for how in ("exit0", "exitN", "killed", "dumped"):
        yield C("env.aa", [x(1, how)])
    for e in ("env.aa | env.bb", "env.aa + env.bb", "env.aa(env.bb)"):
        for tasks in ("fifo", "lifo"):
            yield C(e, [x(1), x(2, "exitN")], tasks=tasks)
    yield C("env.aa | env.bb | env.cc", [x(1), x(2), x(3)])
    yield C("bi(env)", [])
    yield C("bi(env) + bi(env)", [])
    yield C("bi(env) + env.aa", [x(1)])
    yield C("env.aa + bi(env)", [x(1)])
    for items in ((), ("x",), (ValueError,), ("x", KeyError)):
        for tasks in ("fifo", "lifo"):
            yield C("gen() | env.aa", [x(1)], items=items, tasks=tasks)
    for tasks in ("fifo", "lifo"):
        yield C("env.aa | use", [x(1)], tasks=tasks)
        yield C("env.aa | use", [x(1, "killed")], items=(ValueError,), tasks=tasks)
    for fault in ({"undecodable": True}, {"unreadable": 1}, {"unreadable": 2}):
        for e, todo in (("env.aa | Redirect('stdout', STRING)", [x(1)]), ("env.aa | env.bb", [x(1), x(2)]),
                        ("env.aa + env.bb", [x(1), x(2)]), ("gen() | env.aa", [x(1)])):
            yield C(e, todo, fault=fault)
        yield C("env.aa", [x(1), x(2)], fn="f2", fault=fault)
    yield C("env.aa", [x(1)], fault={"undeletable": 1})
    for fn in ("f2", "f3", "other", "same"):
        for tasks in ("fifo", "lifo"):
            yield C("env.aa", [x(1), x(2)], fn=fn, tasks=tasks)
    yield C("bi(env)", [x(1)], fn="f2")
    yield C("bi(env)", [x(1)], fn="f3")
    yield C("bi(env)", [], fn="same")
    yield C("env.aa", [x(1), W1], tasks="lifo")
    yield C("env.aa", [x(1), x(2, "exitN"), AGAIN])
    yield C("env.aa", [x(1), BI])
    yield C("env.aa", [("change", 1001, "stopped"), x(1)])
    yield C("env.aa", [SUSP, x(1)])
    yield C("env.aa | env.bb", [("change", 1001, "stopped"), x(1, "killed"), x(2)])
    for fn in ("pos", "awaited", "lines", "text"):
        for how in ("exit0", "exitN"):
            yield C("env.aa", [x(1, how)], fn=fn)
        yield C("env.aa | env.bb", [x(1), x(2)], fn=fn)


def ran(it, st, recv, args, kwargs):
    st.user["ran"] = st.user.get("ran", ()) + ((st.res(args[0]), st.res(args[1])),)
    snap(it, st)
    return [(st, NONE)]


def unfinished(it, st, p):
    """The stages of a running pipeline that have not ended."""
    out = []
    exited = [pid for pid, how in st.user.get("exited", ())]
    procs = st.obj(p).f.get("processes")
    for q in (it.known_seq(st, procs) if procs is not None else None) or ():
        f = st.obj(st.res(q)).f
        pid, h = st.res(f.get("pid", NONE)), st.res(f.get("iohandler", NONE))
        if isinstance(pid, K) and isinstance(pid.v, int):
            if pid.v not in exited:
                out.append("a process")
        elif end_of(st, h) is not None and end_of(st, h).meta.get("done") != TRUE:
            out.append("a stage")
    return out


def snap(it, st, last=False):
    """Records what the lists hold now, and what they should."""
    ran = st.user.get("ran", ())
    known = [p for p, e in ran]
    envs = [e for n, e in enumerate([st.res(st.user["env"])] + [e for p, e in ran]) if n == 0 or e != st.res(st.user["env"])]
    bad = st.user.get("bad", ())
    for e in envs:
        listed = it.known_seq(st, st.obj(e).f.get("running_pipelines", NONE)) if "running_pipelines" in st.obj(e).f else None
        if listed is None:
            bad += ("what the list holds is not known",)
            continue
        listed = [st.res(q) for q in listed]
        st.user["seen"] = st.user.get("seen", ()) + tuple(q for q in listed if q not in st.user.get("seen", ()) and q not in known)
        for p in list(st.user["seen"]) + [p for p, pe in ran if pe == e]:
            if p not in listed and (p in known or e == st.res(st.user["env"])) and unfinished(it, st, p):
                bad += ("a pipeline of which %s has not ended is not listed" % unfinished(it, st, p)[0],)
        for p in set(listed):
            if listed.count(p) > 1:
                bad += ("a pipeline is listed twice",)
            if last and not unfinished(it, st, p):
                bad += ("a pipeline is still listed when all its stages have ended",)
            if [pe for q, pe in ran if q == p and pe != e]:
                bad += ("a pipeline of another environment is listed",)
        mine = [p for p, pe in ran if pe == e]
        if mine and st.res(st.obj(e).f.get("last_pipeline", NONE)) != mine[-1]:
            bad += ("the last pipeline is not the one last started",)
    st.user["bad"] = bad


def check(chk):
    chk.rule("listed", "a pipeline is listed, once, in its environment from its start until its last stage has ended, and not afterwards")
    chk.rule("reached", "the scenario can be carried to its end")
    for c in cases():
        w = World(chk, "import world\n" + SOURCE % ((c.expr,) * N), tasks=c.tasks, todo=c.todo, **c.kw)
        if c.fault:
            c21.Files(w, **c.fault)
        w.hooks.ext["world.ran"] = ran
        for s, v in w.it.call(w.st.fork(), FnV(w.mod.funcs["theenv"], None), [], {}, None, w.run.fr):
            s.user["env"] = v
            w.st = s
        fire = w.hooks.fire

        def after(it, st, ev, fire=fire):
            res = fire(it, st, ev)
            for s, r in res:
                if not isinstance(r, Abrupt):
                    snap(it, s)
            return res
        w.hooks.fire = after
        n = 0
        for s, v in w.run_all(c.fn):
            if isinstance(v, Abrupt) and v.out[0] != "raise" and v.out != ("stop", "stuck") or s.user.get("todo"):
                continue
            if v is None or isinstance(v, Abrupt) and c.fn == "f":
                chk.ob("reached", False, exc_loc(s, v) or LOC, "%s: %s is raised" % (c.name, cls_name(exc_class(s, v))), s)
                continue
            n += 1
            if not s.user.get("tasks"):
                snap(w.it, s, True)
            bad = s.user.get("bad", ())
            chk.ob("listed", not bad, LOC, "%s: %s" % (c.name, bad[0] if bad else ""), s)
            if not s.user.get("ran"):
                chk.ob("listed", bool(s.user.get("seen")), LOC, "%s: the pipeline is never listed" % c.name, s)
        chk.ob("reached", n > 0, LOC, "%s is never carried to its end" % c.name)
