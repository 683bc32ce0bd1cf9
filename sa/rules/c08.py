"""C08: whoever waits for a pipeline resumes when it finishes or is suspended."""
from .sched import *

TECHNIQUE = ("path-sensitive abstract interpretation of launch, signal delivery, stream handlers and waiters over an "
             "abstract event loop that enumerates the orders of events: no reachable state may have an unresumable waiter")
LOC = "pipeline/running.py:RunningPipeline.handle_finish"
WAITS = '''
async def w1(p):
    await p.wait()
async def w2(p):
    await p
async def w3(p):
    await p.wait()
async def again(p):
    try:
        await p.wait()
    except running.PipelineSuspended:
        await p.wait()
ienv = environ.Environment("/w", {"A": "b"}, True)
def fg():
    p = ienv.aa.run()
    return builtins.FgBuiltin(ienv, ["fg"]).run()
def fg_named():
    p = ienv.aa.run()
    ienv.bb.run()
    return builtins.FgBuiltin(ienv, ["fg", p]).run()
def f():
    return (%s).run()
'''
W1, W2, W3 = ("do", "w1", "w1"), ("do", "w2", "w2"), ("do", "w3", "w3")
TSTP = ("signal", sg.SIGTSTP, "w1")


def x(i, how="exit0"):
    return ("exit", 1000 + i, how)


class Case(object):
    def __init__(self, expr, todo, name=None, **kw):
        self.expr, self.todo, self.kw = expr, todo, kw
        self.fn = kw.pop("fn", "f")
        self.late = kw.pop("late", False)
        self.setup = kw.pop("setup", None)
        self.name = name or "%s with %s" % (expr, ", ".join(str(e[2] if e[0] == "exit" else e[1]) for e in todo))


def open_fails(w):
    w.hooks.exc["open"] = ["OSError"]
    w.hooks.once = True
    w.hooks.inject_when = lambda it, st, name, recv, args: True


def write_fails(w):
    w.hooks.exc["os.write"] = ["OSError"]


def unlink_fails(w):
    w.hooks.exc["os.unlink"] = ["OSError"]


def cases():
    C = Case
    for k in ("exit0", "exitN", "killed", "dumped"):
        yield C("env.aa", [x(1, k), W1, W2])
    yield C("env.aa", [("change", 1001, "stopped"), ("change", 1001, "continued"), x(1, "exitN"), W1])
    yield C("env.aa", [x(1), W1, W2, W3])
    for a, b in (("exit0", "exit0"), ("exitN", "exit0"), ("exit0", "killed"), ("killed", "exitN")):
        yield C("env.aa | env.bb", [x(1, a), x(2, b), W1])
    yield C("env.aa | env.bb", [x(1), x(2, "exitN"), W1, W2])
    yield C("env.aa + env.bb", [x(1, "exitN"), x(2), W1, W2])
    yield C("env.aa(env.bb)", [x(1), x(2, "killed"), W1])
    yield C("env.aa | env.bb | env.cc", [x(1), x(2, "exitN"), x(3), W1])
    for k, items in (("exit0", ("x",)), ("exitN", ()), ("exit0", (ValueError,)), ("exitN", ("x", ValueError))):
        yield C("gen() | env.aa", [x(1, k), W1], "gen() | env.aa with %s, the source yielding %s" % (k, items), items=items,
                late=items == (ValueError,))
    yield C("env.aa | env.bb", [x(1), x(2, "exitN"), W1], "env.aa | env.bb with late tasks", late=True)
    yield C("env.aa | use", [x(1), W1], items=())
    yield C("env.aa | use", [x(1, "exitN"), W1], "env.aa | use with use raising", items=(ValueError,), late=True)
    yield C("env.aa(use)", [x(1), W1], items=())
    yield C("gen() | env.aa", [x(1), W1], "gen() | env.aa with writing failing", setup=write_fails)
    yield C("env.aa | Redirect('stdout', STRING)", [x(1), W1, W2], "env.aa, a capture being unreadable", setup=open_fails)
    yield C("env.aa | env.bb", [x(1), x(2), W1], "env.aa | env.bb, captures being unremovable", setup=unlink_fails)
    yield C("env.aa", [x(1), W1, W2], "env.aa, one of two waiters being canceled", cancels=("w1",))
    yield C("builtins.ClearDirCacheBuiltin(env, ['clear_dir_cache'])", [W1, W2])
    yield C("env.aa + builtins.ClearDirCacheBuiltin(env, ['clear_dir_cache'])", [x(1), W1])
    # job control
    yield C("ienv.aa", [TSTP, W1], "ienv.aa suspended")
    yield C("ienv.aa", [TSTP, x(1), W1, W2])
    yield C("ienv.aa | ienv.bb", [TSTP, x(1, "exitN"), x(2), W1])
    yield C("ienv.aa", [TSTP[:2] + ("again",), x(1), ("do", "again", "again")], "ienv.aa suspended and resumed")
    yield C("fg", [x(1), W1], "fg", fn="fg")
    yield C("fg", [x(1, "exitN"), W1, W2], "fg of a failing pipeline", fn="fg")
    yield C("fg", [TSTP, W1], "fg of a pipeline that is suspended", fn="fg")
    yield C("fg", [x(1, "killed"), x(2), W1], "fg of another pipeline", fn="fg_named")


def ending(s, v):
    """None if a wait may end so."""
    if not isinstance(v, Abrupt):
        return None
    if conds.isinstance_of(s, v.out[1], "asyncio.CancelledError") is True:
        return "CancelledError"
    n = cls_name(exc_class(s, v))
    return None if n in ("PipelineFailed", "PipelineSuspended", "PipelineInterrupted", "PipelineError") else n


def worlds(chk, which=None):
    for c in which or cases():
        for backend in BACKENDS if c.name.startswith("env.aa with") else BACKENDS[1:]:
            for order in ("fifo", "lifo", "late") if c.late else ("fifo", "lifo"):
                w = World(chk, WAITS % (c.expr if c.fn == "f" else "env.aa"), tasks=order, todo=c.todo, backend=backend,
                          **c.kw)
                if c.setup:
                    c.setup(w)
                yield c, w, "%s (tasks %s)" % (c.name, order), w.run_all(c.fn)


BACKENDS = sg.BACKENDS


def check(chk):
    chk.rule("resumed", "every wait that was started ends, whatever the order of the events")
    chk.rule("ending", "a wait ends normally, with the error of the pipeline, or because it was itself canceled")
    chk.rule("reached", "the scenario can be carried to its end")
    chk.assumptions += ["the event loop runs callbacks and tasks one at a time and reports what they raise"]
    full = {}
    for c, w, name, paths in worlds(chk):
        started = {e[1] for e in c.todo if e[0] == "do"}
        full.setdefault(c.name, 0)
        for s, v in paths:
            if s.user.get("result") is None:
                chk.ob("reached", False, exc_loc(s, v) or LOC, "launching %s ends in %s" % (
                    c.name, cls_name(exc_class(s, v))), s)
                continue
            ended = {e[0]: e[1] for e in s.user.get("ended", ())}
            missing = sorted(set(s.user.get("started", ())) - set(ended))
            chk.ob("resumed", not missing, LOC, "%s: %s never resumes" % (c.name, ", ".join(missing)), s,
                   "%s: %s" % (name, " ".join(str(h[1] if h[0] != "task" else "task") for h in s.user.get("happened", ()))))
            for n in sorted(ended):
                if n == "f":
                    continue
                why = ending(s, ended[n])
                ok = why is None or why == "CancelledError" and n in s.user.get("cancelled", ())
                chk.ob("ending", ok, exc_loc(s, ended[n]) or LOC, "%s: a wait ends with %s" % (c.name, why), s)
            full[c.name] += not missing and started <= set(ended)
    for n in full:
        chk.ob("reached", full[n] > 0, LOC, "%s: never carried to its end" % n)
