"""C22: stop and continue requests reach every process of the right pipeline, and no other."""
import signal
from .sched import *

TECHNIQUE = ("path-sensitive abstract interpretation of suspend, restart, wait, bg, fg and the terminal stop signal, in "
             "every order with child exits, over an abstract event loop: the signals sent to each process are computed "
             "from the source")
LOC = "pipeline/running.py:RunningPipeline.suspend"
STOP, CONT = K(int(signal.SIGSTOP)), K(int(signal.SIGCONT))
SOURCE = '''
env = environ.Environment("/w", {"A": "b"})
ienv = environ.Environment("/w", {"A": "b"}, True)
ienv2 = environ.Environment("/w", {"A": "c"}, True)
def f():
    return [%s]
def suspend(ps):
    ps[0].suspend()
def restart(ps):
    ps[0].restart()
def suspend2(ps):
    ps[1].suspend()
async def wait(ps):
    await ps[0].wait()
async def wait2(ps):
    await ps[1].wait()
async def await_(ps):
    await ps[0]
def sync(ps):
    sync_wait(ps[0])
def bg(ps):
    builtins.BgBuiltin(ienv, ["bg"]).run()
def bg_named(ps):
    builtins.BgBuiltin(ienv, ["bg", ps[0]]).run()
async def fg(ps):
    await builtins.FgBuiltin(ienv, ["fg"]).run().wait()
async def fg_named(ps):
    await builtins.FgBuiltin(ienv, ["fg", ps[0]]).run().wait()
async def sub_fg(ps):
    await builtins.FgBuiltin(ienv(exports={"A": "c"}), ["fg", ps[0]]).run().wait()
'''
SUS, RES, W, W2, BG = (("do", "suspend", "suspend"), ("do", "restart", "restart"), ("do", "wait", "wait"),
                       ("do", "wait2", "wait2"), ("do", "bg", "bg"))
TSTP = ("signal", sg.SIGTSTP)
WAITS = {"wait": 0, "wait2": 1, "again": 0, "also": 0, "await_": 0, "fg": -1, "fg_named": 0, "sub_fg": 0}


def x(n, how="exit0"):
    return ("exit", 1000 + n, how)


def change(n, how="stopped"):
    return ("change", 1000 + n, how)


class Case(object):
    """exprs: (pipeline, number of processes, waited for by an interactive environment)."""

    def __init__(self, exprs, todo, backend="manager_asyncio", tasks="fifo", items=("x",), lag=False):
        self.lag = lag
        self.exprs, self.todo, self.backend, self.tasks, self.items = exprs, todo, backend, tasks, items
        self.name = "%s with %s" % (", ".join(e[0] for e in exprs), ", ".join(
            "the stop request" if t[0] == "signal" else "%s %s" % (t[0], t[1]) for t in todo if t[0] != "exit"))
        self.pids, n = [], 1000
        for e in exprs:
            self.pids.append(tuple(range(n + 1, n + 1 + e[1])))
            n += e[1]
        if tasks != "late":
            # (otherwise some processes stay)
            self.todo = list(todo) + [x(p - 1000) for ps in self.pids for p in ps if not any(
                t[:2] == ("exit", p) for t in todo)]

    def of(self, name):
        return self.pids[WAITS[name]]

    def interactive(self, name):
        return "fg" in name or self.exprs[WAITS[name]][2]


A, AB, IA, IAB = ("env.aa.run()", 1, False), ("(env.aa | env.bb).run()", 2, False), ("ienv.aa.run()", 1, True), (
    "(ienv.aa | ienv.bb).run()", 2, True)
IB, I2 = ("ienv.bb.run()", 1, True), ("ienv2.bb.run()", 1, True)


def cases():
    C = Case
    for b in sg.BACKENDS:
        yield C([A], [SUS, RES, x(1)], b)
        yield C([AB], [SUS, RES, x(1), x(2, "killed")], b)
        yield C([IA], [TSTP, W, x(1)], b)
        yield C([IAB], [TSTP, W, x(1), x(2)], b)
    for p in ("(env.aa + env.bb).run()", "env.aa(env.bb).run()"):
        yield C([(p, 2, False)], [SUS, RES, x(2)])
        yield C([(p, 2, False)], [SUS, W, x(1)])
    yield C([("(env.aa | env.bb | env.cc).run()", 3, False)], [SUS, RES, x(2)])
    yield C([("((env.aa + env.bb) | env.cc).run()", 3, False)], [SUS, W, x(1)])
    yield C([("(gen() | env.aa).run()", 1, False)], [SUS, RES, x(1)], items=())
    yield C([("(gen() | ienv.aa).run()", 1, True)], [TSTP, W, x(1)], items=())
    yield C([("(ienv.aa | use).run()", 1, True)], [TSTP, W], items=())
    yield C([("(ienv.aa + ienv.bb).run()", 2, True)], [TSTP, W, x(1)])
    yield C([("ienv.aa(ienv.bb).run()", 2, True)], [TSTP, W, x(2)])
    yield C([A, A], [SUS, ("do", "suspend2", "suspend2"), x(1)])
    yield C([A], [change(1), SUS, RES])
    yield C([A], [SUS, change(1), W, x(1)])
    # the stop request and who waits for what
    yield C([IA], [TSTP, ("do", "await_", "await_"), x(1, "exitN")])
    yield C([A], [TSTP, W, x(1)])
    yield C([IA, IB], [TSTP, W, x(1)])
    yield C([IA, IB], [TSTP, W2, x(1)])
    yield C([IA, I2], [TSTP, W, W2])
    yield C([IA, I2], [TSTP, W, x(1), W2])
    yield C([IA, A], [TSTP, W, W2])
    yield C([A, IA], [TSTP, W, W2])
    yield C([IA], [TSTP, W, ("do", "also", "wait")])
    yield C([IA], [TSTP + ("wait",), W, ("do", "again", "wait", "wait"), x(1)])
    yield C([IA], [TSTP + ("wait",), W, TSTP + ("again",), ("do", "again", "wait", "wait")])
    yield C([IAB], [TSTP + ("wait",), W, ("do", "again", "wait", "wait"), x(1)])
    yield C([IA], [change(1), TSTP, W])
    yield C([IAB], [TSTP + ("wait",), W, RES + ("wait",), x(2)])
    yield C([IA, IB], [TSTP + ("wait",), W, BG, x(1)])
    yield C([IA], [TSTP, TSTP, W])
    late = {"tasks": "late"}
    for b in sg.BACKENDS:
        yield C([IA], [TSTP, W], b, "late")
    yield C([IAB], [TSTP, W, x(1)], **late)
    yield C([IA, I2], [TSTP, W, W2], **late)
    yield C([IA, I2], [TSTP + ("wait2",), W, W2, x(2)], **late)
    yield C([A, IA], [TSTP, W, W2], **late)
    yield C([IA, A], [TSTP, W, W2], **late)
    yield C([IA, A], [TSTP + ("wait2",), W, W2, x(2)], **late)
    yield C([IA], [TSTP, W, ("do", "also", "wait")], **late)
    yield C([IA], [TSTP + ("wait",), W, TSTP + ("again",), ("do", "again", "wait", "wait")], **late)
    yield C([IA, IB], [TSTP, ("do", "fg_named", "fg_named")], **late)
    yield C([IAB], [TSTP, ("do", "fg", "fg")], **late)
    # the request comes between a process ending and who waits noticing it
    for b in sg.BACKENDS:
        yield C([IAB], [TSTP, W, x(1)], b, "late", lag=True)
    yield C([IA, I2], [TSTP, W, W2, x(1)], lag=True, **late)
    yield C([IAB], [TSTP, ("do", "fg", "fg"), x(2)], lag=True, **late)
    # bg and fg
    yield C([("builtins.FgBuiltin(ienv, ['fg', ienv.aa.run()]).run()", 1, True)], [SUS, RES, x(1)], tasks="lifo")
    yield C([("builtins.FgBuiltin(ienv, ['fg', (ienv.aa | ienv.bb).run()]).run()", 2, True)], [SUS, x(1)], tasks="lifo")
    yield C([IA], [BG, x(1)])
    yield C([IA, IB], [BG, x(2)])
    yield C([IAB, IB], [SUS, ("do", "bg_named", "bg_named"), x(1)])
    yield C([IA, IB], [TSTP, ("do", "fg", "fg"), x(2)])
    yield C([IAB, IB], [TSTP, ("do", "fg_named", "fg_named"), x(1)])
    yield C([IAB], [TSTP + ("fg",), ("do", "fg", "fg"), x(1), x(2)])
    yield C([IA, IB], [TSTP + ("wait",), W, ("do", "fg_named", "fg_named", "wait")])
    yield C([IA, IB], [TSTP + ("sub_fg",), ("do", "sub_fg", "sub_fg"), x(1)])


def check(chk):
    chk.rule("reached", "the scenario can be carried out")
    chk.rule("stopped", "suspending stops every process of the pipeline that is still there")
    chk.rule("continued", "resuming or waiting continues every process of the pipeline that is still there")
    chk.rule("tolerated", "processes that are gone are no error")
    chk.rule("requested", "a stop request suspends the pipeline an interactive environment waits for, telling its waiter")
    chk.rule("right", "no other process is stopped or continued, and no other waiter told")
    chk.assumptions += ["waits that overlap end in the reverse order of their start"]
    for c in cases():
        w = World(chk, SOURCE % ", ".join(e[0] for e in c.exprs), c.backend, c.tasks, c.todo, c.items)
        w.hooks.lag = c.lag
        n = 0
        for s, v in w.run_all():
            if isinstance(v, Abrupt) and v.out != ("stop", "stuck"):
                continue
            n += 1
            judge(chk, c, s)
        chk.ob("reached", n > 0, LOC, "%s cannot be carried out" % c.name)


def judge(chk, c, s):
    tr = s.trace()
    ended = {n: (r, nev) for n, r, _, nev in s.user.get("ended", ())}
    start, gone = {}, {}
    for i, e in enumerate(tr):
        if e.kind == "event" and e.name == "do":
            start[e.args[0].v] = i
        elif e.kind == "event" and e.name == "exit":
            gone[e.args[0].v] = i
    kills = [(i, e.args[0].v, e.args[1], e.loc) for i, e in enumerate(tr) if e.kind == "kill" and isinstance(e.args[0], K)]
    unknown = [e for e in tr if e.kind == "kill" and not isinstance(e.args[0], K)]
    chk.ob("right", not unknown, LOC, "%s: it is not known which process is signalled" % c.name, s)
    if any(e[0] in ("task", "callback") and e[1] == "ProcessLookupError" for e in s.user.get("errors", ())):
        chk.ob("tolerated", False, LOC, "%s: a process that is gone is an error" % c.name, s)

    def end(name):
        return ended[name][1] if name in ended else len(tr)

    def need(rule, pids, sig, a, b, what, loc=LOC):
        """Every process that is there until b gets the signal between a and b."""
        for p in pids:
            if gone.get(p, len(tr)) < b:
                continue
            chk.ob(rule, any(a <= i < b and q == p and g == sig for i, q, g, _ in kills), loc, "%s: %s not %s process %d" % (
                c.name, what, "stop" if sig == STOP else "continue", p - 1000), s)

    allowed = [(c.pids[i], g, 0, len(tr)) for i, e in enumerate(c.exprs) if "Fg" in e[0] for g in (CONT, STOP)]
    for name, i in start.items():
        if name in ended:
            r = ended[name][0]
            err = cls_name(exc_class(s, r)) if isinstance(r, Abrupt) else None
            chk.ob("tolerated", err in (None, "PipelineSuspended", "PipelineFailed"), LOC, "%s: %s fails with %s" % (
                c.name, name, err), s)
        if name in ("suspend", "suspend2"):
            pids = c.pids[name == "suspend2"]
            need("stopped", pids, STOP, i, end(name), "suspend does")
            allowed.append((pids, STOP, i, end(name)))
        elif name == "restart" or name.startswith("bg"):
            pids = c.pids[-1] if name == "bg" else c.pids[0]
            need("continued", pids, CONT, i, end(name), name + " does")
            allowed.append((pids, CONT, i, end(name)))
        else:
            pids = c.of(name)
            # continued by the time anything else can happen
            to = next((j for j in range(i + 1, len(tr)) if tr[j].kind == "event" and tr[j].name != "task"), len(tr))
            need("continued", pids, CONT, i, min(to, end(name)), name + " does")
            allowed.append((pids, CONT, i, len(tr) if "fg" in name else end(name)))
            for m in ("suspend", "suspend2"):
                if i < start.get(m, -1) < end(name) and c.pids[m == "suspend2"] == pids:
                    allowed.append((pids, STOP, start[m], end(name)))
    requests = [i for i, e in enumerate(tr) if e.kind == "event" and e.name == "signal"]
    stopped = [(name, ended[name][1]) for name in start if name in WAITS and name in ended and isinstance(ended[name][0], Abrupt)
               and cls_name(exc_class(s, ended[name][0])) == "PipelineSuspended"]
    may = {}
    for i in requests:
        waiting = [n for n in start if n in WAITS and start[n] < i < end(n) and c.interactive(n)]
        # (the one that began last is what the terminal is used for)
        top = sorted(waiting, key=lambda n: start[n])[-1:]
        for n in top:
            pids = c.of(n)
            same = [m for m in start if m in WAITS and start[m] < i < end(m) and c.of(m) == pids]
            for m in same:
                may.setdefault(m, []).append(i)
                allowed.append((pids, STOP, i, end(m)))
                allowed.append((pids, CONT, i, end(m)))
            over = all(gone.get(p, len(tr)) < end(n) for p in pids)
            if over:
                continue        # finished before or while being suspended
            chk.ob("requested", n in dict(stopped) and all(m in ended for m in same), LOC_W,
                   "%s: whoever waits is not told of the suspension" % c.name, s)
            need("stopped", pids, STOP, i, max(end(m) for m in same), "the stop request does", LOC_W)
    for n, nev in stopped:
        chk.ob("right", n in may or any(m in start and m.startswith("suspend") and start[m] < nev for m in (
            "suspend", "suspend2")), LOC_W, "%s: %s is told of a suspension nobody asked for" % (c.name, n), s)
    for i, p, g, loc in kills:
        if g not in (STOP, CONT):
            chk.ob("right", False, loc or LOC, "%s: process %d is sent another signal" % (c.name, p - 1000), s)
            continue
        chk.ob("right", any(p in ps and g == sig and a <= i < b for ps, sig, a, b in allowed), loc or LOC,
               "%s: process %d is %s for no reason" % (c.name, p - 1000, "stopped" if g == STOP else "continued"), s)


LOC_W = "pipeline/running.py:RunningPipeline.wait"
