"""C09: a pipeline with a failed stage is never reported as success."""
from .sched import *
from . import c08

TECHNIQUE = ("path-sensitive abstract interpretation of waiting, awaiting, iterating and converting over an abstract "
             "event loop; every normal return is checked against the stages that have finished and failed on that path")
LOC = "pipeline/running.py:RunningPipeline.wait"
SRC9 = '''
async def wait(p):
    await p.run().wait()
async def waiting(p):
    await p.wait()
async def wait_running(p):
    await p.run()
async def await_(p):
    await p
async def interactive(p):
    await p.async_run_interactive()
async def lines(p):
    async for x in p:
        world.got(x)
async def running_lines(p):
    async for x in p.run([redir.Redirect("stdout", redir.PIPE)]):
        world.got(x)
async def running_bytes(p):
    async for x in p.run([redir.Redirect("stdout", redir.PIPE)]).iterbytes():
        world.got(x)
async def foreground(p):
    r = p.run()
    q = builtins.FgBuiltin(env, ["fg", r]).run()
    await q.wait()
def plus(p):
    +p
def loop(p):
    for x in p:
        world.got(x)
def text(p):
    world.got(str(p))
def data(p):
    world.got(bytes(p))
ienv = environ.Environment("/w", {"A": "b"}, True)
def f():
    return %s
'''
AWAITS = ("wait", "wait_running", "await_", "interactive")
READS = ("lines", "running_lines", "running_bytes")
SYNC_READS = ("loop", "text", "data")
x = c08.x


class Case(object):
    def __init__(self, expr, how, exits=(), items=(), chunks=(), write=False, todo=(), orders=("fifo",)):
        self.expr, self.how, self.exits, self.items = expr, how, exits, items
        self.chunks, self.write, self.todo, self.orders = chunks, write, todo, orders
        self.name = "%s of %s with %s" % (how, expr, "/".join(list(exits) + [
            "item" if not isinstance(i, type) else i.__name__ for i in items]) or "nothing") + (
            ", writing failing" if write else "")


def cases():
    C = Case
    for how in AWAITS + ("plus",):
        for ks in (["exit0"], ["exitN"], ["killed"], ["dumped"]):
            yield C("env.aa", how, ks)
        for ks in (["exit0", "exit0"], ["exitN", "exit0"], ["exit0", "exitN"], ["killed", "exit0"]):
            yield C("env.aa | env.bb", how, ks)
    for how in ("wait", "plus"):
        for e in ("env.aa + env.bb", "env.aa(env.bb)"):
            for ks in (["exitN", "exit0"], ["exit0", "dumped"], ["exit0", "exit0"]):
                yield C(e, how, ks)
        yield C("env.aa | env.bb | env.cc", how, ["exit0", "exitN", "exit0"])
        for items in ((), ("x",), (ValueError,), ("x", KeyError)):
            for order in ("fifo", "lifo"):
                yield C("gen() | env.aa", how, ["exit0"], items, orders=(order,))
        yield C("gen() | env.aa", how, ["exit0"], ("x",), write=True)
        yield C("gen() | env.aa", how, ["exitN"], ("x",))
        yield C("env.aa | use", how, ["exit0"], (ValueError,))
        yield C("env.aa | use", how, ["exitN"], ())
        yield C("env.aa | use", how, ["exit0"], ())
        yield C("env.aa | use | env.bb", how, ["exit0", "exit0"], (ValueError,))
    yield C("builtins.ClearDirCacheBuiltin(env, ['clear_dir_cache'])", "wait", [])
    for ks in (["exit0"], ["exitN"]):
        yield C("env.aa", "foreground", ks, orders=("fifo", "lifo"))
    for how in READS + SYNC_READS:
        for ks in (["exit0"], ["exitN"], ["killed"]):
            yield C("env.aa", how, ks, chunks=(b"a\nb", b"c\nd"))
        yield C("env.aa", how, ["exitN"])
        yield C("env.aa | env.bb", how, ["exitN", "exit0"], chunks=(b"a\n",))
        yield C("env.aa | env.bb", how, ["exit0", "exitN"], chunks=(b"a\n",))
        yield C("gen() | env.aa", how, ["exit0"], (ValueError,), chunks=(b"a\n",))
        yield C("env.aa | use", how, ["exitN"], (), chunks=())
        yield C("env.aa | use", how, ["exit0"], (ValueError,), chunks=())
    for e in ("env.aa | env.bb", "env.aa + env.bb"):
        for ks in (["exit0", "exit0"], ["exit0", "exitN"], ["killed", "exit0"]):
            yield C("(%s).run()" % e, "waiting", ks, orders=("fifo", "lifo", "late"))
    for items in ((), (ValueError,)):
        yield C("(gen() | env.aa).run()", "waiting", ["exit0"], items, orders=("fifo", "lifo", "late"))
        yield C("(env.aa | use).run()", "waiting", ["exit0"], items, orders=("fifo", "lifo", "late"))
    yield C("ienv.aa", "wait", ["exitN"], todo=[("signal", sg.SIGTSTP, "w")])
    yield C("env.aa", "wait", ["exitN"], todo=[("change", 1001, "stopped"), ("change", 1001, "continued")])


def got(it, st, recv, args, kwargs):
    st.emit(Ev("got", "got", args=[st.res(a) for a in args]))
    return [(st, NONE)]


def delivered(s, n):
    """What reached the reader, or None if it is not known."""
    out = []
    for e in s.trace()[:n]:
        if e.kind == "got":
            v = e.args[0]
            if not isinstance(v, K) or not isinstance(v.v, (str, bytes)):
                return None
            out.append(v.v)
    return out


def expected(how, chunks):
    data = b"".join(chunks)
    if how in ("lines", "running_lines", "loop"):
        return [l.decode() for l in data.splitlines()]
    return data


def same(how, want, out):
    if isinstance(want, list):
        return out == want
    return b"".join(o if isinstance(o, bytes) else o.encode() for o in out) == want


def verdict(s, v):
    if not isinstance(v, Abrupt):
        return "ok"
    return cls_name(exc_class(s, v))


def names(s, v):
    """The error refers to the running pipeline."""
    ob = s.obj(v.out[1])
    vals = list(ob.f.values()) + list(ob.d if isinstance(ob.d, tuple) else ())
    return any(isinstance(x, Ref) and cls_name(s.obj(x).cls).startswith("Running") for x in vals)


def check(chk):
    chk.rule("finished", "whoever is told of success is told after every stage has finished")
    chk.rule("failed", "success is never reported when a stage has failed")
    chk.rule("error", "a failing pipeline is reported by a pipeline error that names it, and only such a pipeline is")
    chk.rule("delivered", "the end of the output, good or bad, is reported after all of the output")
    chk.rule("reached", "the scenario can be carried to its end")
    reached = {}
    for c in cases():
        for order in c.orders:
            w = World(chk, SRC9 % c.expr, tasks=order, items=c.items, chunks=c.chunks,
                      todo=list(c.todo) + [x(i + 1, k) for i, k in enumerate(c.exits)] + [("do", "w", c.how)])
            w.hooks.ext["world.got"] = got
            w.hooks.by_fd = True
            if c.write:
                w.hooks.exc["os.write"] = ["OSError"]
            reached.setdefault(c.name, 0)
            for s, v in w.run_all():
                if isinstance(v, Abrupt) and v.out[0] == "stop":
                    continue            # C08
                for n, v, exited, nev in s.user.get("ended", ()):
                    if n == "f":
                        if isinstance(v, Abrupt):
                            chk.ob("reached", False, exc_loc(s, v) or LOC, "%s fails" % c.expr, s)
                        continue
                    reached[c.name] += 1
                    judge(chk, c, s, v, exited, nev)
    for n in reached:
        chk.ob("reached", reached[n] > 0, LOC, "%s: never carried to its end" % n)


def judge(chk, c, s, v, exited, nev):
    events = s.trace()[:nev]
    pids = {p for p, k in exited}
    bad = [p for p, k in exited if k != "exit0"]
    bad += [e for e in events if e.kind == "stagefails"]
    bad += [e for e in events if e.kind == "call" and e.name == "os.write" and e.exc is not None] if c.write else []
    got_ = verdict(s, v)
    loc = (exc_loc(s, v) if isinstance(v, Abrupt) else None) or LOC
    if got_ == "ok":
        lacking = [i + 1 for i in range(len(c.exits)) if 1001 + i not in pids]
        pythons = sum(1 for e in events if e.kind in ("stageends", "stagefails"))
        wants = c.expr.count("gen()") + c.expr.count("use")
        ok = not lacking and (pythons >= wants or c.write)
        chk.ob("finished", ok, loc, "%s: success is reported before every stage has finished" % c.name, s)
        chk.ob("failed", not bad, loc, "%s: success is reported" % c.name, s)
    elif got_ == "PipelineSuspended" and c.todo and not (c.todo[0][0] == "change"):
        pass
    else:
        chk.ob("error", got_ == "PipelineFailed" and bool(bad) and names(s, v), loc,
               "%s: ends with %s%s" % (c.name, got_, "" if bad else " though no stage has failed"), s)
    if c.how in READS or c.how in SYNC_READS and got_ == "ok" or c.how == "loop":
        out = delivered(s, nev)
        if out is not None:
            chk.ob("delivered", same(c.how, expected(c.how, c.chunks), out), loc,
                   "%s: %r reaches the reader instead of %r" % (c.name, out, expected(c.how, c.chunks)), s)
