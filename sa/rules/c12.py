"""C12: feeding a stage, reading from one and collecting status never block the event loop."""
from .handlers import *
from . import c09
from .signals import BACKENDS

TECHNIQUE = ("path-sensitive abstract interpretation of stream handlers, launch and signal delivery over an abstract "
             "event loop with a readiness typestate per descriptor: each blocking call needs readiness established in "
             "the same step and a bounded amount")
R, S = ("do", "r", "reader"), ("do", "r", "slow_reader")
X = ("exit", 1001, "exit0")
ATOMIC = 4096       # PIPE_BUF: what a pipe that is ready takes without blocking
BIG = b"0123456789abcdef" * 300
WAITS = ("time.sleep", "os.wait", "os.waitid", "os.system", "os.popen", "input", "builtins.input", "fcntl.flock",
         "fcntl.lockf", "os.lockf", "os.sendfile", "os.writev", "os.splice", "os.copy_file_range", "signal.sigwait",
         "signal.sigwaitinfo", "signal.pause", "os.fsync", "os.tcdrain", "termios.tcdrain", ".acquire", ".join_thread")


def cases():
    C = HCase
    for fn in ("out", "raw_out", "borrowed_out"):
        for items in ((b"x", b"y"), (BIG, b"y"), (b"x" * ATOMIC, b"y" * (ATOMIC + 1)), (b"x" * (ATOMIC - 1),)):
            yield C(fn, "gen()", items, max_ready=8)
        yield C(fn, "gen()", (BIG, b"y"), partial=True, unready=True, max_ready=4)
        yield C(fn, "gen()", (b"xx", b"y"), tasks="free", partial=True, unready=True, max_ready=3)
        yield C(fn, "ASrc()", (b"xx", None, b"y"), tasks="free", max_ready=3)
        yield C(fn, "ASrc()", (b"xx", b"y"), tasks="late", unready=True, max_ready=3)
    yield C("stage", "gen()", ("\u00e5" * 5000, "y"), todo=[X], max_ready=12)
    yield C("stage", "ASrc()", ("\u00e5" * 3000,), todo=[X], max_ready=6)
    for fn in ("lines", "raw", "borrowed_lines"):
        for chunks in ((b"a\n",), (b"a", b"b\nc", b"d"), (b"a\nb\nc\n", b"d\n")):
            yield C(fn, chunks=chunks, todo=[R], max_ready=5)
            yield C(fn, chunks=chunks, todo=[S], max_ready=5)
    yield C("copied", chunks=(b"a\nb\n",), max_ready=3)


def worlds(chk):
    for backend in BACKENDS:
        for expr, ks in (("env.aa", ["exit0"]), ("env.aa | env.bb", ["exit0", "killed"]), ("gen() | env.aa", ["exit0"])):
            for how in ("wait", "plus", "lines", "loop"):
                yield expr, how, ks, (), backend
        yield "ienv.aa", "wait", ["exit0"], [("signal", sg.SIGTSTP, "w")], backend
        yield "env.aa", "wait", ["exitN"], [("change", 1001, "stopped"), ("change", 1001, "continued")], backend


def check(chk):
    chk.rule("ready", "a descriptor is written to or read from only when it has been found ready in that same step")
    chk.rule("bounded", "no more is written at once than a ready pipe accepts without blocking")
    chk.rule("waits", "nothing on the way waits: not for a child, not for a signal, not for time or input")
    chk.rule("reached", "the scenario can be carried out")
    chk.assumptions += ["a descriptor is ready only for one read or write after it was found ready",
                        "PIPE_BUF is %d" % ATOMIC]
    for c in cases():
        for s, v in c.run(chk):
            judge(chk, c.name, s)
    for expr, how, ks, todo, backend in worlds(chk):
        w = World(chk, c09.SRC9 % expr, backend=backend, chunks=(b"a\nb",),
                  todo=list(todo) + [c09.x(i + 1, k) for i, k in enumerate(ks)] + [("do", "w", how)])
        w.hooks.ext["world.got"] = got
        n = 0
        for s, v in w.run_all():
            n += 1
            judge(chk, "%s of %s with %s" % (how, expr, backend), s)
        chk.ob("reached", n > 0, LOC, "%s of %s cannot be carried out" % (how, expr))


def judge(chk, name, s):
    for e in s.trace():
        loc = e.loc or LOC
        if e.kind in ("write", "read"):
            chk.ob("ready", bool(e.extra), loc, "%s: a %s without readiness" % (name, e.kind), s)
        if e.kind == "write":
            v = e.args[1]
            n = len(v.v) if isinstance(v, K) and isinstance(v.v, (bytes, bytearray, memoryview)) else None
            fd = fd_of(e)
            chk.ob("bounded", n is not None and n <= ATOMIC or fd in s.user.get("nonblocking", ()), loc,
                   "%s: %s bytes are written at once" % (name, "unboundedly many" if n is None else n), s)
        elif e.kind == "blocks" or e.kind == "call" and e.name in WAITS:
            chk.ob("waits", False, loc, "%s: waits in %s" % (name, e.name), s)
        elif e.kind == "waitpid":
            chk.ob("waits", True, loc, "")
