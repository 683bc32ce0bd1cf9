"""C10: a stream handler's descriptor is watched while open and untouched once closed."""
from .handlers import *

TECHNIQUE = ("path-sensitive abstract interpretation of the stream handlers over an abstract event loop, with a "
             "typestate per descriptor (watched, closed, lent) checked on every order of readiness, tasks and arrivals")
D, T2 = ("do", "d", "destroy"), ("do", "d", "twice")
R = ("do", "r", "reader")
S = ("do", "r", "slow_reader")


def cases():
    C = HCase
    for fn in ("out", "borrowed_out", "raw_out"):
        for items in ((), (b"x",), (b"x", ValueError)):
            yield C(fn, "gen()", items, tasks="free", max_ready=3)
        yield C(fn, "ASrc()", (b"x",), tasks="free", max_ready=3)
        yield C(fn, "ASrc()", (), tasks="free", max_ready=3)
        yield C(fn, "ASrc()", (KeyError,), tasks="free", max_ready=3)
        for f in ("os.write",):
            yield C(fn, "gen()", (b"x", b"y"), fails=f, tasks="free", max_ready=3)
        yield C(fn, "gen()", (b"x",), todo=[D], tasks="free", max_ready=2)
        yield C(fn, "ASrc()", (b"x",), todo=[D], tasks="free", max_ready=2)
        yield C(fn, "gen()", (b"x",), todo=[T2], max_ready=2)
    yield C("out", "gen()", (b"x", None, b"y"), tasks="free", max_ready=4, unready=True)
    for fn in ("lines", "borrowed_lines", "raw"):
        for chunks in ((), (b"a\n",), (b"a", b"b\nc")):
            yield C(fn, chunks=chunks, todo=[R])
        yield C(fn, chunks=(b"a\nb\n", b"c"), todo=[S], max_ready=4)
        yield C(fn, chunks=(b"a\n",), todo=[D])
        yield C(fn, chunks=(b"a\n",), todo=[T2])
    yield C("stage", "gen()", (b"x",), todo=[("exit", 1001, "exit0")])
    yield C("copied", chunks=(b"a\n",), max_ready=3)


def check(chk):
    chk.rule("reached", "the scenario can be carried out")
    chk.rule("once", "a descriptor is closed at most once")
    chk.rule("unwatched", "a descriptor is no longer watched when it is closed, nor after its handler was destroyed")
    chk.rule("untouched", "nothing reads, writes, polls or watches a descriptor once its handler has let go of it")
    chk.rule("lent", "a borrowed descriptor is never closed")
    chk.rule("released", "a handler that has reached its end lets go of its descriptor")
    chk.rule("watched", "a handler that has not reached its end is watching its descriptor")
    chk.assumptions += ["descriptor numbers are not reused within a scenario"]
    for c in cases():
        for s, v in c.run(chk):
            judge(chk, c, s, v)


def judge(chk, c, s, v):
    gone, watching, used = {}, set(), {}
    lent = c.fn.startswith("borrowed")
    for e in s.trace():
        if e.kind == "fd" and e.name in ("closed-twice", "not-open"):
            chk.ob("once", False, e.loc or LOC, "%s: %s descriptor %s" % (c.name, e.name, fd_of(e)), s)
    mine = None
    for what, fd, e in io_events(s):
        if what == "watch" and mine is None:
            mine = fd
        loc = e.loc or LOC
        if what == "close":
            chk.ob("unwatched", fd not in watching, loc, "%s: the descriptor is closed while being watched" % c.name, s)
            if lent:
                chk.ob("lent", fd != mine, loc, "%s: the borrowed descriptor is closed" % c.name, s)
            gone[fd] = "closed"
        elif what == "unwatch":
            watching.discard(fd)
            if lent and fd == mine:
                gone[fd] = "handed back"
        else:
            chk.ob("untouched", fd not in gone, loc, "%s: %s after the descriptor was %s" % (
                c.name, what, gone.get(fd)), s)
            if what == "watch":
                watching.add(fd)
    if mine is None:
        return
    ends = any(e.kind == "stageends" or e.kind == "stagefails" for e in s.trace()) or any(
        e.name == "do" and e.kind == "event" and e.args[0] == K("d") for e in s.trace())
    if isinstance(v, Abrupt):
        return
    if c.fn in OUTS[:3]:
        tasks = s.user.get("tasks", ())
        if ends and not tasks and not s.user.get("expected"):
            chk.ob("released", mine in gone and mine not in watching, LOC, "%s: the descriptor is kept" % c.name, s)
        elif not ends and not c.fails:
            chk.ob("watched", mine in watching and mine not in gone, LOC,
                   "%s: the descriptor is not watched any more" % c.name, s)
    elif c.fn in ("lines", "borrowed_lines", "raw"):
        eof = sum(what == "read" and fd == mine for what, fd, _ in io_events(s)) > len(c.chunks)
        if eof:
            chk.ob("released", mine in gone and mine not in watching, LOC, "%s: the descriptor is kept" % c.name, s)
