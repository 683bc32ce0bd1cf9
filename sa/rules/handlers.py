"""Scenarios for the stream handlers of iterio: sources, readers, timings."""
from .sched import *

class Thing(Exception):
    """Stands for an item that is an object with a text form of its own."""


SRC_H = '''
class Thing(object):
    def __str__(self):
        return "a thing"
    def __repr__(self):
        return "<thing>"
def thing():
    return Thing()
from pieshell import iterio
import os
class Through(object):
    def __init__(self, inp):
        self.inp = inp
    def __aiter__(self):
        return self
    async def __anext__(self):
        return await self.inp.__anext__()
def through(inp):
    return Through(inp)
def borrowed_out():
    return iterio.LineOutputHandler(os.open("/w/x", 1), %(src)s, borrowed=True)
def out():
    return iterio.LineOutputHandler(os.open("/w/x", 1), %(src)s)
def raw_out():
    return iterio.OutputHandler(os.open("/w/x", 1), %(src)s)
def stage():
    return (%(src)s | env.aa).run()
def lines():
    return iterio.LineInputHandler(os.open("/w/x", 0))
def borrowed_lines():
    return iterio.LineInputHandler(os.open("/w/x", 0), borrowed=True)
def raw():
    return iterio.InputHandler(os.open("/w/x", 0))
def copied():
    return (env.aa | through | env.bb).run()
async def reader(h):
    async for x in h:
        world.got(x)
async def slow_reader(h):
    async for x in h:
        world.got(x)
        await world.pause()
def destroy(h):
    h.destroy()
def twice(h):
    h.destroy()
    h.destroy()
'''
OUTS = ("out", "borrowed_out", "raw_out", "stage")


class HCase(object):
    def __init__(self, fn, src="gen()", items=("x",), chunks=(b"a\n",), todo=(), tasks="fifo", fails=None, **knobs):
        self.fn, self.src, self.items, self.chunks, self.todo, self.tasks = fn, src, items, chunks, todo, tasks
        self.fails, self.knobs = fails, knobs

    @property
    def plain(self):
        """Readiness, tasks and writes go as smoothly as they can, often enough for everything to be written."""
        k = self.knobs
        need = sum(2 + (len(i) // 2000 if isinstance(i, (str, bytes)) else 0) for i in self.items) + 2
        return self.src == "gen()" and self.tasks == "fifo" and not k.get("partial") and not k.get("unready") and (
            k.get("max_ready", 6) >= need)

    @property
    def name(self):
        what = "%s of %s" % (self.src, [i if not isinstance(i, type) else i.__name__ for i in self.items]
                             ) if self.fn in OUTS else "%s" % (list(self.chunks),)
        if len(what) > 70:
            what = what[:60] + "..."
        return "%s, %s%s%s" % (self.fn, what, "".join(", " + e[2] for e in self.todo if e[0] == "do"),
                               ", %s failing" % self.fails if self.fails else "")

    def run(self, chk):
        w = World(chk, SRC_H % {"src": self.src}, tasks=self.tasks, items=self.items, chunks=self.chunks, todo=self.todo)
        w.hooks.ext["world.got"] = got
        w.hooks.thing = (Thing, FnV(w.mod.funcs["thing"], None))
        for k, v in self.knobs.items():
            setattr(w.hooks, k, v)
        if self.fails:
            w.hooks.exc[self.fails] = ["OSError"]
        self.world = w
        out = []
        for s, v in w.run_all(self.fn):
            if s.user.get("result") is None or isinstance(v, Abrupt) and v.out[0] == "raise":
                chk.ob("reached", False, exc_loc(s, v) or LOC, "%s fails" % self.name, s)
                continue
            out.append((s, v))
        chk.ob("reached", bool(out), LOC, "%s cannot be carried out" % self.name)
        return out


LOC = "iterio.py:IOHandler.__init__"


def got(it, st, recv, args, kwargs):
    st.emit(Ev("got", "got", args=[st.res(a) for a in args]))
    return [(st, NONE)]


def fd_of(e):
    v = e.args[0]
    return v.v if isinstance(v, K) else v


def io_events(s):
    """(what, descriptor, event): what is close, read, write, poll, watch or unwatch."""
    for e in s.trace():
        if e.kind == "fd" and e.name == "close":
            yield "close", fd_of(e), e
        elif e.kind in ("read", "write"):
            yield e.kind, fd_of(e), e
        elif e.kind == "polling":
            yield "poll", fd_of(e), e
        elif e.kind == "watch":
            yield "unwatch" if ".remove" in e.name else "watch", fd_of(e), e
