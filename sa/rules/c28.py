"""C28: asynchronous and synchronous sources are interchangeable."""
from .sched import *

TECHNIQUE = ("path-sensitive abstract interpretation of Python stages in every position of a pipeline over an abstract event "
             "loop: the bytes computed to be written for every kind of source are compared with those of the plain list")
LOC = "pipeline/function.py:Function._run"
KINDS = '''
class It(object):
    def __init__(self):
        self.left = [%(items)s]
    def __iter__(self):
        return self
    def __next__(self):
        if not self.left:
            raise StopIteration
        return self.left.pop(0)
class Able(object):
    def __iter__(self):
        return It()
class AIt(object):
    def __init__(self):
        self.left = [%(plain)s]
    def __aiter__(self):
        return self
    async def __anext__(self):
        if not self.left:
            raise StopAsyncIteration
        return self.left.pop(0)
class ALate(AIt):
    async def __anext__(self):
        await world.pause()
        return await AIt.__anext__(self)
class AAble(object):
    def __aiter__(self):
        return AIt()
class AAbleGen(object):
    async def __aiter__(self):
        for x in [%(plain)s]:
            yield x
async def co(x):
    return x
async def late(x):
    await world.pause()
    return x
def sgen():
    for x in [%(items)s]:
        yield x
async def agen():
    for x in [%(plain)s]:
        yield x
async def alate():
    for x in [%(plain)s]:
        await world.pause()
        yield x
'''
FUNCS_ = '''
def fn(inp%(sig)s):
    return %(src)s
class Thing(object):
    def fn(self, inp%(sig)s):
        return %(src)s
'''
GENS_ = '''
%(a)sdef fn(inp%(sig)s):
    for x in [%(plain)s]:
        %(pause)s
        yield x
class Thing(object):
    %(a)sdef fn(self, inp%(sig)s):
        for x in [%(plain)s]:
            %(pause)s
            yield x
'''
COROS_ = '''
async def fn(inp%(sig)s):
    %(pause)s
    return %(plain)s
class Thing(object):
    async def fn(self, inp%(sig)s):
        %(pause)s
        return %(plain)s
'''
READERS_ = '''
%(a)sdef fn(inp%(sig)s):
    async for x in inp:
        %(end)s
class Reader(object):
    def __init__(self, inp):
        self.inp = inp
    def __aiter__(self):
        return self
    async def __anext__(self):
        return await self.inp.__anext__()
def wrapped(inp):
    return Reader(inp)
class Thing(object):
    %(a)sdef fn(self, inp%(sig)s):
        async for x in inp:
            %(end)s
'''
# how a source is used
PLACES = [("piped into a command", "%s | env.aa"), ("as an argument", "env.aa(%s)"), ("as an option", "env.aa('x', k=%s)"),
          ("as a stage", "function.Function(env, %s) | env.aa"), ("in a group", "function.Function(env, %s) + env.aa"),
          ("redirected", "(function.Function(env, %s) > '/o') + env.aa"),
          ("piped into a pipe", "%s | (env.aa | env.bb)")]
FPLACES = [("piped into a command", "function.Function(env, %s) | env.aa"), ("after a command", "env.aa | %s"),
           ("between commands", "(env.aa | %s) | env.bb"), ("as an argument", "env.aa(%s)"), ("as an option", "env.aa(k=%s)"),
           ("with arguments", "function.Function(env, %s, 1, b=2) | env.aa")]
SRCS = [("a list", "[%(items)s]"), ("a tuple", "(%(items)s,)"), ("a generator", "sgen()"), ("an iterator", "It()"),
        ("an iterable", "Able()"), ("a generator expression", "(x for x in [%(items)s])"),
        ("an asynchronous generator", "agen()"), ("a slow asynchronous generator", "alate()"),
        ("an asynchronous iterator", "AIt()"), ("a slow asynchronous iterator", "ALate()"),
        ("an asynchronous iterable", "AAble()"), ("an asynchronous iterable with a generator", "AAbleGen()")]
ITEMS = [("'x', 'y'", b"x\ny\n"), ("b'\\xff', '\\u00e5', None, 5, ''", b"\xff\n\xc3\xa5\n5\n\n"), ("", b"")]
COITEMS = [("co('x'), 'y', co(None), co(5)", b"x\ny\n5\n"), ("late('x'), late(b'y')", b"x\ny\n")]
VALUES = [("'x'", b"x\n"), ("b'\\xff'", b"\xff\n"), ("None", b""), ("5", b"5\n")]
EXITS = [("exit", 1001, "exit0"), ("exit", 1002, "exit0")]
SLOW = ("slow", "waits", "later", "late(", "reading", "an asynchronous function")
SAMPLES = ("a list", "an asynchronous generator")
PAUSES = ("pass", "await world.pause()")


def data(s):
    """Per descriptor, what is written to it in the end; None if it is not known."""
    out = {}
    for fd, b in s.user.get("written", ()):
        if b is None or out.get(fd, b"") is None:
            out[fd] = None
        else:
            out[fd] = out.get(fd, b"") + bytes(b)
    return out


def observe(chk, what, source, expr, want, chunks=(), items=()):
    w = World(chk, "import world\n%s\ndef f():\n    return (%s).run()\n" % (source, expr), chunks=chunks, items=items, todo=EXITS)
    w.hooks.eager_gens = w.hooks.exits_last = True
    w.hooks.max_ready = 9 if "5, ''" in source or "co(5)" in source else 6 if chunks else 4
    n = done = 0
    slow = any(x in what for x in SLOW)
    for s, v in w.run_all("f"):
        if s.user.get("result") is None or isinstance(v, Abrupt) and v.out[0] != "stop":
            chk.ob("accepted", False, exc_loc(s, v) or LOC, "%s: %s is raised" % (what, cls_name(exc_class(s, v))), s)
            continue
        if isinstance(v, Abrupt) and v.out != ("stop", "stuck"):
            continue
        n += 1
        have = data(s)
        fails = failures(w, s)
        if set(fails) == {"nothing"} and slow and want.startswith(b"".join(x or b"" for x in have.values())):
            continue # Not followed to its end
        done += 1
        chk.ob("same", [x for x in have.values() if x != b""] == ([want] if want else []), LOC, "%s: %s is written" % (
            what, " and ".join(repr(x) if x is not None else "something unknown" for x in have.values()) or "nothing"), s)
        chk.ob("succeeds", not fails, LOC, "%s: the stage ends with %s" % (what, ", ".join(fails)), s)
    chk.ob("accepted", n > 0, LOC, "%s cannot be carried out" % what)
    chk.ob("succeeds", n == 0 or done > 0, LOC, "%s: the stage never ends" % what)


def failures(w, s):
    """What the Python stages of the run that was made ended with, if not well."""
    out = []
    r = s.user["result"]
    procs = s.obj(s.res(r)).f.get("processes") if isinstance(s.res(r), Ref) else None
    for p in (w.it.known_seq(s, procs) if procs is not None else None) or ():
        o = s.obj(s.res(p))
        h = s.res(o.f.get("iohandler", NONE))
        future = end_of(s, h)
        if future is not None:
            m = future.meta
            if m.get("done") != TRUE:
                out.append("nothing")
            elif "exc" in m:
                out.append(cls_name(s.obj(m["exc"]).cls) if hasattr(s.obj(m["exc"]), "cls") else "an error")
    return out


def check(chk):
    chk.rule("accepted", "every kind of source can be used in every place")
    chk.rule("same", "every kind of source gives one line for each of its items, in order")
    chk.rule("succeeds", "the stage ends, without an error")
    chk.assumptions += ["a generator used by the code runs to its end when it is first asked for an item"]
    for i, (kind, src) in enumerate(SRCS):
        for j, (items, want) in enumerate(ITEMS):
            for k, (place, expr) in enumerate(PLACES):
                if j == 0 and (k == 0 or kind in SAMPLES or k == 1 + i % (len(PLACES) - 1)) or j and k == (i + j) % len(PLACES):
                    d = {"items": items, "plain": items}
                    x = src % d if items else (src % d).replace("(,)", "()")
                    observe(chk, "%s of %s %s" % (kind, items or "nothing", place), KINDS % d, expr % x, want)
    for items, want in COITEMS:
        for i, (kind, src) in enumerate(SRCS[:6]):
            for place, expr in (PLACES[0], PLACES[1 + i % 3]):
                d = {"items": items, "plain": "'x'"}
                observe(chk, "%s of %s %s" % (kind, items, place), KINDS % d, expr % (src % d), want)
    for k, (place, expr) in enumerate(FPLACES):
        sig = ", a, b=None" if "arguments" in place else ""
        for name in ("fn", "Thing().fn"):
            d = dict(items="'x', 'y'", plain="'x', 'y'", sig=sig)
            for i, (kind, src) in enumerate(SRCS):
                if name == "fn" and i % len(FPLACES) == k or k == 1 and kind in SAMPLES:
                    observe(chk, "a function giving %s %s" % (kind, place), KINDS % d + FUNCS_ % dict(d, src=src % d), expr % name, b"x\ny\n")
            if name != "fn" and k % 3:
                continue
            for a in ("", "async "):
                for pause in PAUSES if a and k < 2 else PAUSES[:1]:
                    observe(chk, "a%s generator function%s %s" % ("n asynchronous" if a else "", " that waits" if "await" in pause else "", place),
                            GENS_ % dict(d, a=a, pause=pause), expr % name, b"x\ny\n")
            for i, (v, want) in enumerate(VALUES):
                if k == 0 or i == k % len(VALUES):
                    observe(chk, "an asynchronous function giving %s %s" % (v, place), COROS_ % dict(d, plain=v, pause=PAUSES[k % 2]), expr % name, want)
        if place in ("after a command", "between commands"):
            for name in ("fn", "Thing().fn"):
                d = dict(items="'x', 'y'", plain="'x', 'y'", sig=sig, a="async ", end="yield x")
                observe(chk, "an asynchronous generator function reading %s" % place, READERS_ % d, expr % name, b"a\nb\n", (b"a\nb", b"\n"))
            observe(chk, "a function giving an asynchronous iterator reading %s" % place, READERS_ % d, expr % "wrapped", b"a\nb\n", (b"a\nb", b"\n"))
            d["end"] = "pass\n    return x"
            observe(chk, "an asynchronous function reading %s" % place, READERS_.split("class")[0] % d, expr % "fn", b"b\n", (b"a\nb", b"\n"))
