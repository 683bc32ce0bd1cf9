"""C11: items cross between Python and programs as one line each, in order."""
from .handlers import *
from . import c09

TECHNIQUE = ("path-sensitive abstract interpretation of the stream handlers and Python stages over an abstract event "
             "loop: the bytes written and the items read on each order of readiness, tasks and partial writes are "
             "computed from the source and compared with the items produced and the bytes read")
R, S = ("do", "r", "reader"), ("do", "r", "slow_reader")
X = ("exit", 1001, "exit0")
BIG = b"0123456789abcdef" * 300         # more than a pipe is sure to take at once
MIXED = ("x", "\u00e5\u4e2d", b"\xff\x00", None, 5, "", b"", " y z\t", "u\n", Thing)
TEXT = "\u00e5\u4e2d".encode()


def cases():
    C = HCase
    for fn in ("out", "raw_out"):
        for items in ((), (b"x",), (b"x", b"yy", b"zzz"), (b"x", None, b"", b"y"), (BIG, b"y"), (b"x", ValueError),
                      (b" x\n", b"y \n\n")):
            yield C(fn, "gen()", items, max_ready=10)
        for tasks in ("free", "late", "lifo"):
            yield C(fn, "gen()", (b"x", b"yy"), tasks=tasks, max_ready=4)
            yield C(fn, "ASrc()", (b"x", b"yy"), tasks=tasks, max_ready=4)
        yield C(fn, "gen()", (b"xyz", b"uv"), partial=True, max_ready=8)
        yield C(fn, "gen()", (b"xyz", None, b"uv"), partial=True, unready=True, max_ready=5)
        yield C(fn, "gen()", (b"xyz", b"uv"), partial=True, tasks="free", max_ready=4)
        yield C(fn, "ASrc()", (b"xyz", b"u"), partial=True, tasks="free", max_ready=4)
        yield C(fn, "ASrc()", (None, b"xyz"), unready=True, tasks="free", max_ready=4)
    yield C("borrowed_out", "gen()", (b"x", b"y"), partial=True)
    yield C("stage", "gen()", MIXED, todo=[X], max_ready=22)
    yield C("stage", "ASrc()", MIXED[1:4], todo=[X], max_ready=8)
    yield C("stage", "gen()", ("\u00e5" * 3000, "y"), partial=True, todo=[X], max_ready=8)
    yield C("stage", "gen()", ("\u00e5" * 3000, "y"), todo=[X], max_ready=10)
    yield C("stage", "gen()", (True, 1.5, "a\tb"), todo=[X], max_ready=10)
    for fn in ("lines", "borrowed_lines"):
        for chunks in ((), (b"a\n",), (b"a",), (b"a\nb",), (b"\n\n",), (b"a", b"b\nc", b"d\n"), (b"a\nb\nc\n",),
                       (b"a\n", b"\n", b"b"), (TEXT[:1], TEXT[1:] + b"\n" + TEXT[:3], TEXT[3:]),
                       (b"a\r\n b \n",), (b"a\n\n", b"\nb\n\n")):
            yield C(fn, chunks=chunks, todo=[R], max_ready=5)
        for chunks in ((b"a\nb\n", b"c"), (b"a", b"\nb\nc\n", b"d\n"), (b"a\n", b"b\n", b"c\n")):
            yield C(fn, chunks=chunks, todo=[S], max_ready=5)
    for chunks in ((), (b"a\n",), (b"a", b"b\nc", b"\xff")):
        yield C("raw", chunks=chunks, todo=[R], max_ready=5)
        yield C("raw", chunks=chunks, todo=[S], max_ready=5)
    yield C("copied", chunks=(b"a\nb\n",), max_ready=3)


class Reading(c09.Case):
    """Whole pipelines that are read."""


def readings():
    for how in c09.READS + c09.SYNC_READS:
        for chunks in ((b"a\nb", b"c\nd"), (b"\n", b"\na\n"), (TEXT[:1], TEXT[1:]), ()):
            yield Reading("env.aa", how, ["exit0"], chunks=chunks)
        yield Reading("env.aa | env.bb", how, ["exit0", "exit0"], chunks=(b"a\nb",))


def check(chk):
    chk.rule("reached", "the scenario can be carried out")
    chk.rule("lines", "each item of the stage is one line, in order: nothing lost, added, merged or split")
    chk.rule("items", "each line of the program is one item, in order, without its newline")
    chk.rule("unread", "a reader is given what there is; it never fails on the way")
    chk.rule("all", "once nothing can happen any more, every item has been written and every line delivered")
    chk.assumptions += ["chunk boundaries, partial writes and item values are the enumerated ones",
                        "os.write reports how much it wrote; os.read gives what was written"]
    for c in cases():
        for s, v in c.run(chk):
            judge(chk, c, s)
    for c in readings():
        w = World(chk, c09.SRC9 % c.expr, items=c.items, chunks=c.chunks,
                  todo=[c09.x(i + 1, k) for i, k in enumerate(c.exits)] + [("do", "w", c.how)])
        w.hooks.ext["world.got"] = got
        n = 0
        for s, v in w.run_all():
            if isinstance(v, Abrupt) and v.out[0] == "stop":
                continue
            for name, r, exited, nev in s.user.get("ended", ()):
                if name == "w":
                    n += 1
                    out = c09.delivered(s, nev)
                    want = wanted(c.how not in ("running_bytes", "text", "data"), c.chunks)
                    chk.ob("items", not isinstance(r, Abrupt) and out is not None and c09.same(c.how, want, out), LOC_R,
                           "%s, %r: the reader is given %r" % (c.how, list(c.chunks), verdict(s, r, out)), s)
        chk.ob("reached", n > 0, LOC_R, "%s cannot be carried out" % c.name)


LOC_R = "pipeline/running.py:RunningPipeline.__aiter__"


def verdict(s, r, out):
    if isinstance(r, Abrupt):
        return cls_name(exc_class(s, r))
    return out


def wanted(lines, chunks):
    data = b"".join(chunks)
    if not lines:
        return data
    res = data.split(b"\n")
    if not res[-1]:
        res.pop()
    return [l.decode() for l in res]


def encoded(c):
    """(bytes of the items in order, whether the source ends in an error)"""
    out = []
    for i in c.items:
        if isinstance(i, type) and i is not Thing:
            break
        if i is None:
            continue
        b = i if isinstance(i, bytes) else b"a thing" if i is Thing else str(i).encode("utf-8")
        out.append(b if c.fn == "raw_out" else b + b"\n")
    return out


def judge(chk, c, s):
    if c.fn in OUTS:
        written = s.user.get("written", ())
        fds = {fd for fd, _ in written}
        if any(b is None for _, b in written) or len(fds) > 1:
            chk.ob("lines", False, LOC, "%s: it is not known what is written" % c.name, s)
            return
        have, want = b"".join(bytes(b) for _, b in written), b"".join(encoded(c))
        over = any(e.kind in ("stageends", "stagefails") for e in s.trace())
        ok = have == want if over else want.startswith(have)
        chk.ob("lines", ok, LOC, "%s: %s is written" % (c.name, short(have)), s)
        if s.user.get("nwrites", 0) < c.world.hooks.max_ready or c.plain:
            chk.ob("all", over, LOC, "%s: the output stops after %s" % (c.name, short(have)), s)
        return
    if c.fn == "copied":
        src = wanted(True, c.chunks)
        want = b"".join(l.encode() + b"\n" for l in src)
        written = s.user.get("written", ())
        have = b"".join(b or b"?" for _, b in written)
        chk.ob("lines", want.startswith(have) and len({fd for fd, _ in written}) < 2, LOC,
               "%s: %s is written" % (c.name, short(have)), s)
        return
    out = [e.args[0].v if isinstance(e.args[0], K) else e.args[0] for e in s.trace() if e.kind == "got"]
    want = wanted(c.fn != "raw", c.chunks)
    ended = {n: v for n, v, _, _ in s.user.get("ended", ())}
    if c.fn == "raw":
        known = all(isinstance(o, bytes) for o in out)
        have = b"".join(out) if known else None
    else:
        known, have = True, out
    r = ended.get("r")
    fails = isinstance(r, Abrupt)
    chk.ob("unread", not fails, LOC, "%s: the reader fails with %s" % (
        c.name, cls_name(exc_class(s, r)) if fails else None), s)
    if fails:
        return
    full = "r" in ended
    chk.ob("items", known and (have == want if full else want[:len(have)] == have), LOC,
           "%s: %s is delivered" % (c.name, short(have)), s)
    if s.user.get("nreads", 0) < c.world.hooks.max_ready:
        chk.ob("all", full, LOC, "%s: the reader waits for ever after %s" % (c.name, short(have)), s)


def short(b):
    r = repr(b)
    return r if len(r) < 60 else r[:40] + "... (%d)" % len(b)
