"""C21: captures are complete, read before any is deleted, and deleted; TMP files stay until removed."""
from .sched import *

TECHNIQUE = ("path-sensitive abstract interpretation of launch, child exits and stage ends in every order over an abstract "
             "event loop, with the capture files as abstract objects whose content may be undecodable or unreadable")
LOC = "pipeline/running.py:RunningPipeline.handle_finish"
FINISH, REMOVE = "pipeline/running.py:RunningItem.handle_pipeline_finish", "pipeline/running.py:BaseRunningItem.remove_output_files"
SOURCE = '''
async def w1(p):
    await p.wait()
def look(p):
    return [(i, i.output_content) for i in p.processes if hasattr(i, "output_content")]
def remove(p):
    p.remove_output_files()
def f():
    return (%s).run()
def early():
    p = (%s).run()
    p.remove_output_files()
    return p
def two():
    other = (env.zz | Redirect(1, TMP)).run()
    return (%s).run()
'''


class Files(object):
    """The temporary files of a scenario."""

    def __init__(self, w, undecodable=False, unreadable=0, undeletable=0):
        self.undecodable, self.unreadable, self.undeletable = undecodable, unreadable, undeletable
        h = w.hooks
        for n in ("open", "io.open", "codecs.open"):
            h.ext[n] = self.open
        mk = h.mkstemp

        def mkstemp(it, st, r, a, k):
            res = mk(it, st, r, a, k)
            for s, v in res:
                s.user["tmps"] = s.user.get("tmps", ()) + (v.items[1],)
            return res
        h.ext["tempfile.mkstemp"] = mkstemp
        h.ext["os.unlink"] = h.ext["os.remove"] = self.unlink
        h.ext[".read"] = self.read
        h.ext[".close"] = lambda it, st, r, a, k: [(st, NONE)] if self.file(r) else None
        h.ext["os.path.exists"] = self.exists

    @staticmethod
    def file(v):
        return isinstance(v, T) and v.op == "capfile"

    def exists(self, it, st, recv, args, kwargs):
        p = st.res(args[0])
        if p in st.user.get("tmps", ()):
            return [(st, K(p not in st.user.get("gone", ())))]
        return [(st, TRUE)]

    def open(self, it, st, recv, args, kwargs):
        p = st.res(args[0])
        if p not in st.user.get("tmps", ()):
            return None
        n = st.user.get("opened", 0) + 1
        st.user["opened"] = n
        if p in st.user.get("gone", ()):
            st.emit(Ev("capmissing", "open", args=(p,)))
            return [it.raise_new(st, "FileNotFoundError")]
        if n == self.unreadable:
            st.emit(Ev("capfail", "open", args=(p,)))
            return [it.raise_new(st, "OSError")]
        mode = st.res(args[1] if len(args) > 1 else kwargs.get("mode", K("r")))
        errors = st.res(args[4] if len(args) > 4 else kwargs.get("errors", NONE))
        if isinstance(mode, K) and ("w" in mode.v or "a" in mode.v):
            return None
        return [(st, T("capfile", p, K("b" in mode.v if isinstance(mode, K) else False),
                       K(errors == NONE or errors == K("strict"))))]

    def read(self, it, st, recv, args, kwargs):
        if not self.file(recv):
            return None
        p, binary, strict = recv.args
        st.emit(Ev("capread", "read", args=(p,)))
        if args and st.res(args[0]) not in (NONE, K(-1)):
            return None
        if binary.v:
            v = T("capbytes", p)
            st.tinfo[v] = "bytes"
            return [(st, v)]
        if self.undecodable and strict.v:
            return [it.raise_new(st, "UnicodeDecodeError")]
        v = T("capture", p)
        st.tinfo[v] = "str"
        return [(st, v)]

    def unlink(self, it, st, recv, args, kwargs):
        p = st.res(args[0])
        if p in st.user.get("gone", ()):
            return [it.raise_new(st, "FileNotFoundError")]
        n = st.user.get("unlinked", 0) + 1
        st.user["unlinked"] = n
        st.emit(Ev("unlink", "unlink", args=(p,)))
        if n == self.undeletable:
            return [it.raise_new(st, "OSError")]
        st.user["gone"] = st.user.get("gone", ()) + (p,)
        return [(st, NONE)]


class Case(object):
    def __init__(self, expr, exits, contents, tmps=0, **kw):
        """contents: for each process with descriptors captured, {fd: name}, equal names being the same capture."""
        self.expr, self.exits, self.contents, self.tmps, self.kw = expr, exits, contents, tmps, kw


def cases():
    C = Case
    for how in ("exit0", "exitN", "killed", "dumped"):
        yield C("env.aa", (how,), [{2: "a"}])
    yield C("env.aa | env.bb", ("exit0", "exitN"), [{2: "a"}, {2: "b"}])
    yield C("env.aa | env.bb | env.cc", ("exit0",) * 3, [{2: "a"}, {2: "b"}, {2: "c"}])
    yield C("env.aa + env.bb", ("exitN", "exit0"), [{2: "a"}, {2: "a"}])
    yield C("env.aa + (env.bb + env.cc)", ("exit0",) * 3, [{2: "a"}, {2: "a"}, {2: "a"}])
    yield C("env.aa | (env.bb + env.cc)", ("exit0",) * 3, [{2: "a"}, {2: "b"}, {2: "b"}])
    yield C("(env.aa + env.bb) | env.cc", ("exit0",) * 3, [{2: "a"}, {2: "a"}, {2: "b"}])
    yield C("((env.aa | Redirect(2, TMP)) + env.bb) | Redirect(1, STRING)", ("exit0",) * 2, [{1: "o"}, {1: "o", 2: "a"}], 1)
    yield C("env.aa | Redirect('stdout', STRING)", ("exit0",), [{1: "o", 2: "a"}])
    yield C("(env.aa | env.bb) | Redirect('stdout', STRING)", ("exit0",) * 2, [{2: "a"}, {1: "o", 2: "b"}])
    yield C("(env.aa + env.bb) | Redirect('stdout', STRING)", ("exit0",) * 2, [{1: "o", 2: "a"}, {1: "o", 2: "a"}])
    yield C("env.aa | Redirect(1, TMP)", ("exit0",), [{2: "a"}], 1)
    yield C("env.aa | Redirect(1, TMP) | Redirect(2, TMP)", ("exitN",), [{}], 2)
    yield C("(env.aa + env.bb) | Redirect(1, TMP)", ("exit0",) * 2, [{2: "a"}, {2: "a"}], 1)
    yield C("(env.aa | env.bb) | Redirect(2, TMP)", ("exit0",) * 2, [{}, {}], 2)
    yield C("env.aa(env.bb)", ("exit0",) * 2, [{2: "a"}, {2: "a"}])
    yield C("gen() | env.aa", ("exit0",), [{2: "a"}, {2: "b"}], items=("x",))
    yield C("gen() | env.aa", ("exit0",), [{2: "a"}, {2: "b"}], items=(ValueError,))
    yield C("(env.aa | use) | Redirect(1, STRING)", ("exit0",), [{2: "a"}, {1: "o", 2: "b"}], items=("x",))
    yield C("env.aa + builtins.ClearDirCacheBuiltin(env, ['clear_dir_cache'])", ("exit0",), [{2: "a"}])


FAULTS = [("", {}), (", output being undecodable", {"undecodable": True}), (", the first capture being unreadable", {"unreadable": 1}),
          (", the second capture being unreadable", {"unreadable": 2})]


def partition(s, contents):
    """Which captures are the same, as names in order of first use."""
    names, out = {}, []
    for d in contents:
        out.append({fd: names.setdefault(v, len(names)) for fd, v in sorted(d.items())})
    return sorted(map(repr, out))


def call(w, s, fn, p):
    return w.it.call(s, FnV(w.mod.funcs[fn], None), [p], {}, None, w.run.fr)


def check(chk):
    chk.rule("available", "after the pipeline has finished, each process has what was written to its STRING redirections")
    chk.rule("order", "captures are read and deleted only after every stage has finished, each capture of a process is read "
                      "once, and all are read before any is deleted")
    chk.rule("deleted", "every capture file is deleted, also if one cannot be read")
    chk.rule("kept", "TMP files stay until they are removed, and then exactly they are removed")
    chk.rule("reached", "the scenario can be carried to its end")
    for c in cases():
        for fault, kw in FAULTS:
            if fault and len(c.exits) > 2 or c.tmps and kw.get("unreadable"):
                continue
            for order in ("fifo", "lifo"):
                if fault and order == "lifo":
                    continue
                one(chk, c, fault, kw, order)
    for c in cases():
        if len(c.exits) < 3:
            c.kw["fn"] = "early"
            one(chk, c, "", {}, "fifo")
    for fn in ("two",):
        one(chk, Case("env.aa | Redirect(1, TMP)", ("exit0", "exit0"), [{2: "a"}], 1, fn=fn), "", {}, "fifo")


def one(chk, c, fault, kw, order):
    kws = dict(c.kw)
    fn = kws.pop("fn", "f")
    todo = [("exit", 1001 + i, how) for i, how in enumerate(c.exits)]
    w = World(chk, SOURCE % ((c.expr,) * 3), tasks=order, todo=todo, **kws)
    Files(w, **kw)
    name = c.expr + {"two": " beside another pipeline", "early": " with output files removed early"}.get(fn, "") + fault
    done = 0
    for s, v in w.run_all(fn):
        if isinstance(v, Abrupt) or s.user.get("todo"):
            continue
        if isinstance(s.user.get("result"), Abrupt) or s.user.get("result") is None:
            chk.ob("reached", False, exc_loc(s, v) or LOC, "launching %s fails" % name, s)
            continue
        done += 1
        p = s.user["result"]
        judge(chk, c, w, s, p, name, fault, fn)
    chk.ob("reached", done > 0, LOC, "%s is never carried to its end" % name)


def judge(chk, c, w, s, p, name, fault, fn):
    tmps = s.user.get("tmps", ())
    gone = s.user.get("gone", ())
    tr = s.trace()
    ends = [i for i, e in enumerate(tr) if e.kind == "event" and e.name == "exit" or e.kind in ("stageends", "stagefails")]
    if fn == "two":
        ends = [i for i in ends if not (tr[i].args and tr[i].args[0] == K(1001))]
    reads = [(i, e.args[0]) for i, e in enumerate(tr) if e.kind == "capread"]
    dels = [(i, e.args[0]) for i, e in enumerate(tr) if e.kind == "unlink"]
    early = [e for e in reads + (dels if fn != "early" else []) if ends and e[0] < max(ends)]
    chk.ob("order", not early, FINISH, "%s: captures are read or deleted while stages are running" % name, s)
    # what is available
    contents = []
    for s1, v in call(w, s.fork(), "look", p):
        if isinstance(v, Abrupt):
            chk.ob("available", False, FINISH, "%s: output_content is not available" % name, s1)
            return
        for item in w.it.known_seq(s1, v) or ():
            d = s1.res(item.items[1])
            if not isinstance(d, Ref) or not isinstance(s1.obj(d).d, dict):
                chk.ob("available", False, FINISH, "%s: a process has no captured output" % name, s1)
                return
            d = s1.obj(d)
            contents.append({s1.res(k).v: s1.res(x) for k, x in d.d.items()})
    raw = [x for d in contents for x in d.values()]
    bad = [x for x in raw if not (isinstance(x, T) and x.op == "capture")]
    chk.ob("available", not bad, FINISH, "%s: output_content holds %s instead of what was captured" % (
        name, bad and ("bytes" if isinstance(bad[0], T) and bad[0].op == "capbytes" else repr(bad[0])[:60])), s)
    want, got = partition(s, c.contents), partition(s, contents)
    if "unreadable" not in fault:
        chk.ob("available", want == got, FINISH, "%s: captures available are %s instead of %s" % (name, got, want), s)
    captured = [x.args[0] for x in raw if isinstance(x, T) and x.op == "capture"]
    if not fault and fn != "two":
        n = [q for i, q in reads]
        chk.ob("order", sorted(map(repr, n)) == sorted(map(repr, captured)), FINISH,
               "%s: captures are read %d times instead of %d" % (name, len(n), len(captured)), s)
    first = min([i for i, q in dels], default=None)
    late = [q for i, q in reads if first is not None and i > first] if fn == "f" else []
    late += [e for e in tr if e.kind == "capmissing"]
    chk.ob("order", not late, LOC, "%s: a capture is read after one has been deleted" % name, s)
    # what is deleted
    left = [q for q in tmps if q not in gone]
    ntmp = {"f": c.tmps, "two": c.tmps + 1, "early": 0}[fn]
    chk.ob("deleted", len(left) <= ntmp, LOC, "%s: %d files stay behind" % (name, len(left) - ntmp), s)
    chk.ob("deleted", not [q for q in captured if q not in gone], LOC, "%s: a capture file stays behind" % name, s)
    chk.ob("kept", len(left) >= ntmp, LOC, "%s: a TMP file is deleted" % name, s)
    # removal on request
    for s1, v in call(w, s.fork(), "remove", p):
        if isinstance(v, Abrupt):
            chk.ob("kept", False, exc_loc(s1, v) or REMOVE, "%s: removing its output files raises %s" % (
                name, cls_name(exc_class(s1, v))), s1)
            continue
        left = [q for q in tmps if q not in s1.user.get("gone", ())]
        chk.ob("kept", len(left) == (fn == "two"), REMOVE, "%s: removing its output files leaves %d TMP files" % (
            name, len(left)), s1)
