"""C25: displaying a pipeline runs it only when it should."""
from .c18 import *

TECHNIQUE = ("path-sensitive abstract interpretation of displaying every kind of pipeline, fresh, nested, started and "
             "restarted, in interactive and other environments, counting what is run and comparing all objects before and after")
LOC = "pipeline/base.py:Pipeline.__repr__"
MORE = {
    "a subshell": "builtins.SubShell(env, ['subshell', env.bb('x')])",
    "a remote command": "builtins.Remote(env, ['remote', 'host', env.bb('x')])",
    "a shell script": "builtins.BashSource(env, ['bashsource', '/w/file'])",
    "bg": "builtins.BgBuiltin(env, ['bg'])",
    "fg": "builtins.FgBuiltin(env, ['fg'])",
    "an iterator": "function.Function(env, pour) | env.aa",
    "a chain": "((env.aa | env.bb('x')) | env.cc) > '/o'",
    "a group of a pipe": "(env.aa | env.bb) + env.cc(env.dd)",
}
PRE2 = '''
import world
class Done(object):
    async def wait(self):
        pass
    def __await__(self):
        return self.wait().__await__()
class Plain(object):
    def __init__(self, *x):
        self.x = x
    def __repr__(self):
        for i in self.x:
            repr(i)
        return "plain"
def pour(inp):
    yield "x"
class Last(object):
    processes = []
    is_running = is_failed = False
    exit_code = 0
    def restart(self):
        pass
    async def wait(self):
        pass
def each(l):
    for x in l:
        x.__repr__()
    return ""
def parts(x):
    for i in world.parts(x):
        i.__repr__()
    return ""
'''
# (what is displayed and how, what is done before, the display, times it is run in an interactive environment, in another)
WAYS = [
    ("it", "", "p.__repr__()", 1, 0),
    ("it with repr()", "", "repr(p)", 0, 0),
    ("its name", "", "p.__name__", 0, 0),
    ("its name in an object", "", "repr(Plain(p.__name__))", 0, 0),
    ("a list of it with repr()", "", "repr([p])", 0, 0),
    ("a list of it and others with repr()", "", "repr([env.zz('x y'), p, env.zz('x', k='y'), p, [p], p])", 0, 0),
    ("an object holding it", "", "Plain(p).__repr__()", 0, 0),
    ("it at the start of a pipe", "p2 = p | env.zz", "p2.__repr__()", 1, 0),
    ("it at the end of a pipe", "p2 = env.zz | p", "p2.__repr__()", 1, 0),
    ("it in a group", "p2 = env.zz + p", "p2.__repr__()", 1, 0),
    ("it as an argument", "p2 = env.zz(p)", "p2.__repr__()", 1, 0),
    ("it as an option with repr()", "p2 = env.zz('x', k=p)", "repr(p2)", 0, 0),
    ("it as an argument of a function", "p2 = function.Function(env, use, p)", "p2.__repr__()", 1, 0),
    ("it redirected", "p2 = p > '/z'", "p2.__repr__()", 1, 0),
    ("it after a pipeline of an environment that is not interactive", "p2 = n.zz | p", "p2.__repr__()", 0, 0),
    ("it as an argument in an environment that is not interactive", "p2 = n.zz(p)", "p2.__repr__()", 0, 0),
    ("it before a pipeline of another environment", "p2 = p | n.zz", "p2.__repr__()", 1, 0),
    ("it after having been displayed as text", "repr(p)", "p.__repr__()", 1, 0),
]
STARTED = [
    ("its copy that has been run", "r.pipeline.__repr__()", 0),
    ("its copy that has been run with repr()", "repr(r.pipeline)", 0),
    ("the name of its copy that has been run", "r.pipeline.__name__", 0),
    ("the pipeline that is running", "r.__repr__()", 0),
    ("the processes of its copy that has been run", "each(r.processes)", 0),
    ("the stages of its copy that has been run", "parts(r.pipeline)", 0),
    ("its failure", "str(running.PipelineFailed(r))", 0),
    ("an object holding it after it has been run", "repr(Plain(p, r, r.pipeline))", 0),
    ("it after it has been run", "p.__repr__()", 1),
    ("what is run", "world.real() or (p.run() and '')", 1),
]
# what running ends with: whether displaying may raise
ENDS = ["KeyboardInterrupt()", "running.PipelineInterrupted(Failed())", "running.PipelineSuspended(Failed())"]
QUIET = ("ran", "fd", "watch", "kill", "task", "fork", "exec", "write", "blocks", "forked", "stop")


ELSEWHERE = ("a subshell", "a remote command")     # what is in them is run by another process
COMPOSED = ("a command", "a pipe", "a cd", "a redirected command", "a function", "fg")


class Display(object):
    def __init__(self, l, chk):
        self.l, self.chk = l, chk
        self.pipeline = l.prog.cls("pipeline/base.py", "Pipeline")
        self.exc = None
        h = l.hooks
        h.ext["world.begin"], h.ext["world.end"], h.ext["world.parts"] = self.begin, self.end, self.parts
        h.ext[".run_until_complete"] = lambda it, st, r, a, k: it.await_(st, a[0], None, l.run.fr)
        h.ext["world.real"] = lambda it, st, r, a, k: (st.user.__setitem__("real", True), [(st, NONE)])[1]
        h.ext["pickle.dumps"] = h.ext["base64.b64encode"] = lambda it, st, r, a, k: [(st, K(b"data"))]
        h.pkg[self.pipeline.methods["run"]] = self.run
        for c in l.prog.subclasses(self.pipeline):
            if "run" in c.methods:
                h.pkg[c.methods["run"]] = self.run

    def changes(self, s):
        a, b = s.user["state"]
        for k in a:
            if a[k] != b[k]:
                yield k
        for c in self.l.snap.changes(s.user["before"], s.user["after"]):
            yield c

    def reach(self, st, args):
        """The pipelines and redirections, and the environments themselves."""
        out = self.l.snap.reach(st, args[:3])
        for v in args[3:]:
            o = st.obj(st.res(v))
            out[st.res(v).oid] = ("env", o.kind, o.cls, dict(o.f), o.d, None)
        return out

    @staticmethod
    def effects(s, evs):
        for e in evs:
            if e.kind in QUIET:
                yield "%s" % e.name

    def state(self, st):
        return {"descriptors": dict(st.user.get("fds", {})), "the working directory": st.user.get("cwd"),
                "processes": st.user.get("forks"), "variables": dict(st.obj(self.l.proc).d)}

    def begin(self, it, st, recv, args, kwargs):
        st.user["state"] = (self.state(st), )
        st.user["display"] = len(st.trace())
        st.user["before"] = self.reach(st, args)
        st.user["snapargs"] = tuple(args)
        return [(st, NONE)]

    def end(self, it, st, recv, args, kwargs):
        st.user["state"] += (self.state(st), )
        st.user["shown"] = len(st.trace())
        st.user["after"] = self.reach(st, st.user["snapargs"])
        return [(st, NONE)]

    def parts(self, it, st, recv, args, kwargs):
        """The pipeline and those in it that have been started."""
        out, todo, seen = [], list(args), set()
        while todo:
            v = st.res(todo.pop())
            if isinstance(v, Tup):
                todo += list(v.items)
            if not isinstance(v, Ref) or v.oid in seen:
                continue
            seen.add(v.oid)
            o = st.obj(v)
            if isinstance(o.cls, ClassInfo):
                if self.pipeline not in o.cls.mro:
                    continue
                out.append(v)
            elif o.kind not in ("list", "dict", "tuple"):
                continue
            todo += [x for x in o.f.values()]
            if isinstance(o.d, dict):
                todo += list(o.d.values())
            elif isinstance(o.d, tuple):
                todo += list(o.d)
        return [(st, Tup(out))]

    def run(self, it, st, slf, args, kwargs):
        if "display" not in st.user or "shown" in st.user:
            return None
        st.emit(Ev("ran", "run"))
        if st.user.get("real"):
            return None
        return it.call(st, FnV(self.l.mod.funcs["runner"], None), [], {}, None, self.l.run.fr)


def observe(chk, kind, expr, how, before, display, want, interactive, run="", end=None):
    """What displaying a pipeline does."""
    name = "an interactive environment" if interactive else "an environment that is not interactive"
    what = "displaying %s, it being %s in %s%s" % (how, kind, name, " and interrupted by %s" % end.split("(")[0] if end else "")
    body = ("class Failed(object):\n    failed_processes = []\ndef runner():\n    %s\n"
            "def f():\n    env = environ.Environment('/w', {'A': 'b'}, interactive=%s)\n"
            "    n = environ.Environment('/w', {'A': 'b'})\n    env.last_pipeline = n.last_pipeline = Last()\n    p = %s\n    p2 = r = None\n    %s\n    %s\n"
            "    world.begin(p, p2, r, env, n)\n    x = %s\n    world.end()\n    return x\n"
            % ("raise %s" % end if end else "return Done()", interactive, expr, before or "pass", run or "pass", display))
    l = world(chk, PRE2 + body)
    l.modules("pipeline/base.py")
    d = Display(l, chk)
    if how == "what is run":
        l.hooks.follow_log = "pipeline/"
        for c in l.prog.all_classes():
            if c.module.rel == "redir.py" and "__repr__" in c.methods:
                l.hooks.pkg[c.methods["__repr__"]] = lambda it, st, r, a, k: [(st, K("redirections"))]
    n = 0
    for s, v in l.start():
        if isinstance(v, Abrupt):
            chk.ob("ends", False, exc_loc(s, v) or LOC, "%s raises %s" % (what, cls_name(exc_class(s, v))), s)
            continue
        n += 1
        evs = s.trace()[s.user["display"]:s.user["shown"]]
        k = len([e for e in evs if e.kind == "ran"])
        chk.ob("run", k == want, LOC, "%s runs %s" % (what, "it" if k == 1 and not want else "nothing" if not k else "%d pipelines" % k), s)
        if not want:
            bad = sorted(set(d.changes(s))) + [e for e in d.effects(s, evs)]
            chk.ob("effects", not bad, LOC, "%s has effects: %s" % (what, ", ".join(bad[:3])), s)
        t = s.res(v)
        chk.ob("text", s.known_type(t) in ("str", None) and t is not NONE and not isinstance(t, Ref), LOC,
               "%s does not give text" % what, s)
    chk.ob("ends", n > 0, LOC, "%s never ends normally" % what)


def check(chk):
    chk.rule("run", "displaying runs a pipeline only at the prompt of an interactive environment, and only one not run before")
    chk.rule("effects", "displaying has no effect unless it runs the pipeline")
    chk.rule("text", "displaying gives text")
    chk.rule("ends", "displaying does not raise, nor do interruptions and suspensions of what it runs")
    for kind, expr in list(KINDS.items()) + list(MORE.items()):
        for how, before, display, yes, no in WAYS:
            if before and kind not in COMPOSED:
                continue
            if before and before.startswith("p2 = env.zz(") and "builtins" in expr:
                continue
            if display.startswith("repr([") and kind not in COMPOSED:
                continue
            for i, want in ((True, yes), (False, no)):
                if i or kind in COMPOSED or how in ("it", "its name"):
                    observe(chk, kind, expr, how, before, display, want, i)
        for how, display, want in STARTED if kind != "the root command" else ():
            if display.startswith("parts(") and kind in ELSEWHERE:
                continue
            observe(chk, kind, expr, how, "", display, want, True, run="r = p.run()")
    for end in ENDS:
        for kind in COMPOSED:
            observe(chk, kind, dict(KINDS, **MORE)[kind], "it", "", "p.__repr__()", 1, True, end=end)
