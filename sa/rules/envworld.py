"""Environments and scopes over an abstract file system, process environment and working directory."""
from .fsworld import *

PROC = {"P": "proc", "Q": "q"}
DIRS = {"/start": ["f"], "/w": ["file", "sub/", "x.pysh"], "/w/sub": [], "/v": ["f2"], "/home/u": ["d/"], "/home/u/d": [],
        "/secret": [], "/other": []}
# an environment that has been in use: env of a scope, displayed, listed, used to run programs
HELPERS = """import os
def bound(env):
    scope = environ.EnvScope(env=env)
    scope["env"] = env
    return env
def used(env):
    str(env); repr(env); dir(env)
    env.bb.run()
    return env
def derived(env):
    env(); env('/v', interactive=False); env(interactive=False)
    return env
def passed(env):
    other = environ.Environment('/other', {'O': 'o'}, True)
    return env
def moved(env):
    os.chdir('/other')
    return env
def returned(env):
    was = env._cwd
    env._cd('/')
    env._cd(was)
    return env
"""
USES = ("bound", "used", "derived", "passed", "moved", "returned")


class World(Launch):
    """A launch scenario in which the process has variables and directories of its own."""

    def __init__(self, chk, source, fork="child", dirs=DIRS, unreadable=("/secret",), name="env"):
        Launch.__init__(self, chk, source, fork, name=name)
        st = self.st
        self.fs = FS(dirs, unreadable).install(self.hooks)
        st.user["cwd"] = K("/start")
        self.proc = st.new("dict", None, None, {K(k): K(v) for k, v in PROC.items()})
        st.user["ext"] = {"os.environ": self.proc}
        # arguments are expanded as the code does it
        self.hooks.pkg = {k: v for k, v in self.hooks.pkg.items() if getattr(k, "name", None) != "_expand_argument"}
        self.hooks.loop_bound, self.hooks.while_bound, self.hooks.max_states = 3, 12, 4000

    def modules(self, *names):
        """The effects of importing these modules of the package."""
        for n in names:
            m = self.prog.module(n)
            res = self.it.exec_block(m.tree.body, self.st, Frame(0, None, None, m))
            ok = [s for s, o in res if o is NORMAL]
            if not ok:
                raise AnalysisError("importing %s does not end normally" % n)
            self.st = ok[0]
        return self


def plain(s, v):
    """A constant structure as a Python value; None if it is not one."""
    v = s.res(v)
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        return tuple(plain(s, i) for i in v.items)
    if isinstance(v, Ref):
        o = s.obj(v)
        if isinstance(o.d, dict) and not o.meta.get("open"):
            return {plain(s, k): plain(s, x) for k, x in o.d.items()}
        if isinstance(o.d, tuple) and not o.meta.get("open"):
            return [plain(s, x) for x in o.d]
    return repr(v)
