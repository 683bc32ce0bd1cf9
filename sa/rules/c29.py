"""C29: listing the commands of an environment."""
from .envworld import *

TECHNIQUE = ("path-sensitive abstract interpretation of listing, clearing and listing again over an abstract file system with "
             "unreadable, missing, relative and changing directories; the names computed are compared with those there")
LOC = "environ.py:Environment.__dir__"
SOURCE = '''
import world
from pieshell.pipeline import builtin, builtins
builtin.BuiltinRegistry
def setup():
    builtin.BuiltinRegistry.register(builtins.CdBuiltin)
    builtin.BuiltinRegistry.register(builtins.BgBuiltin)
def made(interactive=False):
    setup()
    return environ.Environment("/w", %(exports)s, interactive)
def f():
    return dir(made())
def direct():
    return made().__dir__()
def interactive():
    return dir(made(True))
def derived():
    return dir(made()())
def twice():
    e = made()
    dir(e)
    return dir(e)
def in_dir():
    return dir(made()(cwd="/w/sub"))
def after_cd():
    e = made()
    e._cd("/w/sub")
    return dir(e)
def cleared():
    e = made()
    dir(e)
    world.add("new")
    e._clear_dir_cache()
    return dir(e)
def cleared_builtin():
    e = made()
    dir(e)
    world.add("new")
    builtins.ClearDirCacheBuiltin(e, ["clear_dir_cache"]).run()
    return dir(e)
def cleared_builtin_other():
    e = made()
    d = e()
    dir(e)
    dir(d)
    world.add("new")
    builtins.ClearDirCacheBuiltin(d, ["clear_dir_cache"]).run()
    return dir(d)
def cleared_twice():
    e = made()
    dir(e)
    e._clear_dir_cache()
    dir(e)
    world.add("new")
    e._clear_dir_cache()
    return dir(e)
def cleared_before():
    e = made()
    e._clear_dir_cache()
    return dir(e)
def failed():
    e = made()
    world.fail(%(n)s)
    try:
        dir(e)
    except BaseException:
        pass
    world.fail(0)
    world.add("new")
    return dir(e)
def failed_after():
    e = made()
    dir(e)
    world.add("new")
    e._clear_dir_cache()
    world.fail(%(n)s)
    try:
        dir(e)
    except BaseException:
        pass
    world.fail(0)
    return dir(e)
def exports_after():
    e = made()
    dir(e)
    d = e(exports={"PATH": "/only"})
    return dir(d)
'''
TREE = {"/start": ["f"], "/w": ["rel1", "sub/", "bin/"], "/w/sub": ["deeper", "bin/"], "/w/bin": ["mine", "alpha"], "/w/sub/bin": ["theirs"],
        "/bin": ["ls", "cat"], "/usr/bin": ["zz", "Awk", ".hid"], "/secret": ["no"], "/only": ["one"], "/home/u": [], "/usr/sbin": []}
PATHS = ["/bin", "/bin:/usr/bin", "/usr/bin:/bin", "/missing:/bin", "/bin:/missing", "/bin:/missing:/usr/bin", "/secret:/bin", "/bin:/secret:/usr/bin",
         "bin:/bin", "/bin:bin", ".:/bin", "../w/bin:/bin", "/bin/ls:/bin", "/bin::/usr/bin", ":/bin", "/bin:", "", "/usr/../bin", "missing:/bin",
         "/missing:/missing2", "/secret", "/usr/sbin:/bin", "/bin:/missing:/secret:bin:/usr/bin", "/bin/:/usr/bin/"]
WHERE = {"in_dir": "/w/sub", "after_cd": "/w/sub"}
ALL = ["f", "direct", "interactive", "derived", "twice", "in_dir", "after_cd", "cleared", "cleared_builtin", "cleared_builtin_other",
       "cleared_twice", "cleared_before", "exports_after"]
BUILTINS = ["bg", "cd"]
FAULTS = ["KeyboardInterrupt", "MemoryError", "UnicodeDecodeError"]


def expected(path, cwd, new, first):
    import posixpath
    out = list(BUILTINS)
    for d in (path if path is not None else "/bin:/usr/bin").split(":"):
        d = posixpath.normpath(posixpath.join(cwd, d))
        if d in TREE and d != "/secret":
            out += [n.rstrip("/") for n in TREE[d]] + (["new"] if new else [])
    return out


class Dirs(object):
    """A directory tree to which names can be added and that can fail."""

    def __init__(self, w, fault=None):
        self.fault = fault
        E = w.hooks.ext
        E["world.add"] = lambda it, st, r, a, k: (st.user.__setitem__("new", st.res(a[0])), [(st, NONE)])[1]
        E["world.fail"] = lambda it, st, r, a, k: (st.user.__setitem__("fail", st.res(a[0]).v), [(st, NONE)])[1]
        self.listdir = E["os.listdir"]
        E["os.listdir"] = self.list
        E["os.defpath"] = K("/bin:/usr/bin")

    def list(self, it, st, recv, args, kwargs):
        n = st.user.get("fail", 0)
        if n:
            st.user["fail"] = n - 1
            if n == 1:
                return [it.raise_new(st, self.fault)]
        out = self.listdir(it, st, recv, args, kwargs)
        for s, v in out or ():
            if isinstance(v, Ref) and s.user.get("new"):
                s.mut(v).d += (s.user["new"],)
        return out


def one(chk, path, fn, fault=None, n=1):
    exports = "{'A': 'b'}" if path is None else "{'A': 'b', 'PATH': %r}" % path
    w = World(chk, SOURCE % {"exports": exports, "n": n}, fork="parent", dirs=TREE).modules("pipeline/builtin.py")
    Dirs(w, fault)
    name = "PATH %s (%s)%s" % (path, fn, ", listing directory %d failing with %s" % (n, fault) if fault else "")
    want = expected("/only" if fn == "exports_after" else path, WHERE.get(fn, "/w"), "clear" in fn and fn != "cleared_before" or fault, None)
    done = 0
    for s, v in w.start(fn=fn):
        if isinstance(v, Abrupt):
            if v.out[0] == "raise":
                chk.ob("complete", False, exc_loc(s, v) or LOC, "%s: %s is raised" % (name, cls_name(exc_class(s, v))), s)
                done += 1
            continue
        done += 1
        have = plain(s, v)
        known = isinstance(have, list) and all(isinstance(x, str) for x in have)
        chk.ob("complete", known and set(have) == set(want), LOC, "%s: %s" % (name, "the names are not known" if not known else
               "%s missing, %s too many" % (sorted(set(want) - set(have)), sorted(set(have) - set(want)))), s)
        chk.ob("sorted", known and have == sorted(have), LOC, "%s: %s is not sorted" % (name, have), s)
    chk.ob("complete", done > 0, LOC, "%s cannot be carried out" % name)


def check(chk):
    chk.rule("complete", "a listing has the names in each readable directory of PATH and the builtins, and only those")
    chk.rule("sorted", "a listing is sorted")
    for path in PATHS + [None]:
        one(chk, path, "f")
    for path in ("/bin:/usr/bin", "/missing:bin:/secret:/usr/bin", None):
        for fn in ALL:
            one(chk, path, fn)
    one(chk, "bin:/bin:.", "in_dir")
    one(chk, "bin:/bin:.", "after_cd")
    for fault in FAULTS:
        for n in (1, 2):
            for fn in ("failed", "failed_after"):
                one(chk, "/usr/bin:/bin:bin", fn, fault, n)
