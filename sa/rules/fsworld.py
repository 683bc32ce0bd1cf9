"""A small file system as the environment of an analysis: names, kinds and pattern matching."""
import fnmatch
import posixpath

from .launch import *

HOME = {"~": "/home/u", "~bob": "/home/bob"}


class FS(object):
    """dirs: {directory: names in it}; a name ending in / is a directory of its own."""

    def __init__(self, dirs, unreadable=()):
        self.dirs = {d: [n.rstrip("/") for n in ns] for d, ns in dirs.items()}
        self.files = {posixpath.join(d, n) for d, ns in self.dirs.items() for n in ns}
        self.unreadable = unreadable
        for d in list(self.dirs):
            while d != "/":
                d = posixpath.dirname(d)
                self.dirs.setdefault(d, [])

    def norm(self, st, p):
        cwd = st.user.get("cwd", K("/start"))
        return posixpath.normpath(posixpath.join(cwd.v if isinstance(cwd, K) else "/start", p))

    def isdir(self, p):
        return p in self.dirs

    def exists(self, p):
        return p in self.dirs or p in self.files

    def glob(self, pattern):
        """The paths the pattern matches, as glob.glob gives them for an absolute pattern."""
        out = [""]
        parts = pattern.split("/")
        cur = ["/"] if pattern.startswith("/") else [""]
        for i, part in enumerate(parts):
            if not part:
                continue
            nxt = []
            for base in cur:
                if not any(c in part for c in "*?["):
                    p = posixpath.join(base, part)
                    if self.exists(p):
                        nxt.append(p)
                    continue
                for n in self.dirs.get(base, ()):
                    if n.startswith(".") and not part.startswith("."):
                        continue
                    if fnmatch.fnmatchcase(n, part):
                        nxt.append(posixpath.join(base, n))
            cur = nxt
        return cur

    def install(self, hooks):
        E = hooks.ext

        def path(it, st, args):
            v = st.res(args[0]) if args else None
            return v.v if isinstance(v, K) and isinstance(v.v, str) else None

        def pred(f):
            def g(it, st, recv, args, kwargs):
                p = path(it, st, args)
                if p is None:
                    return None
                return [(st, K(bool(f(self.norm(st, p)))))]
            return g
        E["os.path.exists"] = E["os.path.lexists"] = pred(self.exists)
        E["os.path.isdir"] = pred(self.isdir)
        E["os.path.isfile"] = pred(lambda p: self.exists(p) and not self.isdir(p))
        E["os.access"] = pred(lambda p: self.exists(p) and p not in self.unreadable)

        def expanduser(it, st, recv, args, kwargs):
            p = path(it, st, args)
            if p is None:
                return None
            who, _, rest_ = p.partition("/")
            st.emit(Ev("expand", "home", args=(K(p),)))
            if who in HOME:
                p = HOME[who] + p[len(who):]
            return [(st, K(p))]
        E["os.path.expanduser"] = expanduser

        def abspath(it, st, recv, args, kwargs):
            p = path(it, st, args)
            return None if p is None else [(st, K(self.norm(st, p)))]
        E["os.path.abspath"] = E["os.path.realpath"] = abspath

        def glob_(it, st, recv, args, kwargs):
            p = path(it, st, args)
            if p is None:
                return None
            root = st.res(kwargs["root_dir"]) if "root_dir" in kwargs else None
            st.emit(Ev("expand", "names", args=(K(p),)))
            if isinstance(root, K) and isinstance(root.v, str):
                base = self.norm(st, root.v)
                res = self.glob(posixpath.join(base, p))
                if not p.startswith("/"):
                    res = [posixpath.relpath(r, base) for r in res]
            else:
                base = self.norm(st, ".")
                res = self.glob(posixpath.join(base, p))
                if not p.startswith("/"):
                    res = [posixpath.relpath(r, base) for r in res]
            return [(st, st.new("list", None, None, tuple(K(r) for r in res)))]
        E["glob.glob"] = E["glob.iglob"] = glob_

        def has_magic(it, st, recv, args, kwargs):
            p = path(it, st, args)
            return None if p is None else [(st, K(any(c in p for c in "*?[")))]
        E["glob.has_magic"] = has_magic

        def glob_escape(it, st, recv, args, kwargs):
            import glob
            p = path(it, st, args)
            return None if p is None else [(st, K(glob.escape(p)))]
        E["glob.escape"] = glob_escape

        def listdir(it, st, recv, args, kwargs):
            p = path(it, st, args) if args else "."
            if p is None:
                return None
            p = self.norm(st, p)
            st.emit(Ev("listdir", "listdir", args=(K(p),)))
            if p in self.unreadable:
                return [it.raise_new(st, "PermissionError")]
            if not self.isdir(p):
                return [it.raise_new(st, "NotADirectoryError" if self.exists(p) else "FileNotFoundError")]
            return [(st, st.new("list", None, None, tuple(K(n) for n in self.dirs[p])))]
        E["os.listdir"] = listdir

        def chdir(it, st, recv, args, kwargs):
            p = path(it, st, args)
            if p is None:
                return None
            p = self.norm(st, p)
            if p in self.unreadable:
                return [it.raise_new(st, "PermissionError")]
            if not self.isdir(p):
                return [it.raise_new(st, "NotADirectoryError" if self.exists(p) else "FileNotFoundError")]
            st.user["cwd"] = K(p)
            st.emit(Ev("chdir", "chdir", args=(K(p),)))
            return [(st, NONE)]
        E["os.chdir"] = chdir
        return self
