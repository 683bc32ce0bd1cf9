"""Path state: abstract heap, branch facts, ordered effects."""
import builtins as _b

from .model import ClassInfo
from .values import (V, K, T, Ref, Tup, Ext, ClsV, ModV, FnV, BM, NONE, TRUE, FALSE, is_rest)


class Obj(object):
    __slots__ = ("kind", "cls", "f", "d", "meta")

    def __init__(self, kind, cls=None, f=None, d=None, meta=None):
        self.kind, self.cls = kind, cls
        self.f = f if f is not None else {}
        self.d = d
        self.meta = meta if meta is not None else {}

    def copy(self):
        d = self.d
        if isinstance(d, dict):
            d = dict(d)
        return Obj(self.kind, self.cls, dict(self.f), d, dict(self.meta))


class Ev(object):
    """One effect on a path."""
    __slots__ = ("kind", "name", "recv", "args", "kwargs", "res", "exc", "loc", "extra", "seq")

    def __init__(self, kind, name, recv=None, args=(), kwargs=(), res=None, exc=None, loc=None, extra=None):
        self.kind, self.name, self.recv = kind, name, recv
        self.args, self.kwargs, self.res, self.exc = tuple(args), dict(kwargs), res, exc
        self.loc, self.extra = loc, extra
        self.seq = None

    def arg(self, i, kw=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if kw is not None and kw in self.kwargs:
            return self.kwargs[kw]
        return default

    def __repr__(self):
        a = ", ".join([repr(x) for x in self.args] + ["%s=%r" % kv for kv in self.kwargs.items()])
        r = "%s %s%s(%s)" % (self.kind, ("%r" % (self.recv,)) if self.recv is not None else "", self.name, a)
        if self.res is not None:
            r += " -> %r" % (self.res,)
        if self.exc is not None:
            r += " RAISES %r" % (self.exc,)
        return "%s @%s" % (r, self.loc)


BUILTIN_TYPES = {"str": str, "bytes": bytes, "int": int, "bool": bool, "float": float, "list": list,
                 "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset, "NoneType": type(None),
                 "bytearray": bytearray, "memoryview": memoryview, "complex": complex}

EXC_ALIASES = {"IOError": "OSError", "EnvironmentError": "OSError", "os.error": "OSError",
               "socket.error": "OSError", "select.error": "OSError", "socket.timeout": "TimeoutError"}
EXC_EXTRA = {"asyncio.CancelledError": ["BaseException"], "asyncio.TimeoutError": ["Exception"],
             "asyncio.InvalidStateError": ["Exception"], "concurrent.futures.CancelledError": ["BaseException"]}


def exc_bases(cls):
    """All class names/ClassInfos an exception class is a subclass of (itself included)."""
    if isinstance(cls, ClassInfo):
        res = []
        for c in cls.mro:
            if isinstance(c, ClassInfo):
                res.append(c)
            else:
                res.extend(exc_bases(c))
        return res
    cls = EXC_ALIASES.get(cls, cls)
    t = getattr(_b, cls, None)
    if isinstance(t, type) and issubclass(t, BaseException):
        return [c.__name__ for c in t.__mro__]
    if isinstance(t, type):
        return [cls, "object"]
    if cls in EXC_EXTRA:
        r = [cls]
        for b in EXC_EXTRA[cls]:
            r += exc_bases(b)
        return r
    if cls == "object":
        return ["object"]
    return [cls, "Exception", "BaseException", "object"]


def exc_norm(cls):
    return EXC_ALIASES.get(cls, cls) if isinstance(cls, str) else cls


class State(object):
    __slots__ = ("heap", "facts", "tinfo", "subst", "neq", "globs", "clsattrs", "tfields", "events", "nev",
                 "nid", "excs", "notes", "depth", "user", "live_iters", "owner")

    def __init__(self):
        self.heap = {}
        self.facts = {}      # atom -> bool
        self.tinfo = {}      # value -> ClassInfo | builtin type name
        self.subst = {}      # term -> constant
        self.neq = {}        # term -> set of constants it differs from
        self.globs = {}
        self.clsattrs = {}
        self.tfields = {}
        self.events = None   # cons list
        self.nev = 0
        self.nid = 1
        self.excs = ()
        self.notes = None
        self.depth = 0
        self.user = {}
        self.live_iters = ()
        self.owner = set()

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.tinfo = dict(self.tinfo)
        s.subst = dict(self.subst)
        s.neq = dict(self.neq)
        s.globs = dict(self.globs)
        s.clsattrs = dict(self.clsattrs)
        s.tfields = dict(self.tfields)
        s.events, s.nev, s.nid, s.excs, s.notes, s.depth = (
            self.events, self.nev, self.nid, self.excs, self.notes, self.depth)
        s.user = dict(self.user)
        s.live_iters = self.live_iters
        # objects are shared copy-on-write from here on
        s.owner = set()
        self.owner = set()
        return s

    # -- heap ---------------------------------------------------------------
    def new(self, kind, cls=None, f=None, d=None, meta=None):
        oid = self.nid
        self.nid += 1
        self.heap[oid] = Obj(kind, cls, f, d, meta)
        self.owner.add(oid)
        return Ref(oid)

    def obj(self, ref):
        return self.heap[ref.oid]

    def mut(self, ref):
        oid = ref.oid if isinstance(ref, Ref) else ref
        o = self.heap[oid]
        if oid not in self.owner:
            o = o.copy()
            self.heap[oid] = o
            self.owner.add(oid)
        return o

    def is_obj(self, v, kind=None, cls=None):
        if not isinstance(v, Ref):
            return False
        o = self.heap[v.oid]
        if kind is not None and o.kind != kind:
            return False
        if cls is not None and not (isinstance(o.cls, ClassInfo) and cls in o.cls.mro):
            return False
        return True

    # -- effects ------------------------------------------------------------
    def emit(self, ev):
        ev.seq = self.nev
        self.nev += 1
        self.events = (self.events, ev)
        return ev

    def trace(self):
        res = []
        e = self.events
        while e is not None:
            res.append(e[1])
            e = e[0]
        res.reverse()
        return res

    def note(self, what):
        self.notes = (self.notes, what)

    def all_notes(self):
        res = []
        e = self.notes
        while e is not None:
            res.append(e[1])
            e = e[0]
        res.reverse()
        return res

    # -- facts --------------------------------------------------------------
    def res(self, v):
        if isinstance(v, T) and v in self.subst:
            return self.subst[v]
        return v

    def known_type(self, v):
        """ClassInfo, builtin type name or None."""
        if isinstance(v, K):
            return type(v.v).__name__
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if o.kind in ("list", "dict", "set"):
                return o.kind
            return o.cls
        if isinstance(v, T):
            if v in self.tinfo:
                return self.tinfo[v]
            if v in self.subst:
                return self.known_type(self.subst[v])
            if v.op == "cat":
                for a in v.args:
                    if isinstance(a, K):
                        return type(a.v).__name__
                    if isinstance(a, T) and a.op in ("str", "repr", "fmt"):
                        return "str"
                return None
            if v.op in ("str", "repr", "fmt"):
                return "str"
            if v.op == "call" and v.args[0] in ("os.path.join", "os.path.abspath", "os.path.expanduser",
                                               "os.path.dirname", "os.path.basename", "os.path.realpath",
                                               "os.path.normpath"):
                a = v.args[1]
                if a and self.known_type(a[0]) == "bytes":
                    return "bytes"
                return "str"
            if v.op in ("not", "is", "eq", "lt", "in", "isinstance", "truth"):
                return "bool"
            if v.op == "len":
                return "int"
        if isinstance(v, FnV):
            return "function"
        if isinstance(v, (ClsV,)):
            return "type"
        if isinstance(v, ModV):
            return "module"
        return None
