"""Abstract values: a value-numbering (Herbrand) domain plus an abstract heap."""


class V(object):
    __slots__ = ()


class K(V):
    """A Python constant."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _key(self):
        return (type(self.v).__name__, self.v)

    def __eq__(self, o):
        return isinstance(o, K) and self._key() == o._key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("K",) + self._key())

    def __repr__(self):
        return repr(self.v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


class Ext(V):
    """Something outside the package, by dotted name (builtins without prefix)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return self.name


DELETED = Ext("(deleted)")       # in tfields: an attribute the object no longer has


class ModV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("ModV", self.name))

    def __repr__(self):
        return "<module %s>" % self.name


class ClsV(V):
    __slots__ = ("ci", "frame")

    def __init__(self, ci, frame=None):
        self.ci, self.frame = ci, frame

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.ci is self.ci

    def __hash__(self):
        return hash(("ClsV", id(self.ci)))

    def __repr__(self):
        return self.ci.name


class FnV(V):
    """A function with its closure frame (late binding through the heap)."""
    __slots__ = ("fi", "frame", "defaults", "kwdefaults")

    def __init__(self, fi, frame=None, defaults=None, kwdefaults=None):
        self.fi, self.frame, self.defaults, self.kwdefaults = fi, frame, defaults, kwdefaults

    def __eq__(self, o):
        return isinstance(o, FnV) and o.fi is self.fi and o.frame is self.frame

    def __hash__(self):
        return hash(("FnV", id(self.fi)))

    def __repr__(self):
        return "<fn %s>" % self.fi.qualname


class BM(V):
    """A bound method: of a package function or of a builtin type."""
    __slots__ = ("self", "fn")

    def __init__(self, slf, fn):
        self.self, self.fn = slf, fn

    def __eq__(self, o):
        return isinstance(o, BM) and o.self == self.self and o.fn == self.fn

    def __hash__(self):
        return hash(("BM", self.self, self.fn))

    def __repr__(self):
        return "%r.%s" % (self.self, self.fn if isinstance(self.fn, str) else self.fn.fi.name)


class Ref(V):
    """A heap object of the current path."""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("Ref", self.oid))

    def __repr__(self):
        return "&%d" % self.oid


class T(V):
    """A term: an operation applied to values. Equal terms denote equal values."""
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash((op, args))

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and o._h == self._h and o.op == self.op and o.args == self.args)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == "sym":
            return str(self.args[0])
        if self.op == "attr":
            return "%r.%s" % self.args
        if self.op == "sub":
            return "%r[%r]" % self.args
        if self.op == "call":
            a = self.args
            return "%s(%s)" % (a[0] if isinstance(a[0], str) else repr(a[0]), ", ".join(map(repr, a[1])))
        if self.op == "cat":
            return "cat(%s)" % ", ".join(map(repr, self.args))
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("Tup", self.items))

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


NORMAL = ("normal",)
BREAK = ("break",)
CONTINUE = ("continue",)


class Abrupt(object):
    """Result of evaluating an expression that does not produce a value."""
    __slots__ = ("out",)

    def __init__(self, out):
        self.out = out


def sym(name):
    return T("sym", name)


def rest(x):
    """Unknown many elements, those of x, inside a sequence."""
    return T("rest", x)


def is_rest(x):
    return isinstance(x, T) and x.op == "rest"


def subterms(v, seen=None):
    """All values inside a term (not through the heap)."""
    yield v
    if isinstance(v, T):
        for a in v.args:
            if isinstance(a, V):
                for x in subterms(a):
                    yield x
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, V):
                        for x in subterms(b):
                            yield x
    elif isinstance(v, Tup):
        for a in v.items:
            for x in subterms(a):
                yield x
    elif isinstance(v, BM):
        for x in subterms(v.self):
            yield x


def contains(v, x):
    return any(y == x for y in subterms(v))
