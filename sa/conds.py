"""Boolean structure of terms: canonical atoms, what is implied by the facts of a path."""
from .model import ClassInfo
from .values import (V, K, T, Ref, Tup, Ext, ClsV, ModV, FnV, BM, NONE, TRUE, FALSE, is_rest)
from .state import BUILTIN_TYPES, exc_bases, exc_norm

BOOL_OPS = ("is", "eq", "lt", "in", "isinstance", "truth", "hasattr")
UNKNOWN_EXT = ("os.environ",)


def mk_not(v):
    if isinstance(v, K):
        return K(not v.v)
    if isinstance(v, T) and v.op == "not":
        return v.args[0] if v.args[0].op in BOOL_OPS else T("truth", v.args[0])
    return T("not", v)


def truth(st, v):
    """K(bool), or a term whose truth is that of v."""
    v = st.res(v)
    if isinstance(v, K):
        return K(bool(v.v))
    if isinstance(v, Tup):
        if not v.items:
            return FALSE
        if any(not is_rest(i) for i in v.items):
            return TRUE
        if len(v.items) == 1:
            return truth(st, v.items[0].args[0])
        return T("truth", v)
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind in ("list", "set", "seqdata"):
            if not o.d:
                return FALSE
            if any(not is_rest(i) for i in o.d):
                return TRUE
            if len(o.d) == 1:
                return truth(st, o.d[0].args[0])
            return T("truth", v)
        if o.kind == "dict":
            if o.d:
                return TRUE
            return T("truth", v) if o.meta.get("open") else FALSE
        if o.kind == "view":
            return truth(st, o.d[0])
        return TRUE
    if isinstance(v, (FnV, ClsV, ModV, BM)):
        return TRUE
    if isinstance(v, Ext):
        return T("truth", v) if v.name in UNKNOWN_EXT else TRUE
    if isinstance(v, T):
        if v.op == "not" or v.op in BOOL_OPS:
            return v
        if v.op == "len":
            return truth(st, v.args[0])
        if v.op == "call" and v.args[0] in ("list", "tuple", "sorted", "set", "bool", "dict") and len(v.args[1]) == 1:
            return truth(st, v.args[1][0])
        if v.op == "cat":
            for a in v.args:
                if isinstance(a, K) and a.v:
                    return TRUE
    return T("truth", v)


def mk_eq(st, a, b):
    a, b = st.res(a), st.res(b)
    if isinstance(a, K) and isinstance(b, K):
        try:
            return K(a.v == b.v)
        except Exception:
            return T("eq", a, b)
    if a == b:
        return TRUE
    if isinstance(a, K):
        a, b = b, a
    if isinstance(b, K):
        if isinstance(a, T) and a.op == "len" and b.v == 0:
            return mk_not(truth(st, a.args[0]))
        if isinstance(a, T) and (a.op in BOOL_OPS or a.op == "not") and isinstance(b.v, bool):
            return a if b.v else mk_not(a)
        if isinstance(a, (FnV, ClsV, ModV, BM)):
            return FALSE
        if isinstance(a, Tup):
            return FALSE
        if isinstance(a, Ref):
            o = st.obj(a)
            if o.kind in ("list", "dict", "set", "inst", "frame", "coro", "gen", "exc"):
                if not (isinstance(o.cls, ClassInfo) and o.cls.find("__eq__")):
                    return FALSE
    elif isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = st.obj(a), st.obj(b)
        if oa.kind == ob.kind == "inst" and not (isinstance(oa.cls, ClassInfo) and oa.cls.find("__eq__")):
            return FALSE
        if oa.kind == ob.kind == "list" and not any(is_rest(x) for x in oa.d + ob.d):
            if len(oa.d) != len(ob.d):
                return FALSE
            rs = [mk_eq(st, x, y) for x, y in zip(oa.d, ob.d)]
            if all(r == TRUE for r in rs):
                return TRUE
            if any(r == FALSE for r in rs):
                return FALSE
        if {oa.kind, ob.kind} in ({"list", "dict"}, {"list", "set"}, {"dict", "inst"}, {"list", "inst"}):
            return FALSE
    elif isinstance(a, Tup) and isinstance(b, Tup):
        if not any(is_rest(x) for x in a.items + b.items):
            if len(a.items) != len(b.items):
                return FALSE
            rs = [mk_eq(st, x, y) for x, y in zip(a.items, b.items)]
            if all(r == TRUE for r in rs):
                return TRUE
            if any(r == FALSE for r in rs):
                return FALSE
    elif isinstance(a, (ClsV, FnV, ModV)) and isinstance(b, (ClsV, FnV, ModV, Ref, Tup)):
        return FALSE
    if repr(b) < repr(a) and not isinstance(b, K):
        a, b = b, a
    return T("eq", a, b)


def mk_is(st, a, b):
    a, b = st.res(a), st.res(b)
    if isinstance(a, K) and isinstance(b, K):
        return K(a == b)
    if a == b:
        return TRUE
    if isinstance(a, K):
        a, b = b, a
    solid = (Ref, FnV, ClsV, ModV, Tup, BM)
    if isinstance(b, K) and isinstance(a, solid):
        return FALSE
    if isinstance(b, K) and isinstance(a, Ext):
        return FALSE
    if isinstance(a, Ext) and isinstance(b, solid + (Ext,)):
        return FALSE
    if isinstance(a, solid) and isinstance(b, Ext):
        return FALSE
    if isinstance(a, Ref) and isinstance(b, Ref):
        return FALSE
    if isinstance(a, (FnV, ClsV, ModV)) and isinstance(b, (Ref, FnV, ClsV, ModV)):
        return FALSE
    if isinstance(b, K) and b.v in (True, False) and isinstance(b.v, bool) and isinstance(a, T) and (
            a.op in BOOL_OPS or a.op == "not"):
        return a if b.v else mk_not(a)
    if repr(b) < repr(a) and not isinstance(b, K):
        a, b = b, a
    return T("is", a, b)


def mk_lt(st, a, b):
    a, b = st.res(a), st.res(b)
    if isinstance(a, K) and isinstance(b, K):
        try:
            return K(a.v < b.v)
        except Exception:
            pass
    if a == b:
        return FALSE
    if isinstance(b, T) and b.op == "len" and a == K(0):
        return truth(st, b.args[0])
    if isinstance(a, T) and a.op == "len" and b == K(1):
        return mk_not(truth(st, a.args[0]))
    return T("lt", a, b)


def subtype(st, have, want):
    """Is a value of type `have` an instance of `want`? True/False/None."""
    if isinstance(want, ClassInfo):
        if isinstance(have, ClassInfo):
            if want in have.mro:
                return True
            return False
        if isinstance(have, str):
            return False
        return None
    if want == "object":
        return True
    if isinstance(have, ClassInfo):
        names = [c for c in have.mro if isinstance(c, str)]
        if want in names:
            return True
        for n in names:
            if exc_norm(want) in exc_bases(n) and n != "object":
                return True
        return False
    h, w = BUILTIN_TYPES.get(have), BUILTIN_TYPES.get(want)
    if h and w:
        return issubclass(h, w)
    if have == want:
        return True
    fam = {"function": ("types.FunctionType", "types.LambdaType"), "method": ("types.MethodType",),
           "coroutine": ("types.CoroutineType",), "generator": ("types.GeneratorType",),
           "async_generator": ("types.AsyncGeneratorType",), "module": ("types.ModuleType",)}
    if have in fam:
        return want in fam[have]
    for k, ws in fam.items():
        if want in ws:
            if h or have in ("type",):
                return False
    if h or have == "type":
        import importlib
        if want == "type":
            return have == "type"
        if want.startswith("collections.abc.") or want.startswith("numbers.") or want.startswith("pathlib."):
            try:
                mod, _, nm = want.rpartition(".")
                w = getattr(importlib.import_module(mod), nm)
                return issubclass(h or type, w)
            except Exception:
                return None
        return False
    hb = exc_bases(have) if isinstance(have, str) else []
    if exc_norm(want) in hb:
        return True
    return None


def isinstance_of(st, v, want):
    """True/False/None for one class."""
    v = st.res(v)
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "coro":
            return subtype(st, "coroutine", want)
        if o.kind == "gen":
            return subtype(st, "async_generator" if o.meta.get("async") else "generator", want)
        if o.kind == "exc":
            r = exc_norm(want) in exc_bases(o.cls) if isinstance(want, str) else want in exc_bases(o.cls)
            if r:
                return True
            if o.meta.get("sub") and (isinstance(want, ClassInfo) or
                                      any(b == exc_norm(o.cls) for b in exc_bases(want))):
                if want in o.meta.get("excl", ()):
                    return False
                return None
            return False
        if o.kind in ("list", "dict", "set"):
            return subtype(st, o.kind, want)
        if o.kind == "inst":
            if o.meta.get("sub"):
                r = subtype(st, o.cls, want)
                if r:
                    return True
                if isinstance(want, ClassInfo) and o.cls in want.mro:
                    return None
                return False
            return subtype(st, o.cls, want)
        if o.kind == "frame":
            return None
        return None
    if isinstance(v, BM):
        return subtype(st, "method", want)
    kt = st.known_type(v)
    if kt is not None:
        if isinstance(v, T) and isinstance(kt, ClassInfo) and isinstance(want, ClassInfo) \
                and kt in want.mro and kt is not want:
            return None
        if kt == "int" and want == "bool" and isinstance(v, T):
            return None
        if isinstance(v, T) and isinstance(kt, str) and kt not in BUILTIN_TYPES and kt != want:
            return None
        return subtype(st, kt, want)
    return None


def decide(st, atom):
    """Truth value of a canonical atom on this path, or None."""
    if atom in st.facts:
        return st.facts[atom]
    op = atom.op
    if op == "eq":
        a, b = st.res(atom.args[0]), st.res(atom.args[1])
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if isinstance(b, K):
            if b in st.neq.get(a, ()):
                return False
            kt = st.known_type(a)
            if isinstance(kt, str) and kt in BUILTIN_TYPES:
                num = ("int", "bool", "float")
                bt = type(b.v).__name__
                if kt != bt and not (kt in num and bt in num):
                    return False
            if isinstance(kt, ClassInfo) and not kt.find("__eq__"):
                return False
            if b == NONE:
                return decide(st, T("is", a, b))
    elif op == "is":
        a, b = st.res(atom.args[0]), st.res(atom.args[1])
        if isinstance(a, K) and isinstance(b, K):
            return a == b
        if b == NONE:
            if NONE in st.neq.get(a, ()):
                return False
            kt = st.known_type(a)
            if kt is not None:
                return kt == "NoneType"
            if st.facts.get(T("truth", a)) is True:
                return False
            for f, val in st.facts.items():
                if val and f.op == "isinstance" and f.args[0] == a and f.args[1] != "NoneType":
                    return False
                if val and f.op == "eq" and f.args[0] == a and isinstance(f.args[1], K) and f.args[1].v is not None:
                    return False
        if b in (TRUE, FALSE):
            kt = st.known_type(a)
            if kt is not None and kt != "bool":
                return False
    elif op == "truth":
        a = st.res(atom.args[0])
        if isinstance(a, K):
            return bool(a.v)
        if st.facts.get(T("is", a, NONE)) is True:
            return False
        kt = st.known_type(a)
        if kt == "int" and K(0) in st.neq.get(a, ()):
            return True
        if isinstance(kt, ClassInfo) and not kt.find("__bool__") and not kt.find("__len__") and not any(
                b in ("dict", "list", "str", "tuple", "set") for b in kt.ext_bases):
            return True
        if kt in ("function", "type", "module"):
            return True
    elif op == "lt":
        a, b = st.res(atom.args[0]), st.res(atom.args[1])
        if isinstance(a, K) and isinstance(b, K):
            try:
                return a.v < b.v
            except Exception:
                return None
        if a == b:
            return False
    elif op == "isinstance":
        return decide_isinstance(st, atom.args[0], atom.args[1])
    elif op == "not":
        r = decide(st, atom.args[0])
        return None if r is None else not r
    return None


def decide_isinstance(st, v, want):
    r = isinstance_of(st, v, want)
    if r is not None:
        return r
    at = T("isinstance", v, want)
    if at in st.facts:
        return st.facts[at]
    for f, val in st.facts.items():
        if f.op == "isinstance" and f.args[0] == v and val:
            s = subtype(st, f.args[1], want)
            if s is True:
                return True
            if s is False:
                # only builtin value types are known to be disjoint
                if f.args[1] in BUILTIN_TYPES and want in BUILTIN_TYPES:
                    if not issubclass(BUILTIN_TYPES[want], BUILTIN_TYPES[f.args[1]]):
                        return False
                elif isinstance(f.args[1], ClassInfo) and isinstance(want, ClassInfo):
                    if f.args[1] not in want.mro:
                        return False
                elif isinstance(f.args[1], ClassInfo) != isinstance(want, ClassInfo):
                    return False
                elif f.args[1] in BUILTIN_TYPES or want in BUILTIN_TYPES:
                    return False
        if f.op == "isinstance" and f.args[0] == v and not val:
            if subtype(st, want, f.args[1]) is True:
                return False
    return None


def assume(st, atom, val):
    """Record that atom is val; false if that contradicts what is known."""
    k = decide(st, atom)
    if k is not None:
        return k == val
    st.facts[atom] = val
    op = atom.op
    if op in ("eq", "is"):
        a, b = atom.args
        if isinstance(b, K) and isinstance(a, T):
            if val:
                st.subst[a] = b
            else:
                st.neq[a] = st.neq.get(a, frozenset()) | {b}
    elif op == "isinstance" and val:
        v, want = atom.args
        if isinstance(v, T) and v not in st.tinfo:
            st.tinfo[v] = want
    elif op == "not":
        st.facts.pop(atom)
        return assume(st, atom.args[0], not val)
    return True


def branch(st, v):
    """[(state, bool)] for the possible truth values of v. Forks only if undecided."""
    t = truth(st, v)
    if isinstance(t, K):
        return [(st, bool(t.v))]
    pol = True
    while isinstance(t, T) and t.op == "not":
        t = truth(st, t.args[0])
        pol = not pol
        if isinstance(t, K):
            return [(st, bool(t.v) == pol)]
    d = decide(st, t)
    if d is not None:
        return [(st, d == pol)]
    a, b = st.fork(), st
    res = []
    if assume(a, t, True):
        a.note(("branch", t, True))
        res.append((a, pol))
    if assume(b, t, False):
        b.note(("branch", t, False))
        res.append((b, not pol))
    return res
