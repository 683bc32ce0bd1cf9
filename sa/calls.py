"""Attribute access, calls, generators, iteration and await."""
import ast
import builtins
import importlib
import types

from .model import ClassInfo, FuncInfo, AnalysisError
from .values import (DELETED, V, K, T, Ref, Tup, Ext, ClsV, ModV, FnV, BM, Abrupt, NORMAL, BREAK, CONTINUE, NONE, TRUE, FALSE, rest, is_rest)
from .state import Ev, exc_bases, exc_norm, BUILTIN_TYPES
from . import conds
from .conds import branch, mk_eq

LATER = ("__getstate__",)       # what builtin objects of Python 3.9 do not have yet


def has(o, name):
    return name not in LATER and hasattr(o, name)

CONST_MODULES = ("os", "select", "signal", "errno", "stat", "fcntl", "socket", "resource", "sys.maxsize")
ASYNC_GEN = ("__aiter__", "__anext__", "asend", "athrow", "aclose")
GEN = ("__iter__", "__next__", "send", "throw", "close")

_const_cache = {}

CONTAINER_METHODS = {c.__name__: set(dir(c)) - set(LATER) for c in (list, dict, set, tuple, str, bytes, int)}


class SuperV(V):
    __slots__ = ("cls", "self")

    def __init__(self, cls, slf):
        self.cls, self.self = cls, slf

    def __repr__(self):
        return "super(%s)" % self.cls.name


class CallMixin(object):

    # -- externals --------------------------------------------------------------
    def ext_const(self, name):
        if name in _const_cache:
            return _const_cache[name]
        v = Ext(name)
        mod, _, attr = name.rpartition(".")
        if mod in CONST_MODULES and attr.isupper() or (mod in ("os", "signal", "errno", "select") and
                                                       attr.replace("_", "").isupper()):
            try:
                x = getattr(importlib.import_module(mod), attr)
                if isinstance(x, int) and not isinstance(x, bool):
                    v = K(int(x))
                elif isinstance(x, (str, bytes)):
                    v = K(x)
            except Exception:
                pass
        if name in ("os.sep", "os.pathsep", "os.curdir", "os.pardir", "os.devnull", "os.defpath", "os.linesep"):
            import os
            v = K(getattr(os, name[3:]))
        _const_cache[name] = v
        return v

    def ext_value(self, st, name):
        if name.startswith("builtins."):
            name = name[9:]
        # objects of the library that a rule models as part of the state
        m = st.user.get("ext")
        return m[name] if m and name in m else self.ext_const(name)

    # -- attributes -----------------------------------------------------------
    def getattr(self, st, o, name, node, fr, default=None):
        o = st.res(o)
        missing = lambda s: [(s, default)] if default is not None else [
            self.raise_new(s, "AttributeError", fr, node, (K(name),))]
        if isinstance(o, ModV):
            rs = self.prog.resolve_from(o.name, name)
            if not rs or rs[0][0] == "missing":
                if name.startswith("__"):
                    return [(st, T("global", o.name, name))]
                return missing(st)
            if rs[0][0] in ("module", "ext") and name not in self.prog.modules[o.name].bind:
                return [(st, self.binding_value(rs[0], st))]
            return self.load_global(self.prog.modules[o.name], name, st, fr, node)
        if isinstance(o, Ext):
            if o.name == "builtins" and not hasattr(builtins, name):
                return missing(st)
            if o.name == "builtins" and name == "__dict__":
                return [(st, Ext("builtins.__dict__"))]
            if (o, name) in st.tfields:
                v = st.tfields[(o, name)]
                return missing(st) if v == DELETED else [(st, v)]
            return [(st, self.ext_value(st, o.name + "." + name))]
        if isinstance(o, ClsV):
            return self.cls_getattr(st, o, o.ci, name, node, fr, missing)
        if isinstance(o, SuperV):
            inst_cls = self.cls_of(st, o.self) or o.cls
            mro = inst_cls.mro
            i = mro.index(o.cls) + 1 if o.cls in mro else 0
            for c in mro[i:]:
                if isinstance(c, ClassInfo):
                    if name in c.methods:
                        return self.bind_method(st, o.self, c.methods[name], c, node, fr)
                    if name in c.props:
                        return self.call(st, FnV(c.props[name]["get"]), [o.self], {}, node, fr)
                    if name in c.attrs:
                        return self.class_attr(st, c, name)
                elif c != "object" or name.startswith("__"):
                    return [(st, BM(o.self, T("extmethod", c, name)))]
            return missing(st)
        if isinstance(o, Ref):
            return self.obj_getattr(st, o, name, node, fr, missing)
        if isinstance(o, FnV):
            if name == "__name__":
                return [(st, K(o.fi.name))]
            if name in ("__code__", "__globals__", "__defaults__", "__closure__", "__module__", "__doc__", "__dict__",
                        "__qualname__", "__wrapped__", "__kwdefaults__"):
                return [(st, st.tfields.get((o, name), T("attr", o, name)))]
            if (o, name) in st.tfields:
                return [(st, st.tfields[(o, name)])]
            return missing(st)
        if isinstance(o, BM):
            if name == "__self__":
                return [(st, o.self)]
            if name == "__func__":
                return [(st, o.fn)]
            if name.startswith("__") and not hasattr(len, name) and not hasattr(types.MethodType, name):
                return missing(st)
            return [(st, T("attr", o, name))]
        if isinstance(o, K):
            if o.v is None:
                return missing(st)
            if has(o.v, name):
                return [(st, BM(o, name))]
            return missing(st)
        if isinstance(o, Tup):
            return [(st, BM(o, name))] if hasattr((), name) else missing(st)
        # symbolic
        if (o, name) in st.tfields:
            return [(st, st.tfields[(o, name)])]
        h = self.hooks.attr(self, st, o, name)
        if h is not None:
            return h if isinstance(h, list) else [(st, h)]
        kt = st.known_type(o)
        if kt in ("str", "bytes", "list", "dict", "set", "tuple", "int"):
            if name in CONTAINER_METHODS[kt]:
                return [(st, BM(o, name))]
            return missing(st)
        if isinstance(kt, ClassInfo):
            f = kt.find(name)
            if f and f[0] == "method":
                return self.bind_method(st, o, f[1], f[2], node, fr)
            if f and f[0] == "prop" and "get" in f[1]:
                return self.call(st, FnV(f[1]["get"]), [o], {}, node, fr)
        if st.facts.get(T("hasattr", o, K(name))) is False:
            return missing(st)
        return [(st, T("attr", o, name))]

    def cls_of(self, st, v):
        if isinstance(v, Ref):
            c = st.obj(v).cls
            return c if isinstance(c, ClassInfo) else None
        if isinstance(v, ClsV):
            return v.ci
        kt = st.known_type(v)
        return kt if isinstance(kt, ClassInfo) else None

    def class_attr(self, st, c, name):
        """Value of a class-level attribute (evaluated once per path)."""
        key = (c, name)
        if key in st.clsattrs:
            return [(st, st.clsattrs[key])]
        from .interp import Frame
        h = self.hooks.glob(self, st, c, name)
        if h is not None:
            st.clsattrs[key] = h
            return [(st, h)]
        ref = st.new("frame", None, {})
        fr = Frame(ref.oid, None, None, c.module, cls=c)
        for n, e in c.attrs.items():
            if n != name and (c, n) in st.clsattrs:
                st.mut(ref).f[n] = st.clsattrs[(c, n)]
        # names the expression uses from the class body
        used = {x.id for x in ast.walk(c.attrs[name]) if isinstance(x, ast.Name)}
        res = [st]
        for n in sorted(used):
            if n in c.attrs and n != name and c.attrs[n] is not c.attrs[name]:
                nxt = []
                for s in res:
                    for s2, v in self.class_attr(s, c, n):
                        s2.mut(ref).f[n] = v
                        nxt.append(s2)
                res = nxt
        out = []
        for s in res:
            ev0, n0 = s.events, s.nev
            for s2, v in self.ev(c.attrs[name], s, fr):
                s2.events, s2.nev = ev0, n0
                if isinstance(v, Abrupt):
                    v = T("clsattr", c.qualname, name)
                s2.clsattrs[key] = v
                out.append((s2, v))
        return out

    def bind_method(self, st, slf, fi, owner, node, fr):
        fv = FnV(fi, None)
        kinds = [d.id for d in fi.decorators if isinstance(d, ast.Name)]
        if "staticmethod" in kinds:
            return [(st, fv)]
        if "classmethod" in kinds:
            c = slf if isinstance(slf, ClsV) else ClsV(self.cls_of(st, slf) or owner)
            return [(st, BM(c, fv))]
        if isinstance(slf, ClsV) and fi.name == "__new__":
            return [(st, fv)]
        others = [d for d in fi.decorators if not (isinstance(d, ast.Name) and d.id in ("property",))]
        if others:
            from .interp import Frame
            mf = Frame(0, None, None, fi.module)
            return self.bind(self.decorate(st, fv, others, mf),
                             lambda s, v: [(s, BM(slf, v) if isinstance(v, FnV) else v)])
        return [(st, BM(slf, fv))]

    def cls_getattr(self, st, o, ci, name, node, fr, missing):
        if (ci, name) in st.clsattrs:
            return [(st, st.clsattrs[(ci, name)])]
        f = ci.find(name)
        if f is None:
            if name == "__name__":
                return [(st, K(ci.name))]
            if name in ("__module__", "__dict__", "__mro__", "__bases__", "__doc__", "__qualname__"):
                return [(st, T("attr", o, name))]
            for b in ci.ext_bases:
                if b != "object" or has(object, name):
                    return [(st, T("extmethod", b, name))]
            return missing(st)
        if f[0] == "method":
            fi = f[1]
            kinds = [d.id for d in fi.decorators if isinstance(d, ast.Name)]
            if "classmethod" in kinds:
                return [(st, BM(o, FnV(fi, None)))]
            return [(st, FnV(fi, None))]
        if f[0] == "prop":
            return [(st, T("property", f[2].qualname, name))]
        if f[0] == "class":
            return [(st, ClsV(f[1]))]
        return self.class_attr(st, f[2], name)

    def obj_getattr(self, st, o, name, node, fr, missing):
        ob = st.obj(o)
        if ob.kind in ("list", "dict", "set"):
            if name in CONTAINER_METHODS[ob.kind]:
                return [(st, BM(o, name))]
            return missing(st)
        if ob.kind == "coro":
            return [(st, BM(o, name))] if name in ("__await__", "close", "send", "throw") else missing(st)
        if ob.kind == "gen" and name not in (ASYNC_GEN if ob.meta.get("async") else GEN) and not name.startswith(("gi_", "ag_")) \
                and not hasattr(object, name):
            return missing(st)
        if ob.kind == "iter" and name not in ("__iter__", "__next__", "__length_hint__", "__setstate__", "__reduce__"):
            return missing(st)
        if ob.kind == "calliter" and name not in ("__iter__", "__next__", "__reduce__"):
            return missing(st)
        if ob.kind in ("gen", "iter", "calliter", "view", "partial", "suppress", "exitstack"):
            return [(st, BM(o, name))]
        ci = ob.cls
        if ob.kind == "exc" and not isinstance(ci, ClassInfo):
            if name in ob.f:
                return [(st, ob.f[name])]
            if name in ("__class__",):
                return [(st, Ext(ci))]
            if name == "__traceback__":
                return [(st, T("tb", o))]
            bases = exc_bases(ci)
            known = {"SystemExit": ("code",), "OSError": ("errno", "strerror", "filename", "args"),
                     "StopIteration": ("value",), "UnicodeError": ("reason",)}
            for b, attrs in known.items():
                if name in attrs:
                    if b in bases:
                        v = T("attr", o, name)
                        st.mut(o).f[name] = v
                        return [(st, v)]
            if ob.meta.get("sub") or name in ("args", "with_traceback", "__cause__", "__context__"):
                if name in ("args", "with_traceback", "__cause__", "__context__"):
                    return [(st, T("attr", o, name))]
                # may or may not be of a class that has it
                a = st.fork()
                av = T("attr", o, name)
                a.mut(o).f[name] = av
                return [(a, av)] + missing(st)
            return missing(st)
        if isinstance(ci, ClassInfo):
            f = ci.find(name)
            if f and f[0] == "prop":
                if "get" not in f[1]:
                    return missing(st)
                h = self.hooks.pkg_call(self, st, f[1]["get"], o, [], {})
                if h is not None:
                    return h
                return self.call(st, FnV(f[1]["get"]), [o], {}, node, fr)
            if name in ob.f:
                return [(st, ob.f[name])]
            if name == "__dict__":
                d = {K(k): v for k, v in ob.f.items()}
                meta = {"inst": o}
                if ob.meta.get("open"):
                    meta["open"] = True
                return [(st, st.new("dict", None, {}, d, meta))]
            if name == "__class__":
                return [(st, ClsV(ci))]
            if f:
                if f[0] == "method":
                    return self.bind_method(st, o, f[1], f[2], node, fr)
                if f[0] == "class":
                    return [(st, ClsV(f[1]))]
                return self.class_attr(st, f[2], name)
            if ob.meta.get("open"):
                h = self.hooks.attr(self, st, o, name)
                if h is not None:
                    if isinstance(h, list):
                        return h
                    st.mut(o).f[name] = h
                    return [(st, h)]
            for b in ci.ext_bases:
                if b in CONTAINER_METHODS and name in CONTAINER_METHODS[b] and not has(object, name):
                    return [(st, BM(o, T("extmethod", b, name)))]
                if b in CONTAINER_METHODS and name in ("__getitem__", "__setitem__", "__contains__", "__iter__"):
                    return [(st, BM(o, T("extmethod", b, name)))]
            g = ci.find("__getattr__")
            if ob.kind == "exc" and name in ("args", "__traceback__", "__cause__", "__context__", "with_traceback"):
                return [(st, T("tb", o) if name == "__traceback__" else T("attr", o, name))]
            if has(object, name):
                return [(st, BM(o, T("extmethod", "object", name)))]
            if g and g[0] == "method":
                s2res = self.call(st, BM(o, FnV(g[1], None)), [K(name)], {}, node, fr)
                out = []
                for s, v in s2res:
                    if isinstance(v, Abrupt) and v.out[0] == "raise" and \
                            conds.isinstance_of(s, v.out[1], "AttributeError") is True:
                        out.extend(missing(s))
                    else:
                        out.append((s, v))
                return out
            if ob.meta.get("open"):
                v = T("attr", o, name)
                st.mut(o).f[name] = v
                return [(st, v)]
            if any(b not in ("object", "dict", "list", "type", "Exception", "KeyboardInterrupt", "BaseException")
                   for b in ci.ext_bases):
                return [(st, T("attr", o, name))]
            return missing(st)
        if name in ob.f:
            return [(st, ob.f[name])]
        return [(st, T("attr", o, name))]

    def hasattr_(self, st, o, name, node, fr):
        o = st.res(o)
        if isinstance(o, T):
            kt = st.known_type(o)
            if isinstance(kt, str) and kt in BUILTIN_TYPES:
                return [(st, K(has(BUILTIN_TYPES[kt], name)))]
            if kt in ("function",):
                return [(st, K(hasattr(lambda: 0, name)))]
            if isinstance(kt, ClassInfo) and kt.find(name):
                return [(st, TRUE)]
            if (o, name) in st.tfields:
                return [(st, TRUE)]
            return [(st, T("hasattr", o, K(name)))]
        if isinstance(o, (FnV, BM)):
            return [(st, K(hasattr(lambda: 0, name)))]
        if isinstance(o, Ext) and o.name == "builtins":
            return [(st, K(hasattr(builtins, name)))]
        if isinstance(o, Ext) and (o.name in BUILTIN_TYPES or o.name in ("type", "object")):
            return [(st, K(has(getattr(builtins, o.name, object), name)))]
        if isinstance(o, (K,)):
            return [(st, K(has(o.v, name)))]
        if isinstance(o, Ref) and st.obj(o).kind in ("gen", "coro"):
            g = st.obj(o)
            if g.kind == "coro":
                return [(st, K(name in ("__await__", "send", "throw", "close")))]
            return [(st, K(name in (ASYNC_GEN if g.meta.get("async") else GEN)))]
        if isinstance(o, Ref) and st.obj(o).kind in ("iter",):
            return [(st, K(name in ("__iter__", "__next__")))]
        if isinstance(o, Ref) and st.obj(o).kind == "inst" and not st.obj(o).meta.get("open"):
            pass
        mark = V()
        out = []
        for s, v in self.getattr(st, o, name, node, fr, default=mark):
            if isinstance(v, Abrupt):
                out.append((s, v))
            else:
                out.append((s, K(v is not mark)))
        return out

    def setattr(self, st, o, name, v, node, fr):
        o = st.res(o)
        loc = self.loc(node, fr)
        if isinstance(o, Ref):
            ob = st.obj(o)
            ci = ob.cls if isinstance(ob.cls, ClassInfo) else None
            if ci is not None:
                sa = ci.find("__setattr__")
                if sa and sa[0] == "method":
                    return self.call(st, BM(o, FnV(sa[1], None)), [K(name), v], {}, node, fr)
                return self.raw_setattr(st, o, name, v, node, fr)
            st.mut(o).f[name] = v
            st.emit(Ev("setattr", name, recv=o, args=(v,), loc=loc))
            return [(st, NONE)]
        if isinstance(o, ClsV):
            st.clsattrs[(o.ci, name)] = v
            st.emit(Ev("setattr", name, recv=o, args=(v,), loc=loc))
            return [(st, NONE)]
        if isinstance(o, ModV):
            st.globs[(o.name, name)] = v
            st.emit(Ev("setattr", name, recv=o, args=(v,), loc=loc))
            return [(st, NONE)]
        if isinstance(o, K) and o.v is None:
            return [self.raise_new(st, "AttributeError", fr, node, (K(name),))]
        st.tfields[(o, name)] = v
        st.emit(Ev("setattr", name, recv=o, args=(v,), loc=loc))
        return [(st, NONE)]

    def raw_setattr(self, st, o, name, v, node, fr):
        ob = st.obj(o)
        ci = ob.cls if isinstance(ob.cls, ClassInfo) else None
        f = ci.find(name) if ci is not None else None
        if f and f[0] == "prop":
            if "set" not in f[1]:
                return [self.raise_new(st, "AttributeError", fr, node, (K(name),))]
            return self.call(st, FnV(f[1]["set"]), [o, v], {}, node, fr)
        old = ob.f.get(name)
        st.mut(o).f[name] = v
        st.emit(Ev("setattr", name, recv=o, args=(v,), loc=self.loc(node, fr), extra=old))
        return [(st, NONE)]

    def delattr(self, st, o, name, node, fr):
        if isinstance(o, Ref):
            ob = st.obj(o)
            ci = ob.cls if isinstance(ob.cls, ClassInfo) else None
            f = ci.find(name) if ci is not None else None
            if f and f[0] == "prop":
                if "del" not in f[1]:
                    return [self.raise_new(st, "AttributeError", fr, node, (K(name),))]
                return self.call(st, FnV(f[1]["del"]), [o], {}, node, fr)
            st.mut(o).f.pop(name, None)
        elif isinstance(o, Ext):
            if st.tfields.get((o, name)) == DELETED:
                return [self.raise_new(st, "AttributeError", fr, node, (K(name),))]
            st.tfields[(o, name)] = DELETED
        else:
            st.tfields.pop((o, name), None)
        st.emit(Ev("delattr", name, recv=o, loc=self.loc(node, fr)))
        return [(st, NONE)]

    # -- calls ------------------------------------------------------------------
    def ex_Call(self, node, st, fr):
        # zero-argument super()
        if isinstance(node.func, ast.Name) and node.func.id == "super":
            return self.ev_super(node, st, fr)
        if isinstance(node.func, (ast.Name, ast.Attribute)) and not (
                self.hooks.follow_log and fr.module.rel.startswith(self.hooks.follow_log)) and "log" in ast.dump(node.func):
            # diagnostics are not followed
            r = self.ev(node.func, st, fr)
            if len(r) == 1 and isinstance(r[0][1], FnV) and self.is_log(r[0][1].fi):
                out = [(r[0][0], NONE)]
                for cls in self.hooks.raises(self, r[0][0], "log", None, ()):
                    s = r[0][0].fork()
                    sub = True
                    if isinstance(cls, tuple):
                        cls, sub = cls
                    s.note(("fails", "log", self.loc(node, fr), cls))
                    s2, v = self.raise_new(s, cls, fr, node, (), sub)
                    s2.mut(v.out[1]).meta["from"] = "log"
                    out.append((s2, self.hooks.failed(self, s2, v)))
                return out
        argexprs = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
        kwexprs = [k.value for k in node.keywords]

        def f(s, vs):
            fn = vs[0]
            acc = [(s, ([], {}))]
            for a, v in zip(node.args, vs[1:]):
                if isinstance(a, ast.Starred):
                    acc = self.bind(acc, lambda s2, ak: self.bind(
                        self.spread(s2, v, a, fr), lambda s3, items: [(s3, (ak[0] + list(items), ak[1]))]))
                else:
                    acc = self.bind(acc, lambda s2, ak: [(s2, (ak[0] + [v], ak[1]))])
            for k, v in zip(node.keywords, vs[1 + len(node.args):]):
                def addkw(s2, ak):
                    kw = dict(ak[1])
                    if k.arg is not None:
                        kw[k.arg] = v
                    elif isinstance(v, Ref) and s2.obj(v).kind == "dict" and not s2.obj(v).meta.get("open"):
                        for kk, vv in s2.obj(v).d.items():
                            kw[kk.v if isinstance(kk, K) else repr(kk)] = vv
                    else:
                        kw["**"] = v
                    return [(s2, (ak[0], kw))]
                acc = self.bind(acc, addkw)
            return self.bind(acc, lambda s2, ak: self.call(s2, fn, ak[0], ak[1], node, fr))
        return self.bind(self.ev_list([node.func] + argexprs + kwexprs, st, fr), f)

    def ev_super(self, node, st, fr):
        if node.args:
            return self.bind(self.ev_list(node.args, st, fr),
                             lambda s, vs: [(s, SuperV(vs[0].ci, vs[1]) if isinstance(vs[0], ClsV)
                                             else T("super", vs[0], vs[1]))])
        f = fr
        while f is not None and not (isinstance(f.fi, FuncInfo) and f.fi.cls is not None):
            f = f.parent
        if f is None:
            return [(st, T("super"))]
        first = f.fi.params[0]
        return [(st, SuperV(f.fi.cls, st.heap[f.oid].f.get(first, T("sym", first))))]

    def spread(self, st, v, node, fr):
        """Elements of a starred argument."""
        seq = self.known_seq(st, v)
        if seq is not None:
            return [(st, list(seq))]
        acc = st.new("list", None, None, ())
        if isinstance(v, (T, Ext)):
            return [(st, [rest(v)])]

        def body(s, item):
            self.acc_add(s, acc, item)
            return [(s, NORMAL)]
        return [(s, list(s.obj(acc).d) if (o is NORMAL) else Abrupt(o))
                for s, o in self.iterate(st, v, body, node, fr)]

    def call(self, st, fn, args, kwargs, node, fr):
        fn = st.res(fn)
        if isinstance(fn, FnV):
            return self.call_fn(st, fn, None, args, kwargs, node, fr)
        if isinstance(fn, BM):
            if isinstance(fn.fn, FnV):
                return self.call_fn(st, fn.fn, fn.self, args, kwargs, node, fr)
            if isinstance(fn.fn, T) and fn.fn.op == "extmethod":
                return self.call_extmethod(st, fn.fn.args[0], fn.fn.args[1], fn.self, args, kwargs, node, fr)
            if isinstance(fn.fn, str):
                return self.call_builtin_method(st, fn.self, fn.fn, args, kwargs, node, fr)
            return self.call(st, fn.fn, [fn.self] + list(args), kwargs, node, fr)
        if isinstance(fn, ClsV):
            return self.instantiate(st, fn, args, kwargs, node, fr)
        if isinstance(fn, Ext):
            return self.call_ext(st, fn.name, None, args, kwargs, node, fr)
        if isinstance(fn, T) and fn.op == "extmethod":
            if args:
                return self.call_extmethod(st, fn.args[0], fn.args[1], args[0], args[1:], kwargs, node, fr)
        if isinstance(fn, Ref):
            ob = st.obj(fn)
            if ob.kind == "partial":
                kw = dict(ob.meta["kwargs"])
                kw.update(kwargs)
                return self.call(st, ob.meta["fn"], list(ob.meta["args"]) + list(args), kw, node, fr)
            if ob.kind == "getter":
                return ob.meta["get"](st, list(args), node, fr)
            if isinstance(ob.cls, ClassInfo) and ob.cls.find("__call__"):
                return self.bind(self.getattr(st, fn, "__call__", node, fr),
                                 lambda s, m: self.call(s, m, args, kwargs, node, fr))
        if isinstance(fn, T) and fn.op == "attr":
            return self.call_ext(st, "." + fn.args[1], fn.args[0], args, kwargs, node, fr)
        if isinstance(fn, K):
            return [self.raise_new(st, "TypeError", fr, node)]
        return self.call_ext(st, "()", fn, args, kwargs, node, fr)

    def opaque_call(self, st, name, recv, args, kwargs, node, fr, pure=False, tag="call"):
        """An effect the analysis does not look into."""
        key = name if recv is None else T("meth", recv, name)
        kw = tuple(T("kw", k, v) for k, v in sorted(kwargs.items()))
        res = T("call", key, tuple(args) + kw, None if pure else st.nev)
        st.emit(Ev(tag, name, recv=recv, args=args, kwargs=kwargs, res=res, loc=self.loc(node, fr)))
        return res

    def call_ext(self, st, name, recv, args, kwargs, node, fr):
        self.ext_seen.add(name)
        out = []
        for cls in (() if self.importing else self.hooks.raises(self, st, name, recv, args)):
            s = st.fork()
            sub = True
            if isinstance(cls, tuple):
                cls, sub = cls
            e = s.new("exc", cls, {}, None, {"sub": sub, "loc": self.loc(node, fr), "from": name})
            s.emit(Ev("call", name, recv=recv, args=args, kwargs=kwargs, exc=e, loc=self.loc(node, fr)))
            s.note(("fails", name, self.loc(node, fr), cls))
            out.append((s, self.hooks.failed(self, s, Abrupt(("raise", e)))))
        h = self.hooks.ext_call(self, st, name, recv, args, kwargs)
        if h is not None:
            for s, v in h:
                # summaries report their own effect under the same name
                if not isinstance(v, Abrupt):
                    s.emit(Ev("call", name, recv=recv, args=args, kwargs=kwargs, res=v, loc=self.loc(node, fr)))
                else:
                    s.emit(Ev("call", name, recv=recv, args=args, kwargs=kwargs, exc=v.out[1] if len(v.out) > 1 else None,
                              loc=self.loc(node, fr)))
            return out + h
        if recv is None and args and name in ("object.__setattr__", "object.__delattr__", "object.__getattribute__",
                                              "type.__setattr__"):
            return out + self.call_extmethod(st, "object", name.split(".")[1], args[0], list(args[1:]), kwargs, node, fr)
        if recv is None and args and name.endswith((".__setattr__", ".__delattr__", ".__getattribute__")):
            return out + self.call_extmethod(st, name.rpartition(".")[0], name.rpartition(".")[2], args[0], list(args[1:]),
                                             kwargs, node, fr)
        if recv is None and args and name.partition(".")[0] in ("dict", "list", "set") and name.count(".") == 1:
            a0 = st.res(args[0])
            if isinstance(a0, Ref) and isinstance(st.obj(a0).d, (dict, tuple)):
                return out + self.call_extmethod(st, name.split(".")[0], name.split(".")[1], a0, list(args[1:]), kwargs,
                                                 node, fr)
        if recv is None:
            m = getattr(self, "bi_" + name.replace(".", "_"), None)
            if m is not None:
                return out + m(st, args, kwargs, node, fr)
        res = self.generic_ext(st, name, recv, args, kwargs, node, fr)
        return out + res

    def is_log(self, fi):
        return fi.module.rel == "log.py" and fi.name == "log"

    def call_fn(self, st, fv, slf, args, kwargs, node, fr):
        fi = fv.fi
        if self.is_log(fi):
            return [(st, NONE)]
        h = self.hooks.pkg_call(self, st, fi, slf, args, kwargs)
        if h is not None:
            return h
        allargs = ([slf] if slf is not None else []) + list(args)
        if self.active.count(fi) >= self.hooks.recursion or len(self.active) >= self.hooks.max_depth:
            if self.hooks.endless:
                return [self.raise_new(st, "RecursionError", fr, node)]
            res = T("call", "rec:" + fi.loc, tuple(allargs), st.nev)
            st.emit(Ev("rec", fi.loc, recv=slf, args=args, kwargs=kwargs, res=res, loc=self.loc(node, fr)))
            return [(st, res)]
        self.inlined.add(fi)
        out = []
        for s, vars_ in self.bind_args(st, fv, allargs, kwargs, node, fr):
            if isinstance(vars_, Abrupt):
                out.append((s, vars_))
                continue
            out.extend(self.enter_fn(s, fv, vars_, node, fr))
        return out

    def enter_fn(self, st, fv, vars_, node, fr):
        from .interp import Frame
        fi = fv.fi
        ref = st.new("frame", None, vars_)
        f = Frame(ref.oid, fi, fv.frame, fi.module)
        if fi.is_gen:
            return [(st, st.new("gen", None, {}, None, {"frame": f, "async": fi.is_async, "fn": fi,
                                                        "ctx": self.is_ctx(fi)}))]
        if fi.is_async:
            return [(st, st.new("coro", None, {}, None, {"frame": f, "fn": fi}))]
        return self.run_body(st, fi, f)

    def is_ctx(self, fi):
        for d in fi.decorators:
            n = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None)
            if n in ("contextmanager", "asynccontextmanager"):
                return True
        return False

    def run_body(self, st, fi, f):
        saved_exc = st.excs
        self.active.append(fi)
        try:
            if isinstance(fi.node, ast.Lambda):
                return self.ev(fi.node.body, st, f)
            res = self.exec_block(fi.node.body, st, f)
        finally:
            self.active.pop()
        out = []
        for s, o in res:
            s.excs = saved_exc
            if o is NORMAL:
                out.append((s, NONE))
            elif o[0] == "return":
                out.append((s, o[1]))
            else:
                out.append((s, Abrupt(o)))
        return out

    def bind_args(self, st, fv, args, kwargs, node, fr):
        fi = fv.fi
        a = fi.node.args
        params = fi.params
        vars_ = {}
        kwargs = dict(kwargs)
        unknown_kw = kwargs.pop("**", None)
        pos = list(args)
        bad = lambda: [self.raise_new(st, "TypeError", fr, node, (K("arguments of %s" % fi.qualname),))]
        i = 0
        restv = None
        for j, p in enumerate(params):
            if i < len(pos):
                if is_rest(pos[i]):
                    restv = pos[i]
                    break
                vars_[p] = pos[i]
                i += 1
            else:
                break
        extra = pos[i:]
        if restv is not None:
            # unknown number of positional arguments
            left = [p for p in params if p not in vars_ and p not in kwargs]
            if a.vararg is None:
                for n, p in enumerate(left):
                    vars_[p] = T("elem", restv.args[0], K(n))
                extra = []
        if extra and a.vararg is None:
            return bad()
        if a.vararg is not None:
            vars_[a.vararg.arg] = Tup(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        kwextra = {}
        for k, v in kwargs.items():
            if k in params + kwonly:
                if k in vars_:
                    return bad()
                vars_[k] = v
            elif a.kwarg is not None:
                kwextra[K(k)] = v
            else:
                return bad()
        if a.kwarg is not None:
            meta = {}
            if unknown_kw is not None:
                meta = {"open": True, "bases": (unknown_kw,)}
            vars_[a.kwarg.arg] = st.new("dict", None, None, kwextra, meta)
        # defaults
        states = [(st, vars_)]
        nd = len(a.defaults)
        for idx, d in enumerate(a.defaults):
            p = params[len(params) - nd + idx]
            if p in vars_:
                continue
            if fv.defaults is not None and idx < len(fv.defaults):
                vars_[p] = fv.defaults[idx]
            else:
                from .interp import Frame
                mf = Frame(0, None, None, fi.module)
                nxt = []
                for s, vs in states:
                    for s2, v in self.ev(d, s, mf):
                        vs2 = dict(vs)
                        vs2[p] = NONE if isinstance(v, Abrupt) else v
                        nxt.append((s2, vs2))
                states = nxt
                vars_ = states[0][1]
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in vars_ or d is None:
                continue
            from .interp import Frame
            nxt = []
            for s, vs in states:
                for s2, v in self.ev(d, s, fv.frame or Frame(0, None, None, fi.module)):
                    vs2 = dict(vs)
                    vs2[p.arg] = v
                    nxt.append((s2, vs2))
            states = nxt
        out = []
        for s, vs in states:
            miss = [p for p in params + kwonly if p not in vs]
            if miss:
                if unknown_kw is not None:
                    vs = dict(vs)
                    for p in miss:
                        vs[p] = T("sub", unknown_kw, K(p))
                    out.append((s, vs))
                else:
                    out.append(self.raise_new(s, "TypeError", fr, node, (K("arguments of %s" % fi.qualname),)))
            else:
                out.append((s, vs))
        return out

    def instantiate(self, st, cv, args, kwargs, node, fr):
        ci = cv.ci
        h = self.hooks.pkg_call(self, st, ci, None, args, kwargs)
        if h is not None:
            return h
        new = ci.find("__new__")
        if new and new[0] == "method" and not (self.active and self.active.count(new[1]) >= self.hooks.recursion):
            res = self.call_fn(st, FnV(new[1], None), None, [cv] + list(args), kwargs, node, fr)
        else:
            res = [(st, self.alloc(st, ci))]

        def init(s, o):
            if not isinstance(o, Ref):
                return [(s, o)]
            oc = s.obj(o).cls
            if not isinstance(oc, ClassInfo) or ci not in oc.mro:
                return [(s, o)]
            ini = oc.find("__init__")
            if ini and ini[0] == "method":
                return self.bind(self.call_fn(s, FnV(ini[1], None), o, args, kwargs, node, fr),
                                 lambda s2, _: [(s2, o)])
            ob = s.mut(o)
            if ob.kind == "exc":
                ob.f.setdefault("args", Tup(args))
            elif "dict" in oc.ext_bases and args:
                return self.bind(self.container_method(s, o, "update", list(args), kwargs, node, fr),
                                 lambda s2, _: [(s2, o)])
            elif "dict" in oc.ext_bases:
                for k, v in kwargs.items():
                    ob.d[K(k)] = v
            return [(s, o)]
        return self.bind(res, init)

    def alloc(self, st, ci):
        ebs = ci.ext_bases
        if "BaseException" in sum((exc_bases(b) for b in ebs if b != "object"), []) or any(
                b in ("Exception", "BaseException", "KeyboardInterrupt") for b in ebs):
            return st.new("exc", ci, {}, None, {"sub": False})
        if "dict" in ebs:
            return st.new("inst", ci, {}, {}, {})
        if "list" in ebs:
            return st.new("inst", ci, {}, (), {})
        return st.new("inst", ci)

    # -- generators and coroutines ---------------------------------------------
    def run_gen(self, st, ref, cb):
        """Run a generator, calling cb(state, value) at each yield; [(state, outcome)]."""
        g = st.obj(ref)
        if "comp" in g.meta:
            node, fr = g.meta["comp"], g.meta["frame"]
            cf = self.comp_frame(node, st, fr)

            def emit(s, f):
                return self.stmts_of(self.bind(self.ev(node.elt, s, cf), cb))
            return self.comp(node, st, cf, emit)
        f, fi = g.meta["frame"], g.meta["fn"]
        if self.active.count(fi) >= self.hooks.recursion + 2:
            return [(st, NORMAL)]
        saved = self.yield_cbs.get(f.oid)
        act = list(self.active)

        def wrapped(s, v):
            # the consumer runs in its own context
            mine = self.yield_cbs.get(f.oid)
            cur, self.active = self.active, list(act)
            try:
                return cb(s, v)
            finally:
                self.active = cur
                self.yield_cbs[f.oid] = mine
        self.yield_cbs[f.oid] = wrapped
        self.active.append(fi)
        try:
            res = self.exec_block(fi.node.body, st, f)
        finally:
            self.active.pop()
            if saved is None:
                self.yield_cbs.pop(f.oid, None)
            else:
                self.yield_cbs[f.oid] = saved
        return res

    def run_coro(self, st, ref):
        g = st.obj(ref)
        if g.meta.get("done"):
            return [(st, T("coroagain", ref))]
        st.mut(ref).meta["done"] = True
        return self.run_body(st, g.meta["fn"], g.meta["frame"])

    def await_(self, st, v, node, fr):
        v = st.res(v)
        if isinstance(v, Ref):
            ob = st.obj(v)
            if ob.kind == "coro":
                st.emit(Ev("enter_coro", "await", args=(v,), loc=self.loc(node, fr)))
                return self.run_coro(st, v)
            if ob.kind == "inst" and isinstance(ob.cls, ClassInfo) and ob.cls.find("__await__"):
                return self.bind(self.bind(self.getattr(st, v, "__await__", node, fr),
                                           lambda s, m: self.call(s, m, [], {}, node, fr)),
                                 lambda s, c: self.await_(s, c, node, fr))
        if self.hooks.eager_gens and isinstance(v, T) and v.op == "call" and isinstance(v.args[0], T) and v.args[0].op == "meth" \
                and v.args[0].args[1] == "__anext__":
            g = v.args[0].args[0]
            if isinstance(g, Ref) and st.obj(g).kind == "gen":
                return self.gen_next(st, g, node, fr)
        h = self.hooks.on_await(self, st, v)
        if h is not None:
            for s, r in h:
                s.emit(Ev("await", "await", args=(v,), res=None if isinstance(r, Abrupt) else r, loc=self.loc(node, fr)))
            return h
        res = T("awaited", v, st.nev)
        st.emit(Ev("await", "await", args=(v,), res=res, loc=self.loc(node, fr)))
        return [(st, res)]

    # -- iteration -------------------------------------------------------------
    def known_seq(self, st, v):
        """Elements of a sequence of known structure (may contain rest markers), or None."""
        v = st.res(v)
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, K) and isinstance(v.v, (str, bytes, tuple)):
            return tuple(K(x) for x in v.v)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ("list", "set"):
                return o.d
            if o.kind == "dict" and not o.meta.get("open"):
                return tuple(o.d.keys())
            if o.kind == "view":
                src, what = o.d
                d = st.obj(src)
                if d.d is None or d.meta.get("open") or not isinstance(d.d, dict):
                    return None
                if what == "keys":
                    return tuple(d.d.keys())
                if what == "values":
                    return tuple(d.d.values())
                return tuple(Tup((k, x)) for k, x in d.d.items())
            if o.kind == "iter":
                return o.d
            if o.kind == "inst" and isinstance(o.d, tuple) and not o.meta.get("open"):
                return o.d
        return None

    def iter_source(self, st, v):
        """The container whose mutation would disturb iterating v."""
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "view":
                return o.d[0]
            if o.kind in ("list", "dict", "set"):
                return v
            return None
        return v

    def iterate(self, st, v, body, node, fr, is_async=False):
        """Run body for the elements of v. body returns [(state, outcome)]."""
        v = st.res(v)
        h = self.hooks.iter_items(self, st, v)
        if h is not None:
            out = []
            for s, items in h:
                out.extend(self.iter_known(s, v, items, body, node, fr))
            return out
        seq = self.known_seq(st, v)
        if seq is not None and isinstance(v, Ref) and st.obj(v).kind == "iter" and not any(is_rest(i) for i in seq):
            return self.iter_consume(st, v, body)
        if seq is not None:
            return self.iter_known(st, v, seq, body, node, fr)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "calliter":
                return self.iter_calls(st, v, body, node, fr)
            if o.kind == "gen":
                if self.hooks.eager_gens:
                    return self.iter_queue(st, v, body, node, fr)
                return self.iter_gen(st, v, body)
            if o.kind == "dict" or o.kind == "view":
                src, what = (v, "keys") if o.kind == "dict" else o.d
                d = st.obj(src)
                if isinstance(d.d, dict):
                    known = {"keys": list(d.d.keys()), "values": list(d.d.values()),
                             "items": [Tup((k, x)) for k, x in d.d.items()]}[what]
                    unk = rest(T("view", src, what))
                    return self.iter_known(st, v, known + [unk], body, node, fr)
            if o.kind == "inst" and isinstance(o.cls, ClassInfo):
                if is_async and o.cls.find("__aiter__"):
                    return self.iter_protocol(st, v, body, node, fr, "__aiter__", "__anext__", "StopAsyncIteration")
                if not is_async and o.cls.find("__iter__"):
                    return self.iter_protocol(st, v, body, node, fr, "__iter__", "__next__", "StopIteration")
        return self.iter_known(st, v, [rest(v)], body, node, fr)

    def iter_protocol(self, st, v, body, node, fr, mi, mn, stop):
        out = []
        for s, it in self.bind(self.getattr(st, v, mi, node, fr), lambda s, m: self.call(s, m, [], {}, node, fr)):
            if isinstance(it, Abrupt):
                out.append((s, it.out))
                continue
            if isinstance(it, Ref) and s.obj(it).kind == "coro":
                # "async def __aiter__"
                for s2, it2 in self.run_coro(s, it):
                    out.extend(self.iter_next(s2, it2, body, node, fr, mn, stop))
                continue
            out.extend(self.iter_next(s, it, body, node, fr, mn, stop))
        return out

    def iter_next(self, st, it, body, node, fr, mn, stop):
        if not (isinstance(it, Ref) and st.obj(it).kind == "inst"):
            return self.iterate(st, it, body, node, fr, mn == "__anext__")
        out = []
        cur = [st]
        for i in range(self.hooks.loop_bound + 1):
            nxt = []
            for s in cur:
                rs = self.bind(self.getattr(s, it, mn, node, fr), lambda s2, m: self.call(s2, m, [], {}, node, fr))
                if mn == "__anext__":
                    rs = self.bind(rs, lambda s2, c: self.await_(s2, c, node, fr))
                for s2, v in rs:
                    if isinstance(v, Abrupt):
                        if v.out[0] == "raise":
                            for s3, hit in self.match_exc_classes(s2, v.out[1], [stop]):
                                out.append((s3, NORMAL if hit else v.out))
                        else:
                            out.append((s2, v.out))
                        continue
                    if i == self.hooks.loop_bound:
                        out.append((s2, ("cut",)))
                        continue
                    for s3, o in body(s2, v):
                        if o is NORMAL or o is CONTINUE:
                            nxt.append(s3)
                        else:
                            out.append((s3, o))
            cur = nxt
        return out

    def calliter_next(self, st, v, node, fr):
        """One step of iter(function, sentinel): [(state, value or None at the end)]."""
        ob = st.obj(v)
        fn, sentinel = ob.d
        out = []
        for s, x in self.call(st, fn, [], {}, node, fr):
            if isinstance(x, Abrupt):
                out.append((s, x))
                continue
            for s2, same in branch(s, mk_eq(s, x, sentinel)):
                out.append((s2, None if same else x))
        return out

    def iter_calls(self, st, v, body, node, fr):
        out, cur = [], [st]
        for i in range(self.hooks.while_bound + 1):
            nxt = []
            for s in cur:
                for s2, x in self.calliter_next(s, v, node, fr):
                    if x is None:
                        out.append((s2, NORMAL))
                    elif isinstance(x, Abrupt):
                        out.append((s2, x.out))
                    elif i == self.hooks.while_bound:
                        s2.emit(Ev("cut", "while", loc=self.loc(node, fr)))
                        out.append((s2, ("cut",)))
                    else:
                        for s3, o in body(s2, x):
                            if o is NORMAL or o is CONTINUE:
                                s3.emit(Ev("loop", "while", loc=self.loc(node, fr)))
                                nxt.append(s3)
                            else:
                                out.append((s3, o))
            cur = nxt
            self.limit(len(cur))
        return out

    def iter_gen(self, st, ref, body):
        def cb(s, val):
            res = []
            for s2, o in body(s, val):
                if o is NORMAL or o is CONTINUE:
                    res.append((s2, NONE))
                else:
                    res.append((s2, Abrupt(("unwind", o))))
            return res
        out = []
        for s, o in self.run_gen(st, ref, cb):
            if o[0] == "unwind":
                out.append((s, o[1]))
            elif o is NORMAL or o[0] == "return":
                out.append((s, NORMAL))
            else:
                out.append((s, o))
        return out

    def iter_queue(self, st, v, body, node, fr):
        """The elements of an eager generator, leaving those not asked for."""
        stop = "StopAsyncIteration" if st.obj(v).meta.get("async") else "StopIteration"
        out, cur = [], [st]
        while cur:
            nxt = []
            for s in cur:
                for s2, x in self.eager_next(s, v, node, fr):
                    if isinstance(x, Abrupt):
                        done = x.out[0] == "raise" and s2.obj(x.out[1]).cls == stop
                        out.append((s2, NORMAL if done else x.out))
                        continue
                    for s3, o in body(s2, x):
                        if o is NORMAL or o is CONTINUE:
                            nxt.append(s3)
                        else:
                            out.append((s3, o))
            cur = nxt
            self.limit(len(cur))
        return out

    def iter_consume(self, st, v, body):
        """Elements leave an iterator one by one; what is left when the loop is left stays."""
        out, cur = [], [st]
        while cur:
            nxt = []
            for s in cur:
                left = s.obj(v).d
                if not left:
                    out.append((s, NORMAL))
                    continue
                s.mut(v).d = tuple(left[1:])
                for s2, o in body(s, left[0]):
                    if o is NORMAL or o is CONTINUE:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            cur = nxt
            self.limit(len(cur))
        return out

    def iter_known(self, st, v, items, body, node, fr):
        src = self.iter_source(st, v)
        saved = st.live_iters
        st.live_iters = saved + (src,)
        st.emit(Ev("iter", "for", recv=src, loc=self.loc(node, fr)))
        out = []
        cur = [st]
        for it in items:
            nxt = []
            for s in cur:
                if is_rest(it):
                    nxt.extend(self.iter_rest(s, it, body, out, node, fr))
                    continue
                for s2, o in body(s, it):
                    if o is NORMAL or o is CONTINUE:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            cur = nxt
            self.limit(len(cur))
        out = [(s, o) for s, o in out] + [(s, NORMAL) for s in cur]
        for s, o in out:
            s.live_iters = saved
        return out

    def iter_rest(self, st, it, body, out, node, fr):
        """Zero or more iterations over unknown elements."""
        base = it.args[0]
        res = []
        cur = [st]
        for i in range(self.hooks.loop_bound + 1):
            if i == self.hooks.loop_bound:
                res.extend(cur)
                break
            nxt = []
            for s in cur:
                # is there another element?
                more = s.fork()
                s.note(("elements", base, i))
                if i == 0 and st_truth(s, base) is True:
                    pass
                else:
                    res.append(s)
                if i == 0 and st_truth(more, base) is False:
                    continue
                item = T("elem", base, K(i))
                for s2, o in body(more, item):
                    if o is NORMAL or o is CONTINUE:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            cur = nxt
        return res


def st_truth(st, base):
    t = conds.truth(st, base)
    if isinstance(t, K):
        return t.v
    if isinstance(t, T):
        return conds.decide(st, t)
    return None
