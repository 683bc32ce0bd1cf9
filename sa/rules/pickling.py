"""pickle, as an abstract walk over the objects of a scenario, using the reducers the package defines."""
import ast

from .envworld import *
from .calls_index import imports_of, dotted
from ..calls import *

ATOMS = (type(None), bool, int, float, str, bytes, complex)


class Unpicklable(Exception):
    def __init__(self, what, path):
        Exception.__init__(self, what)
        self.what, self.path = what, path


def registered(prog):
    """(metaclass, class or None, reducer) for the reducers given to copyreg.pickle."""
    out = []
    for m in prog.package:
        imp = imports_of(m.tree)

        def walk(n, cls):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.Call) and dotted(c.func, imp) in ("copyreg.pickle",) and len(c.args) > 1:
                    out.append((m, cls, c.args[0], c.args[1]))
                walk(c, c if isinstance(c, ast.ClassDef) else cls)
        walk(m.tree, None)
    return out


class Pickler(object):
    """hooks for pickle.dumps and pickle.loads."""

    def __init__(self, world):
        self.w, self.prog = world, world.prog
        self.reducers = {}
        for m, meta, what, fn in registered(self.prog):
            if not isinstance(fn, ast.Name):
                raise AnalysisError("the reducer is not a name")
            try:
                f = self.prog.func(m.rel, fn.id)
            except AnalysisError:
                raise AnalysisError("the reducer %s is not a function" % fn.id)
            self.reducers[(m.rel, meta.name if meta is not None else None, what.id if isinstance(what, ast.Name) else None)] = f
        E = world.hooks.ext
        E["pickle.dumps"] = self.dumps
        E["pickle.loads"] = self.loads
        E["base64.b64encode"] = lambda it, st, r, a, k: [(st, a[0])]
        E["base64.b64decode"] = lambda it, st, r, a, k: [(st, a[0])]
        base = self.prog.module("pipeline/running.py")
        self.local = set()
        for m in self.prog.package:
            for c in m.classes.values():
                if m.rel.startswith(("pipeline/running", "signalio/", "iterio")) or any(
                        getattr(b, "module", None) is base for b in c.mro):
                    self.local.add(c)
                elif m.rel == "environ.py" and "dict" in c.ext_bases:
                    self.local.add(c)

    def reducer(self, ci):
        """The function copyreg has for instances of this class."""
        for (rel, meta, what), f in self.reducers.items():
            if what is not None and meta is None and ci.name == what:
                return f
            if meta is not None:
                for c in ci.mro:
                    if isinstance(c, ClassInfo):
                        for k in c.node.keywords:
                            if k.arg == "metaclass" and isinstance(k.value, ast.Name) and k.value.id == meta:
                                return f
        return None

    def one(self, results, path):
        ok = [(s, v) for s, v in results if not isinstance(v, Abrupt)]
        if len(ok) != 1 or len(results) != 1:
            bad = [cls_name(exc_class(s, v)) for s, v in results if isinstance(v, Abrupt) and v.out[0] == "raise"]
            raise Unpicklable("reducing raises %s" % ", ".join(bad) if bad else "reducing has %d outcomes" % len(results), path)
        return ok[0]

    def lookup(self, it, st, o, name, path):
        """getattr(o, name, None), through the __getattr__ of the class."""
        res = it.getattr(st, o, name, None, it.main_fr)
        if len(res) == 1 and isinstance(res[0][1], Abrupt):
            s, v = res[0]
            if v.out[0] == "raise" and "AttributeError" in [cls_name(exc_class(s, v))]:
                return s, None
            raise Unpicklable("looking up %s raises %s" % (name, cls_name(exc_class(s, v)) if v.out[0] == "raise" else "?"), path)
        s, v = self.one(res, path)
        return s, v

    # a pickle is a tree of tuples; shared objects are shared by their number
    def dumps(self, it, st, recv, args, kwargs):
        memo = {}
        self.shared = {}
        try:
            st, tree = self.save(it, st, args[0], memo, ())
        except Unpicklable as e:
            st.emit(Ev("unpicklable", "dumps", args=(K(e.what), K(".".join(map(str, e.path))))))
            s, v = it.raise_new(st, "pickle.PicklingError")
            return [(s, v)]
        n = st.user.get("npickles", 0) + 1
        st.user["npickles"] = n
        text = ("PICKLE%d" % n).encode("ascii")
        st.user["pickles"] = st.user.get("pickles", ()) + ((text, tree, dict(self.shared)),)
        st.emit(Ev("pickled", "dumps", args=(args[0], K(text))))
        return [(st, K(text))]

    def loads(self, it, st, recv, args, kwargs):
        v = st.res(args[0])
        for text, tree, shared in st.user.get("pickles", ()):
            if v == K(text):
                try:
                    return [self.load(it, st, tree, shared, {}, ())]
                except Unpicklable as e:
                    st.emit(Ev("unpicklable", "loads", args=(K(e.what), K(".".join(map(str, e.path))))))
                    return [it.raise_new(st, "pickle.UnpicklingError")]
        return None

    def save(self, it, st, v, memo, path):
        v = st.res(v)
        if len(path) > 40:
            raise Unpicklable("the state does not end", path)
        if isinstance(v, K):
            if isinstance(v.v, ATOMS):
                return st, ("atom", v)
            raise Unpicklable("%r" % (v.v,), path)
        if isinstance(v, Tup):
            out = []
            for i, x in enumerate(v.items):
                st, t = self.save(it, st, x, memo, path + (i,))
                out.append(t)
            return st, ("tuple", tuple(out))
        if isinstance(v, ClsV):
            return st, ("global", v)
        if isinstance(v, FnV):
            if v.frame is not None and getattr(v.frame, "fi", None) is not None:
                raise Unpicklable("function %s" % v.fi.qualname, path)
            return st, ("global", v)
        if isinstance(v, Ext):
            return st, ("global", v)
        if isinstance(v, T):
            if st.tinfo.get(v) in ("str", "int", "bytes", "bool"):
                return st, ("atom", v)
            raise Unpicklable("%r" % (v,), path)
        if not isinstance(v, Ref):
            raise Unpicklable("%r" % (v,), path)
        o = st.obj(v)
        if v.oid in memo:
            return st, ("same", memo[v.oid])
        n = memo[v.oid] = len(memo)
        if o.cls in self.local or o.kind in ("future", "task", "coro", "gen", "iter"):
            name = o.cls.name if isinstance(o.cls, ClassInfo) else o.kind
            st.emit(Ev("localstate", name, args=(K(".".join(map(str, path))),)))
            self.shared[n] = ("object", None, None, None, None)
            return st, ("same", n)
        ci = o.cls if isinstance(o.cls, ClassInfo) else None
        items = None
        if o.kind in ("list", "set") or isinstance(o.d, tuple):
            items = list(o.d)
        elif isinstance(o.d, dict):
            items = [x for kv in o.d.items() for x in kv]
        if ci is None:
            if items is None or o.meta.get("open"):
                raise Unpicklable(o.kind, path)
            st, out = self.many(it, st, items, memo, path)
            self.shared[n] = (o.kind, None, None, None, tuple(out))
            return st, ("same", n)
        red = self.reducer(ci)
        if red is None:
            f = ci.find("__reduce_ex__") or ci.find("__reduce__")
            red = f[1] if f else None
        if red is not None:
            args = [v, K(4)] if red.name == "__reduce_ex__" else [v]
            st, r = self.one(it.call(st, FnV(red), args, {}, None, it.main_fr), path)
            r = st.res(r)
            parts = list(r.items) if isinstance(r, Tup) else None
            if not parts or len(parts) < 2:
                raise Unpicklable("the reduction is %r" % (r,), path)
            st, make = self.save(it, st, parts[0], memo, path + ("__new__",))
            st, a = self.save(it, st, parts[1], memo, path + ("__new__",))
            state = parts[2] if len(parts) > 2 else None
        else:
            make, a = None, ("tuple", ())
            st, get = self.lookup(it, st, v, "__getstate__", path)
            if get is not None:
                st, state = self.one(it.call(st, get, [], {}, None, it.main_fr), path)
            else:
                state = st.new("dict", None, {}, {K(k): x for k, x in st.obj(v).f.items()})
        tree = None
        if state is not None and st.res(state) != NONE:
            sv = st.res(state)
            d = st.obj(sv).d if isinstance(sv, Ref) else None
            if isinstance(d, dict):
                tree = []
                for k, x in d.items():
                    st, t = self.save(it, st, x, memo, path + (k.v if isinstance(k, K) else k,))
                    tree.append((k, t))
                tree = ("state", tuple(tree))
            else:
                st, tree = self.save(it, st, sv, memo, path)
        out = None
        if items is not None:
            st, out = self.many(it, st, items, memo, path)
        self.shared[n] = ("object", ci, (make, a), tree, None if out is None else (o.kind, tuple(out)))
        return st, ("same", n)

    def many(self, it, st, items, memo, path):
        out = []
        for i, x in enumerate(items):
            st, t = self.save(it, st, x, memo, path + (i,))
            out.append(t)
        return st, out

    def load(self, it, st, t, shared, made, path):
        if t[0] == "atom" or t[0] == "global":
            return st, t[1]
        if t[0] == "tuple":
            out = []
            for x in t[1]:
                st, y = self.load(it, st, x, shared, made, path)
                out.append(y)
            return st, Tup(out)
        n = t[1]
        if n in made:
            return st, made[n]
        kind, ci, make, state, items = shared[n]
        if kind != "object":
            st, v = self.container(it, st, kind, items, shared, made, n, path)
            return st, v
        if ci is None:
            made[n] = NONE
            return st, NONE
        if make[0] is None:
            v = it.alloc(st, ci)
            if items is not None:
                st.mut(v).d = {} if items[0] == "dict" else ()
        else:
            st, fn = self.load(it, st, make[0], shared, made, path)
            st, a = self.load(it, st, make[1], shared, made, path)
            st, v = self.one(it.call(st, fn, list(a.items), {}, None, it.main_fr), path)
        made[n] = v
        if items is not None:
            st, vals = self.all(it, st, items[1], shared, made, path)
            st.mut(v).d = dict(zip(vals[::2], vals[1::2])) if items[0] == "dict" else tuple(vals)
        if state is not None:
            if state[0] == "state":
                d = {}
                for k, x in state[1]:
                    st, y = self.load(it, st, x, shared, made, path + (k,))
                    d[k] = y
                sv = st.new("dict", None, {}, d)
            else:
                st, sv = self.load(it, st, state, shared, made, path)
            st, put = self.lookup(it, st, v, "__setstate__", path)
            if put is not None:
                st, _ = self.one(it.call(st, put, [sv], {}, None, it.main_fr), path)
            elif state[0] == "state":
                for k, x in d.items():
                    st.mut(v).f[k.v] = x
            else:
                raise Unpicklable("the state is no dictionary", path)
        return st, v

    def all(self, it, st, items, shared, made, path):
        out = []
        for x in items:
            st, y = self.load(it, st, x, shared, made, path)
            out.append(y)
        return st, out

    def container(self, it, st, kind, items, shared, made, n, path):
        v = st.new(kind, None, {}, {} if kind == "dict" else ())
        made[n] = v
        st, vals = self.all(it, st, items, shared, made, path)
        st.mut(v).d = dict(zip(vals[::2], vals[1::2])) if kind == "dict" else tuple(vals)
        return st, v
