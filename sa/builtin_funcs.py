"""Models of Python's builtin functions."""
import builtins
from .model import ClassInfo, AnalysisError
from .values import (V, K, T, Ref, Tup, Ext, ClsV, ModV, FnV, BM, Abrupt, NORMAL, BREAK, CONTINUE, NONE, TRUE, FALSE, rest, is_rest)
from .state import Ev, BUILTIN_TYPES
from . import conds
from .conds import mk_not, mk_eq, mk_lt, branch



class BuiltinFuncs(object):

    def bi_isinstance(self, st, args, kwargs, node, fr):
        return self.isinstance_value(st, args[0], args[1])

    def bi_issubclass(self, st, args, kwargs, node, fr):
        a, b = st.res(args[0]), st.res(args[1])
        if isinstance(a, ClsV):
            cs = b.items if isinstance(b, Tup) else [b]
            r = []
            for c in cs:
                if isinstance(c, ClsV):
                    r.append(c.ci in a.ci.mro)
                elif isinstance(c, Ext):
                    r.append(c.name in [m for m in a.ci.mro if isinstance(m, str)])
                else:
                    r.append(None)
            if True in r:
                return [(st, TRUE)]
            if None not in r:
                return [(st, FALSE)]
        return [(st, T("call", "issubclass", (a, b), None))]

    def bi_hasattr(self, st, args, kwargs, node, fr):
        n = st.res(args[1])
        if isinstance(n, K):
            return self.hasattr_(st, args[0], n.v, node, fr)
        return [(st, T("hasattr", args[0], n))]

    def bi_getattr(self, st, args, kwargs, node, fr):
        n = st.res(args[1])
        if isinstance(n, K) and isinstance(n.v, str):
            return self.getattr(st, args[0], n.v, node, fr, default=args[2] if len(args) > 2 else None)
        return [(st, self.opaque_call(st, "getattr", None, args, kwargs, node, fr))]

    def bi_setattr(self, st, args, kwargs, node, fr):
        n = st.res(args[1])
        if isinstance(n, K) and isinstance(n.v, str):
            return self.setattr(st, args[0], n.v, args[2], node, fr)
        st.emit(Ev("setattr", n, recv=args[0], args=(args[2],), loc=self.loc(node, fr)))
        return [(st, NONE)]

    def bi_delattr(self, st, args, kwargs, node, fr):
        n = st.res(args[1])
        if isinstance(n, K):
            return self.delattr(st, args[0], n.v, node, fr)
        return [(st, self.opaque_call(st, "delattr", None, args, kwargs, node, fr))]

    def bi_dir(self, st, args, kwargs, node, fr):
        if args and self.dunder(st, st.res(args[0]), "__dir__"):
            return self.bind(self.call_dunder(st, st.res(args[0]), "__dir__", [], node, fr),
                             lambda s, v: self.bi_sorted(s, [v], {}, node, fr))
        if args and st.res(args[0]) == Ext("builtins"):
            return [(st, st.new("list", None, None, tuple(K(x) for x in dir(builtins))))]
        return [(st, self.opaque_call(st, "dir", None, args, kwargs, node, fr))]

    def bi_len(self, st, args, kwargs, node, fr):
        v = st.res(args[0])
        if isinstance(v, K):
            try:
                return [(st, K(len(v.v)))]
            except TypeError:
                return [self.raise_new(st, "TypeError", fr, node)]
        seq = self.known_seq(st, v)
        if seq is not None and not (isinstance(v, Ref) and st.obj(v).kind in ("iter", "gen")):
            if not any(is_rest(x) for x in seq):
                return [(st, K(len(seq)))]
            if len(seq) == 1:
                return [(st, T("len", seq[0].args[0]))]
            return [(st, T("len", Tup(seq)))]
        if isinstance(v, Ref) and isinstance(st.obj(v).cls, ClassInfo) and st.obj(v).cls.find("__len__"):
            return self.bind(self.getattr(st, v, "__len__", node, fr), lambda s, m: self.call(s, m, [], {}, node, fr))
        if isinstance(v, Ref) and isinstance(st.obj(v).d, dict) and not st.obj(v).meta.get("open"):
            return [(st, K(len(st.obj(v).d)))]
        return [(st, T("len", v))]

    def bi_str(self, st, args, kwargs, node, fr):
        if not args:
            return [(st, K(""))]
        if len(args) > 1 or kwargs:
            v = st.res(args[0])
            return self.bind(self.getattr(st, v, "decode", node, fr),
                             lambda s, m: self.call(s, m, list(args[1:]), kwargs, node, fr))
        return self.to_str(st, args[0], node, fr)

    def bi_repr(self, st, args, kwargs, node, fr):
        return self.to_repr(st, args[0], node, fr)

    def bi_bytes(self, st, args, kwargs, node, fr):
        if not args:
            return [(st, K(b""))]
        v = st.res(args[0])
        if isinstance(v, K) and isinstance(v.v, bytes):
            return [(st, v)]
        if st.known_type(v) == "bytes":
            return [(st, v)]
        c = self.cls_of(st, v) if not isinstance(v, ClsV) else None
        f = c.find("__bytes__") if c is not None else None
        if f and f[0] == "method":
            return self.call_dunder(st, v, "__bytes__", [], node, fr)
        t = self.pure_call(st, "bytes", args, kwargs)
        st.tinfo[t] = "bytes"
        return [(st, t)]

    def bi_int(self, st, args, kwargs, node, fr):
        v = st.res(args[0]) if args else K(0)
        if isinstance(v, K) and len(args) <= 1:
            try:
                return [(st, K(int(v.v)))]
            except Exception as e:
                return [self.raise_new(st, type(e).__name__, fr, node)]
        if st.known_type(v) == "int":
            return [(st, v)]
        t = self.pure_call(st, "int", args, kwargs)
        st.tinfo[t] = "int"
        return [(st, t)]

    def bi_bool(self, st, args, kwargs, node, fr):
        return [(st, conds.truth(st, args[0]) if args else FALSE)]

    def mk_seq(self, st, kind, args, node, fr):
        if not args:
            return [(st, Tup(()) if kind == "tuple" else st.new(kind, None, None, ()))]

        def f(s, items):
            if kind == "set":
                uniq = []
                for x in items:
                    if x not in uniq:
                        uniq.append(x)
                items = uniq
            if kind == "tuple":
                return [(s, Tup(items))]
            return [(s, s.new(kind, None, None, tuple(items)))]
        return self.bind(self.elements(st, st.res(args[0]), node, fr), f)

    def bi_list(self, st, args, kwargs, node, fr):
        return self.mk_seq(st, "list", args, node, fr)

    def bi_tuple(self, st, args, kwargs, node, fr):
        return self.mk_seq(st, "tuple", args, node, fr)

    def bi_set(self, st, args, kwargs, node, fr):
        return self.mk_seq(st, "set", args, node, fr)
    bi_frozenset = bi_set

    def bi_dict(self, st, args, kwargs, node, fr):
        d = st.new("dict", None, None, {})
        kw = dict(kwargs)
        unk = kw.pop("**", None)
        a = list(args)
        if unk is not None:
            a.append(unk)
        if a and not (isinstance(a[0], Ref)):
            seq = self.known_seq(st, a[0])
            if seq is None:
                # a copy of something symbolic
                return self.bind(self.dict_method(st, d, "update", a, kw, node, fr), lambda s, _: [(s, d)])
        if a and isinstance(a[0], Ref) and not isinstance(st.obj(a[0]).d, dict):
            def f(s, items):
                l = s.new("list", None, None, tuple(items))
                return self.bind(self.dict_method(s, d, "update", [l] + a[1:], kw, node, fr), lambda s2, _: [(s2, d)])
            return self.bind(self.elements(st, a[0], node, fr), f)
        return self.bind(self.dict_method(st, d, "update", a, kw, node, fr), lambda s, _: [(s, d)])

    def bi_range(self, st, args, kwargs, node, fr):
        vs = [st.res(a) for a in args]
        if all(isinstance(v, K) for v in vs):
            try:
                r = range(*[v.v for v in vs])
            except Exception:
                return [self.raise_new(st, "TypeError", fr, node)]
            if len(r) <= 64:
                return [(st, Tup([K(i) for i in r]))]
        return [(st, T("call", "range", tuple(vs), None))]

    def bi_enumerate(self, st, args, kwargs, node, fr):
        v = st.res(args[0])
        start = args[1] if len(args) > 1 else kwargs.get("start", K(0))
        seq = self.known_seq(st, v)
        if seq is not None and not any(is_rest(x) for x in seq) and isinstance(start, K):
            return [(st, Tup([Tup((K(start.v + i), x)) for i, x in enumerate(seq)]))]
        return [(st, self.pure_call(st, "enumerate", args, kwargs))]

    def bi_zip(self, st, args, kwargs, node, fr):
        seqs = [self.known_seq(st, st.res(a)) for a in args]
        if all(s is not None and not any(is_rest(x) for x in s) for s in seqs):
            return [(st, Tup([Tup(x) for x in zip(*seqs)]))]
        return [(st, self.pure_call(st, "zip", args, kwargs))]

    def bi_map(self, st, args, kwargs, node, fr):
        fn = args[0]
        if len(args) != 2:
            return [(st, self.pure_call(st, "map", args, kwargs))]

        def each(s, items):
            res = [(s, [])]
            for x in items:
                if is_rest(x):
                    res = self.bind(res, lambda s2, acc: [(s2, acc + [rest(T("map", fn, x.args[0]))])])
                else:
                    res = self.bind(res, lambda s2, acc: self.bind(
                        self.call(s2, fn, [x], {}, node, fr), lambda s3, v: [(s3, acc + [v])]))
            return self.bind(res, lambda s2, acc: [(s2, s2.new("iter", None, {}, tuple(acc)))])
        return self.bind(self.elements(st, st.res(args[1]), node, fr), each)

    def bi_filter(self, st, args, kwargs, node, fr):
        fn = args[0]

        def each(s, items):
            res = [(s, [])]
            for x in items:
                if is_rest(x):
                    res = self.bind(res, lambda s2, acc: [(s2, acc + [rest(T("filter", fn, x.args[0]))])])
                    continue

                def one(s2, acc):
                    rs = [(s2, x)] if fn == NONE else self.call(s2, fn, [x], {}, node, fr)
                    return self.bind(rs, lambda s3, v: [(s4, acc + [x] if b else acc) for s4, b in branch(s3, v)])
                res = self.bind(res, one)
            return self.bind(res, lambda s2, acc: [(s2, s2.new("iter", None, {}, tuple(acc)))])
        return self.bind(self.elements(st, st.res(args[1]), node, fr), each)

    def bi_reversed(self, st, args, kwargs, node, fr):
        seq = self.known_seq(st, st.res(args[0]))
        if seq is not None:
            return [(st, st.new("iter", None, {}, tuple(reversed(seq))))]
        return [(st, self.pure_call(st, "reversed", args, kwargs))]

    def bi_memoryview(self, st, args, kwargs, node, fr):
        v = st.res(args[0]) if args else None
        if isinstance(v, K) and isinstance(v.v, (bytes, bytearray)):
            return [(st, K(bytes(v.v)))]
        return [(st, self.pure_call(st, "memoryview", args, {}))]

    def bi_sorted(self, st, args, kwargs, node, fr):
        seq = self.known_seq(st, st.res(args[0]))
        if seq is not None and not kwargs:
            if len(seq) <= 1 and not any(is_rest(x) for x in seq):
                return [(st, st.new("list", None, None, tuple(seq)))]
            if all(isinstance(x, K) for x in seq):
                try:
                    return [(st, st.new("list", None, None, tuple(K(v) for v in sorted(x.v for x in seq))))]
                except TypeError:
                    pass
        if seq is not None:
            # some order of the same elements
            return [(st, st.new("list", None, None, tuple(seq)))]
        t = self.pure_call(st, "sorted", args, {})
        return [(st, t)]

    def quant(self, st, args, node, fr, is_any):
        acc = st.new("list", None, None, ())

        def body(s, item):
            if is_rest(item):
                item = T("any" if is_any else "all", item.args[0])
            out = []
            for s2, b in branch(s, item):
                out.append((s2, ("return", K(is_any))) if b == is_any else (s2, NORMAL))
            return out
        out = []
        for s, o in self.iterate(st, st.res(args[0]), body, node, fr):
            if o is NORMAL or o is NORMAL:
                out.append((s, K(not is_any)))
            elif o[0] == "return":
                out.append((s, o[1]))
            else:
                out.append((s, Abrupt(o)))
        return out

    def bi_any(self, st, args, kwargs, node, fr):
        return self.quant(st, args, node, fr, True)

    def bi_all(self, st, args, kwargs, node, fr):
        return self.quant(st, args, node, fr, False)

    def bi_sum(self, st, args, kwargs, node, fr):
        seq = self.known_seq(st, st.res(args[0]))
        if seq is not None and not any(is_rest(x) for x in seq):
            import ast
            add = ast.Add()
            res = [(st, args[1] if len(args) > 1 else kwargs.get("start", K(0)))]
            for x in seq:
                res = self.bind(res, lambda s, acc: self.binop(s, add, acc, x, node, fr))
            return res
        return [(st, self.pure_call(st, "sum", args, kwargs))]

    def minmax(self, st, args, kwargs, name):
        vs = [st.res(a) for a in args]
        if len(vs) == 1:
            seq = self.known_seq(st, vs[0])
            if seq is not None:
                vs = list(seq)
        if vs and all(isinstance(v, K) for v in vs) and not kwargs:
            try:
                return [(st, K((min if name == "min" else max)(v.v for v in vs)))]
            except Exception:
                pass
        return [(st, self.pure_call(st, name, args, kwargs))]

    def bi_min(self, st, args, kwargs, node, fr):
        return self.minmax(st, args, kwargs, "min")

    def bi_max(self, st, args, kwargs, node, fr):
        return self.minmax(st, args, kwargs, "max")

    def bi_iter(self, st, args, kwargs, node, fr):
        v = st.res(args[0])
        if len(args) > 1:
            return [(st, st.new("calliter", None, {}, (v, st.res(args[1]))))]
        if isinstance(v, Ref):
            ob = st.obj(v)
            if ob.kind in ("gen", "iter", "calliter"):
                return [(st, v)]
            if isinstance(ob.cls, ClassInfo) and ob.cls.find("__iter__") and ob.kind == "inst":
                return self.bind(self.getattr(st, v, "__iter__", node, fr),
                                 lambda s, m: self.call(s, m, [], {}, node, fr))
        seq = self.known_seq(st, v)
        if seq is not None:
            return [(st, st.new("iter", None, {}, tuple(seq)))]
        if isinstance(v, K):
            return [self.raise_new(st, "TypeError", fr, node)]
        out = []
        for cls in self.hooks.raises(self, st, "iter", v, [v]):
            s = st.fork()
            out.append(self.raise_new(s, cls if not isinstance(cls, tuple) else cls[0], fr, node))
        return out + [(st, self.pure_call(st, "iter", args, kwargs))]

    def bi_next(self, st, args, kwargs, node, fr):
        v = st.res(args[0])
        dflt = args[1] if len(args) > 1 else None
        stop = lambda s: [(s, dflt)] if dflt is not None else [self.raise_new(s, "StopIteration", fr, node)]
        if isinstance(v, Ref):
            ob = st.obj(v)
            if ob.kind == "calliter":
                out = []
                for s, x in self.calliter_next(st, v, node, fr):
                    out.extend(stop(s) if x is None else [(s, x)])
                return out
            if ob.kind == "iter":
                items = list(ob.d)
                if not items:
                    return stop(st)
                if not is_rest(items[0]):
                    st.mut(v).d = tuple(items[1:])
                    return [(st, items[0])]
                base = items[0].args[0]
                n = ob.meta.get("n", 0)
                a = st.fork()
                out = []
                a.mut(v).meta["n"] = n + 1
                out.append((a, T("elem", base, K(n))))
                st.mut(v).d = tuple(items[1:])
                return out + self.bi_next(st, args, kwargs, node, fr)
            if ob.kind == "inst" and isinstance(ob.cls, ClassInfo) and ob.cls.find("__next__"):
                res = self.bind(self.getattr(st, v, "__next__", node, fr),
                                lambda s, m: self.call(s, m, [], {}, node, fr))
                if dflt is None:
                    return res
                out = []
                for s, x in res:
                    if isinstance(x, Abrupt) and x.out[0] == "raise" and \
                            conds.isinstance_of(s, x.out[1], "StopIteration") is True:
                        out.append((s, dflt))
                    else:
                        out.append((s, x))
                return out
            if ob.kind == "gen":
                res = self.gen_next(st, v, node, fr)
                return res if dflt is None else [
                    (s, dflt if isinstance(x, Abrupt) and x.out[0] == "raise"
                     and s.obj(x.out[1]).cls == "StopIteration" else x) for s, x in res]
        s2 = st.fork()
        s2.emit(Ev("exhausted", "next", args=(v,), loc=self.loc(node, fr)))
        x = self.opaque_call(st, "next", None, [v], {}, node, fr)
        out = [(st, x)] + stop(s2)
        for cls in self.hooks.raises(self, st, "next", v, [v]):
            s = st.fork()
            c, sub = cls if isinstance(cls, tuple) else (cls, True)
            out.append(self.raise_new(s, c, fr, node, sub=sub))
        return out

    def gen_next(self, st, v, node, fr):
        """First element of a generator that has not been started."""
        if self.hooks.eager_gens:
            return self.eager_next(st, v, node, fr)
        n = st.obj(v).meta.get("nexted", 0)
        if n:
            s2 = st.fork()
            return [(st, self.opaque_call(st, "next", None, [v], {}, node, fr)),
                    self.raise_new(s2, "StopIteration", fr, node)]
        out = []
        st.mut(v).meta["nexted"] = 1

        def cb(s, val):
            return [(s, Abrupt(("unwind", ("return", val))))]
        for s, o in self.run_gen(st, v, cb):
            if o[0] == "unwind":
                out.append((s, o[1][1]))
            elif o is NORMAL or o[0] == "return":
                out.append(self.raise_new(s, "StopIteration", fr, node))
            else:
                out.append((s, Abrupt(o)))
        return out

    def eager_next(self, st, v, node, fr):
        """Next element of a generator that is run to its end when it is started."""
        stop = "StopAsyncIteration" if st.obj(v).meta.get("async") else "StopIteration"
        out = []
        if "queue" in st.obj(v).meta:
            ran = [(st, NORMAL)]
        else:
            def cb(s, val):
                s.mut(v).meta["queue"] += (val,)
                return [(s, NONE)]
            st.mut(v).meta["queue"] = ()
            ran = self.run_gen(st, v, cb)
        for s, o in ran:
            if o[0] == "raise":
                s.mut(v).meta["failed"] = o
            elif o is not NORMAL and o[0] != "return":
                out.append((s, Abrupt(o)))
                continue
            m = s.mut(v).meta
            if m["queue"]:
                x, m["queue"] = m["queue"][0], m["queue"][1:]
                out.append((s, x))
            elif m.get("failed"):
                o, m["failed"] = m["failed"], None
                out.append((s, Abrupt(o)))
            else:
                out.append(self.raise_new(s, stop, fr, node))
        return out

    def bi_type(self, st, args, kwargs, node, fr):
        if len(args) != 1:
            return [(st, self.opaque_call(st, "type", None, args, kwargs, node, fr))]
        v = st.res(args[0])
        c = self.cls_of(st, v) if not isinstance(v, ClsV) else None
        if c is not None:
            return [(st, ClsV(c))]
        if isinstance(v, ClsV):
            m = self.metaclass(v.ci)
            return [(st, ClsV(m) if m is not None else Ext("type"))]
        kt = st.known_type(v)
        if isinstance(kt, str) and kt in BUILTIN_TYPES and kt != "NoneType":
            return [(st, Ext(kt))]
        if isinstance(kt, str) and isinstance(v, Ref) and st.obj(v).kind == "exc" and not st.obj(v).meta.get("sub"):
            return [(st, Ext(kt))]
        return [(st, T("call", "type", (v,), None))]

    def bi_id(self, st, args, kwargs, node, fr):
        return [(st, T("call", "id", tuple(args), None))]

    def bi_print(self, st, args, kwargs, node, fr):
        return [(st, self.opaque_call(st, "print", None, args, kwargs, node, fr) and NONE)]

    def bi_callable(self, st, args, kwargs, node, fr):
        v = st.res(args[0])
        if isinstance(v, (FnV, BM, ClsV)):
            return [(st, TRUE)]
        if isinstance(v, (K, Tup, ModV)):
            return [(st, FALSE)]
        c = self.cls_of(st, v)
        if c is not None:
            return [(st, K(bool(c.find("__call__"))))]
        if isinstance(v, Ref) and st.obj(v).kind in ("list", "dict", "set", "iter", "gen", "calliter", "coro"):
            return [(st, FALSE)]
        return [(st, self.pure_call(st, "callable", args, {}))]

    def bi_object(self, st, args, kwargs, node, fr):
        return [(st, st.new("inst", "object"))]

    def bi_vars(self, st, args, kwargs, node, fr):
        return self.getattr(st, args[0], "__dict__", node, fr) if args else [
            (st, self.opaque_call(st, "vars", None, args, kwargs, node, fr))]

    def bi_functools_partial(self, st, args, kwargs, node, fr):
        return [(st, st.new("partial", None, {}, None, {"fn": args[0], "args": tuple(args[1:]), "kwargs": dict(kwargs)}))]

    def bi_functools_reduce(self, st, args, kwargs, node, fr):
        def fold(s, items):
            if any(is_rest(x) for x in items):
                return [(s, self.pure_call(s, "functools.reduce", args, kwargs))]
            items = list(args[2:]) + items
            if not items:
                return [self.raise_new(s, "TypeError", fr, node)]
            res = [(s, items[0])]
            for x in items[1:]:
                res = self.bind(res, lambda s2, acc: self.call(s2, args[0], [acc, x], {}, node, fr))
            return res
        return self.bind(self.elements(st, st.res(args[1]), node, fr), fold)

    def bi_collections_deque(self, st, args, kwargs, node, fr):
        if kwargs or len(args) > 1:
            return [(st, self.opaque_call(st, "collections.deque", None, args, kwargs, node, fr))]
        return self.bi_list(st, args, kwargs, node, fr)

    def bi_collections_OrderedDict(self, st, args, kwargs, node, fr):
        return self.bi_dict(st, args, kwargs, node, fr)

    def bi_collections_defaultdict(self, st, args, kwargs, node, fr):
        def with_factory(s, d):
            if args and args[0] != NONE:
                s.mut(d).meta["factory"] = args[0]
            return [(s, d)]
        return self.bind(self.bi_dict(st, args[1:], kwargs, node, fr), with_factory)

    def getter(self, st, args, one):
        def get(s, vals, node, fr):
            res = [(s, [])]
            for a in args:
                res = self.bind(res, lambda s2, acc: self.bind(one(s2, vals[0], a, node, fr), lambda s3, v: [(s3, acc + [v])]))
            return self.bind(res, lambda s2, vs: [(s2, vs[0] if len(vs) == 1 else Tup(vs))])
        return [(st, st.new("getter", None, {}, None, {"get": get}))]

    def bi_operator_itemgetter(self, st, args, kwargs, node, fr):
        return self.getter(st, args, lambda s, o, a, node, fr: self.getitem(s, o, a, node, fr))

    def bi_operator_attrgetter(self, st, args, kwargs, node, fr):
        def one(s, o, a, node, fr):
            res = [(s, o)]
            for part in s.res(a).v.split("."):
                res = self.bind(res, lambda s2, v: self.getattr(s2, v, part, node, fr))
            return res
        if not all(isinstance(st.res(a), K) for a in args):
            return [(st, self.opaque_call(st, "operator.attrgetter", None, args, kwargs, node, fr))]
        return self.getter(st, args, one)

    def bi_operator_methodcaller(self, st, args, kwargs, node, fr):
        rest_ = list(args[1:])
        return self.getter(st, args[:1], lambda s, o, a, node, fr: self.bind(
            self.getattr(s, o, s.res(a).v, node, fr), lambda s2, m: self.call(s2, m, rest_, dict(kwargs), node, fr)))

    def bi_itertools_islice(self, st, args, kwargs, node, fr):
        src, lim = st.res(args[0]), [st.res(a) for a in args[1:]]
        seq = self.known_seq(st, src)
        if seq is None or any(is_rest(x) for x in seq) or not all(isinstance(x, K) for x in lim) or (
                isinstance(src, Ref) and st.obj(src).kind == "iter"):
            return [(st, self.opaque_call(st, "itertools.islice", None, args, kwargs, node, fr))]
        return [(st, st.new("iter", None, {}, tuple(seq[slice(*[x.v for x in lim])])))]

    def bi_itertools_starmap(self, st, args, kwargs, node, fr):
        def each(s, items):
            res = [(s, [])]
            for x in items:
                res = self.bind(res, lambda s2, acc: self.bind(
                    self.bind(self.elements(s2, s2.res(x), node, fr), lambda s3, xs: self.call(s3, args[0], xs, {}, node, fr)),
                    lambda s3, v: [(s3, acc + [v])]))
            return self.bind(res, lambda s2, acc: [(s2, s2.new("iter", None, {}, tuple(acc)))])
        return self.bind(self.elements(st, st.res(args[1]), node, fr), each)

    def bi_itertools_chain(self, st, args, kwargs, node, fr):
        res = [(st, [])]
        for a in args:
            res = self.bind(res, lambda s, acc: self.bind(self.elements(s, s.res(a), node, fr),
                                                          lambda s2, items: [(s2, acc + items)]))
        return self.bind(res, lambda s, acc: [(s, s.new("iter", None, {}, tuple(acc)))])

    def bi_itertools_chain_from_iterable(self, st, args, kwargs, node, fr):
        acc = st.new("list", None, None, ())

        def inner(s, item):
            self.acc_add(s, acc, item)
            return [(s, NORMAL)]

        def outer(s, item):
            return self.iterate(s, s.res(item), inner, node, fr)
        return [(s, s.new("iter", None, {}, tuple(s.obj(acc).d)) if o is NORMAL else Abrupt(o))
                for s, o in self.iterate(st, st.res(args[0]), outer, node, fr)]

    def bi_contextlib_ExitStack(self, st, args, kwargs, node, fr):
        return [(st, st.new("exitstack", None, {}, ()))]

    def exitstack_method(self, st, recv, name, args, kwargs, node, fr):
        if name == "callback":
            st.mut(recv).d += ((args[0], tuple(args[1:]), tuple(kwargs.items())),)
            return [(st, args[0])]
        if name == "enter_context":
            cm = st.res(args[0])
            if isinstance(cm, Ref) and st.obj(cm).kind == "inst" and isinstance(st.obj(cm).cls, ClassInfo):
                def push(s, v):
                    def with_exit(s2, ex):
                        s2.mut(recv).d += ((ex, (NONE, NONE, NONE), ()),)
                        return [(s2, v)]
                    return self.bind(self.getattr(s, cm, "__exit__", node, fr), with_exit)
                rs = self.bind(self.getattr(st, cm, "__enter__", node, fr), lambda s, m: self.call(s, m, [], {}, node, fr))
                return self.bind(rs, push)
            if isinstance(cm, Ref):
                raise AnalysisError("ExitStack.enter_context of %s at %s" % (st.obj(cm).kind, self.loc(node, fr)))
            st.emit(Ev("enter", "with", recv=cm, loc=self.loc(node, fr)))
            st.mut(recv).d += ((cm, None, ()),)
            return [(st, cm)]
        if name == "close":
            return [(s, NONE if o is NORMAL else Abrupt(o)) for s, o in self.exitstack_close(st, recv, NORMAL, node, fr)]
        raise AnalysisError("ExitStack.%s at %s" % (name, self.loc(node, fr)))

    def exitstack_close(self, st, cm, outcome, node, fr):
        """Run what was registered, last first: [(state, outcome)]."""
        todo = st.obj(cm).d
        st.mut(cm).d = ()
        cur = [(st, outcome)]
        for fn, args, kw in reversed(todo):
            nxt = []
            for s, o in cur:
                if o[0] == "stop":
                    nxt.append((s, o))
                elif args is None:
                    s.emit(Ev("exit", "with", recv=fn, loc=self.loc(node, fr)))
                    nxt.append((s, o))
                else:
                    for s2, v in self.call(s, fn, list(args), dict(kw), node, fr):
                        nxt.append((s2, v.out if isinstance(v, Abrupt) else o))
            cur = nxt
        return cur

    def bi_contextlib_suppress(self, st, args, kwargs, node, fr):
        return [(st, st.new("suppress", None, {}, tuple(args)))]

    def bi_copy_copy(self, st, args, kwargs, node, fr):
        v = st.res(args[0])
        if isinstance(v, Ref):
            ob = st.obj(v)
            if ob.kind in ("list", "dict", "set"):
                d = dict(ob.d) if isinstance(ob.d, dict) else tuple(ob.d)
                return [(st, st.new(ob.kind, None, None, d, dict(ob.meta)))]
            if ob.kind == "inst" and isinstance(ob.cls, ClassInfo):
                if self.dunder(st, v, "__copy__"):
                    return self.call_dunder(st, v, "__copy__", [], node, fr)
                if not any(self.dunder(st, v, n) for n in ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__")):
                    d = dict(ob.d) if isinstance(ob.d, dict) else ob.d
                    return [(st, st.new("inst", ob.cls, dict(ob.f), d, dict(ob.meta)))]
        if isinstance(v, (K, Tup)):
            return [(st, v)]
        return [(st, self.pure_call(st, "copy.copy", args, kwargs))]

    def bi_copy_deepcopy(self, st, args, kwargs, node, fr):
        memo = {}

        def deep(s, v):
            v = s.res(v)
            if v in memo:
                return [(s, memo[v])]
            if isinstance(v, Tup):
                return self.bind(many(s, v.items), lambda s2, vs: [(s2, Tup(vs))])
            if not isinstance(v, Ref):
                return [(s, v)]
            ob = s.obj(v)
            if ob.kind == "inst" and isinstance(ob.cls, ClassInfo):
                f = self.dunder(s, v, "__deepcopy__")
                if f:
                    return self.call_dunder(s, v, "__deepcopy__", [s.new("dict", None, None, {})], node, fr)
                if any(self.dunder(s, v, n) for n in ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__")):
                    return [(s, self.pure_call(s, "copy.deepcopy", [v], {}))]
            elif ob.kind not in ("list", "dict", "set"):
                return [(s, self.pure_call(s, "copy.deepcopy", [v], {}))]
            new = memo[v] = s.new(ob.kind, ob.cls, {}, {} if isinstance(ob.d, dict) else ob.d, dict(ob.meta))
            names = list(ob.f or {})
            ks, xs = (list(ob.d), list(ob.d.values())) if isinstance(ob.d, dict) else ([], list(ob.d or ()))

            def fill(s2, vs):
                o = s2.mut(new)
                o.f = dict(zip(names, vs))
                if isinstance(ob.d, dict):
                    o.d = dict(zip(vs[len(names):len(names) + len(ks)], vs[len(names) + len(ks):]))
                elif ob.d is not None:
                    o.d = tuple(vs[len(names):])
                return [(s2, new)]
            return self.bind(many(s, [ob.f[n] for n in names] + ks + xs), fill)

        def many(s, items):
            res = [(s, [])]
            for i in items:
                res = self.bind(res, lambda s2, acc, i=i: self.bind(deep(s2, i), lambda s3, y: [(s3, acc + [y])]))
            return res
        return deep(st, args[0])

    def bi_type___new__(self, st, args, kwargs, node, fr):
        """The pipelines' trick of making every object a class: an instance of cls all the same."""
        c = st.res(args[0]) if args else None
        if isinstance(c, ClsV):
            return [(st, self.alloc(st, c.ci))]
        return [(st, self.opaque_call(st, "type.__new__", None, args, kwargs, node, fr))]
