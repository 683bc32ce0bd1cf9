"""Path-enumerating abstract interpreter: statements and expressions.

Functions take ownership of the state they are given and return a list of (state, result)."""
import ast
import time

from .model import ClassInfo, FuncInfo, Module, AnalysisError, FUNCS
from .values import (V, K, T, Ref, Tup, Ext, ClsV, ModV, FnV, BM, Abrupt, NORMAL, BREAK, CONTINUE, NONE, TRUE, FALSE, rest, is_rest)
from .state import State, Obj, Ev, exc_bases, exc_norm
from . import conds
from .conds import branch, mk_not, mk_eq, mk_is, mk_lt
from .calls import CallMixin
from .builtin_model import BuiltinMixin

BUILTINS = Ext("builtins")

DEADLINE = time.time() + 800


class Frame(object):
    __slots__ = ("oid", "fi", "parent", "module", "cls", "inst")

    def __init__(self, oid, fi, parent, module, cls=None):
        self.oid, self.fi, self.parent, self.module, self.cls = oid, fi, parent, module, cls


class Hooks(object):
    """What a rule can plug into the interpreter."""
    loop_bound = 2
    while_bound = 2
    max_states = 60000
    max_depth = 100
    recursion = 2
    endless = False         # recursion beyond that never ends
    eager_gens = False      # generators that are asked item by item run to their end the first time
    follow_log = None       # evaluate what is logged in modules so named
    asserts_raise = False

    def ext_call(self, it, st, name, recv, args, kwargs):
        """None, or a list of (state, value)."""
        return None

    def raises(self, it, st, name, recv, args):
        """Exception classes injected at this external call."""
        return ()

    def failed(self, it, st, v):
        """An injected failure is about to be raised."""
        return v

    def pkg_call(self, it, st, fi, slf, args, kwargs):
        """None, or a list of (state, value): summary instead of inlining."""
        return None

    def on_await(self, it, st, v):
        return None

    def attr(self, it, st, v, name):
        """Value of an attribute of a symbolic value, or None."""
        return None

    def iter_items(self, it, st, v):
        """None, or a list of (state, [items])."""
        return None

    def glob(self, it, st, module, name):
        """Value of a module-level name that has no single definition, or None."""
        return None


class Interp(CallMixin, BuiltinMixin):
    def __init__(self, prog, hooks=None):
        self.prog = prog
        self.hooks = hooks or Hooks()
        self.yield_cbs = {}
        self.active = []
        self.nstates = 0
        self.inlined = set()
        self.ext_seen = set()
        self.unsupported = set()
        self.importing = False

    # -- locations ------------------------------------------------------------
    def loc(self, node, fr):
        return "%s:%s:%d" % (fr.module.rel, fr.fi.qualname if fr.fi else "<module>", getattr(node, "lineno", 0))

    # -- sequencing helpers ---------------------------------------------------
    def bind(self, results, f):
        out = []
        for st, v in results:
            if isinstance(v, Abrupt):
                out.append((st, v))
            else:
                out.extend(f(st, v))
        return out

    def ev_list(self, exprs, st, fr):
        """Evaluate expressions in order: [(state, [values])]."""
        acc = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in acc:
                if isinstance(vs, Abrupt):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, v) if isinstance(v, Abrupt) else (s2, vs + [v]))
            acc = nxt
        return acc

    def raise_new(self, st, cls, fr=None, node=None, args=(), sub=False):
        e = st.new("exc", cls, {"args": Tup(args)}, None, {"sub": sub, "loc": self.loc(node, fr) if fr else None})
        return (st, Abrupt(("raise", e)))

    # -- statements -----------------------------------------------------------
    def exec_block(self, stmts, st, fr):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for st1 in cur:
                for st2, out in self.exec_stmt(s, st1, fr):
                    if out is NORMAL:
                        nxt.append(st2)
                    else:
                        done.append((st2, out))
            cur = nxt
            if not cur:
                break
            self.limit(len(cur))
        return [(s, NORMAL) for s in cur] + done

    def limit(self, n):
        self.nstates = max(self.nstates, n)
        if time.time() > DEADLINE:
            raise AnalysisError("out of time")
        if n > self.hooks.max_states:
            raise AnalysisError("too many paths (%d)" % n)

    def stmts_of(self, results):
        """Expression results as statement results."""
        return [(st, v.out if isinstance(v, Abrupt) else NORMAL) for st, v in results]

    def exec_stmt(self, node, st, fr):
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            self.unsupported.add(type(node).__name__)
            raise AnalysisError("unsupported statement %s at %s" % (type(node).__name__, self.loc(node, fr)))
        return m(node, st, fr)

    def st_Pass(self, node, st, fr):
        return [(st, NORMAL)]

    def st_Global(self, node, st, fr):
        return [(st, NORMAL)]
    st_Nonlocal = st_Global

    def st_Break(self, node, st, fr):
        return [(st, BREAK)]

    def st_Continue(self, node, st, fr):
        return [(st, CONTINUE)]

    def st_Expr(self, node, st, fr):
        return self.stmts_of(self.ev(node.value, st, fr))

    def st_Return(self, node, st, fr):
        if node.value is None:
            return [(st, ("return", NONE))]
        return [(s, v.out if isinstance(v, Abrupt) else ("return", v)) for s, v in self.ev(node.value, st, fr)]

    def st_Assign(self, node, st, fr):
        out = []
        for s, v in self.ev(node.value, st, fr):
            if isinstance(v, Abrupt):
                out.append((s, v.out))
                continue
            cur = [(s, NORMAL)]
            for t in node.targets:
                nxt = []
                for s2, o in cur:
                    nxt.extend(self.assign(t, v, s2, fr) if o is NORMAL else [(s2, o)])
                cur = nxt
            out.extend(cur)
        return out

    def st_AnnAssign(self, node, st, fr):
        if node.value is None:
            return [(st, NORMAL)]
        out = []
        for s, v in self.ev(node.value, st, fr):
            out.extend([(s, v.out)] if isinstance(v, Abrupt) else self.assign(node.target, v, s, fr))
        return out

    def st_AugAssign(self, node, st, fr):
        t = node.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        out = []
        for s, vs in self.ev_list([load, node.value], st, fr):
            if isinstance(vs, Abrupt):
                out.append((s, vs.out))
                continue
            a, b = vs
            if isinstance(a, Ref) and s.obj(a).kind == "list" and isinstance(node.op, ast.Add):
                rs = self.bind(self.call_builtin_method(s, a, "extend", [b], {}, node, fr), lambda s2, _: [(s2, a)])
            else:
                rs = self.binop(s, node.op, a, b, node, fr)
            for s2, v in rs:
                out.extend([(s2, v.out)] if isinstance(v, Abrupt) else self.assign(t, v, s2, fr))
        return out

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
            return [(st, NORMAL)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, ast.Attribute):
            return self.stmts_of(self.bind(self.ev(t.value, st, fr),
                                           lambda s, o: self.setattr(s, o, t.attr, v, t, fr)))
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                parts = [x for x in (t.slice.lower, t.slice.upper, t.slice.step) if x is not None]

                def f(s, vs):
                    def get(x):
                        return vs[1 + parts.index(x)] if x is not None else NONE
                    sl = T("slice", get(t.slice.lower), get(t.slice.upper), get(t.slice.step))
                    return self.setitem(s, vs[0], sl, v, t, fr)
                return self.stmts_of(self.bind(self.ev_list([t.value] + parts, st, fr), f))
            return self.stmts_of(self.bind(self.ev_list([t.value, t.slice], st, fr),
                                           lambda s, vs: self.setitem(s, vs[0], vs[1], v, t, fr)))
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            out = []
            for s, items in self.unpack(st, v, n, star[0] if star else None, t, fr):
                if isinstance(items, Abrupt):
                    out.append((s, items.out))
                    continue
                cur = [(s, NORMAL)]
                for e, iv in zip(t.elts, items):
                    nxt = []
                    for s2, o in cur:
                        nxt.extend(self.assign(e, iv, s2, fr) if o is NORMAL else [(s2, o)])
                    cur = nxt
                out.extend(cur)
            return out
        raise AnalysisError("unsupported assignment target at %s" % self.loc(t, fr))

    def unpack(self, st, v, n, star, node, fr):
        v = st.res(v)
        seq = self.known_seq(st, v)
        if seq is not None and not any(is_rest(x) for x in seq):
            if star is None:
                if len(seq) != n:
                    return [self.raise_new(st, "ValueError", fr, node)]
                return [(st, list(seq))]
            if len(seq) < n - 1:
                return [self.raise_new(st, "ValueError", fr, node)]
            tail = n - star - 1
            mid = st.new("list", None, None, tuple(seq[star:len(seq) - tail]))
            return [(st, list(seq[:star]) + [mid] + list(seq[len(seq) - tail:]))]
        items = []
        for i in range(n):
            if star is not None and i == star:
                items.append(st.new("list", None, None, (rest(T("unpackrest", v, K(i))),)))
            else:
                items.append(self.getitem_term(st, v, K(i)))
        return [(st, items)]

    def store_name(self, name, v, st, fr):
        f = fr
        if f.fi is None and f.cls is None:
            st.globs[(fr.module.name, name)] = v
            return
        if f.cls is not None:
            st.mut(f.oid).f[name] = v
            return
        if name in f.fi.globals_decl:
            st.globs[(fr.module.name, name)] = v
            st.emit(Ev("setglobal", name, args=(v,), loc=self.loc(f.fi.node, fr), extra=fr.module.name))
            return
        if name in f.fi.nonlocals_decl:
            p = f.parent
            while p is not None:
                if p.fi is not None and name in p.fi.locals:
                    st.mut(p.oid).f[name] = v
                    return
                p = p.parent
        st.mut(f.oid).f[name] = v

    def st_Delete(self, node, st, fr):
        cur = [(st, NORMAL)]
        for t in node.targets:
            nxt = []
            for s, o in cur:
                if o is not NORMAL:
                    nxt.append((s, o))
                elif isinstance(t, ast.Name):
                    s.mut(fr.oid).f.pop(t.id, None)
                    nxt.append((s, NORMAL))
                elif isinstance(t, ast.Attribute):
                    nxt.extend(self.stmts_of(self.bind(self.ev(t.value, s, fr),
                                                       lambda s2, ob: self.delattr(s2, ob, t.attr, t, fr))))
                elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    nxt.extend(self.stmts_of(self.bind(self.ev_list([t.value, t.slice], s, fr),
                                                       lambda s2, vs: self.delitem(s2, vs[0], vs[1], t, fr))))
                else:
                    nxt.extend(self.stmts_of(self.bind(self.ev(t.value, s, fr), lambda s2, ob: [(s2, NONE)])))
            cur = nxt
        return cur

    def st_If(self, node, st, fr):
        out = []
        for s, v in self.ev(node.test, st, fr):
            if isinstance(v, Abrupt):
                out.append((s, v.out))
                continue
            for s2, b in branch(s, v):
                out.extend(self.exec_block(node.body if b else node.orelse, s2, fr))
        return out

    def counted(self, node):
        """(variable, bound) of "while i < bound: ...; i += 1", a for over range(i, bound)."""
        t = node.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], (ast.Name, ast.Attribute))):
            return None
        i, last = t.left.id, node.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        bound = ast.dump(t.comparators[0]).replace("Load()", "")
        todo = list(node.body[:-1])
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Continue, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                return None
            if isinstance(n, (ast.Name, ast.Attribute)) and not isinstance(n.ctx, ast.Load) and (
                    isinstance(n, ast.Name) and n.id == i or ast.dump(n).replace("Store()", "") == bound):
                return None
            todo.extend(ast.iter_child_nodes(n))
        return i, t.comparators[0]

    def st_While(self, node, st, fr):
        c = self.counted(node)
        if c is None:
            return self.while_(node, st, fr)
        out = []
        for s, vs in self.ev_list([node.test.left, c[1]], st, fr):
            if isinstance(vs, Abrupt):
                out.append((s, vs.out))
                continue
            vs = [s.res(v) for v in vs]
            if not (isinstance(vs[0], K) and (isinstance(vs[1], T) or isinstance(vs[1], K) and isinstance(vs[1].v, int)
                                              and isinstance(vs[0].v, int) and vs[0].v <= vs[1].v)):
                out.extend(self.while_(node, s, fr))
                continue

            def body(s2, item):
                self.store_name(c[0], item, s2, fr)
                return self.exec_block(node.body[:-1], s2, fr)
            for s2, o in self.iterate(s, self.bi_range(s, vs, {}, node, fr)[0][1], body, node, fr):
                if o is NORMAL:
                    self.store_name(c[0], vs[1], s2, fr)
                    out.extend(self.exec_block(node.orelse, s2, fr))
                else:
                    out.append((s2, NORMAL if o is BREAK else o))
        return out

    def while_(self, node, st, fr):
        out = []
        cur = [st]
        for i in range(self.hooks.while_bound + 1):
            nxt = []
            for s in cur:
                for s2, v in self.ev(node.test, s, fr):
                    if isinstance(v, Abrupt):
                        out.append((s2, v.out))
                        continue
                    for s3, b in branch(s2, v):
                        if not b:
                            out.extend(self.exec_block(node.orelse, s3, fr))
                            continue
                        if i == self.hooks.while_bound:
                            s3.emit(Ev("cut", "while", loc=self.loc(node, fr)))
                            out.append((s3, ("cut",)))
                            continue
                        for s4, o in self.exec_block(node.body, s3, fr):
                            if o is NORMAL or o is CONTINUE:
                                s4.emit(Ev("loop", "while", loc=self.loc(node, fr)))
                                nxt.append(s4)
                            elif o is BREAK:
                                out.append((s4, NORMAL))
                            else:
                                out.append((s4, o))
            cur = nxt
            self.limit(len(cur))
        return out

    def st_For(self, node, st, fr):
        def body(s, item):
            out = []
            for s2, o in self.assign(node.target, item, s, fr):
                if o is not NORMAL:
                    out.append((s2, o))
                else:
                    out.extend(self.exec_block(node.body, s2, fr))
            return out
        out = []
        for s, v in self.ev(node.iter, st, fr):
            if isinstance(v, Abrupt):
                out.append((s, v.out))
                continue
            for s2, o in self.iterate(s, v, body, node, fr, isinstance(node, ast.AsyncFor)):
                if o is NORMAL:
                    out.extend(self.exec_block(node.orelse, s2, fr))
                elif o is BREAK:
                    out.append((s2, NORMAL))
                else:
                    out.append((s2, o))
        return out
    st_AsyncFor = st_For

    def st_Try(self, node, st, fr):
        results = []
        depth = st.live_iters
        for s, o in self.exec_block(node.body, st, fr):
            if o is NORMAL:
                results.extend(self.exec_block(node.orelse, s, fr))
            elif o[0] == "raise":
                s.live_iters = depth
                results.extend(self.handle(node.handlers, s, o, fr))
            else:
                results.append((s, o))
        if not node.finalbody:
            return results
        out = []
        for s, o in results:
            saved = s.excs
            if o is not NORMAL and o[0] == "stop":    # the process is gone (exec, _exit)
                out.append((s, o))
                continue
            if o[0] == "raise":
                s.excs = s.excs + (o[1],)
            for s2, o2 in self.exec_block(node.finalbody, s, fr):
                s2.excs = saved
                out.append((s2, o if o2 is NORMAL else o2))
        return out

    def handle(self, handlers, st, o, fr):
        exc = o[1]
        out = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                for s1, tv in (self.ev(h.type, s, fr) if h.type is not None else [(s, None)]):
                    if isinstance(tv, Abrupt):
                        out.append((s1, tv.out))
                        continue
                    for s2, hit in self.match_exc(s1, exc, tv):
                        if not hit:
                            nxt.append(s2)
                            continue
                        if h.name:
                            self.store_name(h.name, exc, s2, fr)
                        saved = s2.excs
                        s2.excs = saved + (exc,)
                        s2.note(("handler", self.loc(h, fr), exc))
                        s2.emit(Ev("caught", "except", args=(exc,), loc=self.loc(h, fr)))
                        for s3, o3 in self.exec_block(h.body, s2, fr):
                            s3.excs = saved
                            out.append((s3, o3))
            cur = nxt
        out.extend((s, o) for s in cur)
        return out

    def match_exc(self, st, exc, tv):
        if tv is None:
            return [(st, True)]
        wants = []

        def flat(v):
            if isinstance(v, Tup):
                for i in v.items:
                    flat(i)
            elif isinstance(v, Ext):
                wants.append(v.name)
            elif isinstance(v, ClsV):
                wants.append(v.ci)
            else:
                wants.append(None)
        flat(tv)
        return self.match_exc_classes(st, exc, wants)

    def match_exc_classes(self, st, exc, wants):
        if not (isinstance(exc, Ref) and st.obj(exc).kind == "exc"):
            return [(st.fork(), True), (st, False)]
        maybe = []
        for w in wants:
            if w is None:
                maybe.append(w)
                continue
            r = conds.isinstance_of(st, exc, w)
            if r is True:
                return [(st, True)]
            if r is None:
                maybe.append(w)
        if not maybe:
            return [(st, False)]
        res = []
        for w in maybe:
            a = st.fork()
            if w is not None:
                o = a.mut(exc)
                o.cls = exc_norm(w)
                o.meta["excl"] = frozenset()
            res.append((a, True))
        o = st.mut(exc)
        o.meta["excl"] = frozenset(o.meta.get("excl", ())) | frozenset(exc_norm(w) for w in maybe if w is not None)
        res.append((st, False))
        return res

    def st_Raise(self, node, st, fr):
        if node.exc is None:
            if st.excs:
                return [(st, ("raise", st.excs[-1]))]
            return [(s, v.out) for s, v in [self.raise_new(st, "RuntimeError", fr, node)]]

        def f(s, v):
            if isinstance(v, Ext) or isinstance(v, ClsV):
                return self.bind(self.call(s, v, [], {}, node, fr), lambda s2, e: self.raise_value(s2, e, fr, node))
            return self.raise_value(s, v, fr, node)
        exprs = [node.exc] + ([node.cause] if node.cause is not None else [])
        return [(s, v.out) for s, v in self.bind(self.ev_list(exprs, st, fr), lambda s, vs: f(s, vs[0]))]

    def raise_value(self, st, e, fr, node):
        if isinstance(e, Ref) and st.obj(e).kind == "inst":
            o = st.mut(e)
            o.kind = "exc"
        if not (isinstance(e, Ref) and st.obj(e).kind == "exc"):
            if isinstance(e, (K, Ext, FnV)):
                return [self.raise_new(st, "TypeError", fr, node)]
            return [self.raise_new(st, "BaseException", fr, node, sub=True)]
        st.mut(e).meta.setdefault("loc", self.loc(node, fr))
        return [(st, Abrupt(("raise", e)))]

    def st_Assert(self, node, st, fr):
        out = []
        for s, v in self.ev(node.test, st, fr):
            if isinstance(v, Abrupt):
                out.append((s, v.out))
                continue
            for s2, b in branch(s, v):
                if b:
                    out.append((s2, NORMAL))
                elif self.hooks.asserts_raise:
                    s3, a = self.raise_new(s2, "AssertionError", fr, node)
                    out.append((s3, a.out))
        return out

    def st_With(self, node, st, fr):
        return self.with_items(list(node.items), node, st, fr)
    st_AsyncWith = st_With

    def with_items(self, items, node, st, fr):
        if not items:
            return self.exec_block(node.body, st, fr)
        item = items[0]

        def body(s, val):
            if item.optional_vars is not None:
                out = []
                for s2, o in self.assign(item.optional_vars, val, s, fr):
                    out.extend([(s2, o)] if o is not NORMAL else self.with_items(items[1:], node, s2, fr))
                return out
            return self.with_items(items[1:], node, s, fr)
        out = []
        for s, cm in self.ev(item.context_expr, st, fr):
            out.extend([(s, cm.out)] if isinstance(cm, Abrupt) else self.enter(s, cm, body, item.context_expr, fr))
        return out

    def enter(self, st, cm, body, node, fr):
        """Run body(state, value) inside context manager cm."""
        if isinstance(cm, Ref) and st.obj(cm).kind == "gen":
            # a @contextmanager generator: its yield runs the body
            used = []

            def cb(s, val):
                res = []
                for s2, o in body(s, val):
                    if o is NORMAL:
                        res.append((s2, NONE))
                    elif o[0] in ("raise", "stop"):
                        res.append((s2, Abrupt(o)))
                    else:
                        res.append((s2, Abrupt(("unwind", o))))
                return res
            out = []
            for s, o in self.run_gen(st, cm, cb):
                if o[0] == "unwind":
                    out.append((s, o[1]))
                elif o[0] == "return" or o is NORMAL:
                    out.append((s, NORMAL))
                else:
                    out.append((s, o))
            return out
        if isinstance(cm, Ref) and st.obj(cm).kind == "exitstack":
            out = []
            for s, o in body(st, cm):
                out.extend(self.exitstack_close(s, cm, o, node, fr))
            return out
        if isinstance(cm, Ref) and st.obj(cm).kind == "suppress":
            out = []
            for s, o in body(st, cm):
                if o[0] == "raise":
                    for s2, hit in self.match_exc(s, o[1], Tup(st.obj(cm).d)):
                        out.append((s2, NORMAL if hit else o))
                else:
                    out.append((s, o))
            return out
        if isinstance(cm, Ref) and st.obj(cm).kind in ("inst",) and isinstance(st.obj(cm).cls, ClassInfo):
            ci = st.obj(cm).cls
            an = "__aenter__" if ci.find("__aenter__") and not ci.find("__enter__") else "__enter__"
            ax = {"__aenter__": "__aexit__", "__enter__": "__exit__"}[an]
            if ci.find(an):
                def after(s, val):
                    out = []
                    for s2, o in body(s, val):
                        if o[0] == "stop":
                            out.append((s2, o))
                            continue
                        exc = o[1] if o[0] == "raise" else NONE
                        args = [NONE, NONE, NONE] if exc is NONE else [T("type", exc), exc, T("tb", exc)]
                        rs = self.bind(self.getattr(s2, cm, ax, node, fr),
                                       lambda s3, m: self.call(s3, m, args, {}, node, fr))
                        if an == "__aenter__":
                            rs = self.bind(rs, lambda s3, v: self.await_(s3, v, node, fr))
                        for s3, r in rs:
                            if isinstance(r, Abrupt):
                                out.append((s3, r.out))
                            elif o[0] == "raise":
                                for s4, b in branch(s3, r):
                                    out.append((s4, NORMAL if b else o))
                            else:
                                out.append((s3, o))
                    return out
                rs = self.bind(self.getattr(st, cm, an, node, fr), lambda s, m: self.call(s, m, [], {}, node, fr))
                if an == "__aenter__":
                    rs = self.bind(rs, lambda s3, v: self.await_(s3, v, node, fr))
                out = []
                for s, v in rs:
                    out.extend([(s, v.out)] if isinstance(v, Abrupt) else after(s, v))
                return out
        closing = isinstance(cm, T) and cm.op == "call" and cm.args[0] == "contextlib.closing"
        st.emit(Ev("enter", "with", recv=cm, loc=self.loc(node, fr)))
        out = []
        for s, o in body(st, cm.args[1][0] if closing else cm):
            if o[0] != "stop":
                s.emit(Ev("exit", "with", recv=cm, loc=self.loc(node, fr)))
            out.append((s, o))
        return out

    def st_FunctionDef(self, node, st, fr):
        def done(s, v):
            self.store_name(node.name, v, s, fr)
            return [(s, NONE)]
        return self.stmts_of(self.bind(self.make_function(node, st, fr), done))
    st_AsyncFunctionDef = st_FunctionDef

    def make_function(self, node, st, fr):
        fi = self.prog.by_node[node]
        a = node.args
        kwd = [d for d in a.kw_defaults if d is not None]

        def f(s, vs):
            nd = len(a.defaults)
            fv = FnV(fi, fr, tuple(vs[:nd]), tuple(vs[nd:]))
            return self.decorate(s, fv, fi.decorators, fr)
        return self.bind(self.ev_list(list(a.defaults) + kwd, st, fr), f)

    def decorate(self, st, fv, decorators, fr):
        res = [(st, fv)]
        for d in reversed(decorators):
            res = self.bind(res, lambda s, v: self.bind(
                self.ev(d, s, fr), lambda s2, dv: self.apply_decorator(s2, dv, v, d, fr)))
        return res

    def st_ClassDef(self, node, st, fr):
        ci = self.prog.by_node.get(node)
        if ci is None:
            return [(st, NORMAL)]
        self.store_name(node.name, ClsV(ci, fr), st, fr)
        return [(st, NORMAL)]

    def st_Import(self, node, st, fr):
        for a in node.names:
            name = a.name if a.asname else a.name.split(".")[0]
            r = self.prog.module_value(name)
            self.store_name(a.asname or name, ModV(name) if r[0] == "module" else Ext(name), st, fr)
        return [(st, NORMAL)]

    def st_ImportFrom(self, node, st, fr):
        mod = fr.module.absname(node)
        for a in node.names:
            if a.name == "*":
                continue
            rs = self.prog.resolve_from(mod, a.name)
            v = self.binding_value(rs[0], st) if rs else Ext("%s.%s" % (mod, a.name))
            if isinstance(v, list):
                v = v[0][1]
            self.store_name(a.asname or a.name, v, st, fr)
        return [(st, NORMAL)]

    def st_Match(self, node, st, fr):
        out = []
        for s, v in self.ev(node.subject, st, fr):
            if isinstance(v, Abrupt):
                out.append((s, v.out))
                continue
            cur = [s]
            for case in node.cases:
                nxt = []
                for s1 in cur:
                    for s2, hit in self.match_pattern(case.pattern, v, s1, fr):
                        if not hit:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, g in self.ev(case.guard, s2, fr):
                                if isinstance(g, Abrupt):
                                    out.append((s3, g.out))
                                    continue
                                for s4, b in branch(s3, g):
                                    if b:
                                        out.extend(self.exec_block(case.body, s4, fr))
                                    else:
                                        nxt.append(s4)
                        else:
                            out.extend(self.exec_block(case.body, s2, fr))
                cur = nxt
            out.extend((x, NORMAL) for x in cur)
        return out

    def match_pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            res = []
            for s, w in self.ev(p.value, st, fr):
                res.extend(branch(s, mk_eq(s, v, w)))
            return res
        if isinstance(p, ast.MatchSingleton):
            return branch(st, mk_is(st, v, K(p.value)))
        if isinstance(p, ast.MatchOr):
            res, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, hit in self.match_pattern(q, v, s, fr):
                        (res if hit else nxt).append((s2, True) if hit else s2)
                cur = nxt
            return res + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(p.name, v, st, fr)
                return [(st, True)]
            res = []
            for s, hit in self.match_pattern(p.pattern, v, st, fr):
                if hit and p.name:
                    self.store_name(p.name, v, s, fr)
                res.append((s, hit))
            return res
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            res = []
            for s, c in self.ev(p.cls, st, fr):
                for s2, r in self.isinstance_value(s, v, c):
                    res.extend(branch(s2, r))
            return res
        return [(st.fork(), True), (st, False)]

    # -- names ----------------------------------------------------------------
    def ev(self, node, st, fr):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            self.unsupported.add(type(node).__name__)
            return [(st, T("opaque", type(node).__name__, self.loc(node, fr)))]
        return m(node, st, fr)

    def ex_Name(self, node, st, fr):
        return self.load_name(node.id, st, fr, node)

    def load_name(self, name, st, fr, node=None):
        f = fr
        first = True
        while f is not None:
            if f.cls is not None:
                # class body: only visible from the body itself
                if first and name in st.heap[f.oid].f:
                    return [(st, st.heap[f.oid].f[name])]
            elif f.fi is not None and name in f.fi.locals:
                vs = st.heap[f.oid].f
                if name in vs:
                    return [(st, vs[name])]
                if first:
                    return [self.raise_new(st, "UnboundLocalError", fr, node)]
                return [self.raise_new(st, "NameError", fr, node)]
            elif f.fi is not None and first and name in f.fi.globals_decl:
                break
            f = f.parent
            first = False
        return self.load_global(fr.module, name, st, fr, node)

    def load_global(self, module, name, st, fr=None, node=None):
        key = (module.name, name)
        if key in st.globs:
            return [(st, st.globs[key])]
        h = self.hooks.glob(self, st, module, name)
        if h is not None:
            return h if isinstance(h, list) else [(st, h)]
        rs = self.prog.resolve(module, name)
        if not rs:
            if name in ("__name__", "__file__"):
                return [(st, K(module.name))] if name == "__name__" else [(st, T("global", module.name, name))]
            import builtins
            if (BUILTINS, name) in st.tfields:
                return [(st, st.tfields[(BUILTINS, name)])]
            if hasattr(builtins, name) or name in ("WindowsError",):
                return [(st, Ext(name))]
            if fr is not None:
                return [self.raise_new(st, "NameError", fr, node, (K(name),))]
            return [(st, T("global", module.name, name))]
        if len(rs) > 1:
            vals = []
            r0 = self.try_binding(rs)
            if r0 is not None:
                s0, v0 = r0
                ev0, n0 = st.events, st.nev
                res = self.ev_global(v0, st.fork(), s0)
                if len(res) == 1 and not isinstance(res[0][1], Abrupt):
                    st.globs[key] = res[0][1]
                    return [(st, res[0][1])]
            for r in rs:
                if r[0] == "expr":
                    return [(st, T("global", module.name, name))]
                v = self.binding_value(r, st)
                if v not in vals:
                    vals.append(v)
            if len(vals) == 1:
                return [(st, vals[0])]
            out = []
            for v in vals:
                s = st.fork()
                s.globs[key] = v
                out.append((s, v))
            return out
        kind, payload, mod = rs[0]
        if kind == "expr":
            k2 = None
            for m in self.prog.modules.values():
                if m is mod:
                    k2 = m
            bound = [n for n, bs in mod.bind.items() for b in bs if b[1] is payload]
            gname = bound[0] if bound else name
            k2 = (mod.name, gname)
            if k2 in st.globs:
                return [(st, st.globs[k2])]
            h = self.hooks.glob(self, st, mod, gname)
            if h is not None:
                return h if isinstance(h, list) else [(st, h)]
            if gname in mod.global_writes or payload is None:
                return [(st, T("global", mod.name, gname))]
            out = []
            ev0, n0 = st.events, st.nev
            for s, v in self.ev_global(payload, st, mod):
                if isinstance(v, Abrupt):
                    v = T("global", mod.name, gname)
                s.events, s.nev = ev0, n0   # module-level effects are not part of this path
                s.globs[k2] = v
                out.append((s, v))
            return out
        if kind == "func" and payload.decorators:
            k2 = (mod.name, "func", payload.name)
            if k2 in st.globs:
                return [(st, st.globs[k2])]
            fv = FnV(payload, None)
            mf = Frame(0, None, None, mod)
            out = []
            for s, v in self.decorate(st, fv, payload.decorators, mf):
                if isinstance(v, Abrupt):
                    v = fv
                s.globs[k2] = v
                out.append((s, v))
            return out
        return [(st, self.binding_value(rs[0], st))]

    def ev_global(self, expr, st, mod):
        """A module-level expression: evaluated at import time, so no failure is injected into it."""
        saved, self.importing = self.importing, True
        try:
            return self.ev(expr, st, Frame(0, None, None, mod))
        finally:
            self.importing = saved

    def try_binding(self, rs):
        """try: NAME = expr / except: NAME = default, at module level: the first one when it evaluates."""
        if len(rs) != 2 or any(r[0] != "expr" or r[1] is None for r in rs) or rs[0][2] is not rs[1][2]:
            return None
        m = rs[0][2]
        for t in m.tree.body:
            if isinstance(t, ast.Try):
                body = [n for s in t.body for n in ast.walk(s)]
                hand = [n for h in t.handlers for n in ast.walk(h)]
                if any(n is rs[0][1] for n in body) and any(n is rs[1][1] for n in hand):
                    return m, rs[0][1]
        return None

    def binding_value(self, r, st):
        kind, payload, mod = r
        if kind == "func":
            return FnV(payload, None)
        if kind == "class":
            return ClsV(payload)
        if kind == "module":
            return ModV(payload)
        if kind == "ext":
            return self.ext_value(st, payload)
        if kind == "missing":
            return T("missing", "%s.%s" % payload)
        return T("global", mod.name if mod else "?", str(payload)[:20])

    # -- simple expressions ----------------------------------------------------
    def ex_Constant(self, node, st, fr):
        return [(st, K(node.value))]

    def ex_Attribute(self, node, st, fr):
        return self.bind(self.ev(node.value, st, fr), lambda s, o: self.getattr(s, o, node.attr, node, fr))

    def ex_Tuple(self, node, st, fr):
        return self.bind(self.ev_seq(node.elts, st, fr), lambda s, vs: [(s, Tup(vs))])

    def ex_List(self, node, st, fr):
        return self.bind(self.ev_seq(node.elts, st, fr), lambda s, vs: [(s, s.new("list", None, None, tuple(vs)))])

    def ex_Set(self, node, st, fr):
        return self.bind(self.ev_seq(node.elts, st, fr), lambda s, vs: [(s, s.new("set", None, None, tuple(vs)))])

    def ev_seq(self, elts, st, fr):
        plain = [e.value if isinstance(e, ast.Starred) else e for e in elts]

        def f(s, vs):
            acc = [(s, [])]
            for e, v in zip(elts, vs):
                if isinstance(e, ast.Starred):
                    acc = self.bind(acc, lambda s2, xs: self.bind(
                        self.spread(s2, v, e, fr), lambda s3, items: [(s3, xs + list(items))]))
                else:
                    acc = self.bind(acc, lambda s2, xs: [(s2, xs + [v])])
            return acc
        return self.bind(self.ev_list(plain, st, fr), f)

    def ex_Dict(self, node, st, fr):
        exprs = []
        for k, v in zip(node.keys, node.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)

        def f(s, vs):
            d = {}
            meta = {}
            i = 0
            for k in node.keys:
                if k is None:
                    src = vs[i]
                    i += 1
                    if isinstance(src, Ref) and s.obj(src).kind == "dict":
                        d.update(s.obj(src).d)
                        if s.obj(src).meta.get("open"):
                            meta["open"] = True
                            meta["bases"] = meta.get("bases", ()) + (src,)
                    else:
                        meta["open"] = True
                        meta["bases"] = meta.get("bases", ()) + (src,)
                else:
                    d[s.res(vs[i])] = vs[i + 1]
                    i += 2
            return [(s, s.new("dict", None, None, d, meta))]
        return self.bind(self.ev_list(exprs, st, fr), f)

    def ex_BoolOp(self, node, st, fr):
        is_and = isinstance(node.op, ast.And)

        def go(i, s):
            out = []
            for s1, v in self.ev(node.values[i], s, fr):
                if isinstance(v, Abrupt) or i == len(node.values) - 1:
                    out.append((s1, v))
                    continue
                for s2, b in branch(s1, v):
                    if b == is_and:
                        out.extend(go(i + 1, s2))
                    else:
                        t = conds.truth(s2, v)
                        v2 = s2.res(v)
                        if isinstance(v2, T) and t == v2 and v2.op in conds.BOOL_OPS + ("not",):
                            v2 = K(b)
                        out.append((s2, v2))
            return out
        return go(0, st)

    def ex_UnaryOp(self, node, st, fr):
        def f(s, v):
            if isinstance(node.op, ast.Not):
                return [(s, mk_not(conds.truth(s, v)))]
            v = s.res(v)
            if isinstance(v, K):
                try:
                    return [(s, K({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x,
                                   ast.Invert: lambda x: ~x}[type(node.op)](v.v)))]
                except Exception:
                    return [self.raise_new(s, "TypeError", fr, node)]
            meth = {ast.USub: "__neg__", ast.Invert: "__invert__", ast.UAdd: "__pos__"}[type(node.op)]
            if isinstance(v, Ref) and isinstance(s.obj(v).cls, ClassInfo) and s.obj(v).cls.find(meth):
                return self.bind(self.getattr(s, v, meth, node, fr), lambda s2, m: self.call(s2, m, [], {}, node, fr))
            return [(s, T("un", type(node.op).__name__, v))]
        return self.bind(self.ev(node.operand, st, fr), f)

    def ex_BinOp(self, node, st, fr):
        return self.bind(self.ev_list([node.left, node.right], st, fr),
                         lambda s, vs: self.binop(s, node.op, vs[0], vs[1], node, fr))

    def ex_Compare(self, node, st, fr):
        def go(i, s, left):
            def f(s1, right):
                out = []
                for s2, r in self.compare(s1, node.ops[i], left, right, node, fr):
                    if isinstance(r, Abrupt) or i == len(node.ops) - 1:
                        out.append((s2, r))
                        continue
                    for s3, b in branch(s2, r):
                        out.extend(go(i + 1, s3, right) if b else [(s3, FALSE)])
                return out
            return self.bind(self.ev(node.comparators[i], s, fr), f)
        return self.bind(self.ev(node.left, st, fr), lambda s, l: go(0, s, l))

    def ex_IfExp(self, node, st, fr):
        out = []
        for s, v in self.ev(node.test, st, fr):
            if isinstance(v, Abrupt):
                out.append((s, v))
                continue
            for s2, b in branch(s, v):
                out.extend(self.ev(node.body if b else node.orelse, s2, fr))
        return out

    def ex_NamedExpr(self, node, st, fr):
        def f(s, v):
            self.store_name(node.target.id, v, s, fr)
            return [(s, v)]
        return self.bind(self.ev(node.value, st, fr), f)

    def ex_Lambda(self, node, st, fr):
        return self.make_function(node, st, fr)

    def ex_Subscript(self, node, st, fr):
        if isinstance(node.slice, ast.Slice):
            sl = node.slice
            parts = [x for x in (sl.lower, sl.upper, sl.step) if x is not None]

            def f(s, vs):
                o = vs[0]
                it = iter(vs[1:])
                lo = next(it) if sl.lower is not None else NONE
                hi = next(it) if sl.upper is not None else NONE
                stp = next(it) if sl.step is not None else NONE
                return self.getslice(s, o, lo, hi, stp, node, fr)
            return self.bind(self.ev_list([node.value] + parts, st, fr), f)
        return self.bind(self.ev_list([node.value, node.slice], st, fr),
                         lambda s, vs: self.getitem(s, vs[0], vs[1], node, fr))

    def ex_JoinedStr(self, node, st, fr):
        exprs = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]

        def f(s, vs):
            parts = []
            it = iter(vs)
            res = [(s, [])]
            for v in node.values:
                if isinstance(v, ast.Constant):
                    res = self.bind(res, lambda s2, ps: [(s2, ps + [K(v.value)])])
                else:
                    x = next(it)
                    if v.conversion == ord("r"):
                        res = self.bind(res, lambda s2, ps: self.bind(self.to_repr(s2, x, node, fr),
                                                                      lambda s3, y: [(s3, ps + [y])]))
                    elif v.format_spec is not None:
                        res = self.bind(res, lambda s2, ps: [(s2, ps + [T("fmt", ast.dump(v.format_spec), x)])])
                    else:
                        res = self.bind(res, lambda s2, ps: self.bind(self.to_str(s2, x, node, fr),
                                                                      lambda s3, y: [(s3, ps + [y])]))
            return self.bind(res, lambda s2, ps: [(s2, self.mk_cat(s2, ps))])
        return self.bind(self.ev_list(exprs, st, fr), f)

    def ex_Starred(self, node, st, fr):
        return self.bind(self.ev(node.value, st, fr), lambda s, v: [(s, T("star", v))])

    def ex_Await(self, node, st, fr):
        return self.bind(self.ev(node.value, st, fr), lambda s, v: self.await_(s, v, node, fr))

    def ex_Yield(self, node, st, fr):
        def f(s, v):
            cb = self.yield_cbs.get(fr.oid)
            s.emit(Ev("yield", "yield", args=(v,), loc=self.loc(node, fr)))
            if cb is None:
                return [(s, T("sent", v))]
            return cb(s, v)
        if node.value is None:
            return f(st, NONE)
        return self.bind(self.ev(node.value, st, fr), f)

    def ex_YieldFrom(self, node, st, fr):
        def f(s, v):
            cb = self.yield_cbs.get(fr.oid)

            def body(s2, item):
                s2.emit(Ev("yield", "yield", args=(item,), loc=self.loc(node, fr)))
                if cb is None:
                    return [(s2, NORMAL)]
                return [(s3, o.out if isinstance(o, Abrupt) else NORMAL) for s3, o in cb(s2, item)]
            return [(s2, NONE if (o is NORMAL or o[0] == "return") else Abrupt(o))
                    for s2, o in self.iterate(s, v, body, node, fr)]
        return self.bind(self.ev(node.value, st, fr), f)

    # -- comprehensions ----------------------------------------------------------
    def comp(self, node, st, fr, emit):
        """Runs emit(state, frame) for every element; [(state, outcome)]."""
        def level(i, s):
            if i == len(node.generators):
                return emit(s, fr)
            g = node.generators[i]

            def body(s1, item):
                out = []
                for s2, o in self.assign(g.target, item, s1, fr):
                    if o is not NORMAL:
                        out.append((s2, o))
                        continue
                    cur = [(s2, NORMAL)]
                    for c in g.ifs:
                        nxt = []
                        for s3, o3 in cur:
                            if o3 is not NORMAL:
                                nxt.append((s3, o3))
                                continue
                            for s4, v in self.ev(c, s3, fr):
                                if isinstance(v, Abrupt):
                                    nxt.append((s4, v.out))
                                else:
                                    nxt.extend((s5, NORMAL if b else CONTINUE) for s5, b in branch(s4, v))
                        cur = nxt
                    for s3, o3 in cur:
                        out.extend(level(i + 1, s3) if o3 is NORMAL else [(s3, o3)])
                return out
            out = []
            # the first iterable belongs to the scope around the comprehension
            for s1, v in self.ev(g.iter, s, fr if i else fr.parent):
                out.extend([(s1, v.out)] if isinstance(v, Abrupt) else self.iterate(s1, v, body, node, fr, g.is_async))
            return out
        return level(0, st)

    def comp_frame(self, node, st, fr):
        """Comprehension variables live in a frame of their own."""
        fi = CompScope(node, fr)
        ref = st.new("frame", None, {})
        return Frame(ref.oid, fi, fr, fr.module)

    def ex_ListComp(self, node, st, fr, kind="list"):
        cf = self.comp_frame(node, st, fr)
        acc = st.new(kind, None, None, ())

        def emit(s, f):
            return self.stmts_of(self.bind(self.ev(node.elt, s, cf), lambda s2, v: self.acc_add(s2, acc, v)))
        return [(s, acc if o is NORMAL else Abrupt(o)) for s, o in self.comp(node, st, cf, emit)]

    def acc_add(self, s, acc, v):
        o = s.mut(acc)
        o.d = tuple(o.d) + (v,)
        return [(s, NONE)]

    def ex_SetComp(self, node, st, fr):
        return self.ex_ListComp(node, st, fr, "set")

    def ex_GeneratorExp(self, node, st, fr):
        # evaluated lazily when iterated
        ref = st.new("gen", None, {}, None, {"comp": node, "frame": fr, "async": any(g.is_async for g in node.generators)})
        return [(st, ref)]

    def ex_DictComp(self, node, st, fr):
        cf = self.comp_frame(node, st, fr)
        acc = st.new("dict", None, None, {})

        def emit(s, f):
            def put(s2, vs):
                s2.mut(acc).d[s2.res(vs[0])] = vs[1]
                return [(s2, NONE)]
            return self.stmts_of(self.bind(self.ev_list([node.key, node.value], s, cf), put))
        return [(s, acc if o is NORMAL else Abrupt(o)) for s, o in self.comp(node, st, cf, emit)]


class CompScope(object):
    """Scope information of a comprehension."""
    def __init__(self, node, fr):
        self.node = node
        self.locals = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    self.locals.add(n.id)
        # targets of named expressions belong to the enclosing function
        self.globals_decl = set()
        self.nonlocals_decl = set()
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.nonlocals_decl.add(n.target.id)
        self.qualname = fr.fi.qualname if fr.fi is not None else "<module>"
        self.is_gen = False
        self.name = "<comp>"
