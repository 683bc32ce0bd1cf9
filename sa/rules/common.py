"""Shared environment model for the rules: futures, event loop, entry points."""
from ..model import ClassInfo, AnalysisError
from ..interp import Interp, Hooks, Frame, NORMAL
from ..state import State, Ev
from ..values import (V, K, T, Ref, Tup, Ext, ClsV, ModV, FnV, BM, Abrupt, NONE, TRUE, FALSE, sym, rest, is_rest,
                      subterms, contains)
from .. import conds

LOOP = T("sym", "event_loop")


class BaseHooks(Hooks):
    """Futures and the event loop; tables of externals per rule."""

    def __init__(self, **kw):
        self.ext = {}          # name -> f(it, st, recv, args, kwargs) -> [(st, v)] | None
        self.pkg = {}          # FuncInfo | ClassInfo -> f(it, st, slf, args, kwargs)
        self.exc = {}          # name -> classes injected
        self.once = False      # inject at most one failure per path
        self.attrs = {}        # (value, name) -> value
        self.globs_ = {}       # (module name, name) -> value
        self.awaits = None
        self.inject_when = None
        self.cancel_await = False
        for k, v in kw.items():
            setattr(self, k, v)

    def glob(self, it, st, module, name):
        if isinstance(module, ClassInfo):
            return None
        return self.globs_.get((module.name, name))

    def attr(self, it, st, v, name):
        return self.attrs.get((v, name))

    def raises(self, it, st, name, recv, args):
        cs = self.exc.get(name, ())
        if callable(cs):
            cs = cs(it, st, name, recv, args)
        if not cs:
            return ()
        if self.once and st.user.get("failed"):
            return ()
        if self.inject_when is not None and not self.inject_when(it, st, name, recv, args):
            return ()
        return cs

    def pkg_call(self, it, st, fi, slf, args, kwargs):
        f = self.pkg.get(fi)
        if f is None:
            return None
        return f(it, st, slf, args, kwargs)

    def ext_call(self, it, st, name, recv, args, kwargs):
        f = self.ext.get(name)
        if f is not None:
            r = f(it, st, recv, args, kwargs)
            if r is not None:
                return r
        if name in ("asyncio.get_event_loop", "asyncio.get_running_loop", "asyncio.new_event_loop"):
            return [(st, LOOP)]
        if name == ".create_future" or name in ("asyncio.Future",):
            return [(st, st.new("future", "asyncio.Future", {}, None, {"done": FALSE}))]
        if isinstance(recv, Ref) and st.obj(recv).kind == "future":
            return self.future_call(it, st, recv, name[1:], args)
        if name in ("asyncio.shield", "asyncio.ensure_future") and args:
            v = args[0]
            if isinstance(v, Ref) and st.obj(v).kind == "future":
                return [(st, T("shield", v) if name.endswith("shield") else v)]
        if name in (".create_task", "asyncio.create_task", "asyncio.ensure_future") and args:
            st.emit(Ev("task", "create_task", args=(args[0],)))
            return [(st, T("task", args[0], st.nev))]
        return None

    def future_call(self, it, st, f, name, args):
        ob = st.obj(f)
        done = ob.meta["done"] == TRUE
        if name in ("set_result", "set_exception"):
            st.emit(Ev("resolve", name, recv=f, args=args))
            if done:
                st.emit(Ev("doubleresolve", name, recv=f))
                return [it.raise_new(st, "asyncio.InvalidStateError")]
            o = st.mut(f)
            o.meta["done"] = TRUE
            o.meta["result" if name == "set_result" else "exc"] = args[0]
            return [(st, NONE)]
        if name == "done":
            return [(st, K(done))]
        if name == "cancelled":
            return [(st, K(ob.meta.get("cancelled") == TRUE))]
        if name == "result":
            if not done:
                return [it.raise_new(st, "asyncio.InvalidStateError")]
            if "exc" in ob.meta:
                return it.raise_value(st, ob.meta["exc"], None, None) if False else [
                    (st, Abrupt(("raise", ob.meta["exc"])))]
            return [(st, ob.meta.get("result", NONE))]
        if name == "exception":
            if not done:
                return [it.raise_new(st, "asyncio.InvalidStateError")]
            return [(st, ob.meta.get("exc", NONE))]
        if name == "cancel":
            if done:
                return [(st, FALSE)]
            o = st.mut(f)
            o.meta["done"] = TRUE
            o.meta["cancelled"] = TRUE
            return [(st, TRUE)]
        if name in ("add_done_callback", "remove_done_callback"):
            st.emit(Ev("future_cb", name, recv=f, args=args))
            return [(st, NONE)]
        return None

    def on_await(self, it, st, v):
        if self.awaits is not None:
            r = self.awaits(it, st, v)
            if r is not None:
                return r
        w = v.args[0] if isinstance(v, T) and v.op == "shield" else v
        if isinstance(w, Ref) and st.obj(w).kind == "future":
            ob = st.obj(w)
            if ob.meta["done"] == TRUE:
                if "exc" in ob.meta:
                    return [(st, Abrupt(("raise", ob.meta["exc"])))]
                return [(st, ob.meta.get("result", NONE))]
        return None


def top(prog, rel="__init__.py"):
    return Frame(0, None, None, prog.module(rel))


class Run(object):
    """One abstract scenario."""

    def __init__(self, chk, hooks=None):
        self.chk, self.prog = chk, chk.prog
        self.it = Interp(chk.prog, hooks or BaseHooks())
        self.fr = top(chk.prog)

    @property
    def hooks(self):
        return self.it.hooks

    def call(self, results, fn, *args, **kwargs):
        """Call fn (a value, or a function of the state giving one) on every normal result."""
        def f(s, _):
            v = fn(s, _) if callable(fn) and not isinstance(fn, V) else fn
            a = [x(s, _) if callable(x) and not isinstance(x, V) else x for x in args]
            return self.it.call(s, v, a, kwargs, None, self.fr)
        return self.it.bind(results, f)

    def method(self, results, obj, name, *args, **kwargs):
        def f(s, r):
            o = obj(s, r) if callable(obj) and not isinstance(obj, V) else obj
            a = [x(s, r) if callable(x) and not isinstance(x, V) else x for x in args]
            return self.it.bind(self.it.getattr(s, o, name, None, self.fr),
                                lambda s2, m: self.it.call(s2, m, a, kwargs, None, self.fr))
        return self.it.bind(results, f)

    def attr(self, results, obj, name):
        def f(s, r):
            o = obj(s, r) if callable(obj) and not isinstance(obj, V) else obj
            return self.it.getattr(s, o, name, None, self.fr)
        return self.it.bind(results, f)

    def awaited(self, results):
        return self.it.bind(results, lambda s, v: self.it.await_(s, v, None, self.fr))

    def done(self, results):
        self.chk.absorb(self.it, results)
        return results


def truth_of(st, v):
    t = conds.truth(st, v)
    if isinstance(t, K):
        return bool(t.v)
    neg = False
    while isinstance(t, T) and t.op == "not":
        t = conds.truth(st, t.args[0])
        neg = not neg
        if isinstance(t, K):
            return bool(t.v) != neg
    d = conds.decide(st, t)
    return None if d is None else d != neg


def outcome(v):
    """Text for a result."""
    if isinstance(v, Abrupt):
        return v.out[0]
    return "normal"


def exc_class(st, v):
    """Exception class of an Abrupt raise, else None."""
    if isinstance(v, Abrupt) and v.out[0] == "raise" and isinstance(v.out[1], Ref):
        return st.obj(v.out[1]).cls
    return None


def exc_loc(st, v):
    if isinstance(v, Abrupt) and v.out[0] == "raise" and isinstance(v.out[1], Ref):
        return st.obj(v.out[1]).meta.get("loc")
    return None


def is_exc(st, v, name):
    return isinstance(v, Abrupt) and v.out[0] == "raise" and conds.isinstance_of(st, v.out[1], name) is True


def cls_name(c):
    return getattr(c, "name", c)
