"""Operators, containers, builtin methods and external functions."""
import ast
import builtins
import json
import os
import re
import shlex

from .model import ClassInfo
from .values import (V, K, T, Ref, Tup, Ext, ClsV, ModV, FnV, BM, Abrupt, NORMAL, BREAK, CONTINUE, NONE, TRUE, FALSE, rest, is_rest)
from .state import Ev, exc_bases, BUILTIN_TYPES
from . import conds
from .conds import mk_not, mk_eq, mk_is, mk_lt, branch
from .builtin_funcs import BuiltinFuncs

OPS = {ast.Add: ("add", lambda a, b: a + b), ast.Sub: ("sub", lambda a, b: a - b),
       ast.Mult: ("mul", lambda a, b: a * b), ast.Div: ("truediv", lambda a, b: a / b),
       ast.FloorDiv: ("floordiv", lambda a, b: a // b), ast.Mod: ("mod", lambda a, b: a % b),
       ast.Pow: ("pow", lambda a, b: a ** b), ast.LShift: ("lshift", lambda a, b: a << b),
       ast.RShift: ("rshift", lambda a, b: a >> b), ast.BitOr: ("or", lambda a, b: a | b),
       ast.BitXor: ("xor", lambda a, b: a ^ b), ast.BitAnd: ("and", lambda a, b: a & b),
       ast.MatMult: ("matmul", None)}
COMMUTATIVE = ("or", "and", "xor", "mul")
CMP = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"),
       ast.GtE: ("__ge__", "__le__"), ast.Eq: ("__eq__", "__eq__"), ast.NotEq: ("__ne__", "__ne__")}

PURE_EXT = {
    "os.fsencode", "os.fsdecode", "os.WIFEXITED", "os.WIFSIGNALED", "os.WIFSTOPPED", "os.WIFCONTINUED",
    "os.WEXITSTATUS", "os.WTERMSIG", "os.WSTOPSIG", "os.WCOREDUMP", "os.getpid", "os.getuid",
    "shlex.quote", "pipes.quote", "re.escape", "re.compile", "fnmatch.translate", "uuid.UUID",
    "abs", "round", "ord", "chr", "hex", "oct", "bin", "divmod", "pow", "format", "slice", "complex", "float",
    "bytearray", "memoryview", "hash", "types.MethodType",
}
FOLDED = {"shlex.quote": shlex.quote, "pipes.quote": shlex.quote, "shlex.join": shlex.join, "re.escape": re.escape,
          "re.sub": re.sub, "json.dumps": json.dumps}
PURE_PREFIX = ("os.path.", "operator.", "string.", "math.", "inspect.is", "asyncio.iscoroutine",
               "inspect.signature", "stat.S_")
IMPURE_PATH = {"os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.islink", "os.path.lexists",
               "os.path.getsize", "os.path.getmtime", "os.path.samefile", "os.path.ismount", "os.path.realpath"}
STR_PURE = set(dir(str)) | set(dir(bytes))
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add",
            "discard", "sort", "reverse", "difference_update", "intersection_update", "__setitem__", "__delitem__"}


class BuiltinMixin(BuiltinFuncs):

    # -- arithmetic and concatenation ---------------------------------------------
    def mk_cat(self, st, parts):
        flat = []
        for p in parts:
            p = st.res(p)
            if isinstance(p, T) and p.op == "cat":
                flat.extend(p.args)
            else:
                flat.append(p)
        out = []
        for p in flat:
            if isinstance(p, K) and isinstance(p.v, (str, bytes)):
                if not p.v:
                    continue
                if out and isinstance(out[-1], K) and type(out[-1].v) is type(p.v):
                    out[-1] = K(out[-1].v + p.v)
                    continue
            out.append(p)
        if not out:
            for p in flat:
                if isinstance(p, K):
                    return K(type(p.v)())
            return K("")
        if len(out) == 1 and (isinstance(out[0], K) or st.known_type(out[0]) in ("str", "bytes")
                              or len(flat) == 1 and isinstance(out[0], T)):
            return out[0]
        return T("cat", *out)

    def dunder(self, st, o, name):
        c = self.cls_of(st, o) if not isinstance(o, ClsV) else None
        if c is not None:
            f = c.find(name)
            if f and f[0] == "method":
                return f
            if f and f[0] == "attr":
                return f
        return None

    def call_dunder(self, st, o, name, args, node, fr):
        return self.bind(self.getattr(st, o, name, node, fr), lambda s, m: self.call(s, m, args, {}, node, fr))

    def binop(self, st, op, a, b, node, fr):
        a, b = st.res(a), st.res(b)
        name, fold = OPS[type(op)]
        if isinstance(a, K) and isinstance(b, K) and fold:
            try:
                return [(st, K(fold(a.v, b.v)))]
            except TypeError:
                return [self.raise_new(st, "TypeError", fr, node)]
            except Exception:
                return [(st, T("bin", name, a, b))]
        if self.dunder(st, a, "__%s__" % name):
            return self.call_dunder(st, a, "__%s__" % name, [b], node, fr)
        if isinstance(a, ClsV):
            r = self.meta_op(st, a, "__%s__" % name, [b], node, fr)
            if r is not None:
                return r
        if self.dunder(st, b, "__r%s__" % name) and (not isinstance(a, T) or st.known_type(a)):
            return self.call_dunder(st, b, "__r%s__" % name, [a], node, fr)
        if isinstance(b, ClsV):
            r = self.meta_op(st, b, "__r%s__" % name, [a], node, fr)
            if r is not None:
                return r
        ka, kb = st.known_type(a), st.known_type(b)
        if name == "add":
            sa, sb = self.known_seq_strict(st, a), self.known_seq_strict(st, b)
            islist = lambda v, k: k == "list" or isinstance(v, Ref) and st.obj(v).kind == "list"
            if islist(a, ka) or islist(b, kb):
                ia = list(sa) if sa is not None else [rest(a)]
                ib = list(sb) if sb is not None else [rest(b)]
                if not islist(a, ka) and (ka in BUILTIN_TYPES or isinstance(ka, ClassInfo)) or \
                        not islist(b, kb) and (kb in BUILTIN_TYPES or isinstance(kb, ClassInfo)):
                    return [self.raise_new(st, "TypeError", fr, node)]
                return [(st, st.new("list", None, None, tuple(ia + ib)))]
            if isinstance(a, Tup) or isinstance(b, Tup):
                ia = list(a.items) if isinstance(a, Tup) else [rest(a)]
                ib = list(b.items) if isinstance(b, Tup) else [rest(b)]
                return [(st, Tup(ia + ib))]
            if ka in ("str", "bytes") and kb in ("str", "bytes") and ka != kb:
                return [self.raise_new(st, "TypeError", fr, node)]
            if ka in ("str", "bytes") or kb in ("str", "bytes"):
                if (ka is not None and ka not in ("str", "bytes")) or (kb is not None and kb not in ("str", "bytes")):
                    if not isinstance(a, T) and not isinstance(b, T):
                        return [self.raise_new(st, "TypeError", fr, node)]
                return [(st, self.mk_cat(st, [a, b]))]
        if name == "mod" and ka in ("str", "bytes") and isinstance(a, K):
            return self.percent(st, a, b, node, fr)
        if isinstance(a, T) and (a.op in conds.BOOL_OPS or a.op == "not") and isinstance(b, T) and (
                b.op in conds.BOOL_OPS or b.op == "not") and name in ("or", "and"):
            out = []
            for s, x in branch(st, a):
                if x == (name == "or"):
                    out.append((s, K(x)))
                else:
                    out.append((s, b))
            return out
        # set / dict algebra over known elements
        if isinstance(a, Ref) and st.obj(a).kind == "set" and name in ("or", "sub", "and"):
            return self.set_op(st, name, a, b, node, fr)
        if name == "or" and isinstance(a, Ref) and st.obj(a).kind == "dict":
            d = st.new("dict", None, None, dict(st.obj(a).d), dict(st.obj(a).meta))
            return self.bind(self.call_builtin_method(st, d, "update", [b], {}, node, fr), lambda s, _: [(s, d)])
        if isinstance(a, K) and a.v is None or isinstance(b, K) and b.v is None:
            return [self.raise_new(st, "TypeError", fr, node)]
        if isinstance(a, Ref) and st.obj(a).kind in ("inst", "list", "dict") and isinstance(b, (K, Ref)) and not (
                isinstance(b, Ref) and self.dunder(st, b, "__r%s__" % name)):
            ci = st.obj(a).cls
            if not isinstance(ci, ClassInfo) or all(x == "object" for x in ci.ext_bases):
                return [self.raise_new(st, "TypeError", fr, node)]
        if name in COMMUTATIVE and repr(b) < repr(a):
            a, b = b, a
        return [(st, T("bin", name, a, b))]

    def meta_op(self, st, cv, name, args, node, fr):
        """An operator applied to a class: looked up on its metaclass."""
        mc = self.metaclass(cv.ci)
        if mc is not None:
            f = mc.find(name)
            if f and f[0] == "method":
                return self.call_fn(st, FnV(f[1], None), cv, args, {}, node, fr)
        return None

    def metaclass(self, ci):
        for c in ci.mro:
            if isinstance(c, ClassInfo):
                for k in getattr(c.node, "keywords", ()):
                    if k.arg == "metaclass":
                        rs = self.prog.resolve_any(c.module, k.value) if hasattr(self.prog, "resolve_any") else None
                        if rs and rs[0][0] == "class":
                            return rs[0][1]
        return None

    def known_seq_strict(self, st, v):
        if isinstance(v, Ref) and st.obj(v).kind in ("list",):
            return st.obj(v).d
        return None

    def percent(self, st, a, b, node, fr):
        import re
        text = a.v if isinstance(a.v, str) else a.v.decode("latin-1")
        pieces = re.split(r"(%(?:\([^)]*\))?[-#0 +]*[\d*]*(?:\.\d+)?[a-zA-Z%])", text)
        args = list(b.items) if isinstance(b, Tup) else [b]
        enc = (lambda x: K(x)) if isinstance(a.v, str) else (lambda x: K(x.encode("latin-1")))
        if not isinstance(b, Tup) and not isinstance(b, (K, Ref)) and st.known_type(b) is None and text.count("%") > 1:
            return [(st, T("bin", "mod", a, b))]
        res = [(st, [])]
        i = 0
        for p in pieces:
            if not p.startswith("%") or len(p) < 2:
                res = self.bind(res, lambda s, ps: [(s, ps + [enc(p)])])
                continue
            if p == "%%":
                res = self.bind(res, lambda s, ps: [(s, ps + [enc("%")])])
                continue
            if p.startswith("%("):
                key = K(p[2:p.index(")")])
                arg = None
                src = b
            else:
                if i >= len(args):
                    return [self.raise_new(st, "TypeError", fr, node)]
                arg = args[i]
                i += 1
            if arg is None:
                conv = lambda s: self.bind(self.getitem(s, src, key, node, fr),
                                           lambda s2, x: self.to_str(s2, x, node, fr))
            elif p[-1] == "r":
                conv = lambda s: self.to_repr(s, arg, node, fr)
            elif p == "%s" and isinstance(a.v, str):
                conv = lambda s: self.to_str(s, arg, node, fr)
            elif p in ("%d", "%i") and isinstance(a.v, str):
                if isinstance(arg, K) and not isinstance(arg.v, (int, float)):
                    conv = lambda s: [self.raise_new(s, "TypeError", fr, node)]
                else:
                    conv = lambda s: [(s, K(p % arg.v) if isinstance(arg, K) else T("str", arg))]
            else:
                conv = lambda s: [(s, T("fmt", K(p), arg))]
            res = self.bind(res, lambda s, ps: self.bind(conv(s), lambda s2, x: [(s2, ps + [x])]))
        if not any(p.startswith("%(") for p in pieces) and i != len(args) and isinstance(b, Tup):
            return [self.raise_new(st, "TypeError", fr, node)]
        return self.bind(res, lambda s, ps: [(s, self.mk_cat(s, ps) if ps else a)])

    def set_op(self, st, name, a, b, node, fr):
        xs = list(st.obj(a).d)
        ys = self.known_seq(st, b)
        if ys is None:
            if name == "or":
                return [(st, st.new("set", None, None, tuple(xs) + (rest(b),)))]
            if name == "sub":
                out = [(st, [])]
                for x in xs:
                    if is_rest(x):
                        out = self.bind(out, lambda s, acc: [(s, acc + [rest(T("bin", name, x, b))])])
                        continue

                    def keep(s, acc):
                        r = []
                        for s2, t in branch(s, T("in", x, b)):
                            r.append((s2, acc if t else acc + [x]))
                        return r
                    out = self.bind(out, keep)
                return self.bind(out, lambda s, acc: [(s, s.new("set", None, None, tuple(acc)))])
            return [(st, T("bin", name, a, b))]
        if name == "or":
            return [(st, st.new("set", None, None, tuple(xs) + tuple(y for y in ys if y not in xs)))]
        if any(is_rest(x) for x in xs) or any(is_rest(y) for y in ys):
            return [(st, st.new("set", None, None, (rest(T("bin", name, Tup(xs), Tup(ys))),)))]
        if name == "sub":
            return [(st, st.new("set", None, None, tuple(x for x in xs if x not in ys)))]
        return [(st, st.new("set", None, None, tuple(x for x in xs if x in ys)))]

    # -- comparison -------------------------------------------------------------------
    def compare(self, st, op, left, right, node, fr):
        left, right = st.res(left), st.res(right)
        if isinstance(op, ast.Is):
            return [(st, mk_is(st, left, right))]
        if isinstance(op, ast.IsNot):
            return [(st, mk_not(mk_is(st, left, right)))]
        if isinstance(op, (ast.In, ast.NotIn)):
            res = self.contains_(st, left, right, node, fr)
            if isinstance(op, ast.NotIn):
                return self.bind(res, lambda s, v: [(s, mk_not(conds.truth(s, v)))])
            return res
        m, r = CMP[type(op)]
        if self.dunder(st, left, m):
            return self.call_dunder(st, left, m, [right], node, fr)
        if self.dunder(st, right, r):
            return self.call_dunder(st, right, r, [left], node, fr)
        if isinstance(left, ClsV) and isinstance(op, (ast.Gt, ast.Lt, ast.GtE, ast.LtE)):
            x = self.meta_op(st, left, m, [right], node, fr)
            if x is not None:
                return x
        if isinstance(op, ast.Eq):
            return [(st, mk_eq(st, left, right))]
        if isinstance(op, ast.NotEq):
            return [(st, mk_not(mk_eq(st, left, right)))]
        if isinstance(left, K) and isinstance(right, K):
            try:
                return [(st, K({ast.Lt: lambda: left.v < right.v, ast.Gt: lambda: left.v > right.v,
                                ast.LtE: lambda: left.v <= right.v, ast.GtE: lambda: left.v >= right.v}[type(op)]()))]
            except TypeError:
                return [self.raise_new(st, "TypeError", fr, node)]
        ints = lambda v: isinstance(v, K) and isinstance(v.v, int) and not isinstance(v.v, bool)
        # normalise everything to <
        if isinstance(op, ast.Gt):
            return [(st, mk_lt(st, right, left))]
        if isinstance(op, ast.Lt):
            return [(st, mk_lt(st, left, right))]
        if isinstance(op, ast.GtE):
            if ints(right) and isinstance(left, T) and left.op == "len":
                return [(st, mk_lt(st, K(right.v - 1), left))]
            return [(st, mk_not(mk_lt(st, left, right)))]
        if ints(right) and isinstance(left, T) and left.op == "len":
            return [(st, mk_lt(st, left, K(right.v + 1)))]
        return [(st, mk_not(mk_lt(st, right, left)))]

    def contains_(self, st, x, c, node, fr):
        x, c = st.res(x), st.res(c)
        if self.dunder(st, c, "__contains__"):
            return self.call_dunder(st, c, "__contains__", [x], node, fr)
        if isinstance(c, Ext) and c.name == "builtins.__dict__" and isinstance(x, K):
            return [(st, K(x.v in vars(builtins)))]
        if isinstance(c, K):
            if isinstance(x, K):
                try:
                    return [(st, K(x.v in c.v))]
                except TypeError:
                    return [self.raise_new(st, "TypeError", fr, node)]
            return [(st, T("in", x, c))]
        if isinstance(c, Ref):
            ob = st.obj(c)
            if ob.kind == "inst" and isinstance(ob.cls, ClassInfo):
                if ob.cls.find("__iter__") and not isinstance(ob.d, (dict, tuple)):
                    return [(st, T("in", x, c))]
            items = None
            unknown = False
            if ob.kind == "dict" or isinstance(ob.d, dict):
                items, unknown = list(ob.d.keys()), bool(ob.meta.get("open"))
                gone = ob.meta.get("absent", ())
                if x in gone:
                    return [(st, FALSE)]
            elif ob.kind in ("list", "set", "iter") or isinstance(ob.d, tuple) and ob.kind == "inst":
                items = list(ob.d)
                unknown = any(is_rest(i) for i in items)
                items = [i for i in items if not is_rest(i)]
            elif ob.kind == "view":
                s = self.known_seq(st, c)
                if s is None:
                    d = st.obj(ob.d[0])
                    if ob.d[1] == "keys" and isinstance(d.d, dict):
                        return self.contains_(st, x, ob.d[0], node, fr)
                    return [(st, T("in", x, c))]
                items = list(s)
            if items is not None:
                return self.member(st, x, items, T("in", x, c) if unknown else None)
            return [(st, T("in", x, c))]
        if isinstance(c, Tup):
            items = [i for i in c.items if not is_rest(i)]
            return self.member(st, x, items, T("in", x, c) if len(items) != len(c.items) else None)
        if isinstance(c, T) and c.op == "call" and c.args[0] in ("list", "set", "tuple", "frozenset", "sorted") \
                and len(c.args[1]) == 1:
            return self.contains_(st, x, c.args[1][0], node, fr)
        if isinstance(c, T) and c.op == "call" and isinstance(c.args[0], T) and c.args[0].op == "meth" and \
                c.args[0].args[1] == "keys":
            return self.contains_(st, x, c.args[0].args[0], node, fr)
        return [(st, T("in", x, c))]

    def member(self, st, x, items, unknown):
        """Is x among items (or, failing that, unknown)?"""
        out = []
        cur = [st]
        for i in items:
            if x == i:
                return out + [(s, TRUE) for s in cur]
            nxt = []
            for s in cur:
                for s2, b in branch(s, mk_eq(s, x, i)):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, unknown if unknown is not None else FALSE) for s in cur]

    # -- subscripts ---------------------------------------------------------------------
    def getitem_term(self, st, v, i):
        if (v, i) in st.tfields:
            return st.tfields[(v, i)]
        return T("sub", v, i)

    def missing_key(self, st, o, i, node, fr):
        if st.obj(o).meta.get("factory"):
            def put(s, v):
                s.mut(o).d[i] = v
                return [(s, v)]
            return self.bind(self.call(st, st.obj(o).meta["factory"], [], {}, node, fr), put)
        if self.dunder(st, o, "__missing__"):
            return self.call_dunder(st, o, "__missing__", [i], node, fr)
        return [self.raise_new(st, "KeyError", fr, node, (i,))]

    def getitem(self, st, o, i, node, fr):
        o, i = st.res(o), st.res(i)
        if isinstance(o, Ext) and o.name == "builtins.__dict__" and isinstance(i, K):
            if i.v in vars(builtins):
                return self.getattr(st, Ext("builtins"), i.v, node, fr)
            return [self.raise_new(st, "KeyError", fr, node, (i,))]
        if isinstance(o, Ref):
            ob = st.obj(o)
            if ob.kind == "dict":
                return self.dict_get(st, o, i, node, fr, lambda s: self.missing_key(s, o, i, node, fr))
            if ob.kind in ("list", "iter"):
                return self.seq_get(st, o, ob.d, i, node, fr)
            if self.dunder(st, o, "__getitem__"):
                return self.call_dunder(st, o, "__getitem__", [i], node, fr)
            if isinstance(ob.d, dict):
                return self.dict_get(st, o, i, node, fr, lambda s: self.missing_key(s, o, i, node, fr))
            if isinstance(ob.d, tuple):
                return self.seq_get(st, o, ob.d, i, node, fr)
            return [(st, self.getitem_term(st, o, i))]
        if isinstance(o, Tup):
            return self.seq_get(st, o, o.items, i, node, fr)
        if isinstance(o, ClsV):
            r = self.meta_op(st, o, "__getitem__", [i], node, fr)
            if r is not None:
                return r
            f = o.ci.find("__class_getitem__")
            if f:
                return self.call(st, BM(o, FnV(f[1], None)), [i], {}, node, fr)
        if isinstance(o, K):
            if o.v is None:
                return [self.raise_new(st, "TypeError", fr, node)]
            if isinstance(i, K):
                try:
                    return [(st, K(o.v[i.v]))]
                except Exception as e:
                    return [self.raise_new(st, type(e).__name__, fr, node)]
        if isinstance(o, T) and st.known_type(o) and self.dunder(st, o, "__getitem__"):
            return self.call_dunder(st, o, "__getitem__", [i], node, fr)
        h = self.hooks.getitem(self, st, o, i) if hasattr(self.hooks, "getitem") else None
        if h is not None:
            return h if isinstance(h, list) else [(st, h)]
        if (o, i) in st.tfields:
            return [(st, st.tfields[(o, i)])]
        return self.subscript_ext(st, o, i, node, fr)

    def subscript_ext(self, st, o, i, node, fr):
        """Subscript of something symbolic; rules may inject KeyError/IndexError here."""
        out = []
        for cls in self.hooks.raises(self, st, ".__getitem__", o, [i]):
            s = st.fork()
            sub = True
            if isinstance(cls, tuple):
                cls, sub = cls
            e = s.new("exc", cls, {"args": Tup([i])}, None, {"sub": sub, "loc": self.loc(node, fr)})
            out.append((s, Abrupt(("raise", e))))
        return out + [(st, T("sub", o, i))]

    def seq_get(self, st, o, items, i, node, fr):
        if isinstance(i, K) and isinstance(i.v, int):
            n = len(items)
            if not any(is_rest(x) for x in items):
                if -n <= i.v < n:
                    return [(st, items[i.v])]
                return [self.raise_new(st, "IndexError", fr, node)]
            if i.v >= 0:
                for k, x in enumerate(items):
                    if is_rest(x):
                        if i.v >= k and len(items) == k + 1:
                            return [(st, T("elem", x.args[0], K(i.v - k)))]
                        break
                    if k == i.v:
                        return [(st, x)]
            else:
                tail = list(reversed(items))
                for k, x in enumerate(tail):
                    if is_rest(x):
                        if len(items) == 1:
                            return [(st, T("sub", x.args[0], i))]
                        break
                    if k == -i.v - 1:
                        return [(st, x)]
        if isinstance(i, T) and i.op == "slice":
            return self.getslice(st, o, i.args[0], i.args[1], i.args[2], node, fr)
        return [(st, T("sub", o if isinstance(o, Tup) else Tup(items), i))]

    def dict_get(self, st, o, i, node, fr, missing):
        ob = st.obj(o)
        out = []
        cur = [st]
        if i in ob.d:
            return [(st, ob.d[i])]
        for k, v in list(ob.d.items()):
            nxt = []
            for s in cur:
                for s2, b in branch(s, mk_eq(s, i, k)):
                    if b:
                        out.append((s2, s2.obj(o).d.get(k, v)))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            if ob.meta.get("open") and i not in ob.meta.get("absent", ()):
                for s2, b in branch(s, T("in", i, o)):
                    if b:
                        v = T("sub", ob.meta.get("bases", (o,))[-1] if ob.meta.get("bases") else o, i)
                        s2.mut(o).d[i] = v
                        out.append((s2, v))
                    else:
                        out.extend(missing(s2))
            else:
                out.extend(missing(s))
        return out

    def setitem(self, st, o, i, v, node, fr):
        o, i = st.res(o), st.res(i)
        loc = self.loc(node, fr)
        if isinstance(o, Ref):
            ob = st.obj(o)
            if ob.kind == "inst" and self.dunder(st, o, "__setitem__"):
                return self.call_dunder(st, o, "__setitem__", [i, v], node, fr)
            if isinstance(ob.d, dict):
                isnew = i not in ob.d
                st.mut(o).d[i] = v
                if "inst" in ob.meta and isinstance(i, K):
                    st.mut(ob.meta["inst"]).f[i.v] = v
                st.emit(Ev("setitem", "[]=", recv=o, args=(i, v), loc=loc,
                           extra="live" if isnew and o in st.live_iters else None))
                return [(st, NONE)]
            if isinstance(ob.d, tuple):
                items = list(ob.d)
                if isinstance(i, T) and i.op == "slice":
                    seq = self.known_seq(st, v)
                    new = list(seq) if seq is not None else [rest(v)]
                    if all(x == NONE for x in i.args):
                        items = new
                    elif i.args[0] == NONE and i.args[2] == NONE and isinstance(i.args[1], K) and \
                            i.args[1].v >= 0 and not any(is_rest(x) for x in items[:i.args[1].v]):
                        items = new + items[i.args[1].v:]
                    elif i.args[2] == NONE and all(isinstance(x, K) for x in i.args) and \
                            not any(is_rest(x) for x in items):
                        items[i.args[0].v:i.args[1].v] = new
                    elif i.args[2] == NONE and all(isinstance(x, K) and (x.v is None or x.v >= 0) for x in i.args) \
                            and i.args[1].v is not None and not any(is_rest(x) for x in items[:i.args[1].v]):
                        items[i.args[0].v:i.args[1].v] = new
                    else:
                        items = [rest(T("setslice", Tup(items), i, v))]
                    st.mut(o).d = tuple(items)
                elif isinstance(i, K) and isinstance(i.v, int) and not any(is_rest(x) for x in items):
                    if not -len(items) <= i.v < len(items):
                        return [self.raise_new(st, "IndexError", fr, node)]
                    items[i.v] = v
                    st.mut(o).d = tuple(items)
                else:
                    st.mut(o).d = (rest(T("setitem", Tup(items), i, v)),)
                st.emit(Ev("setitem", "[]=", recv=o, args=(i, v), loc=loc))
                return [(st, NONE)]
        if isinstance(o, K) or isinstance(o, Tup):
            return [self.raise_new(st, "TypeError", fr, node)]
        st.tfields[(o, i)] = v
        st.emit(Ev("setitem", "[]=", recv=o, args=(i, v), loc=loc, extra="live" if o in st.live_iters else None))
        return [(st, NONE)]

    def delitem(self, st, o, i, node, fr):
        o, i = st.res(o), st.res(i)
        loc = self.loc(node, fr)
        if isinstance(o, Ref):
            ob = st.obj(o)
            if ob.kind == "inst" and self.dunder(st, o, "__delitem__"):
                return self.call_dunder(st, o, "__delitem__", [i], node, fr)
            if isinstance(ob.d, dict):
                return self.bind(self.dict_get(st, o, i, node, fr,
                                               lambda s: [self.raise_new(s, "KeyError", fr, node, (i,))]),
                                 lambda s, _: self.drop_key(s, o, i, loc))
            if isinstance(ob.d, tuple):
                if isinstance(i, K) and not any(is_rest(x) for x in ob.d):
                    items = list(ob.d)
                    if not -len(items) <= i.v < len(items):
                        return [self.raise_new(st, "IndexError", fr, node)]
                    del items[i.v]
                    st.mut(o).d = tuple(items)
                else:
                    st.mut(o).d = (rest(T("delitem", Tup(ob.d), i)),)
                st.emit(Ev("delitem", "del", recv=o, args=(i,), loc=loc,
                           extra="live" if o in st.live_iters else None))
                return [(st, NONE)]
        out = []
        for cls in self.hooks.raises(self, st, ".__delitem__", o, [i]):
            s = st.fork()
            out.append(self.raise_new(s, cls if not isinstance(cls, tuple) else cls[0], fr, node, (i,)))
        st.tfields.pop((o, i), None)
        st.emit(Ev("delitem", "del", recv=o, args=(i,), loc=loc, extra="live" if o in st.live_iters else None))
        return out + [(st, NONE)]

    def drop_key(self, st, o, i, loc):
        ob = st.mut(o)
        key = i
        if i not in ob.d:
            for k in ob.d:
                if mk_eq(st, i, k) == TRUE or st.facts.get(mk_eq(st, i, k)) is True:
                    key = k
                    break
        ob.d.pop(key, None)
        if ob.meta.get("open"):
            ob.meta["absent"] = tuple(ob.meta.get("absent", ())) + (i,)
        st.emit(Ev("delitem", "del", recv=o, args=(i,), loc=loc, extra="live" if o in st.live_iters else None))
        return [(st, NONE)]

    def getslice(self, st, o, lo, hi, step, node, fr):
        o, lo, hi, step = (st.res(x) for x in (o, lo, hi, step))
        if isinstance(o, K) and all(isinstance(x, K) for x in (lo, hi, step)):
            try:
                return [(st, K(o.v[lo.v:hi.v:step.v]))]
            except Exception:
                return [self.raise_new(st, "TypeError", fr, node)]
        items = None
        if isinstance(o, Ref) and isinstance(st.obj(o).d, tuple) and st.obj(o).kind in ("list", "inst"):
            items = st.obj(o).d
        elif isinstance(o, Tup):
            items = o.items
        if items is not None and all(isinstance(x, K) for x in (lo, hi, step)):
            make = (lambda xs: Tup(xs)) if isinstance(o, Tup) else (lambda xs: st.new("list", None, None, tuple(xs)))
            if not any(is_rest(x) for x in items):
                return [(st, make(items[lo.v:hi.v:step.v]))]
            if step == NONE:
                a = 0 if lo == NONE else lo.v
                n = len(items)
                restpos = [k for k, x in enumerate(items) if is_rest(x)]
                if a >= 0 and a <= restpos[0]:
                    if hi == NONE:
                        return [(st, make(items[a:]))]
                    if 0 <= hi.v <= restpos[0]:
                        return [(st, make(items[a:hi.v]))]
                    if hi.v < 0 and n + hi.v > restpos[-1]:
                        return [(st, make(items[a:n + hi.v]))]
                if a < 0 and n + a > restpos[-1] and hi == NONE:
                    return [(st, make(items[a:]))]
        if isinstance(o, Ref) and self.dunder(st, o, "__getitem__"):
            return self.call_dunder(st, o, "__getitem__", [T("slice", lo, hi, step)], node, fr)
        t = T("slice", o if items is None else Tup(items), lo, hi, step)
        kt = st.known_type(o)
        if kt in ("str", "bytes", "list"):
            st.tinfo[t] = kt
        return [(st, t)]

    # -- text ------------------------------------------------------------------------------
    def to_str(self, st, v, node, fr):
        v = st.res(v)
        if isinstance(v, K):
            if isinstance(v.v, (str, int, float, bool, type(None), bytes)):
                return [(st, K(str(v.v)))]
        if isinstance(v, T) and (st.known_type(v) == "str"):
            return [(st, v)]
        c = self.cls_of(st, v) if not isinstance(v, ClsV) else None
        if c is not None:
            for m in ("__str__", "__repr__"):
                f = c.find(m)
                if f and f[0] == "method":
                    return self.call_dunder(st, v, m, [], node, fr)
                if any(b not in ("object",) for b in c.ext_bases):
                    break
        return [(st, T("str", v))]

    def to_repr(self, st, v, node, fr):
        v = st.res(v)
        if isinstance(v, K):
            return [(st, K(repr(v.v)))]
        c = self.cls_of(st, v) if not isinstance(v, ClsV) else None
        if c is not None:
            f = c.find("__repr__")
            if f and f[0] == "method":
                return self.call_dunder(st, v, "__repr__", [], node, fr)
        if isinstance(v, ClsV):
            r = self.meta_op(st, v, "__repr__", [], node, fr)
            if r is not None:
                return r
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, Ref) and st.obj(v).kind in ("list", "set", "dict") and not st.obj(v).meta.get("open"):
            d = st.obj(v).d
            items = [x for kv in d.items() for x in kv] if isinstance(d, dict) else list(d) if isinstance(d, tuple) else None
        if items:
            # displaying a container displays what is in it
            res = [(st, NONE)]
            for x in items:
                if not isinstance(x, K):
                    res = self.bind(res, lambda s, _, x=x: self.to_repr(s, x, node, fr))
            return self.bind(res, lambda s, _: [(s, T("repr", v))])
        return [(st, T("repr", v))]

    # -- decorators ---------------------------------------------------------------------------
    def apply_decorator(self, st, dv, fv, node, fr):
        dv = st.res(dv)
        if isinstance(dv, Ext):
            n = dv.name
            if n in ("property", "staticmethod", "classmethod"):
                return [(st, fv)]
            if n.startswith("contextlib.") or n.startswith("functools.") or n.startswith("abc."):
                return [(st, fv)]
            return [(st, fv)]
        if isinstance(dv, T):
            # the result of an external decorator factory, e.g. functools.wraps(f)
            return [(st, fv)]
        return self.call(st, dv, [fv], {}, node, fr)

    # -- methods of external base classes ----------------------------------------------------
    def call_extmethod(self, st, base, name, slf, args, kwargs, node, fr):
        loc = self.loc(node, fr)
        raise_ = lambda cls: [self.raise_new(st, cls, fr, node)]
        if base in ("dict", "list", "set") and isinstance(slf, Ref):
            ob = st.obj(slf)
            if isinstance(ob.d, (dict, tuple)):
                return self.container_method(st, slf, name, list(args), kwargs, node, fr)
        if name == "__setattr__":
            nm = args[0]
            if isinstance(nm, K):
                if isinstance(slf, Ref) and isinstance(st.obj(slf).cls, ClassInfo):
                    return self.raw_setattr(st, slf, nm.v, args[1], node, fr)
                if isinstance(slf, Ref):
                    st.mut(slf).f[nm.v] = args[1]
                else:
                    st.tfields[(slf, nm.v)] = args[1]
            st.emit(Ev("setattr", nm.v if isinstance(nm, K) else nm, recv=slf, args=(args[1],), loc=loc))
            return [(st, NONE)]
        if name == "__getattribute__" and args and isinstance(args[0], K):
            return self.getattr(st, slf, args[0].v, node, fr)
        if name == "__delattr__" and args and isinstance(args[0], K):
            return self.delattr(st, slf, args[0].v, node, fr)
        if name == "__init__":
            if isinstance(slf, Ref):
                ob = st.mut(slf)
                if ob.kind == "exc":
                    ob.f["args"] = Tup(args)
                elif isinstance(ob.d, dict) and args:
                    return self.container_method(st, slf, "update", list(args), kwargs, node, fr)
                elif isinstance(ob.d, dict):
                    for k, v in kwargs.items():
                        ob.d[K(k)] = v
            st.emit(Ev("extmethod", "%s.%s" % (base, name), recv=slf, args=args, kwargs=kwargs, loc=loc))
            return [(st, NONE)]
        if name == "__new__":
            c = slf if isinstance(slf, ClsV) else (args[0] if args else None)
            c = st.res(c) if c is not None else None
            if isinstance(c, ClsV):
                return [(st, self.alloc(st, c.ci))]
            if isinstance(c, Ref) and args and isinstance(args[0], ClsV):
                return [(st, self.alloc(st, args[0].ci))]
        if name in ("__str__", "__repr__"):
            return [(st, T("str" if name == "__str__" else "repr", slf))]
        if name == "__eq__":
            return [(st, mk_is(st, slf, args[0]))]
        if name == "__ne__":
            return [(st, mk_not(mk_is(st, slf, args[0])))]
        if name == "__hash__":
            return [(st, T("call", "hash", (slf,), None))]
        return self.call_ext(st, "%s.%s" % (base, name), None, [slf] + list(args), kwargs, node, fr)

    # -- methods of builtin values ---------------------------------------------------------------
    def call_builtin_method(self, st, recv, name, args, kwargs, node, fr):
        recv = st.res(recv)
        if isinstance(recv, K):
            return self.const_method(st, recv, name, args, kwargs, node, fr)
        if isinstance(recv, Tup):
            if name == "index" and args:
                for i, x in enumerate(recv.items):
                    if x == args[0]:
                        return [(st, K(i))]
            return [(st, T("call", T("meth", recv, name), tuple(args), None))]
        if isinstance(recv, Ref):
            ob = st.obj(recv)
            if ob.kind in ("list", "dict", "set"):
                return self.container_method(st, recv, name, list(args), kwargs, node, fr)
            if ob.kind == "view":
                if name == "__iter__":
                    return [(st, recv)]
                return [(st, self.opaque_call(st, name, recv, args, kwargs, node, fr))]
            if ob.kind == "coro":
                if name == "__await__":
                    return [(st, recv)]
                return [(st, self.opaque_call(st, name, recv, args, kwargs, node, fr))]
            if ob.kind == "exitstack":
                return self.exitstack_method(st, recv, name, args, kwargs, node, fr)
            if ob.kind in ("gen", "iter", "calliter"):
                if name in ("__iter__", "__aiter__"):
                    return [(st, recv)]
                if name == "__next__":
                    return self.bi_next(st, [recv], {}, node, fr)
                if name == "__anext__":
                    return [(st, T("call", T("meth", recv, name), (), st.nev))]
                return [(st, self.opaque_call(st, name, recv, args, kwargs, node, fr))]
            if ob.kind == "partial" and name == "func":
                return [(st, ob.meta["fn"])]
        return self.call_ext(st, "." + name, recv, args, kwargs, node, fr)

    def const_method(self, st, recv, name, args, kwargs, node, fr):
        vals = []
        ok = True
        for a in args:
            a = st.res(a)
            if isinstance(a, K):
                vals.append(a.v)
            elif isinstance(a, Tup) and all(isinstance(i, K) for i in a.items):
                vals.append(tuple(i.v for i in a.items))
            else:
                ok = False
        kv = {}
        for k, a in kwargs.items():
            if isinstance(a, K):
                kv[k] = a.v
            else:
                ok = False
        if name == "join" and isinstance(recv.v, (str, bytes)) and args:
            return self.join(st, recv, args[0], node, fr)
        if name == "format" and isinstance(recv.v, str):
            return self.fmt(st, recv, args, kwargs, node, fr)
        if ok:
            try:
                r = getattr(recv.v, name)(*vals, **kv)
            except Exception as e:
                return [self.raise_new(st, type(e).__name__, fr, node)]
            return [(st, self.lift(st, r))]
        if isinstance(recv.v, (str, bytes)):
            kw = tuple(T("kw", k, v) for k, v in sorted(kwargs.items()))
            t = T("call", T("meth", recv, name), tuple(args) + kw, None)
            if name in ("replace", "format", "strip", "lower", "upper"):
                st.tinfo[t] = type(recv.v).__name__
            return [(st, t)]
        return [(st, self.opaque_call(st, "." + name, recv, args, kwargs, node, fr))]

    def lift(self, st, r):
        if isinstance(r, (str, bytes, int, float, bool, type(None))):
            return K(r)
        if isinstance(r, tuple):
            return Tup([self.lift(st, x) for x in r])
        if isinstance(r, list):
            return st.new("list", None, None, tuple(self.lift(st, x) for x in r))
        return T("const", repr(r))

    def join(self, st, sep, arg, node, fr):
        """sep.join(iterable)"""
        acc = st.new("list", None, None, ())

        def body(s, item):
            self.acc_add(s, acc, item)
            return [(s, NORMAL)]

        def finish(s):
            parts = []
            for i, x in enumerate(s.obj(acc).d):
                if i:
                    parts.append(sep)
                parts.append(T("join", sep, x.args[0]) if is_rest(x) else x)
            if not parts:
                return K(type(sep.v)())
            return self.mk_cat(s, parts)
        seq = self.known_seq(st, arg)
        if seq is not None:
            for x in seq:
                self.acc_add(st, acc, x)
            return [(st, finish(st))]
        if isinstance(arg, (T, Ext)):
            t = T("join", sep, arg)
            st.tinfo[t] = type(sep.v).__name__
            return [(st, t)]
        out = []
        for s, o in self.iterate(st, arg, body, node, fr):
            out.append((s, finish(s) if o is NORMAL else Abrupt(o)))
        return out

    def fmt(self, st, recv, args, kwargs, node, fr):
        import string
        try:
            pieces = list(string.Formatter().parse(recv.v))
        except ValueError:
            return [self.raise_new(st, "ValueError", fr, node)]
        res = [(st, [])]
        auto = 0
        for lit, field, spec, conv in pieces:
            if lit:
                res = self.bind(res, lambda s, ps: [(s, ps + [K(lit)])])
            if field is None:
                continue
            head = field.split(".")[0].split("[")[0]
            attrs = field[len(head):]
            if head == "":
                idx = auto
                auto += 1
                v = args[idx] if idx < len(args) else None
            elif head.isdigit():
                v = args[int(head)] if int(head) < len(args) else None
            else:
                v = kwargs.get(head)
                if v is None and "**" in kwargs:
                    v = T("sub", kwargs["**"], K(head))
            if v is None:
                return [self.raise_new(st, "KeyError", fr, node)]
            if attrs or spec:
                res = self.bind(res, lambda s, ps: [(s, ps + [T("fmt", K((attrs, spec, conv)), v)])])
            elif conv == "r":
                res = self.bind(res, lambda s, ps: self.bind(self.to_repr(s, v, node, fr),
                                                             lambda s2, x: [(s2, ps + [x])]))
            else:
                res = self.bind(res, lambda s, ps: self.bind(self.to_str(s, v, node, fr),
                                                             lambda s2, x: [(s2, ps + [x])]))
        return self.bind(res, lambda s, ps: [(s, self.mk_cat(s, ps))])

    def elements(self, st, v, node, fr):
        """All elements of an iterable as a list of values: [(state, [items])]."""
        seq = self.known_seq(st, v)
        if seq is not None:
            return [(st, list(seq))]
        if isinstance(v, (T, Ext)):
            return [(st, [rest(v)])]
        if isinstance(v, Ref) and st.obj(v).kind in ("dict", "view"):
            src, what = (v, "keys") if st.obj(v).kind == "dict" else st.obj(v).d
            d = st.obj(src)
            if isinstance(d.d, dict):
                known = {"keys": list(d.d.keys()), "values": list(d.d.values()),
                         "items": [Tup((k, x)) for k, x in d.d.items()]}[what]
                return [(st, known + [rest(T("view", src, what))])]
        acc = st.new("list", None, None, ())

        def body(s, item):
            self.acc_add(s, acc, item)
            return [(s, NORMAL)]
        return [(s, list(s.obj(acc).d) if o is NORMAL else Abrupt(o))
                for s, o in self.iterate(st, v, body, node, fr)]

    def container_method(self, st, recv, name, args, kwargs, node, fr):
        ob = st.obj(recv)
        loc = self.loc(node, fr)
        live = "live" if recv in st.live_iters else None
        if name in MUTATORS:
            st.emit(Ev("mutate", name, recv=recv, args=tuple(args), kwargs=kwargs, loc=loc, extra=live))
        if name in ("__iter__",):
            return [(st, st.new("iter", None, {}, tuple(self.known_seq(st, recv) or (rest(recv),))))]
        if isinstance(ob.d, dict):
            return self.dict_method(st, recv, name, args, kwargs, node, fr)
        if name == "appendleft":
            o = st.mut(recv)
            o.d = (args[0],) + tuple(o.d)
            return [(st, NONE)]
        if name == "popleft":
            return self.container_method(st, recv, "pop", [K(0)], {}, node, fr)
        if name == "append" or name == "add":
            o = st.mut(recv)
            if name == "add" and args[0] in o.d:
                return [(st, NONE)]
            o.d = tuple(o.d) + (args[0],)
            return [(st, NONE)]
        if name in ("extend", "update", "__iadd__", "__ior__"):
            if isinstance(st.res(args[0]), Ref) and st.obj(st.res(args[0])).kind in ("gen", "calliter"):
                def put(s, item):
                    o = s.mut(recv)
                    if o.kind != "set" or item not in o.d:
                        o.d = tuple(o.d) + (item,)
                    return [(s, NORMAL)]
                return [(s, (recv if name.startswith("__i") else NONE) if o is NORMAL else Abrupt(o))
                        for s, o in self.iterate(st, st.res(args[0]), put, node, fr)]

            def ext(s, items):
                o = s.mut(recv)
                if o.kind == "set":
                    items = [x for x in items if x not in o.d]
                o.d = tuple(o.d) + tuple(items)
                return [(s, recv if name.startswith("__i") else NONE)]
            return self.bind(self.elements(st, args[0], node, fr), ext)
        if name == "insert":
            o = st.mut(recv)
            i = args[0]
            items = list(o.d)
            if isinstance(i, K) and i.v == 0:
                items.insert(0, args[1])
                o.d = tuple(items)
            elif isinstance(i, K) and not any(is_rest(x) for x in items):
                items.insert(i.v, args[1])
                o.d = tuple(items)
            else:
                o.d = (rest(T("insert", Tup(items), i, args[1])),)
            return [(st, NONE)]
        if name == "pop":
            items = list(ob.d)
            i = args[0] if args else K(-1)
            if not items:
                return [self.raise_new(st, "IndexError" if ob.kind != "set" else "KeyError", fr, node)]
            if ob.kind == "set":
                o = st.mut(recv)
                x = items[0]
                o.d = tuple(items[1:]) if not is_rest(x) else o.d
                return [(st, T("elem", x.args[0], K(0)) if is_rest(x) else x)]
            if isinstance(i, K) and isinstance(i.v, int):
                n = len(items)
                if not any(is_rest(x) for x in items) and not -n <= i.v < n:
                    return [self.raise_new(st, "IndexError", fr, node)]
                if -n <= i.v < n and not is_rest(items[i.v]) and (
                        not any(is_rest(x) for x in (items[:i.v] if i.v >= 0 else items[i.v:]))):
                    x = items.pop(i.v)
                    st.mut(recv).d = tuple(items)
                    return [(st, x)]
            v = T("call", T("meth", Tup(items), "pop"), tuple(args), st.nev)
            st.mut(recv).d = (rest(T("popped", Tup(items), st.nev)),) if len(items) != 1 else tuple(items)
            return [(st, v)]
        if name in ("remove", "discard"):
            x = st.res(args[0])
            if x in ob.d:
                items = list(ob.d)
                items.remove(x)
                st.mut(recv).d = tuple(items)
                return [(st, NONE)]
            out = []
            cur = [st]
            for k, it in enumerate(ob.d):
                nxt = []
                for s in cur:
                    c = T("in", x, it.args[0]) if is_rest(it) else mk_eq(s, x, it)
                    for s2, b in branch(s, c):
                        if b:
                            items = list(s2.obj(recv).d)
                            if is_rest(it):
                                items[k] = rest(T("removed", it.args[0], x))
                            else:
                                items.pop(k)
                            s2.mut(recv).d = tuple(items)
                            out.append((s2, NONE))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                out.append((s, NONE) if name == "discard" else self.raise_new(
                    s, "KeyError" if ob.kind == "set" else "ValueError", fr, node))
            return out
        if name == "clear":
            st.mut(recv).d = ()
            return [(st, NONE)]
        if name == "copy" or name == "__copy__":
            return [(st, st.new(ob.kind if ob.kind != "inst" else "list", None, None, tuple(ob.d)))]
        if name == "reverse":
            st.mut(recv).d = tuple(reversed(ob.d))
            return [(st, NONE)]
        if name == "sort":
            if len(ob.d) > 1:
                if all(isinstance(x, K) for x in ob.d) and not (set(kwargs) - {"reverse"}) and all(isinstance(x, K) for x in kwargs.values()):
                    try:
                        st.mut(recv).d = tuple(K(v) for v in sorted((x.v for x in ob.d), reverse=bool(
                            kwargs["reverse"].v if kwargs else False)))
                        return [(st, NONE)]
                    except TypeError:
                        pass
                st.mut(recv).d = (rest(T("call", "sorted", (Tup(ob.d),), None)),)
            return [(st, NONE)]
        if name in ("index", "count"):
            if not any(is_rest(x) for x in ob.d) and all(isinstance(x, K) for x in ob.d) and isinstance(args[0], K):
                xs = [x.v for x in ob.d]
                try:
                    return [(st, K(getattr(xs, name)(args[0].v)))]
                except ValueError:
                    return [self.raise_new(st, "ValueError", fr, node)]
            return [(st, T("call", T("meth", Tup(ob.d), name), tuple(args), None))]
        if name in ("union", "difference", "intersection") and len(args) == 1 and ob.kind == "set":
            return self.set_op(st, {"union": "or", "difference": "sub", "intersection": "and"}[name], recv, args[0],
                               node, fr)
        if name == "__contains__":
            return self.contains_(st, args[0], recv, node, fr)
        if name == "__getitem__":
            return self.seq_get(st, recv, ob.d, args[0], node, fr)
        if name == "__len__":
            return self.bi_len(st, [recv], {}, node, fr)
        return [(st, self.opaque_call(st, "." + name, recv, args, kwargs, node, fr, tag="meth"))]

    def dict_method(self, st, recv, name, args, kwargs, node, fr):
        ob = st.obj(recv)
        loc = self.loc(node, fr)
        if "inst" in ob.meta and name in ("update", "__setitem__", "pop", "clear", "setdefault", "popitem"):
            inst = ob.meta["inst"]
            keep = {k: v for k, v in ob.meta.items() if k != "inst"}
            tmp = st.new("dict", None, {}, dict(ob.d), keep)

            def back(s, v):
                d = s.obj(tmp).d
                s.mut(recv).d = dict(d)
                s.mut(inst).f = {k.v: x for k, x in d.items() if isinstance(k, K)}
                return [(s, v)]
            return self.bind(self.dict_method(st, tmp, name, args, kwargs, node, fr), back)
        if name in ("items", "keys", "values"):
            return [(st, st.new("view", None, {}, (recv, name)))]
        if name == "get":
            dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            return self.dict_get(st, recv, st.res(args[0]), node, fr, lambda s: [(s, dflt)])
        if name == "__getitem__":
            i = st.res(args[0])
            return self.dict_get(st, recv, i, node, fr, lambda s: self.missing_key(s, recv, i, node, fr))
        if name == "__setitem__":
            i = st.res(args[0])
            st.mut(recv).d[i] = args[1]
            st.emit(Ev("setitem", "[]=", recv=recv, args=(i, args[1]), loc=loc))
            return [(st, NONE)]
        if name in ("__delitem__",):
            i = st.res(args[0])
            return self.bind(self.dict_get(st, recv, i, node, fr,
                                           lambda s: [self.raise_new(s, "KeyError", fr, node, (i,))]),
                             lambda s, _: self.drop_key(s, recv, i, loc))
        if name == "__contains__":
            i = st.res(args[0])
            return self.member(st, i, list(ob.d.keys()), T("in", i, recv) if ob.meta.get("open") else None)
        if name == "pop":
            i = st.res(args[0])
            out = []
            mark = V()
            for s, v in self.dict_get(st, recv, i, node, fr, lambda s: [(s, mark)]):
                if v is mark:
                    out.append((s, args[1]) if len(args) > 1 else self.raise_new(s, "KeyError", fr, node, (i,)))
                else:
                    self.drop_key(s, recv, i, loc)
                    out.append((s, v))
            return out
        if name == "setdefault":
            i = st.res(args[0])
            d = args[1] if len(args) > 1 else NONE

            def miss(s):
                s.mut(recv).d[i] = d
                return [(s, d)]
            return self.dict_get(st, recv, i, node, fr, miss)
        if name == "update" and len(args) == 1 and isinstance(st.res(args[0]), Ref) and st.obj(st.res(args[0])).kind in (
                "gen", "calliter"):
            def pair(s, item):
                def put(s2, kv):
                    s2.mut(recv).d[s2.res(kv[0])] = kv[1]
                    return [(s2, NONE)]
                return self.stmts_of(self.bind(self.unpack(s, item, 2, None, node, fr), put))
            out = []
            for s, o in self.iterate(st, st.res(args[0]), pair, node, fr):
                if o is not NORMAL:
                    out.append((s, Abrupt(o)))
                    continue
                for k, v in kwargs.items():
                    s.mut(recv).d[K(k)] = v
                out.append((s, NONE))
            return out
        if name == "update":
            o = st.mut(recv)
            for src in args:
                src = st.res(src)
                if isinstance(src, Ref) and isinstance(st.obj(src).d, dict):
                    o.d.update(st.obj(src).d)
                    if st.obj(src).meta.get("open"):
                        o.meta["open"] = True
                        o.meta["bases"] = tuple(o.meta.get("bases", ())) + (src,)
                else:
                    seq = self.known_seq(st, src)
                    if seq is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in seq):
                        for x in seq:
                            o.d[x.items[0]] = x.items[1]
                    else:
                        o.meta["open"] = True
                        o.meta["bases"] = tuple(o.meta.get("bases", ())) + (src,)
            for k, v in kwargs.items():
                o.d[K(k)] = v
            return [(st, NONE)]
        if name == "clear":
            o = st.mut(recv)
            o.d = {}
            o.meta = {}
            return [(st, NONE)]
        if name in ("copy", "__copy__"):
            return [(st, st.new("dict", None, None, dict(ob.d), dict(ob.meta)))]
        if name == "__len__":
            return self.bi_len(st, [recv], {}, node, fr)
        if name == "popitem":
            if not ob.d and not ob.meta.get("open"):
                return [self.raise_new(st, "KeyError", fr, node)]
            if ob.d and not ob.meta.get("open"):
                k = list(ob.d)[-1]
                v = st.mut(recv).d.pop(k)
                return [(st, Tup((k, v)))]
        return [(st, self.opaque_call(st, "." + name, recv, args, kwargs, node, fr, tag="meth"))]

    # -- everything else outside the package -------------------------------------------------------
    def generic_ext(self, st, name, recv, args, kwargs, node, fr):
        if recv is not None:
            kt = st.known_type(recv)
            m = name[1:] if name.startswith(".") else name
            if isinstance(recv, (T, Ext)) and (kt in ("str", "bytes") and m in STR_PURE):
                if m == "join" and args:
                    t = T("join", recv, args[0])
                    st.tinfo[t] = kt
                    return [(st, t)]
                return [(st, self.pure_call(st, T("meth", recv, m), args, kwargs))]
            if kt is None and m in ("startswith", "endswith", "encode", "decode", "split", "rsplit", "splitlines",
                                    "strip", "lstrip", "rstrip", "lower", "upper", "partition", "rpartition",
                                    "isupper", "find", "rfind"):
                t = self.pure_call(st, T("meth", recv, m), args, kwargs)
                if m == "encode":
                    st.tinfo.setdefault(t, "bytes")
                if m == "decode":
                    st.tinfo.setdefault(t, "str")
                return [(st, t)]
            if isinstance(recv, (T, Ext)) and m in ("append", "extend", "remove", "pop", "add", "discard", "insert",
                                                    "clear", "update", "popleft", "appendleft") and recv in st.live_iters:
                st.emit(Ev("mutate", m, recv=recv, args=tuple(args), kwargs=kwargs, loc=self.loc(node, fr), extra="live"))
            if m in ("keys", "values", "items", "copy") and not args:
                return [(st, self.pure_call(st, T("meth", recv, m), args, kwargs))]
            return [(st, self.opaque_call(st, name, recv, args, kwargs, node, fr))]
        if self.is_exc_name(name):
            f = {"args": Tup(args)}
            bases = exc_bases(name)
            if "SystemExit" in bases:
                f["code"] = NONE if not args else args[0] if len(args) == 1 else Tup(args)
            if "StopIteration" in bases:
                f["value"] = args[0] if args else NONE
            if "OSError" in bases and "UnicodeError" not in bases:
                for i, n in enumerate(("errno", "strerror", "filename")):
                    f[n] = args[i] if len(args) > max(i, 1) else NONE
            e = st.new("exc", name, f, None, {"sub": False})
            return [(st, e)]
        if name in FOLDED and args and not kwargs:
            v = self.fold(st, name, args)
            if v is not None:
                return [(st, v)]
        if name in PURE_EXT or any(name.startswith(p) for p in PURE_PREFIX) and name not in IMPURE_PATH:
            vals = [st.res(a) for a in args]
            if args and all(isinstance(a, K) for a in vals) and not kwargs and (name in (
                    "os.path.join", "os.path.dirname", "os.path.basename", "os.path.split", "os.path.splitext",
                    "os.path.isabs", "os.path.normpath") or
                    name == "os.path.abspath" and isinstance(vals[0].v, str) and vals[0].v.startswith("/") or
                    name == "os.path.expanduser" and isinstance(vals[0].v, str) and not vals[0].v.startswith("~")):
                try:
                    return [(st, self.lift(st, getattr(os.path, name[8:])(*[a.v for a in vals])))]
                except Exception:
                    pass
            return [(st, self.pure_call(st, name, args, kwargs))]
        return [(st, self.opaque_call(st, name, recv, args, kwargs, node, fr))]

    def fold(self, st, name, args):
        """The value of a pure library function of constants, None if it has none."""
        vals = []
        for a in args:
            a = st.res(a)
            if isinstance(a, Ref) and st.obj(a).kind == "list" and all(isinstance(st.res(i), K) for i in st.obj(a).d or ()):
                a = [st.res(i).v for i in st.obj(a).d or ()]
            elif isinstance(a, K):
                a = a.v
            else:
                return None
            vals.append(a)
        try:
            return self.lift(st, FOLDED[name](*vals))
        except Exception:
            return None

    def pure_call(self, st, key, args, kwargs):
        kw = tuple(T("kw", k, v) for k, v in sorted(kwargs.items()))
        return T("call", key, tuple(st.res(a) for a in args) + kw, None)

    def is_exc_name(self, name):
        import builtins
        t = getattr(builtins, name, None)
        if isinstance(t, type) and issubclass(t, BaseException):
            return True
        last = name.rsplit(".", 1)[-1]
        return last.endswith("Error") and last[0].isupper() or last in ("CancelledError",)

    def isinstance_value(self, st, v, c):
        """isinstance(v, c) as [(state, value)]."""
        v, c = st.res(v), st.res(c)
        wants = []

        def flat(x):
            x = st.res(x)
            if isinstance(x, Tup):
                for i in x.items:
                    flat(i)
            elif isinstance(x, Ext):
                wants.append(x.name)
            elif isinstance(x, ClsV):
                wants.append(x.ci)
            elif isinstance(x, T) and x.op == "call" and x.args[0] == "type" and len(x.args[1]) == 1:
                k = x.args[1][0]
                wants.append("NoneType" if k == NONE else x)
            else:
                wants.append(x)
        flat(c)
        out = []
        cur = [st]
        for w in wants:
            nxt = []
            for s in cur:
                if isinstance(w, V):
                    for s2, b in branch(s, T("in", v, T("instancesof", w))):
                        (out if b else nxt).append((s2, TRUE) if b else s2)
                    continue
                r = conds.decide_isinstance(s, v, w)
                if r is True:
                    out.append((s, TRUE))
                elif r is False:
                    nxt.append(s)
                elif len(wants) == 1:
                    out.append((s, T("isinstance", v, w)))
                else:
                    for s2, b in branch(s, T("isinstance", v, w)):
                        (out if b else nxt).append((s2, TRUE) if b else s2)
            cur = nxt
        return out + [(s, FALSE) for s in cur]
