"""Models of Python's own operations on symbolic values.

Operations on opaque values are *ghost events*: the k-th event of a path has an
arbitrary result or raises an arbitrary exception; the real function and its
spec must issue the same events on the same operands in the same order.
"""
import builtins as _bi
import collections
import copy as _copy
import inspect
import operator
import sys
import types

import z3

from .core import *
from .core import _same
from . import core

PURE_HAS = {"im_func", "__self__", "__objclass__", "gi_frame_", "co_name", "func_name", "__name"}
# attributes of callables read for dispatching on well-known builtins
PURE_ATTR = {"__name__": "str"}
MISSING = object()

_PYOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
          "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "<<": operator.lshift,
          ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "@": operator.matmul}
_PYIOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv,
           "//": operator.ifloordiv, "%": operator.imod, "**": operator.ipow, "<<": operator.ilshift,
           ">>": operator.irshift, "&": operator.iand, "|": operator.ior, "^": operator.ixor,
           "@": operator.imatmul}
_PYCMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
          ">=": operator.ge}
_PYUN = {"-": operator.neg, "+": operator.pos, "~": operator.invert}

_BY_FN = {}
for _k, _f in _PYOPS.items():
    _BY_FN[_f] = ("binary", _k)
for _k, _f in _PYIOPS.items():
    _BY_FN[_f] = ("inplace", _k)
for _k, _f in _PYCMP.items():
    _BY_FN[_f] = ("compare", _k)
for _k, _f in _PYUN.items():
    _BY_FN[_f] = ("unary", _k)
_BY_FN[operator.is_] = ("compare", "is")
_BY_FN[operator.is_not] = ("compare", "is not")

IMMUT = (int, str, bytes, float, complex, bool, type(None), tuple, frozenset, range, type(Ellipsis),
         type(NotImplemented))
SAFE_NATIVE = {len, isinstance, issubclass, repr, str, int, bool, ord, chr, divmod, min, max, sorted, abs,
               range, tuple, hex, callable, hasattr, getattr, type, id, bytes, float, frozenset, sum, any,
               all, hash, round, pow, vars, dir, format, complex, slice}
SAFE_MODULES = ("xdis", "inspect", "operator", "_operator", "re", "os.path", "posixpath", "itertools")


def is_host(v):
    return not isinstance(v, Sym)


class Models:
    def __init__(self, ctx):
        self.ctx = ctx
        self.table = _TABLE
        self.pure_has = set(PURE_HAS)
        self.event_nothrow = set()

    def attach(self, it):
        self.it = it

    # ---------------------------------------------------------------- events
    def event(self, op, *args, ret="obj", raises=True):
        ctx = self.ctx
        snap = [self.snapshot(a) for a in args]
        if ctx.phase == "real":
            k = len(ctx.events)
            if k > 60:
                raise Unsupported("too many events")
            bad = raises and op not in self.event_nothrow and ctx.choose(2) == 1
            if bad:
                out = ("raise", self.mk_exc(k))
            else:
                out = ("ok", self.mk_ret(k, ret))
            ctx.events.append((op, snap, out, ret))
        else:
            k = ctx.evpos
            if k >= len(ctx.events):
                raise Refuted("missing operation", f"the contract performs {op}{tuple(args)!r} here, the code does not")
            rop, rargs, out, rret = ctx.events[k]
            if rop != op or len(rargs) != len(snap):
                raise Refuted("operation", f"operation {k}: contract {op}{tuple(args)!r}, code {rop}{tuple(rargs)!r}")
            for i, (a, b) in enumerate(zip(rargs, snap)):
                if not self.same_proved(a, b):
                    raise Refuted("operation operands",
                                  f"operation {k} ({op}), operand {i}: contract {b!r}, code {a!r}")
            ctx.evpos += 1
        if ctx.on_event:
            ctx.on_event(k, op, out)
        if out[0] == "raise":
            raise PyRaise(out[1])
        return out[1]

    def mk_exc(self, k):
        o = Obj(z3.Const(f"exc{k}", U))
        self.ctx.assume(self.ctx.sub(self.ctx.typeof(o), BaseException))
        return o

    def mk_ret(self, k, ret):
        if ret == "obj":
            return Obj(z3.Const(f"res{k}", U))
        if ret == "str":
            return self.ctx.obj(f"res{k}", "str")
        if ret == "bool":
            return SBool(z3.Bool(f"res{k}"))
        if ret == "int":
            return self.ctx.int(f"res{k}", 0)
        if ret == "seq":
            n = self.ctx.int(f"res{k}.len", 0)
            b = SeqBase(f"res{k}", n.t)
            return HList([S(b, z3.IntVal(0), n.t)])
        if ret == "none":
            return None
        raise AssertionError(ret)

    def snapshot(self, v, memo=None):
        """A copy of the argument's current state (the operand as the operation sees it)."""
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, HList):
            n = memo[id(v)] = HList([], v.uid)
            n.segs = [E(self.snapshot(s.v, memo)) if isinstance(s, E) else s for s in v.segs]
            return n
        if isinstance(v, (HTuple, HSet)):
            return type(v)([E(self.snapshot(s.v, memo)) if isinstance(s, E) else s for s in v.segs], v.uid, v.cls)
        if isinstance(v, HDict):
            n = memo[id(v)] = HDict(v.base, [], v.uid, v.cls)
            n.over = [(k, self.snapshot(x, memo)) for k, x in v.over]
            return n
        if isinstance(v, HObj) and not issubclass(v.cls, BaseException):
            n = memo[id(v)] = HObj(v.cls, {}, v.uid)
            for k in self.observable_attrs(v, v):
                if k in v.attrs:
                    n.attrs[k] = self.snapshot(v.attrs[k], memo)
            return n
        return v

    # ---------------------------------------------------------------- sameness
    def same_proved(self, a, b):
        fs = []
        self.same(a, b, fs, {}, "")
        f = z3.And([x for _, x in fs]) if fs else z3.BoolVal(True)
        return self.ctx.proves(f)

    def lift(self, v):
        if isinstance(v, (HObj, HSeq, HDict)) and v.uid is not None:
            key = ("uid", v.uid)
            ctx = self.ctx
            if key not in ctx.lifted:
                t = z3.Const("h!" + str(v.uid), U)
                for _, (o, _) in ctx.lifted.items():
                    ctx.assume(t != o)
                ctx.lifted[key] = (t, v)
            return ctx.lifted[key][0]
        return self.ctx.lift(v)

    def same(self, a, b, fs, memo, path):
        """Append (label, formula) conditions under which the two runs' values agree."""
        if a is b and not isinstance(a, (HObj, HSeq, HDict)):
            return
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
                x, y = (a, b) if isinstance(a, Obj) else (b, a)
                it = core._INTVAL(x.t)
                if isinstance(y, SBool):
                    tt, ff = self.ctx.lift(True), self.ctx.lift(False)
                    fs.append((path, x.t == z3.If(y.t, tt, ff)))
                else:
                    fs.append((path, it == y.t))
                return
            if isinstance(a, Sym) and not isinstance(a, Obj) and a.__class__ is not Obj and \
                    not (isinstance(a, (HObj, HSeq, HDict)) and a.uid is not None):
                fs.append((path, z3.BoolVal(False)))
                return
            if isinstance(b, Sym) and not isinstance(b, Obj) and \
                    not (isinstance(b, (HObj, HSeq, HDict)) and b.uid is not None):
                fs.append((path, z3.BoolVal(False)))
                return
            fs.append((path, self.lift(a) == self.lift(b)))
            return
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, SBool) or isinstance(b, SBool):
                if not all(isinstance(x, (SBool, bool)) for x in (a, b)):
                    fs.append((path, z3.BoolVal(False)))
                    return
            elif not all(isinstance(x, (SInt, int)) for x in (a, b)):
                fs.append((path, z3.BoolVal(False)))
                return
            x, y = [v.t if isinstance(v, (SInt, SBool)) else v for v in (a, b)]
            fs.append((path, x == y))
            return
        key = (id(a), id(b))
        if key in memo:
            return
        memo[key] = (a, b)
        if isinstance(a, HSeq) or isinstance(b, HSeq):
            a2, b2 = self.as_seq(a), self.as_seq(b)
            if a2 is None or b2 is None or type(a2) is not type(b2) or a2.cls is not b2.cls:
                fs.append((path, z3.BoolVal(False)))
                return
            if a2.uid != b2.uid and isinstance(a2, HList):
                # identity of pre-state lists is observable
                fs.append((path + " (identity)", z3.BoolVal(False)))
                return
            self.rope_same(a2.segs, b2.segs, fs, memo, path)
            return
        if isinstance(a, HDict) and isinstance(b, HDict):
            if a.uid != b.uid:
                fs.append((path + " (identity)", z3.BoolVal(False)))
                return
            self.dict_same(a, b, fs, memo, path)
            return
        if isinstance(a, HObj) and isinstance(b, HObj):
            if a.cls is not b.cls or a.uid != b.uid:
                fs.append((path, z3.BoolVal(False)))
                return
            if ("bij", id(a)) in memo and memo[("bij", id(a))] is not b:
                fs.append((path + " (identity)", z3.BoolVal(False)))
                return
            memo[("bij", id(a))] = b
            if issubclass(a.cls, BaseException):
                if a.uid is None:
                    for extra in ("__cause__",):
                        self.same(a.attrs.get(extra), b.attrs.get(extra), fs, memo, path + "." + extra)
                    if a.cls is StopIteration:
                        self.same(a.attrs.get("args"), b.attrs.get("args"), fs, memo, path + ".args")
                    return
            names = self.observable_attrs(a, b)
            for n in names:
                x, y = a.attrs.get(n, MISSING), b.attrs.get(n, MISSING)
                if (x is MISSING) != (y is MISSING):
                    fs.append((f"{path}.{n}", z3.BoolVal(False)))
                elif x is not MISSING:
                    self.same(x, y, fs, memo, f"{path}.{n}")
            return
        if isinstance(a, Bound) and isinstance(b, Bound):
            if a.fn is not b.fn and a.fn != b.fn:
                fs.append((path, z3.BoolVal(False)))
            self.same(a.self, b.self, fs, memo, path + ".self")
            return
        if isinstance(a, SSlice) and isinstance(b, SSlice):
            for n in "abc":
                self.same(getattr(a, n), getattr(b, n), fs, memo, path + "." + n)
            return
        if isinstance(a, RIter) and isinstance(b, RIter):
            if a.pos != b.pos:
                fs.append((path + " (position)", z3.BoolVal(False)))
                return
            self.same(a.seq, b.seq, fs, memo, path)
            return
        if isinstance(a, HIter) and isinstance(b, HIter):
            if len(a.items) != len(b.items):
                fs.append((path, z3.BoolVal(False)))
                return
            for x, y in zip(a.items, b.items):
                self.same(x, y, fs, memo, path)
            return
        if is_host(a) and is_host(b):
            ok = a is b
            if not ok:
                try:
                    ok = type(a) is type(b) and bool(a == b)
                except Exception:
                    ok = False
            if not ok:
                fs.append((path, z3.BoolVal(False)))
            return
        if isinstance(a, IFunc) or isinstance(b, IFunc):
            raise Unsupported("comparing function values")
        fs.append((path, z3.BoolVal(False)))

    observables = {}

    def observable_attrs(self, a, b):
        for c in a.cls.__mro__:
            if c in self.observables:
                return self.observables[c]
        return sorted(set(a.attrs) | set(b.attrs))

    def as_seq(self, v):
        if isinstance(v, HSeq):
            return v
        if isinstance(v, tuple):
            cls = type(v) if type(v) is not tuple else None
            return HTuple([E(x) for x in v], None, cls)
        if isinstance(v, list):
            return HList([E(x) for x in v])
        if isinstance(v, (set, frozenset)):
            return HSet([E(x) for x in v])
        return None

    def rope_same(self, s1, s2, fs, memo, path):
        ctx = self.ctx
        n1, n2 = rlen(s1), rlen(s2)
        if not z3.is_expr(n1) and not z3.is_expr(n2):
            if n1 != n2:
                fs.append((path + f" (length {n1} vs {n2})", z3.BoolVal(False)))
                return
        else:
            fs.append((path + " (length)", n1 == n2))
            if not ctx.proves(n1 == n2):
                return
        a, b = list(rnorm(ctx, s1)), list(rnorm(ctx, s2))
        i = 0
        while a and b:
            x, y = a[0], b[0]
            if isinstance(x, E) and isinstance(y, E):
                self.same(x.v, y.v, fs, memo, f"{path}[{i}]")
                a.pop(0), b.pop(0)
            elif isinstance(x, S) and isinstance(y, S) and x.base is y.base or \
                    (isinstance(x, S) and isinstance(y, S) and x.base.name == y.base.name):
                if not ctx.proves(x.lo == y.lo if z3.is_expr(x.lo) or z3.is_expr(y.lo) else z3.BoolVal(x.lo == y.lo)):
                    # maybe one is empty
                    if self._empty(x):
                        a.pop(0)
                        continue
                    if self._empty(y):
                        b.pop(0)
                        continue
                    fs.append((f"{path}[{i}..] (shifted)", z3.BoolVal(False)))
                    return
                d1, d2 = seg_len(x), seg_len(y)
                if ctx.proves(d1 == d2 if z3.is_expr(d1) or z3.is_expr(d2) else z3.BoolVal(d1 == d2)):
                    a.pop(0), b.pop(0)
                elif ctx.proves(d1 < d2):
                    a.pop(0)
                    b[0] = S(y.base, x.hi, y.hi)
                elif ctx.proves(d2 < d1):
                    b.pop(0)
                    a[0] = S(x.base, y.hi, x.hi)
                else:
                    raise Unsupported("sequence comparison undecided")
            elif isinstance(x, S) and self._empty(x):
                a.pop(0)
            elif isinstance(y, S) and self._empty(y):
                b.pop(0)
            elif isinstance(x, S) and isinstance(y, E):
                if not ctx.proves(seg_len(x) > 0):
                    raise Unsupported("sequence comparison undecided")
                _, v, rest = core._head(ctx, [], [x])
                self.same(v, y.v, fs, memo, f"{path}[{i}]")
                a = rest + a[1:]
                b.pop(0)
            elif isinstance(x, E) and isinstance(y, S):
                if not ctx.proves(seg_len(y) > 0):
                    raise Unsupported("sequence comparison undecided")
                _, v, rest = core._head(ctx, [], [y])
                self.same(x.v, v, fs, memo, f"{path}[{i}]")
                b = rest + b[1:]
                a.pop(0)
            else:
                fs.append((f"{path}[{i}..] (other items)", z3.BoolVal(False)))
                return
            i += 1

    def _empty(self, s):
        d = seg_len(s)
        return self.ctx.proves(d == 0 if z3.is_expr(d) else z3.BoolVal(d == 0))

    def dict_same(self, a, b, fs, memo, path):
        if (a.base is None) != (b.base is None) or (a.base and a.base.name != b.base.name):
            fs.append((path + " (base)", z3.BoolVal(False)))
            return
        if a.cls is not b.cls:
            fs.append((path + " (class)", z3.BoolVal(False)))
            return
        keys = []
        for k, _ in a.over + b.over:
            if not any(k is k2 or (is_host(k) and is_host(k2) and type(k) is type(k2) and k == k2) for k2 in keys):
                keys.append(k)
        for k in keys:
            va, vb = self.dict_get(a, k), self.dict_get(b, k)
            if (va is MISSING) != (vb is MISSING):
                fs.append((f"{path}[{k!r}]", z3.BoolVal(False)))
            elif va is not MISSING:
                self.same(va, vb, fs, memo, f"{path}[{k!r}]")
        if a.base is None:
            ka = self.live_keys(a)
            kb = self.live_keys(b)
            if len(ka) != len(kb):
                fs.append((path + " (size)", z3.BoolVal(False)))
            else:
                for x, y in zip(ka, kb):
                    self.same(x, y, fs, memo, path + " (order)")

    def live_keys(self, d):
        out = []
        for k, v in d.over:
            i = next((i for i, k2 in enumerate(out) if self.ctx.branch(self.key_eq(k, k2))), None)
            if v is DELETED:
                if i is not None:
                    out.pop(i)
            elif i is None:
                out.append(k)
        return out

    # ---------------------------------------------------------------- truth, identity, comparison
    def truth(self, v):
        ctx = self.ctx
        if isinstance(v, SBool):
            return ctx.branch(v.t)
        if isinstance(v, SInt):
            return ctx.branch(v.t != 0)
        if isinstance(v, Obj):
            if v.kind == "str":
                return not ctx.branch(v.t == ctx.lift(""))
            if v.kind == "true":
                return True
            if ctx.proves(v.t == ctx.lift(None)):
                return False
            if ctx.proves(ctx.sub(ctx.typeof(v), type)):
                return True
            return self.truth(self.event("bool", v, ret="bool"))
        if isinstance(v, HSeq):
            n = rlen(v.segs)
            return ctx.branch(n > 0) if z3.is_expr(n) else n > 0
        if isinstance(v, HDict):
            if v.base is None:
                return bool(self.live_keys(v))
            if v.over and all(x is not DELETED for _, x in v.over):
                return True
            if not v.over:
                return ctx.branch(v.base.nonempty)
            raise Unsupported("truth of an unknown dictionary")
        if isinstance(v, HObj):
            for n in ("__bool__", "__len__"):
                f = getattr(v.cls, n, None)
                if f is not None and isinstance(f, types.FunctionType):
                    return self.truth(self.it.call(f, [v]))
            return True
        if isinstance(v, Sym):
            return True
        return bool(v)

    def not_(self, v):
        if isinstance(v, SBool):
            return SBool(z3.Not(v.t))
        return not self.truth(v)

    def ident(self, a, b):
        """bool or z3 formula"""
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x in (a, b):
                if isinstance(x, Sym) and not isinstance(x, Obj):
                    if isinstance(x, (HObj, HSeq, HDict)):
                        if x.uid is None and self.ctx.phase:
                            other = b if x is a else a
                            if not other.name.startswith("res"):
                                return False
                        continue
                    if isinstance(x, (SInt,)):
                        return False
                    if isinstance(x, SBool):
                        other = b if x is a else a
                        return z3.If(x.t, other.t == self.ctx.lift(True), other.t == self.ctx.lift(False))
                    return False
            return self.lift(a) == self.lift(b)
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, SBool) and isinstance(b, SBool):
                return a.t == b.t
            x, y = (a, b) if isinstance(a, SBool) else (b, a)
            if isinstance(y, bool):
                return x.t if y else z3.Not(x.t)
            return False
        if isinstance(a, SInt) or isinstance(b, SInt):
            if isinstance(a, SInt) and isinstance(b, SInt):
                return a.t == b.t
            x, y = (a, b) if isinstance(a, SInt) else (b, a)
            return x.t == y if type(y) is int else False
        if is_host(a) and is_host(b):
            if isinstance(a, (str, int, bytes, float)) and type(a) is type(b):
                return a == b
            return a is b
        return a is b

    def key_eq(self, a, b):
        """Equality of dictionary keys: keys are assumed to have pure hash and equality."""
        if is_host(a) and is_host(b):
            try:
                return bool(hash(a) == hash(b) and a == b)
            except TypeError:
                raise Unsupported("unhashable key")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                if x.kind == "str":
                    if is_host(y):
                        return x.t == self.ctx.lift(y) if type(y) is str else False
                if isinstance(y, Obj) or is_host(y):
                    if x.kind == "str" and isinstance(y, Obj) and y.kind == "str":
                        return x.t == y.t
                    f = core_keyeq()
                    lx, ly = self.lift(x), self.lift(y)
                    k = ("keyeq", lx.get_id(), ly.get_id())
                    if k not in self.ctx.fact_cache:
                        self.ctx.fact_cache[k] = (lx, ly)
                        self.ctx.assume(z3.Implies(lx == ly, f(lx, ly)))
                        self.ctx.assume(f(lx, ly) == f(ly, lx))
                    return f(lx, ly)
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            return z3.simplify(zi(a) == zi(b))
        if isinstance(a, HObj) or isinstance(b, HObj):
            return a is b or (isinstance(a, HObj) and isinstance(b, HObj) and a.uid is not None and a.uid == b.uid)
        raise Unsupported("dictionary key")

    def compare(self, op, a, b):
        if op == "is":
            return self.mkbool(self.ident(a, b))
        if op == "is not":
            r = self.ident(a, b)
            return (not r) if isinstance(r, bool) else self.mkbool(z3.Not(r))
        if op == "in":
            return self.contains(b, a)
        if op == "not in":
            return self.not_(self.contains(b, a))
        if is_host(a) and is_host(b):
            if isinstance(a, IMMUT) or isinstance(b, IMMUT) or isinstance(a, (type, types.FunctionType)) or op in ("==", "!="):
                return self.native(_PYCMP[op], a, b)
        num = (SInt, int, SBool, bool)
        if isinstance(a, num) and isinstance(b, num):
            x, y = [z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, SBool) else zi(v) for v in (a, b)]
            return self.mkbool(_PYCMP[op](x, y))
        if isinstance(a, HObj) and isinstance(b, HObj) and a.cls is b.cls:
            d = vars(a.cls).get({"==": "__eq__", "!=": "__ne__", "<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__"}[op])
            if isinstance(d, types.FunctionType):
                r = self.it.call(d, [a, b])
                if r is not NotImplemented:
                    return r
        if op in ("==", "!="):
            r = self.pure_eq(a, b)
            if r is not None:
                if op == "!=":
                    r = (not r) if isinstance(r, bool) else z3.Not(r)
                return self.mkbool(r)
        for x in (a, b):
            if isinstance(x, (HSeq,)) and op in ("<", "<=", ">", ">="):
                ea, eb = self.as_seq(a), self.as_seq(b)
                if ea is not None and eb is not None and type(ea) is type(eb):
                    r = self.lexicographic(op, elems(ea), elems(eb))
                    if r is not None:
                        return self.mkbool(r)
                    ca, cb = self.conc(a), self.conc(b)
                    if ca is not MISSING and cb is not MISSING:
                        return self.native(_PYCMP[op], ca, cb)
        return self.event("cmp " + op, a, b)

    def lexicographic(self, op, xs, ys):
        """The order of two sequences of integers, or None."""
        if xs is None or ys is None or not all(isinstance(v, (SInt, int)) for v in xs + ys):
            return None
        r = z3.BoolVal(_PYCMP[op](len(xs), len(ys)))
        for x, y in reversed(list(zip(xs, ys))):
            x, y = zi(x), zi(y)
            r = z3.If(x == y, r, _PYCMP[op[0]](x, y))
        return r

    def mkbool(self, r):
        if isinstance(r, bool):
            return r
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SBool(r)

    def pure_eq(self, a, b):
        """== without user code: bool, formula, or None."""
        ctx = self.ctx
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and isinstance(y, (Obj,)) and x.kind == "str" and y.kind == "str":
                    return x.t == y.t
                if isinstance(x, Obj) and is_host(y):
                    if x.kind == "str":
                        return x.t == ctx.lift(y) if isinstance(y, str) else (False if isinstance(y, IMMUT) else None)
                    if isinstance(y, str) and ctx.proves(ctx.typeof(x) == ctx.lift(str)):
                        return x.t == ctx.lift(y)
                    # a subclass of str may override ==, excluded by assumption A-STR
                    if isinstance(y, str) and ctx.proves(ctx.sub(ctx.typeof(x), str)):
                        return x.t == ctx.lift(y)
                    if isinstance(y, (types.BuiltinFunctionType, types.FunctionType, type)):
                        if ctx.proves(ctx.sub(ctx.typeof(x), types.BuiltinFunctionType)) or \
                                ctx.proves(ctx.sub(ctx.typeof(x), types.FunctionType)) or \
                                ctx.proves(ctx.sub(ctx.typeof(x), type)):
                            return x.t == ctx.lift(y)
                        if x.name.startswith("typeof(") or isinstance(y, type) and x.kind == "class":
                            return x.t == ctx.lift(y)
            return None
        sa, sb = self.as_seq(a), self.as_seq(b)
        if sa is not None and sb is not None:
            if type(sa) is not type(sb):
                return False
            ea, eb = elems(sa), elems(sb)
            if ea is None or eb is None:
                raise Unsupported("== of symbolic sequences")
            if len(ea) != len(eb):
                return False
            fs = []
            for x, y in zip(ea, eb):
                if x is y:
                    continue
                r = self.compare("==", x, y)
                fs.append(r.t if isinstance(r, SBool) else z3.BoolVal(self.truth(r)))
            return z3.And(fs) if fs else True
        if isinstance(a, HObj) or isinstance(b, HObj):
            h = a if isinstance(a, HObj) else b
            if "__eq__" in vars(h.cls) and isinstance(vars(h.cls)["__eq__"], types.FunctionType):
                raise Unsupported("__eq__")
            return a is b
        if (sa is None) != (sb is None) or isinstance(a, (Bound, IFunc)) or isinstance(b, (Bound, IFunc)):
            if isinstance(a, (HSeq, HDict, Bound, IFunc)) and (is_host(b) or isinstance(b, Sym)) or \
                    isinstance(b, (HSeq, HDict, Bound, IFunc)):
                return a is b
        if isinstance(a, HDict) and isinstance(b, HDict):
            for x, y in ((a, b), (b, a)):
                if x.base is None and not self.live_keys(x):
                    return not self.truth(y)
            raise Unsupported("== of dictionaries")
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            return False
        return None

    def contains(self, c, x):
        ctx = self.ctx
        if isinstance(c, HDict):
            return self.dict_get(c, x) is not MISSING
        if is_host(c) and isinstance(c, dict):
            if is_host(x):
                return x in c
            if isinstance(x, Obj):
                return self.truth_any([self.key_eq(x, k) for k in c])
        if is_host(c) and isinstance(c, (set, frozenset, tuple, list, str, bytes)) and is_host(x):
            return self.native(operator.contains, c, x)
        seq = self.as_seq(c)
        if seq is not None:
            es = elems(seq)
            if es is None:
                raise Unsupported("membership in a symbolic sequence")
            for y in es:
                i = self.ident(x, y)
                if (isinstance(i, bool) and i) or (not isinstance(i, bool) and ctx.branch(i)):
                    return True
                if self.truth(self.compare("==", y, x)):
                    return True
            return False
        if isinstance(c, Obj) and c.kind == "str":
            f = z3.Function("strcontains", U, U, z3.BoolSort())
            return self.mkbool(f(c.t, self.lift(x)))
        if isinstance(c, Obj):
            return self.event("contains", c, x, ret="bool")
        raise Unsupported(f"membership in {type(c).__name__}")

    def truth_any(self, fs):
        return self.ctx.branch(z3.Or([z3.BoolVal(f) if isinstance(f, bool) else f for f in fs]) if fs else False)

    # ---------------------------------------------------------------- arithmetic
    def native(self, f, *args, **kw):
        try:
            r = f(*args, **kw)
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            raise PyRaise(HObj(type(e), {"args": HTuple([E(a) for a in e.args]), "__traceback__": None,
                                         "__cause__": None}))
        return self.imp(r)

    def imp(self, r):
        if type(r) is list:
            return HList([E(self.imp(x)) for x in r])
        if type(r) is dict:
            return HDict(None, list(r.items()))
        if type(r) is set:
            return HSet([E(x) for x in r])
        return r

    def binary(self, op, a, b):
        num = (SInt, SBool)
        if isinstance(a, num) or isinstance(b, num):
            if isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int)):
                return self.arith(op, a, b)
        if is_host(a) and is_host(b):
            if isinstance(a, IMMUT) and isinstance(b, IMMUT):
                if op == "%" and isinstance(a, str) and not isinstance(b, (int, str, float, tuple)):
                    raise Unsupported("format")
                return self.native(_PYOPS[op], a, b)
            raise Unsupported(f"host {op}")
        sa, sb = self.as_seq(a), self.as_seq(b)
        if op == "+" and sa is not None and sb is not None:
            if type(sa) is not type(sb):
                self.it.throw(TypeError, "can only concatenate")
            return type(sa)(rnorm(self.ctx, sa.segs + sb.segs))
        if op == "*" and sa is not None and isinstance(b, int):
            return type(sa)(rnorm(self.ctx, list(sa.segs) * b))
        if op == "*" and isinstance(a, str) and isinstance(b, num):
            return self.fstr()
        if op == "%" and isinstance(a, str):
            vals = self.as_seq(b)
            if vals is not None and elems(vals) is not None:
                for v in elems(vals):
                    self.fmt_pure(v)
                return self.fstr()
            self.fmt_pure(b)
            return self.fstr()
        if op == "+" and (isinstance(a, str) or (isinstance(a, Obj) and a.kind == "str")) and \
                (isinstance(b, str) or (isinstance(b, Obj) and b.kind == "str")):
            return self.fstr()
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.event("binop " + op, a, b)
        raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")

    def fmt_pure(self, v):
        """Formatting of message operands."""
        return None

    def fstr(self):
        return self.ctx.obj(self.ctx.fresh("fstr"), "str")

    def arith(self, op, a, b):
        ctx = self.ctx
        x, y = [z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, SBool) else zi(v) for v in (a, b)]
        if op in "+-*" and len(op) == 1:
            return mkint(_PYOPS[op](x, y))
        if op in ("//", "%"):
            yy = y if z3.is_expr(y) else z3.IntVal(y)
            if not ctx.proves(yy > 0):
                raise Unsupported("division by a possibly non-positive number")
            xx = x if z3.is_expr(x) else z3.IntVal(x)
            return mkint(xx / yy if op == "//" else xx % yy)
        if op in ("<<", ">>") and not z3.is_expr(y):
            return mkint(x * (1 << y)) if op == "<<" else mkint((x if z3.is_expr(x) else z3.IntVal(x)) / (1 << y))
        if op == "&":
            if z3.is_expr(x) and not z3.is_expr(y):
                v, m = x, y
            elif z3.is_expr(y) and not z3.is_expr(x):
                v, m = y, x
            else:
                raise Unsupported("&")
            if m >= 0:
                r = z3.IntVal(0)
                bit = 0
                # contiguous low mask or sum of bits
                if m & (m + 1) == 0:
                    return mkint(v % (m + 1))
                while m >> bit:
                    if (m >> bit) & 1:
                        r = r + ((v / (1 << bit)) % 2) * (1 << bit)
                    bit += 1
                return mkint(r)
            return self.arith("-", mkint(v), self.arith("&", mkint(v), ~m))
        if op in ("|", "^"):
            xx = x if z3.is_expr(x) else z3.IntVal(x)
            yy = y if z3.is_expr(y) else z3.IntVal(y)
            if ctx.proves(xx == 0):
                return mkint(yy)
            if ctx.proves(yy == 0):
                return mkint(xx)
            for lo, hi in ((xx, yy), (yy, xx)):
                for w in (1, 8, 16, 24, 32):
                    if ctx.proves(z3.And(lo >= 0, lo < (1 << w), hi >= 0, hi % (1 << w) == 0)):
                        return mkint(lo + hi)
            raise Unsupported("|")
        raise Unsupported("arithmetic " + op)

    def inplace(self, op, a, b):
        if isinstance(a, HList) and op == "+":
            a.segs = rnorm(self.ctx, a.segs + list(self.rope_of(b)))
            return a
        if isinstance(a, HSet) and op == "|":
            a.segs = a.segs + list(self.rope_of(b))
            return a
        if isinstance(a, Obj) and not a.kind == "str" or (isinstance(b, Obj) and is_host(a)):
            return self.event("iop " + op, a, b)
        if is_host(a) and is_host(b) and not (isinstance(a, IMMUT)):
            raise Unsupported("in-place on a host object")
        return self.binary(op, a, b)

    def unary(self, op, a):
        if isinstance(a, SInt):
            return mkint(-a.t) if op == "-" else a if op == "+" else mkint(-a.t - 1)
        if is_host(a):
            return self.native(_PYUN[op], a)
        if isinstance(a, Obj):
            return self.event("unop " + op, a)
        raise Unsupported("unary")

    # ---------------------------------------------------------------- strings
    def format(self, v, conv, spec):
        if is_host(v) and is_host(spec):
            if isinstance(v, IMMUT) or isinstance(v, type):
                if conv:
                    v = {"s": str, "r": repr, "a": ascii}[conv](v)
                return self.native(format, v, spec)
            return self.fstr()
        if isinstance(v, Obj) and v.kind != "str" and not self.msg_pure:
            if conv:
                v = self.event({"s": "str", "r": "repr", "a": "ascii"}[conv], v, ret="str")
                if spec == "":
                    return v
            return self.event("format", v, spec)
        return self.fstr()

    # messages of exceptions the interpreter builds are not compared: formatting their operands is pure
    msg_pure = True

    def concat(self, parts):
        return self.fstr()

    # ---------------------------------------------------------------- classes
    def type_of(self, v):
        if isinstance(v, Obj):
            if v.kind == "str":
                return str
            return Obj(self.ctx.typeof(v), "class")
        if isinstance(v, HObj):
            return v.cls
        if isinstance(v, HList):
            return list
        if isinstance(v, HTuple):
            return v.cls or tuple
        if isinstance(v, HSet):
            return set
        if isinstance(v, HDict):
            return v.cls
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SInt):
            return int
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, IFunc):
            return types.FunctionType
        if isinstance(v, SSlice):
            return slice
        if isinstance(v, (HIter, RIter)):
            return type(iter([]))
        if isinstance(v, Sym):
            return types.BuiltinMethodType
        return type(v)

    def isinstance(self, v, c):
        s = self.as_seq(c)
        if s is not None:
            es = elems(s)
            for x in es:
                if self.truth(self.isinstance(v, x)):
                    return True
            return False
        if isinstance(c, types.UnionType):
            return self.isinstance(v, HTuple([E(x) for x in c.__args__]))
        if isinstance(c, Obj) and c.kind == "class":
            # class of an opaque value
            if isinstance(v, Obj):
                return self.mkbool(core._SUB(self.ctx.typeof(v), c.t))
        if isinstance(c, Obj):
            return self.event("isinstance", v, c, ret="bool")
        if not isinstance(c, type):
            self.it.throw(TypeError, "isinstance() arg 2")
        t = self.type_of(v)
        if isinstance(t, Obj):
            return self.mkbool(self.ctx.sub(t.t, c))
        return issubclass(t, c) if not is_host(v) else isinstance(v, c)

    def issubclass(self, v, c):
        s = self.as_seq(c)
        if s is not None:
            for x in elems(s):
                if self.truth(self.issubclass(v, x)):
                    return True
            return False
        if is_host(v) and is_host(c):
            return self.native(issubclass, v, c)
        if isinstance(v, Obj) and is_host(c) and isinstance(c, type):
            if v.kind != "class" and not self.ctx.branch(self.ctx.sub(self.ctx.typeof(v), type)):
                self.it.throw(TypeError, "issubclass() arg 1 must be a class")
            return self.mkbool(self.ctx.sub(v.t, c))
        if isinstance(c, Obj) and c.kind == "class" and (is_host(v) and isinstance(v, type) or
                                                         isinstance(v, Obj) and v.kind == "class"):
            return self.mkbool(self.ctx.sub2(self.lift(v), c.t))
        return self.event("issubclass", v, c, ret="bool")

    def real_subclass(self, v, c):
        """type.__subclasscheck__: by the method resolution order."""
        for x in (v, c):
            if not (is_host(x) and isinstance(x, type) or isinstance(x, Obj)):
                raise Unsupported("type.__subclasscheck__")
            if isinstance(x, Obj) and x.kind != "class" and not self.ctx.proves(self.ctx.sub(self.ctx.typeof(x), type)):
                raise Unsupported("type.__subclasscheck__ of what may not be a class")
        return self.mkbool(self.ctx.sub2(self.lift(v), self.lift(c)))

    def exc_match(self, exc, cls):
        return self.truth(self.isinstance(exc, cls))

    def make_exc(self, v):
        if isinstance(v, type) and issubclass(v, BaseException):
            return self.it.call(v, [])
        if isinstance(v, HObj):
            return v
        if isinstance(v, BaseException):
            return HObj(type(v), {"args": HTuple([E(a) for a in v.args])})
        if isinstance(v, Obj):
            if self.ctx.branch(self.ctx.sub(self.ctx.typeof(v), BaseException)):
                return v
            if self.ctx.branch(self.ctx.sub(self.ctx.typeof(v), type)) and \
                    self.ctx.branch(self.ctx.sub(v.t, BaseException)):
                return self.event("call", v, HTuple(), HDict(None))
            self.it.throw(TypeError, "exceptions must derive from BaseException")
        self.it.throw(TypeError, "exceptions must derive from BaseException")

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, default=MISSING):
        if isinstance(o, HObj):
            return self.h_getattr(o, name, default)
        if isinstance(o, SuperObj):
            mro = (o.obj.cls if isinstance(o.obj, HObj) else o.obj).__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if name in vars(c):
                    f = vars(c)[name]
                    if isinstance(f, types.FunctionType):
                        return Bound(f, o.obj)
                    if c is object and name == "__init__":
                        return Bound(_noop, o.obj)
                    if issubclass(c, BaseException) and name == "__init__":
                        return Bound(_noop, o.obj)
                    raise Unsupported("super attribute")
            self.it.throw(AttributeError, name)
        if isinstance(o, Obj):
            if name == "__class__":
                return self.type_of(o)
            if name == "__traceback__" and self.ctx.proves(self.ctx.sub(self.ctx.typeof(o), BaseException)):
                return Obj(z3.Function("traceback_of", U, U)(o.t))
            if name in PURE_ATTR and (o.kind == "class" or any(self.ctx.proves(self.ctx.sub(self.ctx.typeof(o), c)) for c in
                                         (types.BuiltinFunctionType, type, types.FunctionType))):
                return self.ctx.obj_of(z3.Function("attr_" + name, U, U)(o.t), PURE_ATTR[name])
            if name in STR_METHODS and o.kind == "str":
                return BuiltinMethod(o, name)
            if default is not MISSING:
                try:
                    return self.event("getattr", o, name)
                except PyRaise as p:
                    if self.exc_match(p.value, AttributeError):
                        return default
                    raise
            return self.event("getattr", o, name)
        if isinstance(o, HTuple) and o.cls is not None and name in getattr(o.cls, "_fields", ()):
            return elems(o)[o.cls._fields.index(name)]
        if isinstance(o, (HSeq, HDict, HIter, RIter)):
            if name != "__dict__" and hasattr(self.type_of(o), name):
                if name == "__class__":
                    return self.type_of(o)
                return BuiltinMethod(o, name)
            if default is not MISSING:
                return default
            self.it.throw(AttributeError, name)
        if isinstance(o, Bound):
            if name == "__func__":
                return o.fn
            if name == "__self__":
                return o.self
        if isinstance(o, IFunc):
            if name == "__name__":
                return o.name
        if isinstance(o, SSlice) and name in ("start", "stop", "step"):
            return {"start": o.a, "stop": o.b, "step": o.c}[name]
        if isinstance(o, Sym):
            raise Unsupported(f"attribute {name} of {type(o).__name__}")
        # host object
        if isinstance(name, Sym):
            raise Unsupported("symbolic attribute of a host object")
        if default is not MISSING:
            return getattr(o, name, default)
        r = self.native_raw(getattr, o, name)
        return r

    def native_raw(self, f, *a):
        try:
            return f(*a)
        except Exception as e:
            raise PyRaise(HObj(type(e), {"args": HTuple([E(x) for x in e.args]), "__traceback__": None,
                                         "__cause__": None}))

    def h_getattr(self, o, name, default=MISSING):
        if isinstance(name, Sym):
            raise Unsupported("symbolic attribute name")
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return HDict(None, list(o.attrs.items()))
        d = _lookup(o.cls, name)
        if isinstance(d, property):
            return self.it.call(d.fget, [o])
        if name in o.attrs:
            return o.attrs[name]
        if d is not MISSING:
            if isinstance(d, types.FunctionType):
                return Bound(d, o)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return Bound(d.__func__, o.cls)
            if issubclass(o.cls, BaseException) and name in ("with_traceback",):
                return BuiltinMethod(o, name)
            if isinstance(d, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                if name == "__traceback__":
                    return None
                d = MISSING
            elif isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return BuiltinMethod(o, name)
            else:
                return d
        ga = _lookup(o.cls, "__getattr__")
        if isinstance(ga, types.FunctionType):
            try:
                return self.it.call(ga, [o, name])
            except PyRaise as p:
                if default is not MISSING and self.exc_match(p.value, AttributeError):
                    return default
                raise
        if default is not MISSING:
            return default
        self.it.throw(AttributeError, f"{o.cls.__name__} has no attribute {name}")

    def hasattr(self, o, name):
        if isinstance(o, Obj):
            if is_host(name) and name in self.pure_has:
                return self.mkbool(z3.Function("has_" + name, U, z3.BoolSort())(o.t))
            try:
                self.event("getattr", o, name)
            except PyRaise as p:
                if self.exc_match(p.value, AttributeError):
                    return False
                raise
            return True
        if isinstance(o, Sym) and not isinstance(o, HObj):
            return name != "__dict__" and hasattr(self.type_of(o), name)
        if isinstance(o, HObj):
            try:
                self.getattr(o, name)
                return True
            except PyRaise as p:
                if self.exc_match(p.value, AttributeError):
                    return False
                raise
        return hasattr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, HObj):
            d = _lookup(o.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    self.it.throw(AttributeError, name)
                self.it.call(d.fset, [o, v])
                return
            if isinstance(name, Sym):
                raise Unsupported("symbolic attribute name")
            o.attrs[name] = v
            return
        if isinstance(o, Obj):
            self.event("setattr", o, name, v, ret="none")
            return
        raise Unsupported(f"attribute store on {type(o).__name__}")

    def delattr(self, o, name):
        if isinstance(o, HObj):
            if name not in o.attrs:
                self.it.throw(AttributeError, name)
            del o.attrs[name]
            return
        if isinstance(o, Obj):
            self.event("delattr", o, name, ret="none")
            return
        raise Unsupported("attribute delete")

    # ---------------------------------------------------------------- items
    def getitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, HObj):
            f = _lookup(o.cls, "__getitem__")
            if isinstance(f, types.FunctionType):
                return self.it.call(f, [o, k])
            raise Unsupported("subscript of a heap object")
        if isinstance(o, HDict):
            v = self.dict_get(o, k)
            if v is MISSING:
                if issubclass(o.cls, collections.defaultdict):
                    raise Unsupported("defaultdict")
                self.it.throw(KeyError, k)
            return v
        if isinstance(o, (HList, HTuple)):
            if isinstance(k, SSlice):
                if k.c is not None:
                    es = elems(o)
                    if es is not None and all(is_host(x) for x in (k.a, k.b, k.c)):
                        return type(o)([E(x) for x in es[slice(k.a, k.b, k.c)]])
                    if k.c == -1 and k.a is None and k.b is None:
                        return self.reverse_rope(o)
                    raise Unsupported("extended slice")
                _, mid, _ = rslice(ctx, o.segs, k.a, k.b)
                return type(o)(mid)
            if isinstance(k, Obj):
                return self.event("getitem", o, k)
            r = rindex(ctx, o.segs, k)
            if r is None:
                self.it.throw(IndexError, "index out of range")
            return r[1]
        if isinstance(o, Obj):
            return self.event("getitem", o, self.to_slice(k))
        if isinstance(o, Sym):
            raise Unsupported(f"subscript of {type(o).__name__}")
        if isinstance(k, SSlice):
            if all(is_host(x) for x in (k.a, k.b, k.c)):
                return self.native(operator.getitem, o, slice(k.a, k.b, k.c))
            seq = self.as_seq(o)
            if seq is not None:
                return self.getitem(seq, k)
            raise Unsupported("symbolic slice")
        if is_host(k):
            return self.native_raw(operator.getitem, o, k)
        if isinstance(o, dict) and isinstance(k, Obj):
            for kk in o:
                if self.ctx.branch(self.key_eq(k, kk)):
                    return o[kk]
            self.it.throw(KeyError, k)
        if isinstance(k, Obj) and isinstance(o, (tuple, list, str, dict)):
            return self.event("getitem", o, k)
        if isinstance(k, SInt) and isinstance(o, (tuple, list)):
            if len(o) <= 64:
                for i in range(len(o)):
                    if ctx.branch(k.t == i):
                        return o[i]
                    if ctx.branch(k.t == i - len(o)):
                        return o[i]
                self.it.throw(IndexError, "index out of range")
        raise Unsupported(f"subscript of a host {type(o).__name__} by {type(k).__name__}")

    def to_slice(self, k):
        return k

    def expand(self, o):
        """o with the unknown parts of provably known length spelled out."""
        out = []
        for s in o.segs:
            if isinstance(s, S):
                d = seg_len(s)
                for k in range(5):
                    if self.ctx.proves(d == k if z3.is_expr(d) else z3.BoolVal(d == k)):
                        out += [E(s.base.at(z3.simplify(s.lo + i) if z3.is_expr(s.lo) else s.lo + i))
                                for i in range(k)]
                        break
                else:
                    out.append(s)
            else:
                out.append(s)
        return type(o)(out)

    def reverse_rope(self, o):
        o = self.expand(o)
        es = elems(o)
        if es is None:
            raise Unsupported("reverse of a symbolic sequence")
        return type(o)([E(x) for x in reversed(es)])

    def setitem(self, o, k, v):
        ctx = self.ctx
        if isinstance(o, HDict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, HList):
            if isinstance(k, SSlice):
                if k.c is not None:
                    raise Unsupported("extended slice store")
                new = list(self.rope_of(v))
                left, _, right = rslice(ctx, o.segs, k.a, k.b)
                o.segs = rnorm(ctx, left + new + right)
                return
            r = rindex(ctx, o.segs, k)
            if r is None:
                self.it.throw(IndexError, "assignment index out of range")
            o.segs = rnorm(ctx, r[0] + [E(v)] + r[2])
            return
        if isinstance(o, Obj):
            self.event("setitem", o, self.to_slice(k), v, ret="none")
            return
        if isinstance(o, HObj):
            f = _lookup(o.cls, "__setitem__")
            if isinstance(f, types.FunctionType):
                self.it.call(f, [o, k, v])
                return
        if isinstance(o, (HTuple, tuple)):
            self.it.throw(TypeError, "does not support item assignment")
        raise Unsupported(f"item store on {type(o).__name__}")

    def delitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, HDict):
            if self.dict_get(o, k) is MISSING:
                self.it.throw(KeyError, k)
            self.dict_put(o, k, DELETED)
            return
        if isinstance(o, HList):
            if isinstance(k, SSlice):
                left, _, right = rslice(ctx, o.segs, k.a, k.b)
                o.segs = rnorm(ctx, left + right)
                return
            r = rindex(ctx, o.segs, k)
            if r is None:
                self.it.throw(IndexError, "index out of range")
            o.segs = rnorm(ctx, r[0] + r[2])
            return
        if isinstance(o, Obj):
            self.event("delitem", o, self.to_slice(k), ret="none")
            return
        raise Unsupported(f"item delete on {type(o).__name__}")

    # ---------------------------------------------------------------- dictionaries
    def dict_get(self, d, k):
        ctx = self.ctx
        for kk, v in reversed(d.over):
            if kk is k:
                return MISSING if v is DELETED else v
            r = self.key_eq(k, kk)
            if (r if isinstance(r, bool) else ctx.branch(r)):
                return MISSING if v is DELETED else v
        if d.base is None:
            return MISSING
        t = self.lift(k)
        ctx.assume(z3.Implies(d.base.dom(t), d.base.nonempty))
        if ctx.branch(d.base.dom(t)):
            return d.base.wrap(z3.simplify(d.base.val(t)))
        return MISSING

    def dict_set(self, d, k, v):
        # an equal key that is present keeps its place
        for i, (kk, vv) in enumerate(d.over):
            if vv is DELETED:
                continue
            r = self.key_eq(k, kk)
            if (r if isinstance(r, bool) else self.ctx.branch(r)):
                if not any(x is DELETED for _, x in d.over):
                    d.over = d.over[:i] + [(kk, v)] + d.over[i + 1:]
                else:
                    d.over = d.over + [(kk, v)]
                return
        d.over = d.over + [(k, v)]

    def dict_put(self, d, k, v):
        d.over = d.over + [(k, v)]

    def dict_items(self, d):
        """Explicit items of a dictionary value, or None."""
        if isinstance(d, HDict):
            if d.base is not None:
                return None
            return [(k, self.dict_get(d, k)) for k in self.live_keys(d)]
        if is_host(d) and isinstance(d, dict):
            return list(d.items())
        return None

    def dict_update(self, d, o):
        if isinstance(o, HDict) and o.base is not None:
            if d.base is None and not d.over:
                d.base, d.over = o.base, list(o.over)
                return
            raise Unsupported("merging an unknown dictionary")
        items = self.dict_items(o)
        if items is not None:
            for k, v in items:
                self.dict_set(d, k, v)
            return
        if isinstance(o, (HIter, RIter, types.GeneratorType)) or self.as_seq(o) is not None:
            for it in self.iterate(o):
                k, v = self.unpack(it, 2)
                self.dict_set(d, k, v)
            return
        if isinstance(o, Obj):
            items = self.event("as mapping", o)
            d.over = d.over + [(("**", items), items)]
            return
        raise Unsupported("dict.update")

    def as_kwargs(self, d, star):
        if star is not None:
            raise Unsupported("several ** arguments")
        return d

    # ---------------------------------------------------------------- iteration
    def rope_of(self, v):
        """Segments of an iterable to be splatted or extended."""
        if isinstance(v, HSeq):
            if isinstance(v, HSet) and len(v.segs) > 1:
                raise Unsupported("set order")
            return list(v.segs)
        if isinstance(v, HIter):
            items, v.items = v.items, []
            return [E(x) for x in items]
        if isinstance(v, RIter):
            if v.seq is None:
                return []
            _, rest, _ = rslice(self.ctx, v.seq.segs, v.pos, None)
            v.seq = None
            return list(rest)
        if isinstance(v, HDict):
            items = self.dict_items(v)
            if items is None:
                raise Unsupported("iteration over an unknown dictionary")
            return [E(k) for k, _ in items]
        if isinstance(v, Obj):
            return self.event("list of", v, ret="seq").segs
        if is_host(v):
            if isinstance(v, (tuple, list, str, range, dict, bytes)) or type(v).__name__ in (
                    "dict_items", "dict_keys", "dict_values", "zip", "enumerate", "map", "filter",
                    "generator", "list_iterator", "tuple_iterator", "reversed", "range_iterator", "dict_keyiterator",
                    "set", "frozenset"):
                if isinstance(v, (set, frozenset)) and len(v) > 1:
                    raise Unsupported("set order")
                return [E(x) for x in v]
            if isinstance(v, (int, float, type(None))):
                self.it.throw(TypeError, "not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    def iterate(self, v):
        """Python-level iterator over the elements (bounded by explicit structure)."""
        ctx = self.ctx
        if isinstance(v, HIter):
            while v.items:
                yield v.items.pop(0)
            return
        if isinstance(v, RIter):
            n = 0
            while True:
                r = _rnext(self, v)
                if r is MISSING:
                    return
                if any(isinstance(s, S) for s in v.seq.segs):
                    ctx.bounded = True
                    if n >= 4:
                        raise Unsupported("loop over a symbolic sequence")
                n += 1
                yield r
        if isinstance(v, HList):
            # live iteration over a list that may change
            i = 0
            while True:
                r = rindex(ctx, v.segs, i)
                if r is None:
                    return
                if any(isinstance(s, S) for s in v.segs):
                    ctx.bounded = True
                    if i >= 4:
                        raise Unsupported("loop over a symbolic sequence")
                yield r[1]
                i += 1
        if isinstance(v, Obj):
            it = self.event("iter", v)
            yield from self.iter_obj(it)
            return
        for s in self.rope_of(v):
            if isinstance(s, E):
                yield s.v
            else:
                ctx.bounded = True
                k = 0
                while ctx.branch(seg_len(s) > k):
                    if k >= 4:
                        raise Unsupported("loop over a symbolic sequence")
                    yield s.base.at(s.lo + k)
                    k += 1

    def iter_obj(self, it):
        n = 0
        while True:
            try:
                x = self.event("next", it)
            except PyRaise as p:
                if self.exc_match(p.value, StopIteration):
                    return
                raise
            n += 1
            if n > 3:
                self.ctx.bounded = True
                raise PathAbort()
            yield x

    def unpack(self, v, n, star=None):
        ctx = self.ctx
        if isinstance(v, Obj) and self.unpack_obj:
            seq = HTuple(self.event("list of", v, ret="seq").segs)
        elif isinstance(v, HSeq):
            seq = v
        else:
            seq = HTuple(self.rope_of(v))
        ln = rlen(seq.segs)
        if star is None:
            if not (ctx.branch(ln == n) if z3.is_expr(ln) else ln == n):
                self.it.throw(ValueError, "unpack")
            out = []
            segs = seq.segs
            for i in range(n):
                _, x, segs = core._head(ctx, [], segs)
                out.append(x)
            return out
        if not (ctx.branch(ln >= n - 1) if z3.is_expr(ln) else ln >= n - 1):
            self.it.throw(ValueError, "unpack")
        out = []
        segs = list(seq.segs)
        for i in range(star):
            _, x, segs = core._head(ctx, [], segs)
            out.append(x)
        mid, tail = rsplit_end(ctx, segs, n - 1 - star)
        out.append(HList(mid))
        for i in range(n - 1 - star):
            _, x, tail = core._head(ctx, [], tail)
            out.append(x)
        return out

    unpack_obj = True

    # ---------------------------------------------------------------- concretisation
    def conc(self, v):
        """A host value equal to v, or MISSING."""
        if isinstance(v, Sym):
            if isinstance(v, HTuple):
                es = elems(v)
                if es is None:
                    return MISSING
                cs = [self.conc(x) for x in es]
                if any(c is MISSING for c in cs):
                    return MISSING
                return tuple(cs) if v.cls is None else v.cls(*cs)
            if isinstance(v, HList):
                es = elems(v)
                if es is None:
                    return MISSING
                cs = [self.conc(x) for x in es]
                return MISSING if any(c is MISSING for c in cs) else cs
            if isinstance(v, HDict):
                items = self.dict_items(v)
                if items is None:
                    return MISSING
                out = {}
                for k, x in items:
                    ck, cx = self.conc(k), self.conc(x)
                    if ck is MISSING or cx is MISSING:
                        return MISSING
                    out[ck] = cx
                return out
            if isinstance(v, HIter):
                cs = [self.conc(x) for x in v.items]
                return MISSING if any(c is MISSING for c in cs) else iter(cs)
            if isinstance(v, SSlice):
                cs = [self.conc(x) for x in (v.a, v.b, v.c)]
                return MISSING if any(c is MISSING for c in cs) else slice(*cs)
            return MISSING
        return v

    # ---------------------------------------------------------------- calls of non-interpreted callables
    def call(self, fn, args, kwargs):
        ctx = self.ctx
        if isinstance(fn, Obj):
            return self.event("call", fn, HTuple([a if isinstance(a, (S, E)) else E(a) for a in args]),
                              self.kw_value(kwargs))
        if isinstance(fn, HObj):
            f = _lookup(fn.cls, "__call__")
            if isinstance(f, types.FunctionType):
                s = self.it.summaries.get(f)
                return self.it.call(f, [fn] + args, kwargs)
            raise Unsupported("call of a heap object")
        if isinstance(fn, Sym):
            raise Unsupported(f"call of {type(fn).__name__}")
        if "**" in kwargs:
            raise Unsupported("** of an unknown mapping")
        try:
            h = _BY_FN.get(fn)
        except TypeError:
            h = None
        if h is not None:
            return getattr(self, h[0])(h[1], *args)
        try:
            t = self.table.get(fn)
        except TypeError:
            t = None
        if t is not None:
            return t(self, *args, **kwargs)
        if isinstance(fn, type):
            return self.construct(fn, args, kwargs)
        # bound methods of host objects
        recv = getattr(fn, "__self__", None)
        if isinstance(fn, (types.BuiltinMethodType, types.MethodWrapperType)) and recv is not None and \
                not isinstance(recv, types.ModuleType):
            if isinstance(recv, str) and any(isinstance(a, Sym) for a in args):
                cargs = [self.conc(a) for a in args]
                if any(c is MISSING for c in cargs):
                    return self.host_method(recv, fn.__name__, args, kwargs)
            if isinstance(recv, IMMUT) or (isinstance(recv, (dict, list, set)) and
                                           fn.__name__ in ("get", "items", "keys", "values", "index", "count", "copy")):
                if isinstance(recv, dict) and fn.__name__ == "get" and isinstance(args[0], Obj):
                    for kk in recv:
                        if ctx.branch(self.key_eq(args[0], kk)):
                            return recv[kk]
                    return args[1] if len(args) > 1 else None
                cargs = [self.conc(a) for a in args]
                if not any(c is MISSING for c in cargs):
                    return self.native(fn, *cargs, **kwargs)
            raise Unsupported(f"method {fn.__name__} of a host {type(recv).__name__}")
        if fn in SAFE_NATIVE or (getattr(fn, "__module__", "") or "").split(".")[0] in SAFE_MODULES or \
                (getattr(fn, "__module__", "") or "").startswith("xdis"):
            cargs = [self.conc(a) for a in args]
            ckw = {k: self.conc(v) for k, v in kwargs.items()}
            if not any(c is MISSING for c in cargs) and not any(c is MISSING for c in ckw.values()):
                return self.native(fn, *cargs, **ckw)
            if isinstance(fn, types.FunctionType) and (fn.__module__ or "").startswith("xdis"):
                return self.it.run_function(fn, args, kwargs)
        raise Unsupported(f"call of {getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', fn)}")

    def kw_value(self, kwargs):
        if "**" in kwargs:
            d = kwargs["**"]
            return d if isinstance(d, HDict) else self.event("as mapping", d)
        return HDict(None, list(kwargs.items()))

    def host_method(self, recv, name, args, kwargs):
        if name == "join":
            items = self.rope_of(args[0])
            if recv == ", " and all(type(x) is E and (isinstance(x.v, str) or isinstance(x.v, Obj) and x.v.kind == "str") for x in items):
                return self.fstr()      # text that shows something
            return self.event("join", recv, HTuple(items), ret="str", raises=False)
        if name == "format":
            return self.fstr()
        raise Unsupported(f"str.{name} on symbolic arguments")

    def construct(self, cls, args, kwargs):
        if hasattr(cls, "_fields") and issubclass(cls, tuple):
            names = cls._fields
            d = dict(zip(names, args))
            d.update(kwargs)
            for k, v in getattr(cls, "_field_defaults", {}).items():
                d.setdefault(k, v)
            if set(d) != set(names) or len(args) > len(names):
                self.it.throw(TypeError, "namedtuple arguments")
            return HTuple([E(d[n]) for n in names], None, cls)
        if issubclass(cls, BaseException):
            o = HObj(cls, {"args": HTuple([E(a) for a in args]), "__traceback__": None, "__cause__": None})
            if cls is StopIteration:
                o.attrs["value"] = args[0] if args else None
            f = _lookup(cls, "__init__")
            if isinstance(f, types.FunctionType):
                self.it.call(f, [o] + args, kwargs)
            return o
        new = _lookup(cls, "__new__")
        init = _lookup(cls, "__init__")
        if (new is object.__new__ or isinstance(new, staticmethod) is False and new is vars(object)["__new__"]) and \
                (isinstance(init, types.FunctionType) or init is vars(object)["__init__"]):
            mod = sys.modules.get(cls.__module__)
            f = getattr(mod, "__file__", None)
            if f and (f.startswith("/repo") or "xpython" in f or "/verif" in f or "engine" in f or "contracts" in f):
                o = HObj(cls, {})
                if isinstance(init, types.FunctionType):
                    self.it.call(init, [o] + args, kwargs)
                elif args or kwargs:
                    self.it.throw(TypeError, "takes no arguments")
                return o
        cargs = [self.conc(a) for a in args]
        if cls in SAFE_NATIVE and not any(c is MISSING for c in cargs):
            return self.native(cls, *cargs, **kwargs)
        raise Unsupported(f"constructing {cls.__name__}")

    # ---------------------------------------------------------------- methods of symbolic receivers
    def call_method(self, o, name, args, kwargs):
        ctx = self.ctx
        it = self.it
        if isinstance(o, HList):
            if name == "append":
                o.segs = rnorm(ctx, o.segs + [E(args[0])])
                return None
            if name == "extend":
                o.segs = rnorm(ctx, o.segs + list(self.rope_of(args[0])))
                return None
            if name == "pop":
                i = args[0] if args else -1
                r = rindex(ctx, o.segs, i)
                if r is None:
                    it.throw(IndexError, "pop from empty list")
                o.segs = rnorm(ctx, r[0] + r[2])
                return r[1]
            if name == "insert":
                n = rlen(o.segs)
                pos = clamp(ctx, args[0], n, 0)
                left, right = rsplit(ctx, o.segs, pos)
                o.segs = rnorm(ctx, left + [E(args[1])] + right)
                return None
            if name == "reverse":
                o.segs = self.reverse_rope(o).segs
                return None
            if name == "clear":
                o.segs = []
                return None
            if name == "copy":
                return HList(o.segs)
            if name in ("index", "count"):
                es = elems(o)
                if es is not None:
                    for i, x in enumerate(es):
                        if self.truth(self.compare("==", x, args[0])):
                            return i
                    it.throw(ValueError, "not in list")
        if isinstance(o, HSet):
            if name == "add":
                o.segs = o.segs + [E(args[0])]
                return None
            if name == "update":
                for a in args:
                    o.segs = o.segs + list(self.rope_of(a))
                return None
        if isinstance(o, HDict):
            if name == "get":
                v = self.dict_get(o, args[0])
                return v if v is not MISSING else (args[1] if len(args) > 1 else None)
            if name == "update":
                for a in args:
                    self.dict_update(o, a)
                for k, v in kwargs.items():
                    self.dict_set(o, k, v)
                return None
            if name in ("items", "keys", "values"):
                items = self.dict_items(o)
                if items is None:
                    raise Unsupported("iteration over an unknown dictionary")
                if name == "items":
                    return HList([E(HTuple([E(k), E(v)])) for k, v in items])
                return HList([E(k if name == "keys" else v) for k, v in items])
            if name == "setdefault":
                v = self.dict_get(o, args[0])
                if v is MISSING:
                    v = args[1] if len(args) > 1 else None
                    self.dict_set(o, args[0], v)
                return v
            if name == "pop":
                v = self.dict_get(o, args[0])
                if v is MISSING:
                    if len(args) > 1:
                        return args[1]
                    it.throw(KeyError, args[0])
                self.dict_put(o, args[0], DELETED)
                return v
            if name == "copy":
                return HDict(o.base, o.over, None, o.cls)
            if name == "clear":
                o.base, o.over = None, []
                return None
            if name == "__contains__":
                return self.contains(o, args[0])
        if isinstance(o, HTuple):
            if name == "_replace":
                vals = dict(zip(o.cls._fields, elems(o)))
                vals.update(kwargs)
                return HTuple([E(vals[n]) for n in o.cls._fields], None, o.cls)
            if name == "index":
                return self.call_method(HList(o.segs), "index", args, kwargs)
        if isinstance(o, HObj):
            if name == "with_traceback":
                o.attrs["__traceback__"] = args[0]
                return o
            if name == "__init__":
                return None
        if isinstance(o, Obj) and o.kind == "str":
            return self.fstr_method(o, name, args)
        raise Unsupported(f"method {name} of {type(o).__name__}")

    def fstr_method(self, o, name, args):
        if name in ("startswith", "endswith"):
            f = z3.Function("str_" + name, U, U, z3.BoolSort())
            return self.mkbool(f(o.t, self.lift(args[0])))
        if name == "join":
            return self.event("join", o, HTuple(self.rope_of(args[0])), ret="str", raises=False)
        return self.fstr()


STR_METHODS = {n for n in dir(str) if not n.startswith("_")}
_KEYEQ = z3.Function("keyeq", U, U, z3.BoolSort())


def core_keyeq():
    return _KEYEQ


def _obj_of(ctx, t, kind):
    o = Obj(t, kind)
    if kind == "str":
        ctx.assume(core._TYPEOF(t) == ctx.lift(str))
    return o


Ctx.obj_of = _obj_of


def _noop(*a, **k):
    return None


def _lookup(cls, name):
    for c in cls.__mro__:
        if name in vars(c):
            return vars(c)[name]
    return MISSING


# -------------------------------------------------------------------- table of builtin functions
def _len(m, o):
    if isinstance(o, HSeq):
        if isinstance(o, HSet):
            raise Unsupported("size of a symbolic set")
        return mkint(rlen(o.segs))
    if isinstance(o, HDict):
        if o.base is None:
            return len(m.live_keys(o))
        raise Unsupported("size of an unknown dictionary")
    if isinstance(o, Obj):
        return m.event("len", o, ret="int")
    if isinstance(o, HObj):
        f = _lookup(o.cls, "__len__")
        if isinstance(f, types.FunctionType):
            return m.it.call(f, [o])
        m.it.throw(TypeError, "len")
    if isinstance(o, HIter):
        raise Unsupported("len of an iterator")
    return m.native(len, o)


def _iter(m, o, *rest):
    if rest:
        raise Unsupported("iter with a sentinel")
    if isinstance(o, Obj):
        return m.event("iter", o)
    if isinstance(o, HIter):
        return o
    if isinstance(o, HTuple) and elems(o) is not None:
        return HIter(elems(o))
    if isinstance(o, (HList, HTuple)):
        return RIter(o)
    if isinstance(o, RIter):
        return o
    if is_host(o) and isinstance(o, (tuple, str, bytes, range)):
        return HIter(list(o))
    if is_host(o) and isinstance(o, (int, float, type(None))):
        m.it.throw(TypeError, "not iterable")
    raise Unsupported("iter")


def _rnext(m, o):
    if o.seq is None:
        return MISSING
    r = rindex(m.ctx, o.seq.segs, o.pos)
    if r is None:
        o.seq = None
        return MISSING
    o.pos += 1
    return r[1]


def _next(m, o, *default):
    if isinstance(o, RIter):
        r = _rnext(m, o)
        if r is not MISSING:
            return r
        if default:
            return default[0]
        m.it.throw(StopIteration)
    if isinstance(o, HIter):
        if o.items:
            return o.items.pop(0)
        if default:
            return default[0]
        m.it.throw(StopIteration)
    if isinstance(o, Obj):
        if default:
            try:
                return m.event("next", o)
            except PyRaise as p:
                if m.exc_match(p.value, StopIteration):
                    return default[0]
                raise
        return m.event("next", o)
    if isinstance(o, HObj):
        f = _lookup(o.cls, "__next__")
        if isinstance(f, types.FunctionType):
            return m.it.call(f, [o])
    raise Unsupported("next")


def _seq(kind):
    def f(m, *args):
        if not args:
            return kind()
        o = args[0]
        if isinstance(o, kind) and kind is HTuple and o.cls is None:
            return o
        if isinstance(o, HDict) and o.base is not None:
            return UnknownKeys(o)
        return kind(m.rope_of(o))
    return f


class UnknownKeys(Sym):
    """The keys of an unknown dictionary as a sequence: nothing is known of it, so nothing can be done with it."""
    __slots__ = ("of",)

    def __init__(self, of):
        self.of = of


def _dict(m, *args, **kw):
    d = HDict(None)
    if args:
        m.dict_update(d, args[0])
    for k, v in kw.items():
        m.dict_set(d, k, v)
    return d


def _reversed(m, o):
    if isinstance(o, Obj):
        return m.event("reversed", o)
    if isinstance(o, HSeq):
        return HIter(elems(m.reverse_rope(o)))
    return HIter(list(reversed(o)))


def _range(m, *args):
    if all(is_host(a) for a in args):
        return range(*args)
    if len(args) == 1:
        n = args[0]
        out = []
        while m.ctx.branch(n.t > len(out)):
            m.ctx.bounded = True
            if len(out) >= 4:
                raise Unsupported("range of a symbolic length")
            out.append(len(out))
        return HIter(out)
    raise Unsupported("symbolic range")


def _enumerate(m, o, start=0):
    return HIter([HTuple([E(start + i), E(x)]) for i, x in enumerate(m.iterate(o))])


def _zip(m, *its):
    cols = [list(m.iterate(o)) for o in its]
    return HIter([HTuple([E(x) for x in row]) for row in zip(*cols)])


def _map(m, f, *its):
    cols = [list(m.iterate(o)) for o in its]
    return HIter([m.it.call(f, list(row)) for row in zip(*cols)])


def _getattr(m, o, name, *default):
    return m.getattr(o, name, *(default or (MISSING,)))


def _divmod(m, a, b):
    if is_host(a) and is_host(b):
        return m.native(divmod, a, b)
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        return HTuple([E(m.arith("//", a, b)), E(m.arith("%", a, b))])
    return m.event("divmod", a, b)


def _pow(m, a, b, *c):
    if c:
        raise Unsupported("pow with a modulus")
    return m.binary("**", a, b)


def _callable(m, o):
    if isinstance(o, Obj):
        return m.mkbool(core._CALLABLE(o.t))
    if isinstance(o, HObj):
        return _lookup(o.cls, "__call__") is not MISSING
    if isinstance(o, (Bound, IFunc, BuiltinMethod)):
        return True
    return callable(o)


def _conv(name, fn):
    def f(m, *args, **kw):
        if not args:
            return m.native(fn)
        if isinstance(args[0], Obj) and not (args[0].kind == "str" and name == "str"):
            return m.event(name, *args, ret="str")
        if isinstance(args[0], Obj):
            return args[0]
        cs = [m.conc(a) for a in args]
        if not any(c is MISSING for c in cs):
            return m.native(fn, *cs, **kw)
        return m.fstr()
    return f


def _bool(m, *args):
    return m.truth(args[0]) if args else False


def _minmax(fn):
    def f(m, *args, **kw):
        cs = [m.conc(a) for a in args]
        if not any(c is MISSING for c in cs):
            return m.native(fn, *cs, **kw)
        if len(args) == 2 and not kw and all(isinstance(a, (SInt, int)) for a in args):
            x, y = zi(args[0]), zi(args[1])
            c = (x <= y) if fn is min else (x >= y)
            return args[0] if m.ctx.branch(c) else args[1]
        raise Unsupported(fn.__name__)
    return f


def _anyall(fn):
    def f(m, o):
        for x in m.iterate(o):
            t = m.truth(x)
            if t and fn is any:
                return True
            if not t and fn is all:
                return False
        return fn is all
    return f


def _exc_info(m):
    if not m.ctx.exc_stack:
        return HTuple([E(None), E(None), E(None)])
    e = m.ctx.exc_stack[-1]
    return HTuple([E(m.type_of(e)), E(e), E(m.getattr(e, "__traceback__"))])


def _type(m, *args, **kw):
    if len(args) == 1 and not kw:
        return m.type_of(args[0])
    return m.event("call", type, HTuple([E(a) for a in args]), m.kw_value(kw))


def _sorted(m, o, **kw):
    es = elems(o) if isinstance(o, HSeq) else None
    if es is not None and not kw:
        cs = [m.conc(a) for a in es]
        if not any(c is MISSING for c in cs):
            return HList([E(x) for x in sorted(cs)])
    return m.event("sorted", o, m.kw_value(kw))


def _print(m, *args, **kw):
    m.event("print", HTuple([E(a) for a in args]), HDict(None, list(kw.items())), ret="none")


def _bytes(m, *args):
    """The bytes of a sequence of known bytes: a tuple of numbers here."""
    if len(args) == 1 and isinstance(args[0], (HList, HTuple)):
        from .core import SInt
        out = HTuple(list(m.rope_of(args[0])))
        for s in out.segs:
            if isinstance(s, E) and not isinstance(s.v, (int, SInt)):
                raise Unsupported("bytes of objects")
        return out
    if all(is_host(a) for a in args):
        return bytes(*args)
    raise Unsupported("bytes()")


def _copycopy(m, o):
    if isinstance(o, HObj):
        n = HObj(o.cls, dict(o.attrs))
        return n
    if isinstance(o, HList):
        return HList(o.segs)
    if isinstance(o, HDict):
        return HDict(o.base, o.over, None, o.cls)
    if is_host(o) and isinstance(o, IMMUT):
        return o
    return m.event("copy", o)


def _isclass(m, o):
    return m.isinstance(o, type)


def _super(m, *args):
    if len(args) == 2 and isinstance(args[1], HObj):
        return SuperObj(args[0], args[1])
    return m.event("super", *args)


def _ev(name, ret="obj"):
    def f(m, *args, **kw):
        return m.event(name, *args, *([HDict(None, list(kw.items()))] if kw else []), ret=ret)
    return f


def _slice(m, *args):
    if len(args) == 1:
        return SSlice(None, args[0], None)
    return SSlice(args[0], args[1], args[2] if len(args) > 2 else None)


def _id(m, o):
    return m.ctx.int(m.ctx.fresh("id"))


def _hash(m, o):
    return m.event("hash", o, ret="int")


def _int(m, *args):
    if len(args) == 1 and isinstance(args[0], (SInt,)):
        return args[0]
    if len(args) == 1 and isinstance(args[0], SBool):
        return SInt(z3.If(args[0].t, z3.IntVal(1), z3.IntVal(0)))
    cs = [m.conc(a) for a in args]
    if not any(c is MISSING for c in cs):
        return m.native(int, *cs)
    return m.event("int", *args)


_TABLE = {
    len: _len, iter: _iter, next: _next, list: _seq(HList), bytes: _bytes, tuple: _seq(HTuple), set: _seq(HSet),
    frozenset: _seq(HSet), dict: _dict, reversed: _reversed, range: _range, enumerate: _enumerate,
    zip: _zip, map: _map, getattr: _getattr, hasattr: lambda m, o, n: m.hasattr(o, n),
    setattr: lambda m, o, n, v: m.setattr(o, n, v), delattr: lambda m, o, n: m.delattr(o, n),
    isinstance: lambda m, o, c: m.isinstance(o, c), issubclass: lambda m, o, c: m.issubclass(o, c),
    divmod: _divmod, pow: _pow, callable: _callable, repr: _conv("repr", repr), str: _conv("str", str),
    ascii: _conv("ascii", ascii), bool: _bool, min: _minmax(min), max: _minmax(max), any: _anyall(any),
    all: _anyall(all), sys.exc_info: _exc_info, type: _type, print: _print, _copy.copy: _copycopy,
    inspect.isclass: _isclass, inspect.isbuiltin: lambda m, o: m.isinstance(o, types.BuiltinFunctionType),
    inspect.isfunction: lambda m, o: m.isinstance(o, types.FunctionType),
    inspect.ismethod: lambda m, o: m.isinstance(o, types.MethodType),
    inspect.iscode: lambda m, o: m.isinstance(o, types.CodeType), sorted: _sorted,
    super: _super, id: _id, hash: _hash, slice: _slice, int: _int,
    __import__: _ev("import"), dir: _ev("dir", "seq"), compile: _ev("compile"), eval: _ev("eval"),
    exec: _ev("exec", "none"),
    format: lambda m, v, s="": m.event("format", v, s) if isinstance(v, Obj) or isinstance(s, Obj)
    else m.native(format, m.conc(v), m.conc(s)),
    operator.getitem: lambda m, a, b: m.getitem(a, b), operator.setitem: lambda m, a, b, c: m.setitem(a, b, c),
    operator.delitem: lambda m, a, b: m.delitem(a, b),
    operator.contains: lambda m, a, b: m.contains(a, b),
    operator.not_: lambda m, a: m.not_(a) if not isinstance(a, SBool) else m.not_(a),
    operator.truth: _bool,
    type.__subclasscheck__: lambda m, c, v: m.real_subclass(v, c),
    operator.index: _int,
    _noop: lambda m, *a, **k: None,
}
