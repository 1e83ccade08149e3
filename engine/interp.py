"""Symbolic interpreter for the Python subset the repository is written in.

It interprets the AST of the *real* functions, re-read from their source files
on every run.  Constructs outside the subset raise Unsupported.
"""
import ast
import builtins as _bi
import inspect
import os
import sys
import types

import z3

from .core import *
from . import core

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
INTERP_DIRS = [REPO + "/", os.path.realpath(os.path.join(os.path.dirname(__file__), "..")) + "/"]

_trees = {}
_nodes = {}
_fncache = {}


def _load(filename):
    if filename not in _trees:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read(), filename)
        _trees[filename] = tree
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                first = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    first = min(d.lineno for d in n.decorator_list)
                name = n.name if isinstance(n, ast.FunctionDef) else "<lambda>"
                idx.setdefault((first, name), []).append(n)
        _nodes[filename] = idx
    return _nodes[filename]


def fn_node(fn):
    code = fn.__code__
    if code not in _fncache:
        idx = _load(os.path.realpath(code.co_filename))
        cands = idx.get((code.co_firstlineno, code.co_name), [])
        if len(cands) > 1:
            cands = [c for c in cands if [a.arg for a in c.args.posonlyargs + c.args.args] ==
                     list(code.co_varnames[:code.co_argcount])]
        if len(cands) != 1:
            # several lambdas on one line: disambiguate by column
            cols = [p for p in code.co_positions() if p[0] is not None]
            cands = [c for c in cands if cols and any(p[2] is not None and c.lineno <= p[0] <= c.end_lineno
                                                      and c.col_offset <= p[2] <= c.end_col_offset
                                                      for p in cols[1:])]
        if len(cands) != 1:
            raise Unsupported(f"source of {code.co_name} not found")
        _fncache[code] = cands[0]
    return _fncache[code]


def interpretable(fn):
    if not isinstance(fn, types.FunctionType) or not os.path.isabs(fn.__code__.co_filename):
        return False
    f = os.path.realpath(fn.__code__.co_filename)
    return any(f.startswith(d) for d in INTERP_DIRS) and "/venv" not in f and "site-packages" not in f


class LoopRule(Exception):
    """The loop is not of the form the rule is for."""

    def __init__(self, node):
        self.node = node


def _vars(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(x))
        todo.extend(x.children())
    return out


def _ident(v):
    if isinstance(v, Obj):
        return ("term", v.t.get_id())
    if isinstance(v, (SInt, SBool)):
        return ("term", v.t.get_id())
    if isinstance(v, E):
        return ("e", _ident(v.v))
    if isinstance(v, S):
        return ("s", id(v.base), str(v.lo), str(v.hi))
    if isinstance(v, (str, int, float, bool, type(None))):
        return ("c", type(v), v)
    return ("id", id(v))


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


_UNSET = object()


class Env:
    __slots__ = ("vars", "parent", "assigned", "globs", "cells", "globals_decl", "nonlocals", "fn", "first")

    def __init__(self, globs, parent=None, cells=None, assigned=()):
        self.vars = {}
        self.parent = parent
        self.assigned = assigned
        self.globs = globs
        self.cells = cells or {}
        self.globals_decl = set()
        self.nonlocals = set()
        self.fn = None
        self.first = None


_assigned_cache = {}


def assigned_names(node):
    if node in _assigned_cache:
        return _assigned_cache[node]
    out = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, ast.alias):
                out.add((c.asname or c.name).split(".")[0])
            walk(c)
    if isinstance(node, ast.Lambda):
        pass
    else:
        for s in node.body:
            walk(ast.Module([s], []))
    _assigned_cache[node] = out
    return out


class Interp:
    def __init__(self, ctx, models):
        self.ctx = ctx
        self.m = models
        models.attach(self)
        self.depth = 0
        self.summaries = {}
        self.builder = None

    # ------------------------------------------------------------ raising
    def throw(self, cls, *args):
        e = HObj(cls, {"args": HTuple([E(a) for a in args]), "__traceback__": None, "__cause__": None,
                       "__context__": None})
        raise PyRaise(e)

    # ------------------------------------------------------------ calls
    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.ctx.tick()
        if self.depth > 60:
            raise Unsupported("call depth")
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self] + list(args), kwargs)
        if isinstance(fn, BuiltinMethod):
            return self.m.call_method(fn.recv, fn.name, list(args), kwargs)
        if isinstance(fn, IFunc):
            return self.run_ifunc(fn, list(args), kwargs)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + list(args), kwargs)
        try:
            s = self.summaries.get(fn) if not isinstance(fn, Sym) else None
        except TypeError:
            s = None
        if s is not None:
            return s(self, list(args), kwargs)
        if isinstance(fn, types.FunctionType) and interpretable(fn):
            return self.run_function(fn, list(args), kwargs)
        return self.m.call(fn, list(args), kwargs)

    def bind(self, a, args, kwargs, defaults, kwdefaults, name):
        """Bind arguments to the ast.arguments a -> dict."""
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        posonly = {x.arg for x in a.posonlyargs}
        for n in names:
            if args:
                out[n] = args.pop(0)
                if isinstance(out[n], S):
                    raise Unsupported("symbolic-length arguments")
                if n in kwargs and n not in posonly:
                    self.throw(TypeError, "multiple values")
            elif n in kwargs and n not in posonly:
                out[n] = kwargs.pop(n)
        if a.vararg:
            out[a.vararg.arg] = HTuple([x if isinstance(x, (S, E)) else E(x) for x in args])
        elif args:
            self.throw(TypeError, f"{name}() takes {len(names)} positional arguments")
        nd = len(names) - len(defaults)
        for i, n in enumerate(names):
            if n not in out:
                if i >= nd:
                    out[n] = defaults[i - nd]
                else:
                    self.throw(TypeError, f"{name}() missing argument {n}")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                out[x.arg] = kwdefaults[x.arg]
            else:
                self.throw(TypeError, f"{name}() missing keyword argument {x.arg}")
        if a.kwarg:
            out[a.kwarg.arg] = HDict(None, list(kwargs.items()))
        elif kwargs:
            self.throw(TypeError, f"{name}() got an unexpected keyword argument")
        return out

    def run_function(self, fn, args, kwargs):
        node = fn_node(fn)
        if (fn.__module__ or "").startswith("xpython"):
            self.ctx.functions.add(fn.__module__ + "." + fn.__qualname__)
        if any(isinstance(x, S) for x in args):
            if not node.args.vararg:
                raise Unsupported("symbolic-length arguments")
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                cells[n] = c
        env = Env(fn.__globals__, None, cells, assigned_names(node))
        env.fn = fn
        env.vars.update(self.bind(node.args, args, kwargs, [self.host_in(d) for d in (fn.__defaults__ or ())],
                                  {k: self.host_in(v) for k, v in (fn.__kwdefaults__ or {}).items()}, fn.__name__))
        env.first = args[0] if args else None
        return self.run_body(node, env)

    def host_in(self, v):
        # default values such as {} are mutable host objects: present them as heap values
        if isinstance(v, dict) and not v:
            return HDict(None)
        if isinstance(v, list) and not v:
            return HList()
        return v

    def run_ifunc(self, f, args, kwargs):
        env = Env(f.globs, f.env, None, assigned_names(f.node))
        env.vars.update(self.bind(f.node.args, args, kwargs, f.defaults, f.kwdefaults, f.name))
        env.first = args[0] if args else None
        return self.run_body(f.node, env)

    def run_body(self, node, env):
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if node in _isgen_cache:
                isgen = _isgen_cache[node]
            else:
                isgen = _isgen_cache[node] = _is_generator(node)
            if isgen:
                raise Unsupported("generator function")
            try:
                self.stmts(node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ names
    def load(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if name in e.assigned and name not in e.globals_decl and name not in e.nonlocals:
                self.throw(UnboundLocalError, name)
            if name in e.cells:
                return e.cells[name].cell_contents
            e = e.parent
        if name in env.globs:
            return env.globs[name]
        if hasattr(_bi, name):
            return getattr(_bi, name)
        self.throw(NameError, name)

    def store(self, name, v, env):
        if name in env.globals_decl:
            raise Unsupported("store to module global")
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or name in e.assigned:
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported("nonlocal")
        env.vars[name] = v

    # ------------------------------------------------------------ statements
    def stmts(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.ctx.tick()
        getattr(self, "s_" + type(s).__name__, self.s_unsupported)(s, env)

    def s_unsupported(self, s, env):
        raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Global(self, s, env):
        env.globals_decl.update(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_If(self, s, env):
        self.stmts(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = _BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            v = self.m.inplace(op, self.load(t.id, env), self.ev(s.value, env))
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            v = self.m.inplace(op, self.m.getattr(o, t.attr), self.ev(s.value, env))
            self.m.setattr(o, t.attr, v)
        else:
            o = self.ev(t.value, env)
            k = self.ev_slice(t.slice, env)
            v = self.m.inplace(op, self.m.getitem(o, k), self.ev(s.value, env))
            self.m.setitem(o, k, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.m.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.m.setitem(o, self.ev_slice(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.m.unpack(v, len(t.elts), next((i for i, x in enumerate(t.elts)
                                                        if isinstance(x, ast.Starred)), None))
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    self.throw(NameError, t.id)
                del env.vars[t.id]
            elif isinstance(t, ast.Attribute):
                self.m.delattr(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                self.m.delitem(self.ev(t.value, env), self.ev_slice(t.slice, env))
            else:
                raise Unsupported("del target")

    def s_While(self, s, env):
        n = 0
        while True:
            if n == 0 and s not in self.ctx.unroll and self.pops_only(s, env):
                break
            if not self.truth(self.ev(s.test, env)):
                self.stmts(s.orelse, env)
                break
            n += 1
            if n > 40:
                raise Unsupported("loop not bounded")
            try:
                self.stmts(s.body, env)
            except _Break:
                break
            except _Continue:
                continue

    # Loop rule, for loops of unknown length over the frame's value stack.
    # Invariant: the stack is a prefix of what it was, the test held for all
    # longer prefixes, and nothing else changed.
    def pops_only(self, s, env):
        """Whether the loop was dealt with by the rule."""
        ctx = self.ctx
        f = getattr(self.builder, "f", None) if self.builder is not None else None
        vm = getattr(self.builder, "vm", None) if self.builder is not None else None
        lists = [x.attrs.get(a) for x, a in ((f, "stack"), (vm, "frames")) if x is not None]
        lists = [x for x in lists if isinstance(x, HList) and z3.is_expr(rlen(x.segs))]
        if not lists:
            return False
        v = self.ev(s.test, env)
        if not isinstance(v, SBool):
            return False
        c = z3.simplify(v.t)
        if z3.is_true(c) or z3.is_false(c) or not ctx.sat(c):
            return False
        st = next((x for x in lists if _vars(rlen(x.segs)) & _vars(c)), lists[0])
        top = vm is not None and st is vm.attrs.get("frames")
        if not top and not ctx.sat(z3.Not(c)):
            return False

        def current():
            """Of the call stack: the current frame is the last one."""
            if top:
                vm.attrs["frame"] = self.m.getitem(st, -1) if self.truth(st) else None
        if top:
            is_last = self.m.getitem(st, -1) if ctx.proves(rlen(st.segs) > 0) else None
            if is_last is None or not self.m.same_proved(is_last, vm.attrs["frame"]):
                return False
        segs0 = list(st.segs)
        n0 = rlen(segs0)
        m = ctx.int(ctx.fresh("loop"), 0)
        ctx.assume(m.t <= n0)
        if ctx.choose(2) == 0:
            # The invariant is preserved.
            st.segs = rslice(ctx, segs0, 0, m)[1]
            current()
            if not self.truth(self.ev(s.test, env)):
                raise PathAbort()
            before = list(st.segs)
            snap = self.snapshot(env, st)
            frame_key = (id(vm), "frame")
            if top:
                snap.pop(frame_key, None)
            ev = (len(ctx.events), ctx.evpos)
            try:
                self.stmts(s.body, env)
            except _Break:
                return True
            except _Continue:
                pass
            after = self.snapshot(env, st)
            if top:
                after.pop(frame_key, None)
            ok = (len(ctx.events), ctx.evpos) == ev and after == snap
            if ok:
                if not ctx.proves(rlen(st.segs) == m.t - 1):
                    ok = False
            if ok:
                want = rslice(ctx, before, 0, mkint(m.t - 1))[1]
                fs = []
                self.m.same(HList(st.segs), HList(want), fs, {}, "loop invariant")
                ok = all(ctx.proves(x) for _, x in fs)
            if ok and top:
                got = vm.attrs["frame"]
                current()
                ok = got is vm.attrs["frame"] or self.m.same_proved(got, vm.attrs["frame"])
            if not ok:
                raise LoopRule(s)
            ctx.stats.obligations += 1
            ctx.stats.discharged += 1
            raise PathAbort()
        # After the loop.
        if not ctx.branch(m.t == n0):
            st.segs = rslice(ctx, segs0, 0, mkint(m.t + 1))[1]
            if not self.truth(self.ev(s.test, env)):
                raise PathAbort()
        st.segs = rslice(ctx, segs0, 0, m)[1]
        current()
        if self.truth(self.ev(s.test, env)):
            raise PathAbort()
        self.stmts(s.orelse, env)
        return True

    def snapshot(self, env, skip):
        """The identities of everything reachable, but for the items of skip."""
        out, seen, todo = {}, set(), []
        e = env
        while e is not None:
            for k, v in e.vars.items():
                out[("var", id(e), k)] = _ident(v)
                todo.append(v)
            e = e.parent
        b = self.builder
        todo.extend(x for x in (b.vm, *b.roots.values()) if x is not None)
        keep = []
        while todo:
            o = todo.pop()
            if not isinstance(o, Sym) or id(o) in seen:
                continue
            seen.add(id(o))
            keep.append(o)
            if isinstance(o, HObj):
                for k, v in o.attrs.items():
                    out[(id(o), k)] = _ident(v)
                    todo.append(v)
            elif isinstance(o, HSeq):
                if o is skip:
                    continue
                out[id(o)] = tuple(_ident(x) for x in o.segs)
                todo.extend(x.v for x in o.segs if isinstance(x, E))
            elif isinstance(o, HDict):
                out[id(o)] = (id(o.base), tuple((_ident(k), _ident(v)) for k, v in o.over))
                todo.extend(v for _, v in o.over)
        return out

    # Loop rule, for loops that search a sequence of unknown length: the passes that
    # do not end the loop change nothing but local variables.  At the head of pass k
    # those have their initial values (k = 0) or what pass k-1 left, having begun
    # with arbitrary values; that pass, and the passes over the items the contract
    # names as witnesses, went on.
    def search(self, s, env, seq):
        ctx = self.ctx
        ctx.search_rules.add(s)
        names = sorted({n.id for x in [s.target, *s.body] for n in ast.walk(x)
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        scope = env
        init = {n: scope.vars[n] for n in names if n in scope.vars}
        n = rlen(seq.segs)
        k = ctx.int(ctx.fresh("pass"), 0)
        exhausted = ctx.choose(2)
        for f in getattr(self.builder, "index_facts", ()):
            f(k.t)
        ctx.assume(k.t == n if exhausted else k.t < n)

        def goes_on(i):
            havoc = set()
            for x in names:
                if x in init:
                    v = init[x]
                    f = ctx.fresh("carried")
                    havoc.add(f)
                    scope.vars[x] = SBool(z3.Bool(f)) if isinstance(v, (bool, SBool)) else \
                        SInt(z3.Int(f)) if isinstance(v, (int, SInt)) else Obj(z3.Const(f, U))
                else:
                    scope.vars.pop(x, None)
            snap, ev, pc = self.effects(env, names), (len(ctx.events), ctx.evpos), len(ctx.pc)
            self.assign(s.target, self.m.getitem(seq, mkint(i)), env)
            try:
                self.stmts(s.body, env)
            except _Continue:
                pass
            except (_Break, _Return, PyRaise):
                raise PathAbort()
            if (len(ctx.events), ctx.evpos) != ev or self.effects(env, names) != snap:
                raise LoopRule(s)
            used = set().union(*(_vars(c) for c in ctx.pc[pc:]), *(_vars(v.t) for v in map(scope.vars.get, names)
                                                                    if isinstance(v, (Obj, SInt, SBool))))
            if used & havoc:
                raise LoopRule(s)

        if not ctx.branch(k.t == 0):
            for w in getattr(self.builder, "witnesses", ()):
                if ctx.branch(z3.And(w.t >= 0, w.t < k.t)):
                    goes_on(w.t)
            goes_on(k.t - 1)
        if exhausted:
            self.stmts(s.orelse, env)
            return
        self.assign(s.target, self.m.getitem(seq, k), env)
        try:
            self.stmts(s.body, env)
        except _Break:
            return
        except _Continue:
            pass
        raise PathAbort()

    def effects(self, env, names):
        """What snapshot() gives, but for those local variables."""
        kept = dict(env.vars)
        for n in names:
            env.vars.pop(n, None)
        try:
            return self.snapshot(env, None)
        finally:
            env.vars.clear()
            env.vars.update(kept)

    def s_For(self, s, env):
        v = self.ev(s.iter, env)
        if s not in self.ctx.unroll and self.builder is not None and isinstance(v, (HList, HTuple)) and \
                any(isinstance(x, S) for x in v.segs) and not self.ctx.proves(rlen(v.segs) <= 4):
            return self.search(s, env, v)
        it = self.m.iterate(v)
        n = 0
        for x in it:
            n += 1
            if n > 400:
                raise Unsupported("loop not bounded")
            self.assign(s.target, x, env)
            try:
                self.stmts(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.stmts(s.orelse, env)

    def s_Try(self, s, env):
        try:
            self.try_body(s, env)
        except (PyRaise, _Return, _Break, _Continue) as pend:
            if s.finalbody:
                if isinstance(pend, PyRaise):
                    self.ctx.exc_stack.append(pend.value)
                    try:
                        self.stmts(s.finalbody, env)
                    finally:
                        self.ctx.exc_stack.pop()
                else:
                    self.stmts(s.finalbody, env)
            raise
        else:
            self.stmts(s.finalbody, env)

    def try_body(self, s, env):
        try:
            self.stmts(s.body, env)
        except PyRaise as p:
            for h in s.handlers:
                if h.type is None or self.m.exc_match(p.value, self.ev(h.type, env)):
                    if h.name:
                        env.vars[h.name] = p.value
                    self.ctx.exc_stack.append(p.value)
                    try:
                        self.stmts(h.body, env)
                    finally:
                        self.ctx.exc_stack.pop()
                        if h.name:
                            env.vars.pop(h.name, None)
                    return
            raise
        else:
            self.stmts(s.orelse, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.ctx.exc_stack:
                self.throw(RuntimeError, "No active exception to reraise")
            raise PyRaise(self.ctx.exc_stack[-1])
        v = self.ev(s.exc, env)
        v = self.m.make_exc(v)
        if s.cause is not None:
            c = self.ev(s.cause, env)
            if isinstance(v, HObj):
                v.attrs["__cause__"] = c
        raise PyRaise(v)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.throw(AssertionError)

    def s_With(self, s, env):
        raise Unsupported("with statement")

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        env.vars[s.name] = self.mkfunc(s, env, s.name)

    def mkfunc(self, s, env, name):
        return IFunc(s, env, env.globs, [self.ev(d, env) for d in s.args.defaults],
                     {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
                      if d is not None}, name)

    def s_Import(self, s, env):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                mod = sys.modules[a.name]
            env.vars[a.asname or a.name.split(".")[0]] = mod

    def s_ImportFrom(self, s, env):
        import importlib
        mod = importlib.import_module(s.module) if not s.level else \
            importlib.import_module("." * s.level + (s.module or ""), env.globs.get("__package__"))
        for a in s.names:
            env.vars[a.asname or a.name] = getattr(mod, a.name)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        r = getattr(self, "e_" + type(e).__name__, None)
        if r is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return r(e, env)

    def truth(self, v):
        return self.m.truth(v)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load(e.id, env)

    def e_Attribute(self, e, env):
        return self.m.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        return self.m.getitem(self.ev(e.value, env), self.ev_slice(e.slice, env))

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            a, b, c = [self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)]
            return SSlice(a, b, c)
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.ev_slice(e, env)

    def e_Tuple(self, e, env):
        return HTuple(self.seq(e.elts, env))

    def e_List(self, e, env):
        return HList(self.seq(e.elts, env))

    def e_Set(self, e, env):
        return HSet(self.seq(e.elts, env))

    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.m.rope_of(self.ev(x.value, env)))
            else:
                out.append(E(self.ev(x, env)))
        return out

    def e_Dict(self, e, env):
        d = HDict(None)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.m.dict_update(d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.m.dict_set(d, kk, self.ev(v, env))
        return d

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, env)
            if self.truth(v) != isand:
                return v
        return self.ev(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return self.m.not_(v)
        return self.m.unary({ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], v)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        return self.m.binary(_BINOPS[type(e.op)], a, self.ev(e.right, env))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.m.compare(_CMPS[type(op)], left, right)
            if i == len(e.ops) - 1:
                return res
            if not self.truth(res):
                return res
            left = right

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env, "<lambda>")

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.store(e.target.id, v, env)
        return v

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, env)
                spec = self.ev(x.format_spec, env) if x.format_spec is not None else ""
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[x.conversion]
                parts.append(self.m.format(v, conv, spec))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return self.m.concat(parts)

    def e_FormattedValue(self, e, env):
        return self.e_JoinedStr(ast.JoinedStr([e]), env)

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_Call(self, e, env):
        # zero-argument super
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in env.vars:
            ee = env
            while ee is not None and "__class__" not in ee.cells:
                ee = ee.parent
            if ee is None:
                raise Unsupported("super()")
            return SuperObj(ee.cells["__class__"].cell_contents, ee.first)
        fn = self.ev(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                for s in self.m.rope_of(self.ev(a.value, env)):
                    args.append(s.v if isinstance(s, E) else s)
            else:
                args.append(self.ev(a, env))
        star = None
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                items = self.m.dict_items(d)
                if items is None or not all(isinstance(kk, str) for kk, _ in items):
                    star = self.m.as_kwargs(d, star)
                    continue
                for kk, vv in items:
                    if kk in kwargs:
                        self.throw(TypeError, "multiple values for keyword argument")
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    self.throw(TypeError, "multiple values for keyword argument")
                kwargs[k.arg] = self.ev(k.value, env)
        if star is not None:
            if kwargs:
                raise Unsupported("mixed ** arguments")
            kwargs = {"**": star}
        return self.call(fn, args, kwargs)

    def comp(self, gens, env, emit, flat=None):
        inner = Env(env.globs, env, None, ())
        inner.first = env.first

        def go(i):
            if i == len(gens):
                emit(inner)
                return
            g = gens[i]
            if g.is_async:
                raise Unsupported("async")
            if flat and i == len(gens) - 1 and not g.ifs and isinstance(g.target, ast.Name) and \
                    isinstance(flat, ast.Name) and flat.id == g.target.id:
                # [.. for x in it]: the elements of it, as list(it) gives them
                for seg in self.m.rope_of(self.ev(g.iter, inner if i else env)):
                    emit(seg)
                return
            for x in self.m.iterate(self.ev(g.iter, inner if i else env)):
                self.assign(g.target, x, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.elt(e, en)), e.elt)
        return HList(out)

    def elt(self, e, en):
        return en if isinstance(en, (S, E)) else E(self.ev(e.elt, en))

    def e_GeneratorExp(self, e, env):
        # evaluated eagerly: only consumers that exhaust it (tuple, list, dict, ...) follow in this code
        out = []
        try:
            self.comp(e.generators, env, lambda en: out.append(self.elt(e, en)), e.elt)
        except PyRaise as p:
            if self.m.exc_match(p.value, StopIteration):
                self.throw(RuntimeError, "generator raised StopIteration")
            raise
        if any(isinstance(x, S) for x in out):
            return HTuple(out)
        return HIter([x.v for x in out])

    def e_SetComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.elt(e, en)), e.elt)
        return HSet(out)

    def e_DictComp(self, e, env):
        d = HDict(None)
        self.comp(e.generators, env, lambda en: self.m.dict_set(d, self.ev(e.key, en), self.ev(e.value, en)))
        return d


_isgen_cache = {}


def _is_generator(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


_BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
           ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|",
           ast.BitXor: "^", ast.MatMult: "@"}
_CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
         ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
