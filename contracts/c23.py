"""C09/C23: the common call path, and the builtins that need the calling frame."""
import types

from .base import *
from xdis import CO_OPTIMIZED, CO_NEWLOCALS
from xpython.byteop.byteop import ByteOpBase
from xpython.pyobj import Method, Frame
from xpython.vm import PyVM
from xpython.builtins import builtin_super
from xpython.stdlib.builtins import execfile

HOST = (3, 12)


def real_call(vm, func, pos, kw):
    vm.byteop.call_function_with_args_resolved(func, pos, kw)


def current_locals(frame):
    return frame.current_locals()


def run_code(vm, code, globs, locs):
    return vm.run_code(code, globs, locs, toplevel=False)


def stubs(it):
    def locs(it_, args, kwargs):
        return it.m.event("locals of", args[0])

    def run(it_, args, kwargs):
        names = ["self", "code", "f_globals", "f_locals", "toplevel"]
        a = dict(zip(names, args))
        a.update(kwargs)
        return it.m.event("run code", a["code"], a.get("f_globals"), a.get("f_locals"), a.get("toplevel", True))
    return {Frame.current_locals: locs, PyVM.run_code: run}


def spec_call(vm, func, pos, kw):
    f = vm.frame
    if isinstance(func, Method):
        if func.im_self is None:
            if len(pos) == 0:
                raise TypeError()
            if not isinstance(pos[0], func.im_class):
                raise TypeError()
            r = func.im_func(*pos, **kw)
        else:
            r = func.im_func(func.im_self, *pos, **kw)
    elif func is globals and not pos and not kw:
        r = f.f_globals
    elif (func is locals or func is vars) and not pos and not kw:
        r = f.current_locals()
    elif func is dir and not pos and not kw:
        r = sorted(f.current_locals())
    elif (func is eval or func is exec) and 1 <= len(pos) <= 3 and not kw:
        r = spec_eval(vm, f, func, pos)
    elif func is compile:
        if len(pos) < 5 and "dont_inherit" not in kw:
            kw["dont_inherit"] = True
        r = func(*pos, **kw)
    elif func is execfile and 1 <= len(pos) <= 3 and not kw:
        r = func(pos[0], *namespaces(f, pos))
    elif func is super:
        r = builtin_super(f, *pos, **kw)
    elif func is type and len(pos) == 3:
        ns = pos[2]
        if isinstance(ns, dict) and "__module__" not in ns and "__name__" in f.f_globals:
            ns = {**ns, "__module__": f.f_globals["__name__"]}
        r = type(pos[0], pos[1], ns, **kw)
    else:
        r = func(*pos, **kw)
    f.stack.append(r)


def spec_eval(vm, f, func, pos):
    globs, locs = namespaces(f, pos)
    source = pos[0]
    if vm.version[:2] != HOST:
        return func(source, globs, locs)
    import inspect
    if not inspect.iscode(source):
        if func is eval and isinstance(source, str):
            source = source.lstrip(" \t")
        source = compile(source, "<string>", mode="eval" if func is eval else "exec", dont_inherit=True)
    v = vm.run_code(source, globs, locs, toplevel=False)
    if func is eval:
        return v
    return None


def namespaces(f, pos):
    globs = pos[1] if len(pos) > 1 else None
    locs = pos[2] if len(pos) > 2 else None
    if globs is None:
        globs = f.f_globals
        if locs is None:
            locs = f.current_locals()
    elif locs is None:
        locs = globs
    if "__builtins__" not in globs:
        globs["__builtins__"] = f.f_builtins
    return globs, locs


def kw_dict(b, names=("ka", "kb")):
    return b.dic([(n, b.any("kw." + n)) for n in b.choose("kwnames", [(), names])], "kw")


def pre_any(b):
    b.setup_vm()
    func = b.func("func")
    b.not_instance(func, Method, types.BuiltinFunctionType)
    b.is_not(func, super, type, execfile)
    kw = kw_dict(b)
    return [b.vm, func, b.list("pos"), kw]


VERS = [{"version": v, "pypy": pp} for v, pp in flavours()]
Contract("call of any callable", ["C09"], VERS, pre_any, real_call, spec_call, stubs=stubs,
         fn=["ByteOpBase.call_function_with_args_resolved"])


def function_stub(it):
    from xpython.pyobj import Function

    def call(it_, args, kwargs):
        from engine.core import HTuple, HDict, E, S
        return it.m.event("call function", args[0], HTuple([a if isinstance(a, (S, E)) else E(a) for a in args[1:]]),
                          it.m.kw_value(kwargs))
    d = stubs(it)
    d[Function.__call__] = call
    return d


def native_function_stub(b, phase):
    from xpython.pyobj import Function
    old = Function.__call__

    def call(self, *a, **k):
        return b.s.event("call function", (a, k))
    Function.__call__ = call

    def undo():
        Function.__call__ = old
    return [undo]


def interpreted(b, name):
    from xpython.pyobj import Function
    return b.obj(Function, name, func_name="fn", __name__="fn")


def pre_method(b):
    b.setup_vm()
    cls = b.a_class("im_class")
    bound = b.variant["bound"]
    self_ = b.any("im_self") if bound else None
    if bound:
        b.is_not(self_, None)
    func = interpreted(b, "im_func")
    m = b.obj(Method, "method", im_self=self_, im_class=cls, im_func=func)
    return [b.vm, m, b.list("pos"), kw_dict(b)]


Contract("call of a method", ["C09"], [dict(v, bound=x) for v in VERS for x in (True, False)], pre_method, real_call,
         spec_call, stubs=function_stub, native_stubs=native_function_stub,
         fn=["ByteOpBase.call_function_with_args_resolved", "Method.bind"])


def method_direct(m, pos, kw, vm):
    return m(*pos, **kw)


def spec_method_direct(m, pos, kw, vm):
    if m.im_self is None:
        if len(pos) == 0:
            raise TypeError()
        if not isinstance(pos[0], m.im_class):
            raise TypeError()
        return m.im_func(*pos, **kw)
    return m.im_func(m.im_self, *pos, **kw)


def pre_method_direct(b):
    vm, m, pos, kw = pre_method(b)
    return [m, pos, kw, vm]


Contract("Method.__call__", ["C09"], [dict(version=v, pypy=False, bound=x) for v in ((2, 7), (3, 12)) for x in (True, False)],
         pre_method_direct, method_direct, spec_method_direct, stubs=function_stub, native_stubs=native_function_stub, fn=["Method.__call__", "Method.bind"])


# ------------------------------------------------------------------ builtins which need the frame
FRAME_FNS = {"globals": globals, "locals": locals, "vars": vars, "dir": dir}


def pre_frame_fn(b):
    b.setup_vm(module_level="both")
    return [b.vm, FRAME_FNS[b.variant["fn"]], b.lst([]), b.dic([])]


Contract("call of globals/locals/vars/dir", ["C23", "C09"], [dict(v, fn=x) for v in VERS for x in FRAME_FNS], pre_frame_fn,
         real_call, spec_call, stubs=stubs, fn=["ByteOpBase.call_function_with_args_resolved"])


def pre_execfile(b):
    b.variant["fn"] = "execfile"
    vm, f, pos, kw = pre_eval(b)
    return [vm, execfile, pos, kw]


def execfile_stub(it):
    d = stubs(it)
    d[execfile] = lambda it_, args, kwargs: it.m.event("execfile", *args, *kwargs.values())
    return d


def pre_eval(b):
    b.setup_vm(module_level="both")
    pos = [b.any("source")]
    k = b.variant["given"]
    if k >= 1:
        pos.append(b.choose("globals", [None, b.dict("globals")]))
    if k >= 2:
        pos.append(b.choose("locals", [None, b.any("locals")]))
    return [b.vm, eval if b.variant["fn"] == "eval" else exec, b.lst(pos), b.dic([])]


Contract("call of eval/exec", ["C23", "C09"], [dict(v, fn=x, given=k) for v in VERS for x in ("eval", "exec")
                                               for k in (0, 1, 2)], pre_eval,
         real_call, spec_call, stubs=stubs, fn=["ByteOpBase.call_function_with_args_resolved",
                                                "ByteOpBase.set_eval_namespaces"])


def pre_eval_wrong(b):
    b.setup_vm()
    return [b.vm, eval if b.variant["fn"] == "eval" else exec, b.lst(b.anys(b.variant["given"])), b.dic([])]


def spec_type_error(vm, func, pos, kw):
    raise TypeError()


Contract("eval/exec with a wrong number of arguments", ["C23"], [dict(v, fn=x, given=k) for v in VERS for x in ("eval", "exec")
                                               for k in (0, 4)], pre_eval_wrong,
         real_call, spec_type_error, fn=["ByteOpBase.call_function_with_args_resolved"], symbolic=False)


Contract("call of execfile", ["C24"], [dict(v, given=g) for v in VERS for g in (0, 1, 2)], pre_execfile, real_call, spec_call,
         stubs=execfile_stub, fn=["ByteOpBase.call_function_with_args_resolved", "ByteOpBase.set_eval_namespaces"], native=False)


def pre_type(b):
    b.setup_vm()
    ns = b.choose("ns", [b.dict("namespace"), b.any("ns")])
    if not b.sym:  # without it type() itself sees who calls it
        b.f.f_globals["__name__"] = "prog"
    return [b.vm, type, b.lst([b.str("cname"), b.tuple("bases"), ns]), kw_dict(b, ("metaclass",))]


Contract("type(name, bases, namespace)", ["C20", "C09"], VERS, pre_type, real_call, spec_call, stubs=stubs,
         fn=["ByteOpBase.call_function_with_args_resolved"])


# ------------------------------------------------------------------ what locals() gives
def pre_locals(b):
    kind = b.variant["kind"]
    flags = 0 if kind == "class body" else CO_OPTIMIZED | CO_NEWLOCALS
    v = b.version
    code = mkcode(v, co_varnames=("a", "b"), co_nlocals=2, co_cellvars=("c", "b"), co_freevars=("d",), co_flags=flags)
    b.setup_vm(code=code, module_level=False)
    if kind != "class body":
        def maybe(n):
            return [(n, b.any(n + ".value"))] if b.choose(n, [True, False]) else []
        b.setf(f_locals=b.dic(maybe("a"), "locals"))
        from xpython.pyobj import Cell
        cells = []
        for n in ("b", "c", "d"):
            c = b.cell(n)
            if b.choose(n, [True, False]):
                if b.sym:
                    c.attrs["contents"] = Cell.empty
                else:
                    c.contents = Cell.empty
            elif b.sym:
                b.is_not(c.attrs["contents"], Cell.empty)
            cells.append((n, c))
        b.set_cells(cells, extra=False)
        copy = b.dic([(n, b.any("old." + n)) for n in b.choose("copy", [(), ("a", "b", "c", "d", "extra")])], "f_locals_copy")
        b.setf(f_locals_copy=copy)
    return [b.vm, b.f]


def real_locals(vm, f):
    return f.current_locals()


def spec_locals(vm, f):
    if not f.f_code.co_flags & CO_OPTIMIZED:
        return f.f_locals
    d = f.f_locals_copy
    if "a" in f.f_locals:
        d["a"] = f.f_locals["a"]
    elif "a" in d:
        del d["a"]
    for n in ("b", "c", "d"):
        if not f.cells[n].is_empty():
            d[n] = f.cells[n].get()
        elif n in d:
            del d[n]
    return d


Contract("Frame.current_locals", ["C23"], [dict(version=v, pypy=False, kind=k) for v in ((2, 7), (3, 8), (3, 11), (3, 12))
                                           for k in ("function", "class body")],
         pre_locals, real_locals, spec_locals, fn=["Frame.current_locals"],
         bounded="a function with four variables (parameter, cell parameter, cell, free); any values")
