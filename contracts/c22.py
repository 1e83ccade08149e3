"""C22: attribute, item and import instructions."""
import builtins
import importlib
import types
from engine import native
import xpython.stdlib
from contracts.base import *
from xpython.byteop.byteop import ByteOpBase
from xpython.byteop.byteop37 import NULL


def pre_attr(n, flag=False):
    def pre(b):
        b.push(*b.anys(n))
        args = [b.name()]
        if flag:
            args.append(b.choose("push_null", [False, True]))
        return b.int("oparg", 0), args
    return pre


def s_load_attr(vm, f, name, push_null=False):
    o = f.stack.pop()
    v = getattr(o, name)
    if push_null:
        f.stack.append(NULL)
    f.stack.append(v)


def s_store_attr(vm, f, name):
    o = f.stack.pop()
    v = f.stack.pop()
    setattr(o, name, v)


def s_delete_attr(vm, f, name):
    o = f.stack.pop()
    delattr(o, name)


op("C22", "LOAD_ATTR", pre_attr(1), s_load_attr, hi=(3, 11))
op("C22", "LOAD_ATTR", pre_attr(1, True), s_load_attr, lo=(3, 12))
op("C22", "STORE_ATTR", pre_attr(2), s_store_attr)
op("C22", "DELETE_ATTR", pre_attr(1), s_delete_attr)


def pre_items(n):
    def pre(b):
        b.push(*b.anys(n))
        return None
    return pre


def s_store_subscr(vm, f):
    v, o, k = take(f, 3)
    o[k] = v


def s_delete_subscr(vm, f):
    o, k = take(f, 2)
    del o[k]


op("C22", "STORE_SUBSCR", pre_items(3), s_store_subscr)
op("C22", "DELETE_SUBSCR", pre_items(2), s_delete_subscr)


# ------------------------------------------------------------------ import
# The import itself is Python's: an opaque operation. So is the module that
# stands for "sys", which has a contract below.
def sys_module(vm):
    return vm.byteop.setup_sys_module()


def pre_import(b):
    if b.version < (2, 5):
        b.push(b.any("fromlist"))
    else:
        lv = b.choose("level", [-1, 0, 1] if b.version < (3, 0) else [0, 1])
        if lv == 1:
            lv = b.int("relative level", 1)
        b.push(lv, b.any("fromlist"))
    name = b.name("module")
    b.is_not(name, *xpython.stdlib.__all__)
    return b.int("oparg", 0), [name]


def s_import(vm, f, name):
    level = 0
    fromlist = f.stack.pop()
    if vm.version >= (2, 5):
        level = f.stack.pop()
        if level == -1:
            level = 0
    m = the_import(name, f.f_globals, f.f_locals, fromlist, level)
    if m is sys:
        m = sys_module(vm)
    f.stack.append(m)


def the_import(name, globs, locs, fromlist, level):
    return __import__(name, globs, locs, fromlist, level)


def h_import(it, args, kwargs):
    names = ["name", "globals", "locals", "fromlist", "level"]
    d = dict(zip(names, args))
    d.update(kwargs)
    return it.m.event("import", *[d.get(n, {"fromlist": (), "level": 0}.get(n)) for n in names])


def import_stubs(it):
    return {builtins.__import__: h_import, importlib.__import__: h_import,
            ByteOpBase.setup_sys_module: lambda it, args, kwargs: it.m.event("sys module")}


def import_native(b, phase):
    """The import of the names of the contract, and the stand-in for sys, are scripted."""
    real = builtins.__import__, importlib.__import__, ByteOpBase.setup_sys_module
    undo = []
    is_sys = b.choose("is sys", [False, False, True])

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name not in native.NAMES:
            return real[0](name, globals, locals, fromlist, level)
        v = b.s.event("import", [name, globals, locals, fromlist, level])
        return sys if is_sys else v

    def restore():
        builtins.__import__, importlib.__import__, ByteOpBase.setup_sys_module = real
        for m, k, v in undo:
            setattr(m, k, v)

    builtins.__import__ = importlib.__import__ = imp
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("xpython"):
            for k, v in list(vars(m).items()):
                if v is real[0] or v is real[1]:
                    undo.append((m, k, v))
                    setattr(m, k, imp)
    ByteOpBase.setup_sys_module = lambda self: b.s.event("sys module", [])
    return [restore]


op("C22", "IMPORT_NAME", pre_import, s_import, stubs=import_stubs, native_stubs=import_native)


def s_import_from(vm, f, name):
    m = f.stack[len(f.stack) - 1]
    try:
        v = getattr(m, name)
    except AttributeError:
        # what the message says
        getattr(m, "__name__", None)
        getattr(m, "__file__", None)
        raise ImportError("cannot import name") from None
    f.stack.append(v)


op("C22", "IMPORT_FROM", pre_attr(1), s_import_from)


class Mod:
    """A module."""


STAR = [dict(), dict(x=1), dict(_p=1, x=2), dict(x=1, _p=2, y=3), dict(x=1, y=2, __all__=0), dict(x=1, y=2, __all__=1),
        dict(_p=1, x=2, y=3, __all__=2), dict(x=1, __all__=2)]


def pre_star(b):
    d = dict(STAR[b.variant["names"]])
    d = {k: (b.any("value " + k) if k != "__all__" else b.lst(["_p", "y"][:v]) if v < 2 else b.tup(["_p", "y"]))
         for k, v in d.items()}
    m = b.obj(Mod, "module", **d)
    if b.op == "CALL_INTRINSIC_1":
        b.push(m)
        return 2, [2]
    b.push(m)


def s_import_star(vm, f, *intrinsic):
    m = f.stack.pop()
    try:
        names = m.__all__
    except AttributeError:
        names = []
        for n in m.__dict__:
            if not n.startswith("_"):
                names.append(n)
    for n in names:
        f.f_locals[n] = getattr(m, n)
    if intrinsic:
        f.stack.append(None)


star = lambda v, pp, n: [{"names": i} for i in range(len(STAR))]
op("C22", "IMPORT_STAR", pre_star, s_import_star, hi=(3, 11), extra=star,
   bounded="modules with at most three names, and an __all__ of at most two")
op("C22", "CALL_INTRINSIC_1", pre_star, s_import_star, extra=star, name="op:CALL_INTRINSIC_1 import *",
   bounded="modules with at most three names, and an __all__ of at most two")


# ------------------------------------------------------------------ the module that stands for sys
def real_sys(vm):
    m = vm.byteop.setup_sys_module()
    again = vm.byteop.setup_sys_module()
    return (m is not sys, again is m, m.hexversion == vm.byteop.hexversion, m.version_info[:2] == vm.version[:2],
            m.path is sys.path, m.__name__, m.exc_info == vm.byteop.exc_info)


def spec_sys(vm):
    return (True, True, True, True, True, "sys", True)


Contract("sys module", ["C22"], [{"version": v, "pypy": pp} for v, pp in flavours()],
         lambda b: [b.setup_vm()][:0] or [b.vm], real_sys, spec_sys, fn=["setup_sys_module"],
         symbolic=False, bounded="evaluated for each of the 23 versions and implementations; it has no other input")
