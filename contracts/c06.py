"""C06: variables."""
from .base import *
from xpython.pyobj import Cell


def pre_name(n):
    def pre(b):
        b.push(*b.anys(n))
        return b.int("namei", 0), [b.name()]
    return pre


def null():
    from xpython.byteop.byteop37 import NULL
    return NULL


def s_load_name(vm, f, name):
    if name in f.f_locals:
        v = f.f_locals[name]
    elif name in f.f_globals:
        v = f.f_globals[name]
    elif name in f.f_builtins:
        v = f.f_builtins[name]
    else:
        raise NameError(f"name '{name}' is not defined")
    f.stack.append(v)


def global_value(f, name):
    if name in f.f_globals:
        return f.f_globals[name]
    if name in f.f_builtins:
        return f.f_builtins[name]
    raise NameError(f"global name '{name}' is not defined")


def s_load_global(vm, f, name):
    f.stack.append(global_value(f, name))


def s_load_global11(vm, f, name, push_null):
    v = global_value(f, name)
    if push_null:
        f.stack.append(NULL)
    f.stack.append(v)


def s_load_fast(vm, f, name):
    if name not in f.f_locals:
        raise UnboundLocalError(f"local variable '{name}' referenced before assignment")
    f.stack.append(f.f_locals[name])


def s_store_local(vm, f, name):
    f.f_locals[name] = f.stack.pop()


def s_store_fast12(vm, f, name):
    v = f.stack.pop()
    if v is NULL:
        if name in f.f_locals:
            del f.f_locals[name]
    elif type(v) is Cell and f.cells and name in f.cells:
        # the cell LOAD_FAST_AND_CLEAR took away
        if name in f.f_locals:
            del f.f_locals[name]
        f.cells[name] = v
    else:
        f.f_locals[name] = v


def s_store_global(vm, f, name):
    f.f_globals[name] = f.stack.pop()


def s_delete_name(vm, f, name):
    if name not in f.f_locals:
        raise NameError(f"name '{name}' is not defined")
    del f.f_locals[name]


def s_delete_global(vm, f, name):
    if name not in f.f_globals:
        raise NameError(f"name '{name}' is not defined")
    del f.f_globals[name]


def s_delete_fast(vm, f, name):
    if name not in f.f_locals:
        raise UnboundLocalError(f"local variable '{name}' referenced before assignment")
    del f.f_locals[name]


def s_clear(vm, f, name):
    if name in f.f_locals:
        v = f.f_locals[name]
        del f.f_locals[name]
    else:
        v = NULL
    f.stack.append(v)


def s_load_locals(vm, f):
    f.stack.append(f.f_locals)


def s_store_locals(vm, f):
    f.f_locals = f.stack.pop()


NULL = null()
op("C06", "LOAD_NAME", pre_name(0), s_load_name, module_level="both")
op("C06", "LOAD_GLOBAL", pre_name(0), s_load_global, hi=(3, 10), module_level="both")


def pre_global11(b):
    return b.int("namei", 0), [b.name(), b.bool("push_null")]


op("C06", "LOAD_GLOBAL", pre_global11, s_load_global11, lo=(3, 11), module_level="both")
op("C06", "LOAD_FAST LOAD_FAST_CHECK", pre_name(0), s_load_fast, module_level="both")
op("C06", "STORE_NAME", pre_name(1), s_store_local, module_level="both")
op("C06", "STORE_FAST", pre_name(1), s_store_local, hi=(3, 11), module_level="both")


def pre_fast12(b):
    b.push(b.choose("null", [NULL, b.any("v0"), b.cell("own")]))
    if b.bool("cells"):
        b.set_cells([])
    return b.int("namei", 0), [b.name()]


op("C06", "STORE_FAST", pre_fast12, s_store_fast12, lo=(3, 12), module_level="both")
op("C06", "LOAD_FAST_AND_CLEAR", pre_name(0), s_clear, module_level="both")
op("C06", "STORE_GLOBAL", pre_name(1), s_store_global, module_level="both")
op("C06", "DELETE_NAME", pre_name(0), s_delete_name, module_level="both")
op("C06", "DELETE_GLOBAL", pre_name(0), s_delete_global, module_level="both")
op("C06", "DELETE_FAST", pre_name(0), s_delete_fast, module_level="both")
op("C06 C20", "LOAD_LOCALS", lambda b: (None, []), s_load_locals, module_level="both")
op("C06 C20", "STORE_LOCALS", lambda b: (b.push(b.dict("ns")), (None, []))[1], s_store_locals)
