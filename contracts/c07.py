"""C07: closure variables."""
from .base import *
from xpython.pyobj import Cell, Frame, Function
from xpython.byteop.byteop37 import NULL

EMPTY = getattr(Cell, "empty", None)


def with_cells(b):
    """A frame that has a cell variable cv and a free variable fv."""
    code = mkcode(b.version, co_cellvars=("cv",), co_freevars=("fv",), co_name="g")
    b.setf(f_code=code)
    cv = b.cell("cv", *b.choose("cv.state", [(), (EMPTY,)]))
    fv = b.cell("fv", *b.choose("fv.state", [(), (EMPTY,)]))
    b.set_cells([("cv", cv), ("fv", fv)])
    return b.choose("name", ["cv", "fv"])


def pre_deref(n):
    def pre(b):
        name = with_cells(b)
        b.push(*b.anys(n))
        return b.int("i", 0), [name]
    return pre


def cell_value(f, name):
    v = f.cells[name].contents
    if v is EMPTY:
        if name in f.f_code.co_cellvars:
            raise UnboundLocalError(f"local variable '{name}' referenced before assignment")
        raise NameError(f"free variable '{name}' referenced before assignment in enclosing scope")
    return v


def s_load_closure(vm, f, name):
    f.stack.append(f.cells[name])


def s_load_deref(vm, f, name):
    f.stack.append(cell_value(f, name))


def s_store_deref(vm, f, name):
    f.cells[name].contents = f.stack.pop()


def s_delete_deref(vm, f, name):
    cell_value(f, name)
    f.cells[name].contents = EMPTY


def s_load_classderef(vm, f, name):
    if name in f.f_locals:
        f.stack.append(f.f_locals[name])
    else:
        f.stack.append(cell_value(f, name))


op("C07", "LOAD_CLOSURE", pre_deref(0), s_load_closure)
op("C07", "LOAD_DEREF", pre_deref(0), s_load_deref)
op("C07", "STORE_DEREF", pre_deref(1), s_store_deref)
op("C07", "DELETE_DEREF", pre_deref(0), s_delete_deref, lo=(3, 2))
op("C07 C06", "LOAD_CLASSDEREF", pre_deref(0), s_load_classderef, lo=(3, 4), hi=(3, 11))


def pre_dict_deref(b):
    name = with_cells(b)
    b.push(b.choose("map", [b.dict("ns"), b.any("mapping")]))
    return b.int("i", 0), [name]


def s_dict_deref(vm, f, name):
    m = f.stack.pop()
    try:
        v = m[name]
    except KeyError:
        v = cell_value(f, name)
    f.stack.append(v)


def s_dict_globals(vm, f, name):
    m = f.stack.pop()
    try:
        v = m[name]
    except KeyError:
        if name in f.f_globals:
            v = f.f_globals[name]
        elif name in f.f_builtins:
            v = f.f_builtins[name]
        else:
            raise NameError(f"global name '{name}' is not defined")
    f.stack.append(v)


op("C07 C06", "LOAD_FROM_DICT_OR_DEREF", pre_dict_deref, s_dict_deref, lo=(3, 12))
op("C06", "LOAD_FROM_DICT_OR_GLOBALS", pre_dict_deref, s_dict_globals, lo=(3, 12))


def s_make_cell(vm, f, name):
    f.cells[name] = Cell(f.f_locals[name] if name in f.f_locals else EMPTY)


op("C07", "MAKE_CELL", pre_deref(0), s_make_cell, lo=(3, 11))


def s_nothing(vm, f, n):
    pass


op("C07", "COPY_FREE_VARS", lambda b: (with_cells(b), (b.int("n", 0), [b.int("n", 0)]))[1], s_nothing, lo=(3, 11))


# A captured variable saved and restored around an inlined comprehension
def s_clear_cell(vm, f, name):
    if name in f.f_locals:
        del f.f_locals[name]
    f.stack.append(f.cells[name])


def s_store_cell(vm, f, name):
    c = f.stack.pop()
    if name in f.f_locals:
        del f.f_locals[name]
    f.cells[name] = c


op("C07", "LOAD_FAST_AND_CLEAR", pre_deref(0), s_clear_cell, lo=(3, 12), name="op:LOAD_FAST_AND_CLEAR(captured)")
op("C07", "STORE_FAST", lambda b: (b.push(b.cell("saved")), (b.int("i", 0), [with_cells(b)]))[1], s_store_cell,
   lo=(3, 12), name="op:STORE_FAST(captured)")


# ------------------------------------------------------------------ a frame gets its own cells
BI = __import__("types").ModuleType("builtins_of_the_program")


def names(n, p):
    return tuple(f"{p}{i}" for i in range(n))


def frame_variants():
    out = []
    for v, pp in (((2, 7), False), ((3, 4), False), ((3, 12), False)):
        for nc in (0, 1, 2, 3):
            for nf in (0, 1, 2):
                for back in (0, 1):
                    out.append({"version": v, "pypy": pp, "cells": nc, "free": nf, "back": back})
    return out


def pre_frame(b):
    b.setup_vm()
    v = b.variant
    code = mkcode(b.version, co_cellvars=names(v["cells"], "c"), co_freevars=names(v["free"], "f"), co_name="g")
    args = b.dict("args")
    kind = b.choose("glob", ["shared", "own", "module", "none"] if v["back"] else ["own", "module", "none"])
    if kind == "shared":
        glob = b.f.attrs["f_globals"] if b.sym else b.f.f_globals
    else:
        bi = {"own": [("__builtins__", b.dict("bi"))], "module": [("__builtins__", BI)], "none": []}[kind]
        glob = b.dic([("x", b.any("x"))] + bi, "glob")
    closure = None if not v["free"] else b.tup([b.cell(f"cell{i}") for i in range(v["free"])])
    # the caller has cells of its own, of the same names
    own = [(n, b.cell("caller." + n)) for n in names(2, "c") + names(2, "f")]
    b.set_cells(own, extra=False)
    return [code, glob, args, b.f if v["back"] else None, b.version, closure, b.vm]


def real_frame(code, glob, loc, back, version, closure, vm):
    f = Frame(f_code=code, f_globals=glob, f_locals=loc, f_back=back, version=version, closure=closure)
    return facts(f)


def facts(f):
    return [f.f_back, f.f_code, f.f_globals, f.f_locals, f.stack, f.block_stack, f.f_lasti, f.cells or {}, f.generator,
            f.version, f.f_builtins]


def spec_frame(code, glob, loc, back, version, closure, vm):
    cells = {}
    for n in code.co_cellvars:
        cells[n] = Cell(loc[n] if n in loc else EMPTY)
    i = 0
    for n in code.co_freevars:
        cells[n] = closure[i]
        i += 1
    if back is not None and back.f_globals is glob:
        bi = back.f_builtins
    elif "__builtins__" not in glob:
        bi = {"None": None}
    elif glob["__builtins__"] is BI:
        bi = BI.__dict__
    else:
        bi = glob["__builtins__"]
    return [back, code, glob, loc, [], [], -1, cells, None, version, bi]


Contract("Frame.__init__", ["C07", "C06"], frame_variants(), pre_frame, real_frame, spec_frame, fn=["Frame.__init__"],
         stubs=lambda it: {__import__("xpython.pyobj").pyobj.findlinestarts: lambda i, a, k: HL()},
         bounded="at most 3 captured and 2 free variables")


def HL():
    from engine.core import HList
    return HList([])
