"""C11: creation of functions."""
import types
from .base import *
from xpython.pyobj import Cell, Function

HOST = sys.version_info[:2]


def native_code(name="f", argcount=0):
    co = compile("def f(): pass", "prog.py", "exec").co_consts[0]
    return co.replace(co_name=name, co_qualname="A." + name)


_nat = {}


def code_for(version, name="f"):
    if version == HOST:
        if name not in _nat:
            _nat[name] = native_code(name)
        return _nat[name]
    return mkcode(version, co_name=name, co_qualname="A." + name)


FIELDS = ["func_code", "func_name", "func_defaults", "func_globals", "func_closure", "__code__", "__name__",
          "__defaults__", "__closure__", "__kwdefaults__", "__annotations__", "__qualname__", "_vm", "version"]


def new_function(it, args, kwargs):
    """Contract of Function(...): used at the instructions that create functions."""
    from engine.core import HObj, HTuple, HDict, HList
    names = ["name", "code", "globs", "argdefs", "closure", "vm", "kwdefaults", "annotations", "doc", "qualname"]
    a = dict(zip(names, args))
    a.update(kwargs)
    vm = a["vm"]
    version = vm.attrs["version"]
    f = HObj(Function, {})
    f.uid = None
    d = a["argdefs"]
    defaults = it.m.call(tuple, [d], {}) if d is not None and d != () else HTuple([])
    name = a["name"] if a["name"] is not None else a["code"].co_name
    f.attrs.update(func_code=a["code"], __code__=a["code"], func_name=name, __name__=name, func_defaults=defaults,
                   __defaults__=defaults, func_globals=a["globs"], func_closure=a["closure"],
                   __closure__=a["closure"], _vm=vm, version=version, _func=None, has_dot_zero=False)
    if version >= (3, 0):
        f.attrs["__kwdefaults__"] = a.get("kwdefaults", HDict(None))
        f.attrs["__annotations__"] = a.get("annotations", HDict(None))
        if version >= (3, 4):
            q = a.get("qualname")
            f.attrs["__qualname__"] = q if q is not None else name
    return f


def stubs(it):
    return {Function: new_function}


def default_name(f):
    return [f.func_code, f.func_name]


def fobs():
    return {Function: FIELDS}


def facts(f, version):
    out = [f.func_code, f.__name__, f.func_defaults, f.func_globals, f.func_closure or ()]
    if (3,) <= version < (3, 6):
        # the order within these mappings is not specified
        out += [pairs(f.__kwdefaults__), pairs(f.__annotations__)]
    elif version >= (3,):
        out += [f.__kwdefaults__, f.__annotations__]
    if version >= (3, 4):
        out.append(f.__qualname__)
    return out


def pairs(d):
    out = [len(d)]
    for k in ("k0", "k1", "p", "return"):
        out.append(d.get(k))
    return out


def real_make(vm, op, int_arg, arguments, specfn):
    why = vm.dispatch(op, int_arg, arguments, vm.frame.f_lasti, None)
    if why is None:
        f = vm.frame.stack.pop()
        if type(f) is not Function:
            return ["not a function", f]
        return [why, facts(f, vm.version)]
    return [why, vm.last_exception[0]]


def spec_make(vm, op, int_arg, arguments, specfn):
    return [None, specfn(vm, vm.frame, *arguments)]


def make(names, pre, spec, lo=None, hi=None, bounded=None, extra=None, when=None):
    def pre_(b):
        b.setup_vm(module_level="both")
        arg = pre(b)
        return [b.vm, b.op, arg, b.lst([arg]), spec]
    variants = op_variants(names.split(), lo, hi, None, when, extra)
    return Contract(f"op:{names}[{lo}-{hi}]", ["C11"] + (["C07"] if "CLOSURE" in names else []), variants, pre_,
                    real_make, spec_make, fn=names.split(), stubs=stubs, bounded=bounded)


def cells(b, n):
    return [b.cell(f"cell{i}") for i in range(n)]


# ------------------------------------------------------------------ 2.x
def pre_fn2(b):
    n = b.int("argc", 0, 255)
    b.push_seg("defaults", n)
    b.push(code_for(b.version, b.choose("name", ["f", "<lambda>", "<genexpr>"])))
    return n


def s_fn2(vm, f, argc):
    code = f.stack.pop()
    n = len(f.stack) - argc
    d = tuple(f.stack[n:])
    f.stack[n:] = []
    return [code, code.co_name, d, f.f_globals, ()]


make("MAKE_FUNCTION", pre_fn2, s_fn2, hi=(2, 7))


def pre_closure24(b):
    n = b.int("argc", 0, 255)
    b.push_seg("defaults", n)
    k = b.choose("ncells", [1, 2, 3])
    b.push(*cells(b, k))
    b.push(mkcode(b.version, co_name="f", co_freevars=("x", "y", "z")[:k]))
    return n


def s_closure24(vm, f, argc):
    code = f.stack.pop()
    k = len(f.stack) - len(code.co_freevars)
    c = tuple(f.stack[k:])
    f.stack[k:] = []
    n = len(f.stack) - argc
    d = tuple(f.stack[n:])
    f.stack[n:] = []
    return [code, code.co_name, d, f.f_globals, c]


make("MAKE_CLOSURE", pre_closure24, s_closure24, hi=(2, 4), bounded="at most 3 cells")


def pre_closure2(b):
    n = b.int("argc", 0, 255)
    b.push_seg("defaults", n)
    b.push(b.tuple("cells"))
    b.push(code_for(b.version))
    return n


def s_closure2(vm, f, argc):
    code = f.stack.pop()
    c = f.stack.pop()
    n = len(f.stack) - argc
    d = tuple(f.stack[n:])
    f.stack[n:] = []
    return [code, code.co_name, d, f.f_globals, c]


make("MAKE_CLOSURE", pre_closure2, s_closure2, lo=(2, 5), hi=(2, 7))


# ------------------------------------------------------------------ 3.1 to 3.5
def counts(v, pp, n):
    r = []
    for pos in (0, 1, 2):
        for kw in (0, 1, 2):
            for ann in (0, 1, 2):
                if pp and v == (3, 2) and pos and kw:
                    continue        # PyPy 3.2's order is not documented
                r.append({"pos": pos, "kw": kw, "ann": ann})
    return r


def pre_fn3(b, closure):
    v = b.variant
    pos = [b.any(f"d{i}") for i in range(v["pos"])]
    kw = []
    for i in range(v["kw"]):
        kw += [f"k{i}", b.any(f"kd{i}")]
    if b.version >= (3, 4):
        b.push(*pos)
        b.push(*kw)
    else:
        b.push(*kw)
        b.push(*pos)
    if v["ann"]:
        b.push(*[b.any(f"a{i}") for i in range(v["ann"])])
        b.push(b.tup(["p", "return"][-v["ann"]:]))
    if closure:
        b.push(b.tuple("cells"))
    b.push(code_for(b.version, b.choose("name", ["f", "<lambda>"])))
    if b.version >= (3, 3):
        b.push("A.f")
    return v["pos"] | (v["kw"] << 8) | ((v["ann"] + 1 if v["ann"] else 0) << 16)


def spec_fn3(vm, f, argc, closure):
    q = f.stack.pop() if vm.version >= (3, 3) else None
    code = f.stack.pop()
    c = f.stack.pop() if closure else ()
    ann = {}
    if argc >> 16:
        names = f.stack.pop()
        i = len(names)
        while i:
            i -= 1
            ann[names[i]] = f.stack.pop()
    pos = []
    kw = {}
    if vm.version >= (3, 4):
        for i in range((argc >> 8) & 255):
            x = f.stack.pop()
            kw[f.stack.pop()] = x
    for i in range(argc & 255):
        pos.insert(0, f.stack.pop())
    if vm.version < (3, 4):
        for i in range((argc >> 8) & 255):
            x = f.stack.pop()
            kw[f.stack.pop()] = x
    out = [code, code.co_name, tuple(pos), f.f_globals, c, pairs(kw), pairs(ann)]
    if vm.version >= (3, 4):
        out.append(q)
    return out


def s_fn3(vm, f, argc):
    return spec_fn3(vm, f, argc, False)


def s_cl3(vm, f, argc):
    return spec_fn3(vm, f, argc, True)


B3 = "at most 2 positional defaults, 2 keyword defaults and 2 annotations"
make("MAKE_FUNCTION", lambda b: pre_fn3(b, False), s_fn3, lo=(3, 1), hi=(3, 5), extra=counts, bounded=B3)
make("MAKE_CLOSURE", lambda b: pre_fn3(b, True), s_cl3, lo=(3, 1), hi=(3, 5), extra=counts, bounded=B3)


# ------------------------------------------------------------------ 3.6 and later
def flags(v, pp, n):
    return [{"argc": i} for i in range(16)]


def pre_fn36(b):
    argc = b.variant["argc"]
    if argc & 1:
        b.push(b.tuple("defaults"))
    if argc & 2:
        b.push(b.dict("kwdefaults"))
    if argc & 4:
        if b.version >= (3, 10):
            n = b.choose("nann", [0, 1, 2])
            b.push(b.tup([x for i in range(n) for x in (f"p{i}", b.any(f"ann{i}"))]))
        else:
            b.push(b.dict("annotations"))
    if argc & 8:
        b.push(b.tuple("cells"))
    b.push(code_for(b.version, b.choose("name", ["f", "<lambda>", "<listcomp>"] if not argc else ["f"])))
    if b.version < (3, 11):
        b.push(b.choose("qualname", ["f", "A.f", "outer.<locals>.f"]))
    return argc


def s_fn36(vm, f, argc):
    if vm.version >= (3, 11):
        code = f.stack.pop()
        q = code.co_qualname
        name = code.co_name
    else:
        q = f.stack.pop()
        code = f.stack.pop()
        name = q.split(".")[-1]
    c = f.stack.pop() if argc & 8 else ()
    ann = {}
    if argc & 4:
        a = f.stack.pop()
        if vm.version >= (3, 10):
            for i in range(0, len(a), 2):
                ann[a[i]] = a[i + 1]
        else:
            ann = a
    kw = f.stack.pop() if argc & 2 else {}
    d = f.stack.pop() if argc & 1 else ()
    return [code, name, d, f.f_globals, c, kw, ann, q]


make("MAKE_FUNCTION", pre_fn36, s_fn36, lo=(3, 6), hi=(3, 9), extra=flags)
make("MAKE_FUNCTION", pre_fn36, s_fn36, lo=(3, 10), extra=flags, bounded="at most 2 annotations")


# ------------------------------------------------------------------ Function.__init__
def fn_variants():
    return [{"version": v, "pypy": pp} for v, pp in flavours() if not pp]


def pre_function(b):
    b.setup_vm()
    name = b.choose("name", [None, "g", "<listcomp>"])
    code = code_for(b.version)
    globs = b.f.attrs["f_globals"] if b.sym else b.f.f_globals
    argdefs = b.choose("argdefs", [(), None, b.tuple("defaults"), b.list("defaults_list")])
    closure = b.choose("closure", [None, b.tup([b.cell("c0"), b.cell("c1")])])
    if b.version >= (3,):
        kw = b.dict("kwdefaults")
        ann = b.dict("annotations")
    else:
        kw, ann = {}, {}
    q = b.choose("qualname", [None, "A.g"]) if b.version >= (3, 4) else None
    return [name, code, globs, argdefs, closure, b.vm, kw, ann, q]


def real_function(name, code, globs, argdefs, closure, vm, kw, ann, q):
    if vm.version >= (3,):
        f = Function(name, code, globs, argdefs, closure, vm, kwdefaults=kw, annotations=ann, qualname=q)
    else:
        f = Function(name=name, code=code, globs=globs, argdefs=argdefs, closure=closure, vm=vm)
    out = [f.func_code, f.func_name, f.func_defaults, f.func_globals, f.func_closure,
           f.__code__, f.__name__, f.__defaults__, f.__closure__, f.version, f._vm]
    if vm.version >= (3,):
        out += [f.__kwdefaults__, f.__annotations__]
    if vm.version >= (3, 4):
        out.append(f.__qualname__)
    return out


def spec_function(name, code, globs, argdefs, closure, vm, kw, ann, q):
    n = name if name is not None else code.co_name
    d = () if argdefs is None else tuple(argdefs)
    out = [code, n, d, globs, closure, code, n, d, closure, vm.version, vm]
    if vm.version >= (3,):
        out += [kw, ann]
    if vm.version >= (3, 4):
        out.append(q if q is not None else n)
    return out


def function_stubs(it):
    import xpython.pyobj as P
    from engine.core import Obj
    return {types.FunctionType: lambda i, a, k: None, P.make_cell: lambda i, a, k: None,
            types.CodeType: lambda i, a, k: None}


Contract("Function.__init__", ["C11"], fn_variants(), pre_function, real_function, spec_function,
         fn=["Function.__init__"], stubs=function_stubs)
