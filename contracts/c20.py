"""C20: building classes."""
import types

from .base import *
import xpython.builtins as XB
import xpython.byteop.byteop24 as B24
from xpython.builtins import build_class, builtin_super, calculate_metaclass, wrap_special_methods
from xpython.pyobj import Cell, Function, make_cell
from xpython.vm import PyVM


# ------------------------------------------------------------------ the most derived metaclass
def pre_calc(b):
    b.setup_vm()
    n = b.variant["bases"]
    if b.sym:
        meta = b.klass("metaclass")
        bases = [b.klass(f"base{i}") for i in range(n)]
    else:
        M1 = type("M1", (type,), {})
        M2 = type("M2", (M1,), {})
        M3 = type("M3", (type,), {})
        M4 = type("M4", (M2, M3), {})
        pool = [type, M1, M2, M3, M4]
        for m in pool:
            b.s.label(m, m.__name__)
        meta = b.r.choice(pool)
        bases = [b.s.label(b.r.choice(pool)(f"B{i}", (), {}), f"B{i}") for i in range(n)]
    return [meta, b.tup(bases), b.vm]


def real_calc(meta, bases, vm):
    return calculate_metaclass(meta, bases)


def spec_calc(meta, bases, vm):
    candidates = [meta] + [type(x) for x in bases]
    for c in candidates:
        if all(issubclass(c, d) for d in candidates):
            return c
    raise TypeError()


def spec_calc_conflict(meta, bases, vm):
    # the documented rule goes from left to right: a conflict with the most derived one so far is an error
    winner = meta
    for x in bases:
        t = type(x)
        if not issubclass(winner, t):
            if not issubclass(t, winner):
                raise TypeError()
            winner = t
    return winner


Contract("calculate_metaclass", ["C20"], [{"version": (3, 12), "pypy": False, "bases": n} for n in (0, 1, 2, 3)], pre_calc,
         real_calc, spec_calc_conflict, fn=["calculate_metaclass"], bounded="at most 3 bases")


# ------------------------------------------------------------------ build_class
def real_build(opc, func, name, bases, kwds, vm):
    return build_class(opc, func, name, *bases, **kwds)


def new_frame(vm, code, callargs, globs, locs, closure):
    return vm.make_frame(code=code, callargs=callargs, f_globals=globs, f_locals=locs, closure=closure)


def spec_build(opc, func, name, bases, kwds, vm):
    orig = bases
    bases = types.resolve_bases(bases)
    metaclass = kwds.pop("metaclass", None)
    if metaclass is None:
        metaclass = type(bases[0]) if bases else type
    if isinstance(metaclass, type):
        metaclass = calculate_metaclass(metaclass, bases)
    prepare = getattr(metaclass, "__prepare__", None)
    if prepare is None:
        namespace = {}
    else:
        namespace = prepare(name, bases, **kwds)
    callargs = {}
    if func.func_code.co_argcount > 0:
        callargs["__locals__"] = namespace
    frame = new_frame(vm, func.func_code, callargs, func.func_globals, namespace, func.__closure__)
    cell = vm.eval_frame(frame)
    if bases is not orig:
        namespace["__orig_bases__"] = orig
    if isinstance(cell, Cell) and "__classcell__" in namespace:
        namespace["__classcell__"] = make_cell(None)
    wrap_special_methods(namespace)
    cls = metaclass(name, bases, namespace, **kwds)
    if isinstance(cell, Cell):
        cell.set(cls)
    return cls


def build_stubs(it):
    from engine.core import HTuple, S, E, SeqBase
    import z3

    def frame(it_, args, kwargs):
        names = ["self", "code", "callargs", "f_globals", "f_locals", "closure"]
        a = dict(zip(names, args))
        a.update(kwargs)
        from engine.core import HDict
        return it.m.event("make frame", a["code"], a.get("callargs", HDict(None)), a.get("f_globals"), a.get("f_locals"),
                          a.get("closure"))

    def run(it_, args, kwargs):
        from engine.core import HObj
        r = it.m.event("eval frame", args[1] if len(args) > 1 else kwargs["frame"])
        if it.builder.variant["cell"]:
            return HObj(Cell, {"contents": Cell.empty}, uid="class cell")
        it.builder.not_instance(r, Cell)
        return r

    def resolve(it_, args, kwargs):
        b = it.builder
        if b.choose("resolved", [False, True]):
            r = it.m.event("resolve_bases", args[0])
            n = it.ctx.int("resolved.len", 0)
            return HTuple([S(SeqBase("resolved", n.t), z3.IntVal(0), n.t)], uid="resolved")
        return args[0]

    return {PyVM.make_frame: frame, PyVM.eval_frame: run, types.resolve_bases: resolve,
            calculate_metaclass: event_stub("calculate metaclass"), make_cell: event_stub("new cell"),
            wrap_special_methods: event_stub("wrap special methods")}


def pre_build(b):
    b.setup_vm()
    v = b.version
    code = mkcode(v, co_argcount=1, co_varnames=("__locals__",), co_nlocals=1) if b.variant["arg"] else mkcode(v)
    func = b.obj(Function, "body", func_code=code, __code__=code, func_globals=b.dict("body.globals"),
                 __closure__=b.tuple("closure"), func_closure=None, _vm=b.vm)
    kw = [("metaclass", b.any("metaclass"))] if b.variant["meta"] else []
    kw += [("x", b.any("kw.x"))]
    bases = b.tuple("bases")
    return [b.vm.attrs["opc"] if b.sym else b.vm.opc, func, b.str("cname"), bases, b.dic(kw), b.vm]


Contract("build_class", ["C20"], [dict(version=v, pypy=pp, arg=v < (3, 4), meta=m, cell=c) for v, pp in flavours() if v >= (3, 0)
                                  for m in (True, False) for c in (True, False)],
         pre_build, real_build, spec_build, stubs=build_stubs, fn=["build_class"], native=False)


# ------------------------------------------------------------------ special methods
def pre_wrap(b):
    b.setup_vm()
    items = []
    for n in ("__new__", "__init_subclass__", "__class_getitem__", "other"):
        k = b.choose(n, [0, 1, 2])
        if k == 1:
            items.append((n, b.any(n)))
        elif k == 2:
            items.append((n, b.obj(Function, "fn" + n)))
    return [b.dic(items, "namespace"), b.vm]


def real_wrap(ns, vm):
    wrap_special_methods(ns)


def spec_wrap(ns, vm):
    if "__new__" in ns and isinstance(ns["__new__"], Function):
        ns["__new__"] = staticmethod(ns["__new__"])
    if "__init_subclass__" in ns and isinstance(ns["__init_subclass__"], Function):
        ns["__init_subclass__"] = classmethod(ns["__init_subclass__"])
    if "__class_getitem__" in ns and isinstance(ns["__class_getitem__"], Function):
        ns["__class_getitem__"] = classmethod(ns["__class_getitem__"])


def obs_ns(b, outcome):
    return {}


# ------------------------------------------------------------------ zero-argument super
def pre_super(b):
    first = b.variant["first"]
    cls = b.variant["cls"]
    cellvars = ("self",) if first == "cell" else ()
    code = mkcode(b.version, co_argcount=0 if first == "none" else 1, co_varnames=("self",), co_nlocals=1,
                  co_cellvars=cellvars, co_freevars=("__class__",) if cls != "no" else ("other",))
    b.setup_vm(code=code)
    cells = []
    loc = []
    if first == "cell":
        cells.append(("self", b.cell("selfcell", Cell.empty if b.choose("deleted", [0, 1]) else b.any("self"))))
    elif not b.choose("deleted", [0, 1]):
        loc.append(("self", b.any("self")))
    c = b.cell("clscell", Cell.empty if cls == "empty" else b.any("klass"))
    cells.append(("__class__" if cls != "no" else "other", c))
    b.set_cells(cells, extra=False)
    b.setf(f_locals=b.dic(loc, "locals"))
    if b.sym:
        for _, v in loc:
            b.is_not(v, Cell.empty)
        for _, c in cells:
            if not isinstance(c.attrs["contents"], object.__class__) and hasattr(c.attrs["contents"], "t"):
                b.is_not(c.attrs["contents"], Cell.empty)
    return [b.f, b.lst(b.anys(b.variant["given"])), b.vm]


def real_super(f, args, vm):
    return builtin_super(f, *args)


def spec_super(f, args, vm):
    if len(args) > 0:
        return super(*args)
    code = f.f_code
    if code.co_argcount == 0:
        raise RuntimeError()
    if "self" in code.co_cellvars:
        if f.cells["self"].is_empty():
            raise RuntimeError()
        first = f.cells["self"].get()
    else:
        if "self" not in f.f_locals:
            raise RuntimeError()
        first = f.f_locals["self"]
    if "__class__" not in code.co_freevars or f.cells["__class__"].is_empty():
        raise RuntimeError()
    return super(f.cells["__class__"].get(), first)


Contract("zero-argument super", ["C20"],
         [dict(version=v, pypy=False, first=x, cls=c, given=g) for v in ((3, 3), (3, 8), (3, 12))
          for x in ("local", "cell", "none") for c in ("yes", "no", "empty") for g in (0, 1, 2) if g == 0 or (x, c) == ("local", "yes")],
         pre_super, real_super, spec_super, fn=["builtin_super"])


# ------------------------------------------------------------------ instructions
def pre_build_class(b):
    methods = b.choose("methods", [b.dic([("__metaclass__", b.any("mc"))], "methods"), b.dic([("m", b.any("m"))], "methods")])
    b.push(b.str("cname"), b.choose("bases", [b.tuple("bases"), b.tup([])]), methods)
    return None, []


def s_build_class(vm, f):
    name, bases, methods = take(f, 3)
    if "__metaclass__" in methods:
        metaclass = methods["__metaclass__"]
    elif len(bases) > 0:
        metaclass = type(bases[0])
    else:
        metaclass = f.f_globals.get("__metaclass__", type)
    wrap_special_methods(methods)
    f.stack.append(metaclass(name, bases, methods))


op("C20", "BUILD_CLASS", pre_build_class, s_build_class,
   stubs=lambda it: {wrap_special_methods: event_stub("wrap special methods")},
   native=False)


def s_load_build_class(vm, f):
    f.stack.append(__build_class__)


op("C20", "LOAD_BUILD_CLASS", lambda b: (None, []), s_load_build_class)


def s_load_locals(vm, f):
    f.stack.append(f.f_locals)


op("C20 C06", "LOAD_LOCALS", lambda b: (None, []), s_load_locals)


def s_store_locals(vm, f):
    f.f_locals = f.stack.pop()


op("C20", "STORE_LOCALS", lambda b: (b.push(b.any("ns")), (None, []))[1], s_store_locals)


# ------------------------------------------------------------------ whole class statements (bounded)
def gen_classes(r):
    out = ["log = []"]
    metas = ["type"]
    for i in range(r.randrange(0, 3)):
        base = r.choice(metas) if r.random() < 0.8 or len(metas) < 3 else ", ".join(metas[-2:])
        out.append(f"class M{i}({base}):")
        if r.random() < 0.6:
            out += ["    @classmethod", "    def __prepare__(m, name, bases, **kw):",
                    f"        print('prepare{i}', m.__name__, name, [b.__name__ for b in bases], kw)",
                    f"        return {{'prep{i}': name}}"]
        if r.random() < 0.8:
            out += ["    def __new__(m, name, bases, ns, **kw):", f"        print('new{i}', m.__name__, name, sorted([k for k in ns if k[0] != '_']), kw)",
                    "        return type.__new__(m, name, bases, dict(ns))"]
            out += ["    def __init__(c, name, bases, ns, **kw):", f"        print('init{i}', name, kw)"]
        out.append(f"    tag = {i}")
        metas.append(f"M{i}")
    classes = []
    n = r.randrange(2, 6)
    for i in range(n):
        k = r.choice([0, 1, 1, 2])
        bases = r.sample(classes, min(k, len(classes)))
        bases.sort(key=lambda c: -int(c[1:]))
        args = list(bases)
        if r.random() < 0.35:
            args.append("metaclass=" + r.choice(metas))
            if "M" in args[-1] and r.random() < 0.5:
                args.append(f"opt={i}")
        body = [f"class C{i}({', '.join(args)}):", f"    x = {i}", f"    names = sorted(locals())"]
        kind = r.randrange(6)
        if kind == 0:
            body += ["    def __init__(self, a=1):", "        super().__init__()", f"        self.a = a", f"        print('C{i}.__init__', type(self).__name__)"]
        elif kind == 1:
            body += ["    def __new__(cls, *a):", f"        print('C{i}.__new__', cls.__name__)", "        return super().__new__(cls)"]
        elif kind == 2:
            body += ["    def __init_subclass__(cls, **kw):", f"        print('C{i}.sub', cls.__name__, kw)", "        super().__init_subclass__()"]
        elif kind == 3:
            body += ["    @classmethod", "    def make(cls):", f"        return [__class__.__name__, cls.__name__]"]
        elif kind == 4:
            body += ["    @property", "    def p(self):", f"        return (self.x, __class__.__name__)"]
        body += ["    def who(self):", f"        s = super()", f"        return ['C{i}'] + (s.who() if hasattr(s, 'who') else [])"]
        out += body
        classes.append(f"C{i}")
        out.append(f"print('C{i}', type(C{i}).__name__, [c.__name__ for c in C{i}.__mro__], C{i}.names, sorted([k for k in vars(C{i}) if k[0] != '_']))")
        out.append(f"o = C{i}()")
        out.append(f"print(o.who(), o.x, getattr(o, 'p', None), hasattr(o, 'a'), C{i}.__qualname__, C{i}.__module__)")
        if kind == 3:
            out.append("print(o.make())")
    return "\n".join(out) + "\n"


from engine.programs import compare_programs
_fn, _replay = compare_programs(gen_classes)
Bounded("class statements of random programs", "C20", _fn, _replay,
        "random 3.12 programs of up to 5 classes and 2 metaclasses; the host Python is the oracle")


def pre_super_attr(b):
    b.push(b.choose("super", [super, b.any("shadowed super")]), b.any("klass"), b.any("self"))
    return b.int("oparg", 0), [b.name(), b.choose("push_null", [False, True]), b.choose("two_args", [False, True])]


def s_super_attr(vm, f, name, push_null, two_args):
    from xpython.byteop.byteop37 import NULL
    fn, cls, first = take(f, 3)
    if two_args or fn is super:
        o = fn(cls, first)
    else:
        o = fn()
    v = getattr(o, name)
    if push_null:
        f.stack.append(NULL)
    f.stack.append(v)


op("C20 C22", "LOAD_SUPER_ATTR", pre_super_attr, s_super_attr)
