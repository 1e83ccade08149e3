"""C10: calling an interpreted function binds its parameters as Python's call rules say."""
import functools
import itertools
import random
import time
import types

import xpython.pyobj as P
import xpython.vm as V
from xpython.pyobj import Frame, Function, Generator
from xpython.vm import PyVM
from xpython.stdlib import inspect2, inspect3

from .base import *
from engine.symstate import FRAME_OBS

GENERATOR, NEWLOCALS, NESTED = 0x20, 0x2, 0x10


# ------------------------------------------------------------------ Function.__call__
# The binding itself is the contract of getcallargs, below: here it is one operation.
def pre_call(b):
    b.setup_vm()
    kind = b.choose("kind", [0, GENERATOR, 0x4 | 0x8, GENERATOR | NESTED])
    code = mkcode(b.version, co_flags=0x43 | kind, co_name="g", co_varnames=("va", "vk"))
    closure = b.choose("closure", [None, b.tup([b.cell("c0")])])
    globs = b.dict("globs")
    defaults = b.tuple("defaults")
    kw = b.dic([(n, b.any("kw." + n)) for n in b.choose("keywords", [(), ("ka", "kb"), ("self", "func", "args")])], "kw")
    d = dict(func_code=code, __code__=code, func_name="g", __name__="g", func_globals=globs, func_closure=closure,
             __closure__=closure, version=b.version, _vm=b.vm, _func=None, has_dot_zero=False, func_defaults=defaults,
             __defaults__=defaults)
    if b.version >= (3, 4):
        d["__qualname__"] = "A.g"
    if b.sym:
        fn = b.obj(Function, "fn", **d)
    else:
        fn = Function("g", code, globs, (), closure, b.vm)
        for k, v in d.items():
            setattr(fn, k, v)
    b.new = b.new_frame("new", code)
    return [fn, b.list("args"), kw]


def real_call(fn, args, kw):
    return seen(fn, fn(*args, **kw))


def seen(fn, r):
    """What the caller gets: a generator is described by what it is made of."""
    if fn.func_code.co_flags & GENERATOR == GENERATOR:
        f = r.gi_frame
        return ["generator", f, r.vm, r.started, r.finished, r.gi_running, r.gi_code, r.__name__, r.__qualname__,
                f.generator is r]
    return ["result", r]


def bind(fn, args, kw):
    if fn._vm.version >= (3, 0):
        return inspect3.getcallargs(fn, *args, **kw)
    return inspect2.getcallargs(fn, *args, **kw)


def spec_call(fn, args, kw):
    vm = fn._vm
    values = bind(fn, args, kw)
    f = vm.make_frame(fn.func_code, values, fn.func_globals, {}, fn.func_closure)
    if fn.func_code.co_flags & GENERATOR == GENERATOR:
        name = fn.__name__ if vm.version >= (3, 5) else fn.func_code.co_name
        q = fn.__qualname__ if vm.version >= (3, 4) else None
        return ["generator", f, vm, False, False, False, fn.func_code, name, q, True]
    return ["result", vm.eval_frame(f)]


def call_stubs(it):
    from engine.core import HTuple, HDict, S, E

    def h_bind(it, a, k):
        kw = k["**"] if "**" in k else k
        if isinstance(kw, dict):
            kw = HDict(None, list(kw.items()))
        return it.m.event("bind", a[0], HTuple([x if isinstance(x, S) else E(x) for x in a[1:]]), kw)

    def h_frame(it, a, k):
        vm, code, callargs, g, l, c = list(a) + [k[n] for n in ("callargs", "f_globals", "f_locals", "closure")[len(a) - 2:]]
        it.m.event("make frame", vm, code, callargs, g, l, c, raises=False)
        return it.builder.new

    return {inspect2.getcallargs: h_bind, inspect3.getcallargs: h_bind, PyVM.make_frame: h_frame,
            PyVM.eval_frame: lambda it, a, k: it.m.event("run", a[0], a[1])}


def call_native(b, phase):
    saved = inspect2.getcallargs, inspect3.getcallargs, PyVM.make_frame, PyVM.eval_frame

    def h_bind(func, /, *args, **kw):
        return b.s.event("bind", [func, args, kw])

    def h_frame(vm, code, callargs={}, f_globals=None, f_locals=None, closure=None):
        b.s.event("make frame", [vm, code, callargs, f_globals, f_locals, closure], raises=False)
        return b.new

    inspect2.getcallargs = inspect3.getcallargs = h_bind
    PyVM.make_frame = h_frame
    PyVM.eval_frame = lambda vm, f: b.s.event("run", [vm, f])

    def restore():
        inspect2.getcallargs, inspect3.getcallargs, PyVM.make_frame, PyVM.eval_frame = saved
    return [restore]


def all_flavours():
    return [{"version": v, "pypy": pp} for v, pp in flavours()]


Contract("Function.__call__", ["C10", "C15"], all_flavours(), pre_call, real_call, spec_call, stubs=call_stubs,
         native_stubs=call_native, observables=lambda: {Frame: [x for x in FRAME_OBS if x != "generator"], Function: []},
         fn=["Function.__call__", "Generator.__init__"])


# ------------------------------------------------------------------ make_frame
def pre_make(b):
    vm, f = b.setup_vm()
    code = mkcode(b.version, co_flags=b.choose("flags", [0x40, 0x40 | NEWLOCALS]), co_name="g",
                  co_varnames=("a", "cell and parameter", "c"),
                  co_cellvars=b.choose("cellvars", [(), ("x", "cell and parameter")]),
                  co_freevars=b.choose("freevars", [(), ("y",)]))
    closure = b.tup([b.cell("c0")]) if code.co_freevars else b.choose("closure", [None, ()])
    if code.co_flags & NEWLOCALS:
        args = b.dict("arguments")
    else:
        args = b.dic([(n, b.any("arg." + n)) for n in b.choose("arguments", [(), ("a", "__class__")])], "arguments")
    g = b.dic([("x", b.any("x")), ("__builtins__", b.dict("builtins"))], "globs")
    loc = b.choose("locals", [None, g, b.dict("locs")])
    return [vm, code, args, g, loc, closure]


def real_make(vm, code, args, g, loc, closure):
    return made(vm.make_frame(code, args, g, loc, closure))


def made(f):
    return [f.f_code, f.f_globals, f.f_locals, f.f_back, f.version, f.localsplusnames, f.linestarts, f.f_lasti]


def lines(vm, code):
    return dict(vm.opc.findlinestarts(code, dup_lines=True))


def spec_make(vm, code, args, g, loc, closure):
    if code.co_flags & NEWLOCALS == NEWLOCALS:
        loc = {}
    elif loc is None:
        loc = g
    loc.update(args)
    plus = code.co_varnames + tuple(n for n in code.co_cellvars if n not in code.co_varnames) + code.co_freevars
    return [code, g, loc, vm.frame, vm.version, plus, lines(vm, code), -1]


def pre_make_bare(b):
    vm, f = b.setup_vm()
    code = mkcode(b.version, co_flags=NEWLOCALS)
    if not b.choose("running", [True, False]):
        b.setvm(frames=b.lst([]), frame=None)
    return [vm, code]


# ------------------------------------------------------------------ binding, against Python's own
def signatures():
    for po, n, va, ko, vk in itertools.product(range(3), range(3), (0, 1), range(3), (0, 1)):
        for d in range(po + n + 1):
            for kd in range(2 ** ko):
                yield po, n, d, va, ko, kd, vk


@functools.lru_cache(None)
def host_function(sig, va="va", vk="vk"):
    """A function of the host with that signature, which returns what its parameters are bound to."""
    po, n, d, va_, ko, kd, vk_ = sig
    pos = [f"p{i}" for i in range(po)] + [f"a{i}" for i in range(n)]
    parts = []
    for i, x in enumerate(pos):
        parts.append(x + (f"=('default', {i})" if i >= len(pos) - d else ""))
        if i == po - 1:
            parts.append("/")
    if va_:
        parts.append("*" + va)
    elif ko:
        parts.append("*")
    for i in range(ko):
        parts.append(f"k{i}" + (f"=('kwdefault', {i})" if kd >> i & 1 else ""))
    if vk_:
        parts.append("**" + vk)
    ns = {}
    exec("def f(" + ", ".join(parts) + "): return dict(locals())", ns)
    return ns["f"], parts


def try_call(f, args, kw):
    try:
        return f(*args, **kw)
    except TypeError:
        return "TypeError"
    except Exception as e:
        return repr(e)


class Host:
    """Stands in for the virtual machine: shows what the function's frame is made with."""

    def __init__(self, version):
        self.version = version
        self.frame = types.SimpleNamespace(f_locals={})
        self.ran = 0

    def make_frame(self, code, callargs, f_globals, f_locals, closure):
        assert f_globals == {"g": 1} and f_locals == {}
        return callargs

    def eval_frame(self, frame):
        self.ran += 1
        return frame


def vm_function(f, version):
    c = f.__code__
    kw = {}
    if version >= (3, 0):
        kw["kwdefaults"] = dict(f.__kwdefaults__ or {})
    if version >= (3, 4):
        kw["qualname"] = "f"
    code = mkcode(version, co_argcount=c.co_argcount, co_posonlyargcount=c.co_posonlyargcount, co_name="f",
                  co_kwonlyargcount=c.co_kwonlyargcount, co_flags=c.co_flags, co_varnames=c.co_varnames)
    return Function("f", code, {"g": 1}, f.__defaults__ or (), None, Host(version), **kw)


BIND_VERSIONS = [(2, 4), (2, 7), (3, 1), (3, 3), (3, 6), (3, 8), (3, 10), (3, 12)]
OTHERS = ["zz", "self", "func", "args", "name", "kwargs", "va", "vk", "positional", "named"]


def bind_case(case):
    version, sig, nargs, names = case
    f, parts = host_function(sig)
    g = vm_function(f, version)
    args = tuple(("arg", i) for i in range(nargs))
    kw = {k: ("kw", k) for k in names}
    want, got = try_call(f, args, kw), try_call(g, args, kw)
    ran = g._vm.ran
    if want != got or ran != (want != "TypeError"):
        return {"version": list(version), "signature": list(sig), "positional": nargs, "keywords": list(names),
                "call": "def f(%s): ...; f(*%r, **%r)" % (", ".join(parts), args, kw), "expected": repr(want),
                "got": repr(got) + ("" if ran == (want != "TypeError") else f", function ran {ran} times")}
    return None


def dot_case(version, flag, n):
    """The implicit parameter of a comprehension or generator expression (or a tuple parameter)."""
    names = (".0", ".1")[:n]
    code = mkcode(version, co_argcount=n, co_varnames=names + ("x",), co_name="<genexpr>", co_flags=0x43)
    g = Function("<genexpr>", code, {"g": 1}, (), None, Host(version))
    g.has_dot_zero = flag
    args = [("arg", i) for i in range(n)]
    want, got = dict(zip(names, args)), try_call(g, args, {})
    if want != got:
        return {"implicit": [list(version), flag, n], "expected": repr(want), "got": repr(got)}
    return None


def bind_replay(d):
    if "implicit" in d:
        return dot_case(tuple(d["implicit"][0]), *d["implicit"][1:])
    return bind_case((tuple(d["version"]), tuple(d["signature"]), d["positional"], tuple(d["keywords"])))


def bind_cases(version, tier):
    for sig in signatures():
        if version < (3, 8) and sig[0] or version < (3, 0) and sig[4]:
            continue
        params = [f"p{i}" for i in range(sig[0])] + [f"a{i}" for i in range(sig[1])] + [f"k{i}" for i in range(sig[4])]
        for nargs in range(sig[0] + sig[1] + 2):
            for r in range(3 if tier == "quick" else 5):
                for names in itertools.combinations(params + OTHERS[:1 if r > 1 else None], r):
                    yield version, sig, nargs, names


def bind_random(r, version):
    po = r.randint(0, 4) if version >= (3, 8) else 0
    n = r.randint(0, 6)
    ko = r.randint(0, 5) if version >= (3, 0) else 0
    sig = (po, n, r.randint(0, po + n), r.randint(0, 1), ko, r.randrange(2 ** ko), r.randint(0, 1))
    params = [f"p{i}" for i in range(po)] + [f"a{i}" for i in range(n)] + [f"k{i}" for i in range(ko)]
    nargs = r.randint(0, po + n + r.choice([0, 0, 3]))
    rest = params[nargs:] if r.random() < .7 else params
    names = [x for x in rest if r.random() < .7] + [x for x in OTHERS if r.random() < .1]
    r.shuffle(names)
    return version, sig, nargs, tuple(names)


def bind_search(tier, seed, secs):
    n, samples, bad = 0, [], None
    r = random.Random(f"bind:{seed}")
    for version in BIND_VERSIONS:
        for flag, k in ((True, 1), (False, 1), (False, 2)):
            if k == 1 or version < (3, 0):
                n += 1
                bad = dot_case(version, flag, k)
                if bad:
                    return n, bad, samples, n
        for case in bind_cases(version, tier):
            n += 1
            bad = bind_case(case)
            if bad:
                return n, bad, samples, n
            if n % 20000 == 1:
                samples.append(repr(case))
    end = time.time() + secs
    while time.time() < end:
        case = bind_random(r, r.choice(BIND_VERSIONS))
        n += 1
        bad = bind_case(case)
        if bad:
            break
    return n, bad, samples, n


Bounded("binding of arguments", "C10", bind_search,
        bind_replay,
        "every signature of at most 2 positional-only, 2 other positional and 2 keyword-only parameters with any defaults, "
        "*args and **kwargs, called with at most one surplus positional argument and at most 2 keywords; larger ones at random")


Contract("make_frame", ["C10", "C06", "C07"], all_flavours(), pre_make, real_make, spec_make, fn=["make_frame", "Frame.__init__"])
