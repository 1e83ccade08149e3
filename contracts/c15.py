"""C15: generators resume where they stopped, and obey the generator protocol."""
import types

from xpython.pyobj import Frame, Generator, Traceback
from xpython.vm import PyVM

from .base import *
from engine.symstate import FRAME_OBS

FLAG_STOP = 0x80000  # from __future__ import generator_stop


# ------------------------------------------------------------------ the generator object
def gen_obs():
    return {Generator: ["gi_frame", "gi_running", "started", "finished"], Frame: FRAME_OBS}


def pre_gen(b, **extra):
    """A generator in any state between requests, or asked while it runs."""
    flags = b.choose("flags", [0x20, 0x20 | FLAG_STOP]) if (3, 5) <= b.version < (3, 7) else 0x20
    code = mkcode(b.version, co_flags=flags)
    vm, f = b.setup_vm()
    states = ["paused", "running"] if b.variant.get("delegating") else ["new", "paused", "running", "finished"]
    state = b.choose("state", states if b.sym else states + ["paused"] * 2)
    g = b.new_frame("gen.frame", code)
    y = None
    if b.variant.get("delegating"):
        y = (b.any("iterator"), b.int("after", 0))
    attrs = dict(vm=vm, gi_frame=None if state == "finished" else g, gi_running=state == "running",
                 started=state in ("running", "paused") or state == "finished" and b.choose("ran", [True, False]),
                 finished=state == "finished", gi_code=code)
    gen = b.obj(Generator, "gen", **attrs)
    if b.sym:
        from engine.core import E
        g.attrs["f_lasti"] = -1 if state == "new" else b.int("gen.lasti", 0)
        g.attrs["yield_from"] = b.tup(list(y)) if y else None
        g.attrs["finished"] = b.bool("was finished")
        if state == "paused":   # what the yield expression's value replaces
            g.attrs["stack"].segs = g.attrs["stack"].segs + [E(b.any("on the stack"))]
    else:
        g.f_lasti = -1 if state == "new" else 4
        g.yield_from = y
        if state == "paused":
            g.stack.append(b.any("on the stack"))
    b.roots["gen"] = gen
    b.g = g
    return gen


def resume_stub(it):
    """The frame of the generator runs to its next yield, its end or an exception."""
    from engine.core import HTuple

    def h(it, args, kwargs):
        b, f = it.builder, args[1]
        thrown = args[2] if len(args) > 2 else kwargs.get("thrown")
        gen = b.roots["gen"]
        f.attrs["finished"] = True
        r = it.m.event("run", f, HTuple(list(f.attrs["stack"].segs)), thrown, gen.attrs["started"], gen.attrs["gi_running"])
        f.attrs["finished"] = b.bool("ends")
        return r
    return {PyVM.resume_frame: h}


def resume_native(b, phase):
    saved = PyVM.resume_frame
    ends = b.r.random() < .4

    def run(vm, f, thrown=None):
        gen = b.roots["gen"]
        f.finished = True
        r = b.s.event("run", [f, list(f.stack), thrown, gen.started, gen.gi_running])
        f.finished = ends
        return r
    PyVM.resume_frame = run
    return [lambda: setattr(PyVM, "resume_frame", saved)]


def gens(**kw):
    return [dict({"version": v, "pypy": pp}, **kw) for v, pp in flavours()]


def call_of(name):
    def real(gen, *args):
        return getattr(gen, name)(*args)
    return real


def wraps(gen):
    """Is a StopIteration from the body replaced by a RuntimeError?"""
    f = gen.gi_code
    return gen.vm.version >= (3, 7) or gen.vm.version >= (3, 5) and f.co_flags & FLAG_STOP == FLAG_STOP


def run_to_yield(gen, thrown):
    """What a request does that reaches the generator's body."""
    f = gen.gi_frame
    gen.started = True
    gen.gi_running = True
    try:
        value = gen.vm.resume_frame(f, thrown)
    except BaseException as e:
        gen.gi_running = False
        gen.finished = True
        gen.gi_frame = None
        if isinstance(e, StopIteration) and wraps(gen):
            raise RuntimeError("generator raised StopIteration") from e
        raise
    gen.gi_running = False
    if not f.finished:
        return value
    gen.finished = True
    gen.gi_frame = None
    if value is None:
        raise StopIteration
    raise StopIteration(value)


def spec_send(gen, value):
    if gen.gi_running:
        raise ValueError("generator already executing")
    if gen.finished:
        raise StopIteration
    version = gen.vm.version
    f = gen.gi_frame
    if not gen.started:
        if value is not None:
            raise TypeError("can't send non-None value to a just-started generator")
        if version == (3, 10):
            f.stack.append(None)        # for GEN_START
    elif version >= (2, 5):
        f.stack.append(value)           # the value of the yield expression
    return run_to_yield(gen, None)


def spec_next(gen):
    return spec_send(gen, None)


def pre_send(b):
    gen = pre_gen(b)
    return [gen, b.choose("value", [None, b.any("sent")])]


Contract("Generator.send", ["C15"], gens(), pre_send, call_of("send"), spec_send, stubs=resume_stub,
         native_stubs=resume_native, observables=gen_obs, fn=["Generator.send", "Generator.resume"])
Contract("Generator.next", ["C15"], gens(), lambda b: [pre_gen(b)], call_of("next"), spec_next, stubs=resume_stub,
         native_stubs=resume_native, observables=gen_obs, fn=["Generator.next", "Generator.resume"])
Contract("Generator.__next__", ["C15"], gens(), lambda b: [pre_gen(b)], call_of("__next__"), spec_next,
         stubs=resume_stub, native_stubs=resume_native, observables=gen_obs, fn=["Generator.__next__"])
Contract("Generator.__iter__", ["C15"], gens()[:1], lambda b: [pre_gen(b)], call_of("__iter__"), lambda gen: gen,
         observables=gen_obs, fn=["Generator.__iter__"])


# ------------------------------------------------------------------ throw and close
def raise_in(gen, exc):
    """Raise the exception where the generator is paused."""
    gen.gi_frame.stack.append(None)
    return run_to_yield(gen, exc)


def exception_for(typ, val, tb):
    """The exception instance that the arguments of throw() stand for."""
    if tb is not None and not isinstance(tb, (types.TracebackType, Traceback)):
        raise TypeError("throw() third argument must be a traceback object")
    if isinstance(typ, type) and issubclass(typ, BaseException):
        try:
            if isinstance(val, BaseException) and issubclass(type(val), typ):
                exc = val
            elif val is None:
                exc = typ()
            elif isinstance(val, tuple):
                exc = typ(*val)
            else:
                exc = typ(val)
            if not isinstance(exc, BaseException):
                raise TypeError("calling the class should have returned an instance of BaseException")
        except BaseException as e:
            exc = e
    elif isinstance(typ, BaseException):
        if val is not None:
            raise TypeError("instance exception may not have a separate value")
        exc = typ
    else:
        raise TypeError("exceptions must be classes or instances deriving from BaseException")
    if isinstance(tb, types.TracebackType):
        exc = exc.with_traceback(tb)
    return exc


def ask_to_close(iterator):
    try:
        close = iterator.close
    except AttributeError:
        return
    close()


def spec_throw(gen, typ, val, tb):
    f = gen.gi_frame
    if gen.gi_running or gen.finished or f.yield_from is None:
        exc = exception_for(typ, val, tb)
        if gen.gi_running:
            raise ValueError("generator already executing")
        if gen.finished:
            raise exc
        if not gen.started:
            gen.finished = True
            gen.gi_frame = None
            raise exc
        return raise_in(gen, exc)

    # delegating: the iterator gets it first
    iterator, after = f.yield_from
    gen.gi_running = True
    problem = None
    if isinstance(typ, GeneratorExit) or isinstance(typ, type) and issubclass(typ, GeneratorExit):
        try:
            ask_to_close(iterator)
        except BaseException as e:
            problem = e
        gen.gi_running = False
        if problem is None:
            problem = exception_for(typ, val, tb)
        return raise_in(gen, problem)

    try:
        throw = iterator.throw
    except BaseException as e:
        gen.gi_running = False
        problem = e
    if problem is not None:
        if isinstance(problem, AttributeError):
            problem = exception_for(typ, val, tb)
        elif isinstance(problem, StopIteration) and gen.vm.version < (3, 12):
            return delegate_ended(gen, problem, after)
        return raise_in(gen, problem)
    try:
        if tb is not None:
            value = throw(typ, val, tb)
        elif val is None:
            value = throw(typ)
        else:
            value = throw(typ, val)
    except BaseException as e:
        problem = e
    gen.gi_running = False
    if problem is None:
        return value
    if isinstance(problem, StopIteration) and gen.vm.version < (3, 12):
        return delegate_ended(gen, problem, after)
    return raise_in(gen, problem)


def delegate_ended(gen, stop, after):
    """The iterator ended: its value is that of the "yield from"."""
    f = gen.gi_frame
    value = stop.value
    n = len(f.stack)
    f.stack[n - 1] = value
    f.f_lasti = after
    return run_to_yield(gen, None)


def pre_throw(b):
    gen = pre_gen(b)
    kind = b.variant["typ"]
    if kind == "class":
        typ = b.exc_class("typ")
    elif kind == "instance":
        typ = b.exc("typ")
    else:
        typ = b.any("typ")
        b.not_instance(typ, BaseException, type)
    v = b.choose("val", ["none", "any", "tuple"])
    val = None if v == "none" else b.any("val") if v == "any" else b.tuple("vals")
    t = b.choose("tb", ["none", "bad"])
    tb = None
    if t == "bad":
        tb = b.any("tb")
        b.not_instance(tb, types.TracebackType, Traceback)
    return [gen, typ, val, tb]


THROWS = [dict(v, typ=t, delegating=d) for v in gens() if v["version"] >= (2, 5) for t in ("class", "instance", "other")
          for d in (False, True) if not (d and (v["version"] < (3, 3) or t == "other"))]
Contract("Generator.throw", ["C15"], THROWS, pre_throw, call_of("throw"), spec_throw, stubs=resume_stub,
         native_stubs=resume_native, observables=gen_obs, fn=["Generator.throw", "Generator.throw_in_delegate", "thrown_exception", "Generator.resume"], limits=(90, 2500))


def spec_close(gen):
    if gen.gi_running:
        raise ValueError("generator already executing")
    if not gen.started:
        gen.finished = True
        gen.gi_frame = None
    if gen.finished:
        return None
    try:
        spec_throw(gen, GeneratorExit(), None, None)
    except (GeneratorExit, StopIteration):
        return None
    raise RuntimeError("generator ignored GeneratorExit")


Contract("Generator.close", ["C15"], [dict(v, delegating=d) for v in gens() if v["version"] >= (2, 5) for d in (False, True)
                                      if not d or v["version"] >= (3, 3)],
         lambda b: [pre_gen(b)], call_of("close"), spec_close, stubs=resume_stub, native_stubs=resume_native,
         observables=gen_obs, fn=["Generator.close", "Generator.throw", "Generator.resume"])


# ------------------------------------------------------------------ resuming with an exception
def handler_stub(it):
    def h_handler(it, args, kwargs):
        b = it.builder
        r = it.m.event("look for a handler", args[0].attrs["frame"], args[0].attrs["last_exception"], ret="int", raises=False)
        return None if it.truth(it.m.compare("==", r, 0)) else "exception"

    def h_manage(it, args, kwargs):
        b, f = it.builder, args[0].attrs["frame"]
        if b.count("unwind") > 2:
            b.cut("next block")
        r = it.m.event("unwind", f, args[1], ret="int", raises=False)
        b.havoc_frame(f, f"unwind{b.counts['unwind']}")
        for i, w in enumerate(("exception", "return")):
            if it.truth(it.m.compare("==", r, i)):
                return w
        return None
    return {PyVM.exception_handling_311: h_handler, PyVM.manage_block_stack: h_manage}


def handler_native(b, phase):
    saved = PyVM.exception_handling_311, PyVM.manage_block_stack
    results = [b.r.choice([None, "exception", "return"]) for _ in range(9)]

    def handler(vm):
        b.s.event("look for a handler", [vm.frame, vm.last_exception[:2]], "int", raises=False)
        return results[0] and "exception"

    def manage(vm, why):
        vm.frame.block_stack.pop()
        b.s.event("unwind", [vm.frame, why], "int", raises=False)
        return results[len(vm.frame.block_stack) % 9]

    PyVM.exception_handling_311, PyVM.manage_block_stack = handler, manage

    def restore():
        PyVM.exception_handling_311, PyVM.manage_block_stack = saved
    return [restore]


def pre_thrown(b):
    vm, f = b.setup_vm()
    thrown = b.choose("thrown", [None, b.exc("thrown")])
    if b.sym:
        f.attrs["thrown"] = thrown
    else:
        f.thrown = thrown
    return [vm, f]


def spec_thrown(vm, f):
    if f.thrown is None:
        return None
    exc = f.thrown
    f.thrown = None
    try:
        raise exc
    except BaseException as e:
        vm.last_exception = (type(e), e, e.__traceback__)
    why = "exception"
    if vm.version >= (3, 11):
        why = vm.exception_handling_311()
    while why is not None and len(f.block_stack) > 0:
        why = vm.manage_block_stack(why)
    return why


Contract("raise_thrown", ["C15"], gens(), pre_thrown, lambda vm, f: vm.raise_thrown(f), spec_thrown, stubs=handler_stub,
         native_stubs=handler_native, fn=["raise_thrown"], bounded="two blocks to unwind")


# ------------------------------------------------------------------ the instructions
def pre_one(b):
    b.push(b.any("tos"))
    return (0, [0]) if b.op == "YIELD_VALUE" and b.version >= (3, 12) else None


def s_yield(vm, f, *depth):
    vm.return_value = take(f, 1)[0]
    return "yield"


op("C15", "YIELD_VALUE", pre_one, s_yield)


def pre_delegate(b):
    b.push(b.any("iterator"))
    b.push(b.choose("sent", [None, b.any("value")]))
    if b.op == "SEND":
        t = b.int("target", 2)
        return t, [t]
    return None


def ask(iterator, value):
    return next(iterator) if value is None else iterator.send(value)


@per_variant
def s_yield_from(b):
    size = 2 if b.version >= (3, 6) else 1

    def spec(vm, f):
        iterator, value = take(f, 2)
        f.stack.append(iterator)
        try:
            result = ask(iterator, value)
        except StopIteration as e:
            take(f, 1)
            f.stack.append(e.value)
            return None
        vm.return_value = result
        f.yield_from = (iterator, f.f_lasti)
        f.f_lasti = f.f_lasti - size        # again, with what is sent next
        f.fallthrough = False
        return "yield"
    return spec


@per_variant
def s_send(b):
    keeps = b.version >= (3, 12)

    def spec(vm, f, target):
        iterator, value = take(f, 2)
        f.stack.append(iterator)
        try:
            result = ask(iterator, value)
        except StopIteration as e:
            if not keeps:
                take(f, 1)
            f.stack.append(e.value)
            f.f_lasti = target
            f.fallthrough = False
            return None
        f.yield_from = (iterator, target - 2)
        f.stack.append(result)
        return None
    return spec


op("C15", "YIELD_FROM", pre_delegate, s_yield_from)
op("C15", "SEND", pre_delegate, s_send)


def pre_two(b):
    b.push(b.any("below"), b.any("tos"))
    return None


def s_end_send(vm, f):
    below, value = take(f, 2)
    f.stack.append(value)


op("C15", "END_SEND", pre_two, s_end_send)


def pre_cleanup(b):
    b.push(b.any("iterator"), b.any("sent"))
    b.push(b.exc("raised"))
    return None


def s_cleanup(vm, f):
    iterator, sent, exc = take(f, 3)
    if isinstance(exc, StopIteration):
        value = exc.value
        f.stack.append(None)
        f.stack.append(value)
        return None
    vm.last_exception = (type(exc), exc, exc.__traceback__)
    return "reraise"


op("C15", "CLEANUP_THROW", pre_cleanup, s_cleanup)


def s_begin(vm, f):
    f.stack.append(None)


op("C15", "RETURN_GENERATOR", lambda b: None, s_begin)


def pre_start(b):
    b.push(b.any("sent"))
    return 0, [0]


def s_start(vm, f, kind):
    take(f, 1)


op("C15", "GEN_START", pre_start, s_start)


def pre_iter(b):
    o = b.any("iterable")
    b.not_instance(o, types.CoroutineType)
    b.push(o)
    return None


def s_iter(vm, f):
    f.stack.append(iter(take(f, 1)[0]))


op("C15", "GET_YIELD_FROM_ITER", pre_iter, s_iter)
