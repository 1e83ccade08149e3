"""C18: tracing and breakpoints do not change what a program does."""
import logging
from copy import copy

from xpython.pyobj import Frame
from xpython.vm import PyVM
from xpython.vmtrace import PyVMTraced

from . import c16
from .base import *
from engine.symstate import FRAME_OBS


# ------------------------------------------------------------------ the traced loop does what the plain loop does
class Watch:
    """The builder of this evaluation, for the observer."""
    builder = None


def observer(*event):
    """A callback that only observes."""
    b = Watch.builder
    if b is None or b.script_free.random() < .5:
        return observer
    return b.script_free.choice(RESULTS)


RESULTS = [None, True, "finish", observer]


def traced_stubs(it):
    stubs = c16.run_stubs(it)

    def h_observer(it, args, kwargs):
        b = it.builder
        k = b.count("observer")
        return RESULTS[b.choose(f"observer{k}", [0, 1, 2, 3] if args[0] not in ("return", "exception") else [0, 3])]

    stubs[observer] = h_observer
    stubs[logging.Logger.isEnabledFor] = lambda it, a, k: False
    stubs[findlinestarts] = lambda it, a, k: it.builder.dict("linestarts")
    return stubs


def findlinestarts(code, dup_lines=False):
    return []


class Opc:
    """The opcode module, with a line table of its own."""

    def __init__(self, opc):
        self.__dict__.update(vars(opc))
        self.opname, self.YIELD_VALUE, self.findlinestarts = list(opc.opname), opc.opmap["YIELD_VALUE"], findlinestarts


def any_tracing(b):
    """The tracing state of a frame is arbitrary where a round begins."""
    b.run.attrs.update(event_flags=b.int("flags of the frame", 0, 255), f_trace=b.choose("trace of the frame", [observer, None]))


def pre_traced(b):
    vm, g = c16.pre_frame(b, traced=True)
    caller = b.f0 if b.variant["outermost"] else None
    opc = Opc(opcode_module(b.version, b.pypy))
    if b.sym:
        from engine.core import HObj
        vm.attrs["opc"] = HObj(Opc, {"opname": opc.opname, "YIELD_VALUE": opc.YIELD_VALUE, "findlinestarts": findlinestarts})
        flags = b.int("flags", 0, 255)
        if b.variant["part"] == "round":
            b.at_instruction = any_tracing
            flags = 0
        vm.attrs["callback"] = observer
        vm.attrs["event_flags"] = flags
        if vm.attrs["frame"] is not None:
            vm.attrs["frame"].attrs.update(f_trace=b.choose("trace", [observer, None]), event_flags=flags)
        g.attrs["f_lineno"] = b.int("lineno", 1)
    else:
        import random
        vm.opc = opc
        b.script_free = random.Random(b.r.random())
        flags = b.r.choice([127, 0, 255, b.r.randrange(256)])
        vm.callback, vm.event_flags = observer, flags
        if vm.frame is not None:
            vm.frame.f_trace, vm.frame.event_flags = b.choose("trace", [observer, None]), flags
    return [vm, g]


def traced_native(b, phase):
    undo = c16.run_native(b, phase)
    old, Watch.builder = Watch.builder, b

    def restore():
        Watch.builder = old
    return undo + [restore]


def real_traced(vm, frame):
    return vm.run_frame(frame)


def spec_traced(vm, frame):
    return c16.run_plain(vm, frame)


REPS = c16.representatives(PyVM.run_frame, PyVMTraced.run_frame)
Contract("traced run_frame", ["C18", "C16"], c16.of(REPS, c16.parts()), pre_traced, real_traced, spec_traced,
         stubs=traced_stubs, native_stubs=traced_native, bounded=c16.bound_of(PyVMTraced.run_frame),
         fn=["PyVMTraced.run_frame"], limits=(200, 6000), weight=9)
Contract("traced run_frame natively", ["C18", "C16"], c16.of(REPS, c16.versions(), False), pre_traced, real_traced,
         spec_traced, symbolic=False, search=False, native_stubs=traced_native, fn=["PyVMTraced.run_frame"],
         bounded="natively; the code does not tell these versions from those proved")


# ------------------------------------------------------------------ breakpoints
BRKPT = 8


def pre_breakpoint(b):
    """Code with breakpoints anywhere; one at the offset or not."""
    vm, f = b.setup_vm(traced=True)
    there = b.variant["there"]
    if b.sym:
        from engine.core import HTuple, HObj, HDict, DictBase, SeqBase, S, E, SInt, _INTVAL
        import z3
        ctx = b.ctx

        def byte(t):
            v = z3.Int("byte!" + str(t))
            ctx.assume(v >= 0)
            ctx.assume(v <= 255)
            return SInt(v)
        offset, after = b.int("offset", 0), b.int("rest", 0)
        x = BRKPT if there else b.int("byte", 0, 255)
        if not there:
            ctx.assume(x.t != BRKPT)
        code = HTuple([S(SeqBase("before", offset.t, byte), z3.IntVal(0), offset.t), E(x),
                       S(SeqBase("after", after.t, byte), z3.IntVal(0), after.t)])
        f.attrs["f_code"] = HObj(type(mkcode(b.version)), {"co_code": code, "co_flags": 0, "co_name": "f"}, uid="code")
        d = HDict(DictBase("brkpt", lambda t: SInt(_INTVAL(t))), uid="brkpt")
        f.attrs["brkpt"] = d
        has = d.base.dom(ctx.lift(offset))
        ctx.assume(has if there else z3.Not(has))
        co = f.attrs["f_code"]
    else:
        n = b.r.randrange(1, 12)
        offset = b.r.randrange(n)
        bytes_ = [b.r.choice([BRKPT, 1, 100, 9, b.r.randrange(256)]) for _ in range(n)]
        bytes_[offset] = BRKPT if there else b.r.choice([1, 9, 100, 255])
        f.brkpt = {i: b.r.choice([1, 9, 100]) for i in range(n) if bytes_[i] == BRKPT}
        from copy import copy
        co = f.f_code = copy(mkcode(b.version, co_code=bytes(bytes_)))
    b.roots["code"] = co
    return [vm, f, offset, co]


def real_add(vm, f, offset, co):
    vm.add_breakpoint(f, offset)
    return list(f.f_code.co_code), f.brkpt[offset], list(co.co_code), f.f_code is co


def spec_add(vm, f, offset, co):
    """The breakpoint's frame alone sees it, and what it replaces is kept."""
    old = list(co.co_code)
    if old[offset] == BRKPT:
        return old, f.brkpt[offset], list(old), True
    f.brkpt[offset] = old[offset]
    f.f_code = copy(co)
    new = list(old)
    new[offset] = BRKPT
    f.f_code.co_code = bytes(new)
    return new, old[offset], old, False


def real_remove(vm, f, offset, co):
    vm.remove_breakpoint(f, offset)
    return list(f.f_code.co_code), offset in f.brkpt


def spec_remove(vm, f, offset, co):
    new = list(f.f_code.co_code)
    if offset in f.brkpt:
        new[offset] = f.brkpt.pop(offset)
        f.f_code.co_code = bytes(new)
    return new, False


def code_obs():
    t = {type(mkcode(v)) for v, pp in flavours()}
    return {**{x: ["co_code"] for x in t}, Frame: FRAME_OBS + ["brkpt"]}


BVARS = [{"version": v, "pypy": False, "there": t} for v in ((2, 7), (3, 4), (3, 12)) for t in (False, True)]
Contract("add_breakpoint", ["C18"], BVARS, pre_breakpoint, real_add, spec_add, fn=["PyVMTraced.add_breakpoint"],
         observables=code_obs)
Contract("remove_breakpoint", ["C18"], BVARS, pre_breakpoint, real_remove, spec_remove,
         fn=["PyVMTraced.remove_breakpoint"], observables=code_obs)


# ------------------------------------------------------------------ the pseudo operation
def pre_brkpt(b):
    vm, f = b.setup_vm(traced=True)
    orig = b.int("orig", 0, 255)
    cb = b.choose("callback", [observer, None])
    if b.sym:
        from engine.core import HDict, HObj, rlen
        names = b.strtuple("opname")
        b.ctx.assume(rlen(names.segs) == 256)
        vm.attrs["opc"] = HObj(Opc, {"opname": names})
        f.attrs["brkpt"] = HDict(None, [(f.attrs["f_lasti"], orig)], uid="brkpt")
        vm.attrs["callback"] = cb
    else:
        import random
        b.script_free = random.Random(b.r.random())
        f.brkpt = {f.f_lasti: orig}
        vm.callback = cb
    return [vm, f, orig]


def brkpt_stubs(it):
    from engine.core import HTuple, E

    def h_parse(it, args, kwargs):
        b = it.builder
        code = args[1]
        replay = args[2] if len(args) > 2 else kwargs.get("replay", False)
        it.m.event("decode", code, replay, raises=False)
        return HTuple([E(b.str("opname")), E(code), E(b.any("int_arg")), E(b.list("arguments")), E(b.int("at", 0)),
                       E(b.any("line"))])

    def h_dispatch(it, args, kwargs):
        return it.m.event("execute", *args[1:])

    def h_observer(it, args, kwargs):
        b = it.builder
        return RESULTS[b.choose(f"observer{b.count('observer')}", [0, 1, 2, 3])]

    return {PyVM.parse_byte_and_args: h_parse, PyVM.dispatch: h_dispatch, observer: h_observer,
            logging.Logger.isEnabledFor: lambda it, a, k: False}


def brkpt_native(b, phase):
    saved = PyVM.parse_byte_and_args, PyVM.dispatch
    old, Watch.builder = Watch.builder, b
    args = b.lst([b.any("arg")])

    def parse(vm, code, replay=False):
        b.s.event("decode", [code, replay], "int", raises=False)
        return "OP", code, 5, args, 4, 7

    def dispatch(vm, *a):
        return b.s.event("execute", list(a))

    PyVM.parse_byte_and_args, PyVM.dispatch = parse, dispatch

    def restore():
        Watch.builder = old
        PyVM.parse_byte_and_args, PyVM.dispatch = saved
    return [restore]


def real_brkpt(vm, f, orig):
    return vm.byteop.BRKPT()


def spec_brkpt(vm, f, orig):
    name, code, int_arg, arguments, offset, line = vm.parse_byte_and_args(orig, True)
    return vm.dispatch(name, int_arg, arguments, offset, line)


Contract("BRKPT", ["C18"], [{"version": v, "pypy": pp} for v, pp in flavours()], pre_brkpt, real_brkpt, spec_brkpt,
         stubs=brkpt_stubs, native_stubs=brkpt_native, fn=["BRKPT"])
