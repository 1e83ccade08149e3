"""C16 C18: running a frame leaves the call stack as it was; tracing changes nothing.

The instructions and the unwinding of blocks have contracts of their own (C05,
C12, C13 and those of the single instructions). Here they are opaque operations
with an arbitrary result, after which the frame is in an arbitrary state. The
frame also starts in an arbitrary state, so that one round of each loop stands
for all: where the next one begins, the code and the contract are in the same
state, and carried() makes sure that no local variable differs. The variants
"start" go from the beginning to the first instruction, or the end if there is
none; the variants "round" from there to the next instruction or the end.
"""
import ast
import inspect
import os
import sys
import textwrap

from xpython.pyobj import Frame
from xpython.vm import PyVM, PyVMError, PyVMUncaughtException

from .base import *
from engine.symstate import FRAME_OBS

WHYS = [None, "exception", "reraise", "return", "yield", "continue"]
INNER = [None, "exception", "return"]
ROUNDS = 2


# ------------------------------------------------------------------ the loops carry nothing but what is opaque
def carried(fn, calls):
    """Local variables that a round of the loops around the named calls may take over from the round before."""
    tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    out = set()

    def uses(n, defined):
        """Names read before they are stored; `defined` grows along the way."""
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                if n.id not in defined:
                    out_.add(n.id)
            else:
                defined.add(n.id)
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if isinstance(n, ast.AugAssign):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name) and x.id not in defined:
                        out_.add(x.id)
            if n.value is not None:
                uses(n.value, defined)
            for t in getattr(n, "targets", None) or [n.target]:
                uses(t, defined)
        elif isinstance(n, ast.If):
            uses(n.test, defined)
            a, b = set(defined), set(defined)
            for x in n.body:
                uses(x, a)
            for x in n.orelse:
                uses(x, b)
            defined |= a & b
        elif isinstance(n, (ast.While, ast.For)):
            uses(n.test if isinstance(n, ast.While) else n.iter, defined)
            a = set(defined)
            if isinstance(n, ast.For):
                uses(n.target, a)
            for x in n.body:
                uses(x, a)
            for x in n.orelse:
                uses(x, set(defined))
        elif isinstance(n, ast.Try):
            a = set(defined)
            for x in n.body:
                uses(x, a)
            for h in n.handlers:
                for x in h.body:
                    uses(x, set(defined))
            for x in n.finalbody:
                uses(x, set(defined))
        else:
            for c in ast.iter_child_nodes(n):
                uses(c, defined)

    found = False
    for loop in ast.walk(tree):
        if isinstance(loop, (ast.While, ast.For)) and any(
                isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in calls
                for c in ast.walk(loop)):
            stored = {x.id for x in ast.walk(loop) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            out_ = set()
            uses(loop, set())
            out |= out_ & stored
            found = True
    return out if found else {"unknown"}


LOOPS = ("parse_byte_and_args", "dispatch", "manage_block_stack")


def bound_of(*fns):
    try:
        extra = set().union(*(carried(f, LOOPS) for f in fns)) - {"why", "byte_code"}
    except (OSError, SyntaxError):
        extra = {"unknown"}
    if extra:
        return (f"{ROUNDS - 1} instructions and {ROUNDS - 1} blocks to unwind for each, from an arbitrary state; the loops carry "
                f"{', '.join(sorted(extra))} from round to round")
    return None


def thresholds(*fns):
    """The versions that the functions compare the interpreter's with, or None if they use it in another way."""
    out = set()
    for fn in fns:
        try:
            tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
        except (OSError, SyntaxError):
            return None
        uses = {id(n) for n in ast.walk(tree) if isinstance(n, ast.Attribute) and n.attr in ("version", "is_pypy", "opc")
                or isinstance(n, ast.Name) and n.id in ("PYTHON_VERSION_TRIPLE", "sys", "getattr", "vars", "hasattr")
                or isinstance(n, ast.Constant) and n.value == "version"}
        for n in ast.walk(tree):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Attribute) \
                    and n.left.attr == "version" and isinstance(n.ops[0], (ast.Lt, ast.GtE)):
                try:
                    out.add(tuple(ast.literal_eval(n.comparators[0])))
                except (ValueError, TypeError):
                    return None
                uses.discard(id(n.left))
        # the opcode module's names and line table, which are opaque here
        uses -= {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Attribute)
                 and n.attr in ("opname", "findlinestarts", "YIELD_VALUE")}
        # operands of messages
        uses -= {id(a) for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                 and n.func.attr == "format_instruction" for a in n.args}
        if uses:
            return None
    return out


def representatives(*fns):
    """Versions that stand for all, as the functions tell no others apart (unless in a thorough run)."""
    t = thresholds(*fns)
    if t is None or os.environ.get("VERIF_TIER") == "thorough" or "thorough" in sys.argv:
        return flavours()
    classes = {}
    for v, pp in flavours():
        if not pp:
            classes[tuple(v >= x for x in sorted(t))] = v, pp
    return sorted(classes.values())


# ------------------------------------------------------------------ what an instruction does
def sym_why(b, k, options):
    return options[b.ctx.choose(len(options))] if b.ctx.phase == "real" else None


def run_stubs(it):
    """The operations a frame is run with, as opaque operations."""
    from engine.core import SInt, HList, HTuple, E

    def picked(options, name, *args):
        """An opaque operation with one of several results."""
        def h(it, *given):
            b = it.builder
            r = it.m.event(name, *given, ret="int", raises=False)
            k = len(it.ctx.events) if it.ctx.phase == "real" else it.ctx.evpos
            b.havoc_frame(b.run, f"{name}{k}")
            b.vm.attrs["last_exception"] = HTuple([E(b.exc_class(f"le.type@{k}")), E(b.exc(f"le.value@{k}")),
                                                   E(b.any(f"le.tb@{k}"))])
            for i in range(len(options) - 1):
                if it.truth(it.m.compare("==", r, i)):
                    return options[i]
            return options[-1]
        return h

    execute, unwind = picked(WHYS, "execute"), picked(INNER, "unwind")
    handle = picked([None, "exception"], "look for a handler")
    start = it.builder_variant.get("part") == "start"
    thrown = picked(INNER if start else [None], "raise what was thrown")

    def h_parse(it, args, kwargs):
        b = it.builder
        k = b.count("decode")
        b.counts["unwind"] = 0
        r = it.m.event("decode", args[0].attrs["frame"], raises=False)
        if k == (1 if start else ROUNDS):
            b.cut("next instruction")
        b.at_instruction(b)
        return HTuple([E(b.str(f"opname{k}")), E(b.int(f"opcode{k}", 0, 255)), E(b.any(f"int_arg{k}")),
                       E(b.list(f"arguments{k}")), E(b.int(f"offset{k}", 0)),
                       E(b.any(f"line{k}"))])

    def h_dispatch(it, args, kwargs):
        return execute(it, args[0].attrs["frame"], *args[1:4])

    def h_manage(it, args, kwargs):
        b = it.builder
        if b.count("unwind") == ROUNDS:
            it.m.event("unwind next", args[0].attrs["frame"], args[1], raises=False)
            b.cut("next block")
        return unwind(it, args[0].attrs["frame"], args[1])

    return {PyVM.parse_byte_and_args: h_parse, PyVM.dispatch: h_dispatch, PyVM.manage_block_stack: h_manage,
            PyVM.exception_handling_311: lambda it, a, k: handle(it, a[0].attrs["frame"]),
            PyVM.raise_thrown: lambda it, a, k: thrown(it, a[1])}


def run_native(b, phase):
    """The same, scripted."""
    saved = {n: PyVM.__dict__[n] for n in ("parse_byte_and_args", "dispatch", "manage_block_stack",
                                           "exception_handling_311", "raise_thrown")}
    n = {"decode": 0}

    def pick(options, name, *args):
        r = b.s.event(name, list(args), "int", raises=False)
        f = b.run
        f.stack[:] = [b.s.probe(f"item{len(b.s.log)}")]
        del f.block_stack[:]
        for i in range((r or 0) % 3):
            f.block_stack.append(b.block("loop", i, 0, f"block{len(b.s.log)}.{i}"))
        e = [ValueError("e"), KeyboardInterrupt(), SystemExit(3)][(r or 0) % 3]
        b.vm.last_exception = (type(e), e, None)
        w = options[(r or 0) * 7 % len(options)]
        return w

    def parse(vm, *a, **k):
        n["decode"] += 1
        b.s.event("decode", [vm.frame], "int", raises=False)
        i = n["decode"]
        return f"OP{i}", 9, i, [i], 2 * i, i if i % 2 else None

    def dispatch(vm, name, int_arg, arguments, offset, line):
        w = pick(WHYS, "execute", vm.frame, name, int_arg, arguments)
        return "return" if n["decode"] > 4 and w is None else w

    def manage(vm, why):
        vm.frame.block_stack.pop()
        left = len(vm.frame.block_stack)
        w = pick(INNER, "unwind", vm.frame, why)
        del vm.frame.block_stack[left:]
        return w

    PyVM.parse_byte_and_args, PyVM.dispatch, PyVM.manage_block_stack = parse, dispatch, manage
    PyVM.exception_handling_311 = lambda vm: pick([None, "exception"], "look for a handler", vm.frame)
    PyVM.raise_thrown = lambda vm, frame: pick(INNER, "raise what was thrown", frame)

    def restore():
        for k, v in saved.items():
            setattr(PyVM, k, v)
    return [restore]


# ------------------------------------------------------------------ the frame to be run
def pre_frame(b, traced=False):
    vm, f = b.setup_vm(traced=traced)
    outermost, new = b.variant["outermost"], b.variant["new"]
    opc = opcode_module(b.version, b.pypy)
    yields = opc.opmap["YIELD_VALUE"]
    if b.sym:
        from engine.core import HTuple, HObj, SeqBase, S, E, rlen
        import z3
        g = b.new_frame("run")
        lasti = -1
        if not new:
            lasti = b.int("run.lasti", 0)
            bytes_ = HTuple([S(SeqBase("before", lasti.t, lambda t: b.ctx.int("byte!" + str(t), 0, 255)), z3.IntVal(0), lasti.t),
                             E(yields if traced else b.int("byte", 0, 255))] + [E(9)] * 3)
            g.attrs["f_code"] = HObj(type(mkcode(b.version)), {"co_code": bytes_, "co_flags": 0, "co_name": "f"},
                                     uid="code")
        b.setvm(last_exception=b.tup([b.exc_class("le.type"), b.exc("le.value"), b.any("le.tb")]))
        if outermost:
            vm.attrs["frames"].segs[:] = []
    else:
        g = b.new_frame("run")
        lasti = -1 if new else 2 * b.r.randrange(4)
        if outermost:
            del vm.frames[:]
    back = None if outermost else f
    if b.sym:
        g.attrs.update(f_lasti=lasti, f_back=back, finished=False)
        vm.attrs["frame"] = back
    else:
        g.f_lasti, g.f_back, vm.frame = lasti, back, back
    b.run = g
    b.f = None
    b.at_instruction = lambda b: None
    return vm, g


def real_run(vm, frame, *rest):
    return vm.run_frame(frame)


def spec_run(vm, frame, *rest):
    return run_plain(vm, frame)


def run_plain(vm, frame):
    """What running a frame means."""
    if frame.f_lasti == -1:
        frame.f_lasti = 0
        frame.fallthrough = False
    caller = vm.frame
    vm.frames.append(frame)
    vm.frame = frame
    why = vm.raise_thrown(frame)
    while not why:
        name, code, int_arg, arguments, offset, line = vm.parse_byte_and_args(None)
        why = vm.dispatch(name, int_arg, arguments, offset, line)
        if why == "reraise":
            why = "exception"
        if why == "exception" and vm.version >= (3, 11):
            why = vm.exception_handling_311()
        if why != "yield":
            while why and frame.block_stack:
                why = vm.manage_block_stack(why)
    frame.finished = why != "yield"
    vm.frames.pop()
    vm.frame = caller
    if why == "exception":
        exc = vm.last_exception[1]
        if caller is None and isinstance(exc, Exception):
            raise PyVMUncaughtException.from_tuple(vm.last_exception)
        raise exc
    return vm.return_value


def versions():
    return [{"version": v, "pypy": pp, "outermost": o, "new": n} for v, pp in flavours() for o in (False, True)
            for n in (True, False)]


def parts():
    return [dict(v, part=p) for v in versions() for p in ("start", "round") if p == "start" or v["new"]]


def of(flavours_, parts_, whether=True):
    return [p for p in parts_ if ((p["version"], p["pypy"]) in flavours_) == whether]


REPS = representatives(PyVM.run_frame)
Contract("run_frame", ["C16"], of(REPS, parts()), lambda b: list(pre_frame(b)), real_run, spec_run, stubs=run_stubs,
         native_stubs=run_native, bounded=bound_of(PyVM.run_frame), fn=["run_frame"])
Contract("run_frame natively", ["C16"], of(REPS, versions(), False), lambda b: list(pre_frame(b)), real_run, spec_run,
         native_stubs=run_native, symbolic=False, search=False, fn=["run_frame"],
         bounded="natively; the code does not tell these versions from those proved")


# ------------------------------------------------------------------ eval_frame: balanced whatever happens
def left_frames(b, tag):
    """Running the frame left some frames behind."""
    import z3
    from engine.core import S, rnorm, SeqBase
    n = b.int(f"left@{tag}", 0)
    fs = b.vm.attrs["frames"]
    fs.segs = fs.segs + [S(SeqBase(f"left frames@{tag}", n.t), z3.IntVal(0), n.t)]
    if b.it.truth(b.it.m.compare(">", n, 0)):
        b.vm.attrs["frame"] = b.it.m.getitem(fs, -1)


def eval_stubs(it):
    def h_run(it, args, kwargs):
        b = it.builder
        left_frames(b, b.count("run"))
        b.havoc_frame(b.run, f"run{b.counts['run']}")
        b.run.attrs["finished"] = b.bool(f"finished{b.counts['run']}")
        return it.m.event("run", args[1])
    return {PyVM.run_frame: h_run}


def eval_native(b, phase):
    saved = PyVM.run_frame
    b.left = b.r.randrange(4)

    def run(vm, frame):
        for i in range(b.left):
            g = b.new_frame(f"left{i}")
            vm.frames.append(g)
            vm.frame = g
        return b.s.event("run", [frame])
    PyVM.run_frame = run
    return [lambda: setattr(PyVM, "run_frame", saved)]


def real_eval(vm, frame):
    return vm.eval_frame(frame)


def spec_eval(vm, frame):
    before = list(vm.frames)
    current = vm.frame
    frame.finished = True
    try:
        return vm.run_frame(frame)
    finally:
        vm.frames[:] = before
        vm.frame = current


Contract("eval_frame", ["C16"], versions(), lambda b: list(pre_frame(b)), real_eval, spec_eval, stubs=eval_stubs,
         native_stubs=eval_native, fn=["eval_frame", "pop_frame"])


# ------------------------------------------------------------------ the parts
def real_push(vm, frame):
    return vm.push_frame(frame)


def spec_push(vm, frame):
    vm.frames.append(frame)
    vm.frame = frame


def real_pop(vm, frame):
    return vm.pop_frame()


def spec_pop(vm, frame):
    n = len(vm.frames) - 1
    del vm.frames[n:]
    vm.frame = vm.frames[n - 1] if n > 0 else None


def pre_pop(b):
    vm, g = pre_frame(b)
    if b.sym:
        from engine.core import E
        fs = vm.attrs["frames"]
        fs.segs = fs.segs + [E(g)]
        vm.attrs["frame"] = g
    else:
        vm.frames.append(g)
        vm.frame = g
    return [vm, g]


def one(versions_):
    return [v for v in versions_ if not v["pypy"] and v["version"] in ((2, 7), (3, 12))]


Contract("push_frame", ["C16"], one(versions()), lambda b: list(pre_frame(b)), real_push, spec_push, fn=["push_frame"])
Contract("pop_frame", ["C16"], one(versions()), pre_pop, real_pop, spec_pop, fn=["pop_frame"])


def resume_stubs(it):
    def h_eval(it, args, kwargs):
        b, f = it.builder, args[1]
        a = f.attrs
        r = it.m.event("run", f, a["f_back"], a["f_lasti"], a["fallthrough"], a["thrown"], a["yield_from"])
        b.havoc_frame(f, "run")
        return r
    return {PyVM.eval_frame: h_eval}


def resume_native(b, phase):
    saved = PyVM.eval_frame

    def run(vm, f):
        r = b.s.event("run", [f, f.f_back, f.f_lasti, f.fallthrough, f.thrown, f.yield_from])
        f.f_lasti = 4
        return r
    PyVM.eval_frame = run
    return [lambda: setattr(PyVM, "eval_frame", saved)]


def pre_resume(b):
    vm, g = pre_frame(b)
    thrown = b.exc("thrown") if b.variant["throws"] else None
    if b.sym:
        g.attrs.update(yield_from=b.any("yield_from"), thrown=b.any("old thrown"), f_back=b.any("old caller"))
    else:
        g.yield_from, g.thrown, g.f_back = b.any("yield_from"), b.any("old thrown"), None
    return [vm, g, thrown]


def real_resume(vm, frame, thrown):
    return vm.resume_frame(frame, thrown)


def spec_resume(vm, frame, thrown):
    frame.f_back = vm.frame
    frame.thrown = thrown
    frame.yield_from = None
    if frame.f_lasti == -1:
        frame.f_lasti = 0
        frame.fallthrough = False
    else:
        frame.fallthrough = True
    try:
        return vm.eval_frame(frame)
    finally:
        frame.f_back = None


def resume_obs():
    return {Frame: FRAME_OBS + ["thrown", "yield_from"]}


Contract("resume_frame", ["C16", "C15"], [dict(v, throws=t) for v in one(versions()) for t in (False, True)], pre_resume,
         real_resume, spec_resume, stubs=resume_stubs, native_stubs=resume_native, observables=resume_obs,
         fn=["resume_frame"])
