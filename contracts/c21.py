"""C21: reported positions are the positions being executed."""
import bisect
import io
import random
import sys
import time
import types

import xpython.pyobj as P
import xpython.vm as V
from xpython.pyobj import Frame, Traceback, traceback_from_frame
from xpython.vm import PyVM

from .base import *
from engine import asm

HOST = sys.version_info[:2]
VERSIONS = [{"version": v, "pypy": p} for v, p in flavours()]
ONE = [{"version": (3, 8), "pypy": False}]


# ------------------------------------------------------------------ the line of an offset, for every table
def lines_of(b, name="lines"):
    """A table of any length, (offset, line) by increasing offset; an offset, and how many entries are up to it."""
    if b.sym:
        import z3
        from engine.core import HList, HTuple, E, S, SInt, SeqBase, U
        off, line = z3.Function(name + ".offset", U, z3.IntSort()), z3.Function(name + ".line", U, z3.IntSort())
        n = b.ctx.int(name + ".len", 0)
        base = SeqBase(name, n.t, lambda t: HTuple([E(SInt(off(t))), E(SInt(line(t)))]))
        lasti, m = b.int(name + ".at", 0), b.int(name + ".upto", 0)

        def increasing(k):
            at = [m.t - 1, m.t, k - 1, k]
            for i in at:
                for j in at:
                    if i is not j:
                        b.ctx.assume(z3.Implies(z3.And(0 <= i, i < j, j < n.t), off(base.f(i)) < off(base.f(j))))
        for i in range(1, 5):
            increasing(z3.IntVal(i))
        b.index_facts = [increasing]
        b.ctx.assume(m.t <= n.t)
        b.ctx.assume(z3.Implies(m.t > 0, off(base.f(m.t - 1)) <= lasti.t))
        b.ctx.assume(z3.Implies(m.t < n.t, off(base.f(m.t)) > lasti.t))
        return HList([S(base, z3.IntVal(0), n.t)], uid=name), lasti, m
    offs = sorted(b.r.sample(range(40), b.r.choice([0, 1, 2, 5, 20])))
    lasti = b.r.randint(0, 45)
    return [(o, b.r.randint(1, 300)) for o in offs], lasti, bisect.bisect_right(offs, lasti)


def pre_line(b):
    vm, f = b.setup_vm()
    table, lasti, m = lines_of(b)
    b.setf(line_starts=table, f_lasti=lasti)
    return [f, m]


def spec_line(f, m):
    return f.line_starts[m - 1][1] if m else 0


Contract("Frame.line_number", ["C21"], ONE, pre_line, lambda f, m: f.line_number(), spec_line, fn=["line_number"])


# ------------------------------------------------------------------ tracebacks
def chain(b):
    """A current frame, and those it was called from, innermost first."""
    vm, f = b.setup_vm()
    n = b.choose("depth", [1, 2, 3, 4])
    frames = [f] + [b.f0][:n - 1] + [b.new_frame(f"caller{i}") for i in range(n - 2)]
    for i, x in enumerate(frames):
        at = {"f_lasti": b.int(f"lasti{i}", 0, 60), "f_lineno": b.int(f"begun{i}", 1),
              "f_back": frames[i + 1] if i + 1 < len(frames) else None}
        if b.sym:
            at["the_line"] = b.int(f"line{i}", 1)
            x.attrs.update(at)
        else:
            for k, v in at.items():
                setattr(x, k, v)
            x.line_starts = lines_of(b)[0]
    return vm, frames


def stub_line(it):
    return {Frame.line_number: lambda it, a, k: a[0].attrs["the_line"], PyVM.note_traceback: None, PyVM.note_handler: None}


def stub_tb(it):
    d = stub_line(it)
    d[traceback_from_frame] = None
    from engine.symstate import _all_byteops
    for c in _all_byteops():
        if "traceback_from_frame" in vars(c):
            d[vars(c)["traceback_from_frame"]] = None
    return d


def entries(tb):
    out = []
    while tb is not None:
        f = tb.tb_frame
        out.append((f.f_code, f.f_lasti, tb.tb_lasti, tb.tb_lineno, isinstance(tb, Traceback)))
        tb = tb.tb_next
    return out


def pre_tb(b):
    vm, frames = chain(b)
    return [vm, frames[0], b.choose("way", [True, False])]


def real_tb(vm, f, function):
    tb = traceback_from_frame(f) if function else vm.byteop.traceback_from_frame()
    return entries(tb), tb.tb_frame is f


def spec_tb(vm, f, function):
    out = []
    while f is not None:
        out.insert(0, (f.f_code, f.f_lasti, f.f_lasti, f.line_number(), True))
        f = f.f_back
    return out, False      # the frames go on running: a traceback has copies


Contract("traceback_from_frame", ["C21"], VERSIONS, pre_tb, real_tb, spec_tb, fn=["traceback_from_frame", "Traceback"],
         stubs=stub_tb, bounded="at most four frames")


# an exception keeps its traceback while it leaves frames, and when a handler raises it again
def pre_note(b):
    vm, f = b.setup_vm()
    exc = b.exc("raised")
    known = b.choose("unwinding", [(exc, b.any("its traceback")), (b.exc("other"), b.any("another")), (None, None)])
    if known[0] is not None:
        b.is_not(known[1], None)
    b.setvm(last_exception=b.tup([b.exc_class("type"), exc, b.any("tb")]), unwinding=b.tup(known))
    handled = []
    for i, e in enumerate(b.choose("handled", [[], [exc], [b.exc("a"), exc], [exc, b.exc("a")], [b.exc("a")]])):
        tb = b.any(f"traceback{i}")
        b.is_not(tb, None)
        handled.append(b.tup([b.int(f"level{i}", 0), e, tb]))
    b.setf(handled=b.lst(handled))
    return [vm, b.choose("reraised", [False, True])]


def real_note(vm, reraised):
    vm.note_traceback(reraised)
    return vm.last_traceback, vm.unwinding


def spec_note(vm, reraised):
    exc = vm.last_exception[1]
    if vm.unwinding[0] is exc:
        return vm.unwinding[1], (None, None)
    if reraised:
        for h in reversed(vm.frame.handled):
            if h[1] is exc:
                return h[2], (None, None)
    return vm.byteop.traceback_from_frame(), (None, None)


def stub_note(it):
    from engine.symstate import _all_byteops
    d = {PyVM.note_traceback: None, PyVM.note_handler: None}
    for c in _all_byteops():
        if "traceback_from_frame" in vars(c):
            d[vars(c)["traceback_from_frame"]] = event_stub("traceback")
    return d


def pre_handler(b):
    vm, f = b.setup_vm()
    b.setvm(last_exception=b.tup([b.exc_class("type"), b.exc("raised"), b.any("tb")]))
    n = b.choose("handlers", [0, 1, 2, 3])
    b.setf(handled=b.lst([b.tup([b.int(f"level{i}", 0), b.exc(f"exc{i}"), b.any(f"traceback{i}")]) for i in range(n)]))
    return [vm]


def real_handler(vm):
    vm.note_handler()
    return vm.frame.handled


def spec_handler(vm):
    """The handlers that are running: those that began with less on the stack, and this one."""
    out = []
    for h in reversed(vm.frame.handled):
        if out or h[0] < len(vm.frame.stack):
            out.append(h)
    out.reverse()
    out.append((len(vm.frame.stack), vm.last_exception[1], vm.last_traceback))
    return out


if hasattr(PyVM, "note_traceback") and hasattr(PyVM, "note_handler"):
    Contract("note_traceback", ["C21"], VERSIONS, pre_note, real_note, spec_note, fn=["note_traceback"], stubs=stub_note,
             native=False, bounded="at most two handlers")
    Contract("note_handler", ["C21"], ONE, pre_handler, real_handler, spec_handler, fn=["note_handler"],
             stubs=lambda it: {PyVM.note_handler: None}, native=False, bounded="at most three handlers")


# ------------------------------------------------------------------ line tables
def varint(n, bits=6):
    out = []
    while n > 63:
        out.append(n & 63 | 64)
        n >>= 6
    return out + [n]


def svarint(n):
    return varint((-n << 1) | 1 if n < 0 else n << 1)


def line_table(v, r, n):
    """(first line, table, the line of each of n offsets), the latter from the documentation of the format."""
    first = line = r.randint(1, 50)
    lines, out = [], []
    if v >= (3, 11):
        while len(lines) < n:
            units = min((n - len(lines)) // 2, r.randint(1, 8))
            form = r.choice([15, 13, 13, 14, 10, 11, 12, 0, 5])
            out.append(128 | form << 3 | units - 1)
            if form == 15:
                lines += [None] * (2 * units)
                continue
            d = form - 10 if 10 <= form <= 12 else r.choice([0, 1, -1, 5, -40, 70, 200, 5000]) if form > 12 else 0
            line += d
            if form > 12:
                out += svarint(d)
            if form == 14:
                out += varint(r.choice([0, 2])) + varint(r.randint(0, 90)) + varint(r.randint(0, 90))
            elif form <= 12:
                out += [r.randint(0, 127)] * (2 if form >= 10 else 1)
            lines += [line] * (2 * units)
        return first, bytes(out), lines
    if v >= (3, 10):
        while len(lines) < n:
            k = min(n - len(lines), r.choice([2, 4, 10, 254]))
            if r.random() < .2:
                out += [k, 128]
                lines += [None] * k
            else:
                while r.random() < .2:
                    d = r.choice([127, -127])
                    line += d
                    out += [0, d & 255]
                d = r.choice([0, 1, 2, -3, 100, -100, 127, -127])
                line += d
                out += [k, d & 255]
                lines += [line] * k
        return first, bytes(out), lines
    step = [2, 4, 6, 10, 254] if v >= (3, 6) else [1, 3, 4, 6, 10, 255]
    while True:
        k = r.choice([0, *step])
        d = r.choice([0, 1, 1, 2, 3, 100, 127] + ([128, 200, 255] if v < (3, 6) else [-1, -5, -128]))
        if len(lines) + k >= n:
            break
        lines += [line] * k
        line += d
        out += [k, d & 255]
    return first, bytes(out), lines + [line] * (n - len(lines))


def lines_case(v, pp, seed):
    r = random.Random(seed)
    n = 2 * r.choice([1, 5, 30, 200])
    first, table, lines = line_table(v, r, n)
    code = asm.make_code(v, [("LOAD_CONST", 0)], pp, co_firstlineno=first, co_lnotab=table)
    code.co_code = bytes([opcode_module(v, pp).opmap["NOP"], 0] * (n // 2))
    vm = asm.new_vm(v, pp)
    f = vm.make_frame(code, f_globals={"__builtins__": {}}, f_locals={})
    for i in range(n):
        f.f_lasti = i
        for what, got in (("line_number()", f.line_number()), ("line that begins", f.linestarts.get(i, lines[i]))):
            if lines[i] is not None and got != lines[i]:
                return {"lines": [list(v), pp, seed], "offset": i, "first line": first, "table": list(table)[:60],
                        "expected": lines[i], "got": f"{what} {got}"}
    return None


def lines_search(tier, seed, secs):
    end, n = time.time() + secs, 0
    for k in range(250 if tier == "quick" else 3000):
        for v, pp in flavours():
            n += 1
            bad = lines_case(v, pp, f"{seed}:{k}")
            if bad or time.time() > end:
                return n, bad, [], n
    return n, None, ["250 random tables for each flavour"], n


Bounded("line tables", "C21", lines_search, lambda d: lines_case(tuple(d["lines"][0]), *d["lines"][1:]),
        "random line tables of at most 400 bytes of code, every offset, all flavours")


# ------------------------------------------------------------------ tracebacks of running code
def listing(tb, skip=0):
    out = []
    while tb is not None:
        out.append([tb.tb_frame.f_code.co_name, tb.tb_lineno, tb.tb_lasti])
        tb = tb.tb_next
    return out[skip:]


def printed(tb):
    """The names and lines that print_tb() shows."""
    import re
    out = io.StringIO()
    tb.print_tb(file=out)
    return [[m[2], int(m[1])] for m in re.finditer(r'^  File "[^"]*", line (-?\d+), in (.*)$', out.getvalue(), re.M)]


def chain_case(v, pp, seed):
    """Functions that call each other, directly or through a host function, and one that raises."""
    r = random.Random(seed)
    depth = r.randint(1, 6)
    opc = opcode_module(v, pp)
    vm = asm.new_vm(v, pp)
    want = []
    start = [("RESUME", 0)] if v >= (3, 11) else []
    pad = lambda: [("LOAD_CONST", 0), ("POP_TOP",)] * r.choice([0, 1, 4, 20])
    g = {"__name__": "prog", "__builtins__": __builtins__, "through": lambda f: f()}
    names = ("through", "callee", "missing")
    nul = v >= (3, 11)
    base = vm.make_frame(asm.make_code(v, start, pp, co_name="<module>", co_flags=0), f_globals=g, f_locals={})
    base.f_lasti = 0
    vm.push_frame(base)
    want.append(["<module>", None if v >= (3, 10) else 1, 0])
    inner = None
    rows = []
    for i in range(depth):
        if inner is None:
            body = [("LOAD_GLOBAL", 2 << 1 if nul else 2)]
        else:
            call = [("PRECALL", 1), ("CALL", 1)] if v[:2] == (3, 11) else [("CALL", 1)] if nul else [("CALL_FUNCTION", 1)]
            call0 = [(c, 0) for c, _ in call]
            if r.random() < .5:
                body = [("LOAD_GLOBAL", 1 if nul else 0), ("LOAD_CONST", 1)] + call
            else:
                body = ([("PUSH_NULL",)] if nul else []) + [("LOAD_CONST", 1)] + call0
        before = start + pad()
        code_before = asm.assemble(v, before + body[:-1], pp)
        n = len(asm.assemble(v, before + body, pp))
        after = pad() + [("POP_TOP",), ("LOAD_CONST", 0), ("RETURN_VALUE",)]
        whole = before + body + after
        total = len(asm.assemble(v, whole, pp))
        first, table, lines = line_table(v, r, total + total % 2)
        code = asm.make_code(v, whole, pp, co_name=f"f{i}", co_names=names, co_consts=(None, inner), co_firstlineno=first,
                             co_lnotab=table)
        at = len(code_before)
        rows.insert(0, [f"f{i}", lines[at], at])
        inner = callee(vm, code, g)
    try:
        inner()
        return {"chain": [list(v), pp, seed], "expected": "an exception", "got": "none"}
    except NameError:
        pass
    except Exception as e:
        return {"chain": [list(v), pp, seed], "expected": "NameError", "got": repr(e)}
    got = listing(vm.last_traceback)
    want += rows
    if len(got) != len(want) or any(a[0] != b[0] or a[2] != b[2] or b[1] is not None and a[1] != b[1] for a, b in zip(got, want)):
        return {"chain": [list(v), pp, seed], "expected": repr(want), "got": repr(got)}
    return None


def callee(vm, code, g):
    def call():
        frame = vm.make_frame(code, {}, f_globals=g, f_locals=None)
        return vm.eval_frame(frame)
    return call


def chain_search(tier, seed, secs):
    end, n = time.time() + secs, 0
    for k in range(150 if tier == "quick" else 2000):
        for v, pp in flavours():
            n += 1
            bad = chain_case(v, pp, f"{seed}:{k}")
            if bad or time.time() > end:
                return n, bad, [], n
    return n, None, ["150 random call chains for each flavour"], n


Bounded("tracebacks of call chains", "C21", chain_search, lambda d: chain_case(tuple(d["chain"][0]), *d["chain"][1:]),
        "call chains of at most six functions, direct and through host functions, random line tables, all flavours")


def raising_program(r):
    """Functions that call each other in handlers, loops, with statements and generators, until one raises."""
    n = r.randint(1, 5)
    out = ["class CM:", "    def __enter__(self):", "        return 1", "", "    def __exit__(self, *a):",
           "        try:", "            {}[1]", "        except KeyError:", "            return False", ""]

    def pad(ind):
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append(r.choice(["", "# comment", ind + "x = 1", ind + "y = [1,", ind + "for q in (1, 2): x = q",
                                 ind + "z = x if x else 2" if False else ind + "z = 2"]))
            if out[-1].endswith("[1,"):
                out.append(ind + "     2]")

    def stmts(i, ind, deep):
        pad(ind)
        k = r.randint(0, 8) if deep < 3 else 0
        if k <= 2:
            final(i, ind)
        elif k == 3:
            out.append(ind + "try:")
            stmts(i, ind + "    ", deep + 1)
            out.append(ind + "finally:")
            if r.random() < .5:
                out.extend(ind + "    " + x for x in ["try:", "    {}[1]", "except KeyError:", "    x = 3"])
            else:
                out.append(ind + "    x = 2")
        elif k == 4:
            out.append(ind + "try:")
            stmts(i, ind + "    ", deep + 1)
            out.extend([ind + "except KeyError:", ind + "    pass"])
        elif k == 5:
            out.append(ind + "try:")
            stmts(i, ind + "    ", deep + 1)
            out.append(ind + "except ValueError as e:")
            if r.random() < .5:
                out.extend(ind + "    " + x for x in ["try:", "    {}[1]", "except KeyError:", "    x = 3"])
            out.append(ind + r.choice(["    raise", "    raise", "    raise IndexError(3)", "    raise IndexError(4) from e"]))
        elif k == 6:
            out.append(ind + "with CM() as c:")
            stmts(i, ind + "    ", deep + 1)
        elif k == 7:
            out.append(ind + "for q in (1, 2):")
            pad(ind + "    ")
            out.append(ind + "    if q == 2:")
            stmts(i, ind + "        ", deep + 1)
        else:
            out.append(ind + "while True:")
            stmts(i, ind + "    ", deep + 1)
        pad(ind)

    def final(i, ind):
        if i + 1 < n:
            f = f"f{i + 1}"
            out.append(ind + r.choice([f"{f}()", f"a = ({f}(),", f"list(map({f}1, [1]))", f"for w in g{i + 1}():",
                                       f"[{f}() for _ in (1,)]", f"sorted([2, 1], key={f}1)", f"next(g{i + 1}())"]))
            if out[-1].endswith(","):
                out.append(ind + "     2)")
            if out[-1].endswith(":"):
                out.append(ind + "    x = w")
        else:
            out.append(ind + r.choice(["raise ValueError(1)", "[][1]", "missing", "int('x')", "None.attribute", "a, b = 1, 2, 3",
                                       "assert False, 'x'", "del gone", "raise ValueError(\n" + ind + "    2)"]))

    for i in range(n):
        out.append(f"def f{i}():")
        stmts(i, "    ", 0)
        out.append("")
        out.extend([f"def f{i}1(x):", f"    return f{i}()", ""])
        out.extend([f"def g{i}():", "    x = 1", f"    f{i}()", "    yield 2", ""])
    pad("")
    out.append("f0()")
    return "\n".join(out) + "\n"


def at_instructions(tb):
    """listing(); the host's position can be in the cache that follows an instruction."""
    import dis
    out = listing(tb)
    for x in out:
        x[2] = max(i.offset for i in dis.get_instructions(tb.tb_frame.f_code) if i.offset <= x[2])
        tb = tb.tb_next
    return out


def program_case(src):
    from engine.programs import run_vm
    code = compile(src, "prog.py", "exec", dont_inherit=True)
    try:
        exec(code, {"__name__": "prog"})
        want = None
    except Exception as e:
        want = [type(e).__name__, at_instructions(e.__traceback__.tb_next)]
    traced = asm.new_vm((3, 12), False, lambda *a: None) if len(src) % 3 == 0 else None
    out, end, vm = run_vm(src, vm=traced)
    got = None if end is None else [end, listing(vm.last_traceback)]
    if got != want:
        return {"program": src, "expected": repr(want), "got": repr(got)}
    if want and printed(vm.last_traceback) != [[name, line] for name, line, _ in want[1]]:
        return {"program": src, "expected": repr(want), "got": "printed: " + repr(printed(vm.last_traceback))}
    return None


def program_search(tier, seed, secs):
    end, n = time.time() + secs, 0
    src = ""
    while n < (600 if tier == "quick" else 20000) and time.time() < end:
        src = raising_program(random.Random(f"{seed}:{n}"))
        n += 1
        bad = program_case(src)
        if bad:
            return n, bad, [], n
    return n, None, [src[-300:]], n


if HOST == (3, 12):
    Bounded("tracebacks of programs", "C21", program_search, lambda d: program_case(d["program"]),
            "random 3.12 programs of at most five functions, in nested handlers, against the host's tracebacks")
