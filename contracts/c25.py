"""C25: logging and instruction display never disturb the program."""
import contextlib
import io
import logging
import random
import sys
import time

import xpython.pyobj as P
import xpython.show as show
import xpython.vm as V
from xpython.vm import PyVM, format_instruction

from .base import *
from . import c21
from engine import asm
from engine.programs import run_vm

HOST = sys.version_info[:2]


# ------------------------------------------------------------------ rendering one instruction
def valid_arguments(b, v, pp, name, n):
    """Operands this instruction can have: a finite choice where xdis or a table interprets it, else any number."""
    opc = opcode_module(v, pp)
    if n < opc.HAVE_ARGUMENT:
        return None
    if n in opc.COMPARE_OPS:
        last = len(opc.cmp_op) - 1
        return b.choose("operand", [0, 3, last] if v < (3, 12) else [0, 2 << 4, (last << 4) | 9])
    if name == "BINARY_OP":
        return b.choose("operand", [0, 13, 25])
    if name in ("RAISE_VARARGS", "MAKE_FUNCTION", "FORMAT_VALUE"):
        return b.choose("operand", ([0, 1, 2, 3] if v < (3,) else [0, 1, 2]) if name == "RAISE_VARARGS" else [0, 1, 2, 3, 4, 7])
    if name in ("IS_OP", "CONTAINS_OP"):
        return b.choose("operand", [0, 1])
    if name == "LOAD_GLOBAL":
        return b.choose("operand", [0, 1, 2, 3])
    if name == "LOAD_DEREF" or name == "STORE_DEREF":
        return b.choose("operand", [0, 1, 2])
    if name == "CALL_METHOD":
        return b.choose("operand", [0, 1, 2])
    if name == "CALL_METHOD_KW":
        return b.choose("operand", [1, 2, 3])
    if name == "SWAP":
        return b.choose("operand", [1, 2, 3])
    return b.choose("operand", [0, 1, 2, 515])


def pre_format(b):
    v, pp, name = b.variant["version"], b.variant["pypy"], b.variant["op"]
    vm, f = b.setup_vm()
    n = opcode_module(v, pp).opname.index(name)
    operand = valid_arguments(b, v, pp, name, n)
    if name == "CALL_METHOD_KW":
        b.push(b.lit(b.choose("keywords", [("k",), ("k", "w")])) if hasattr(b, "lit") else b.choose("keywords", [("k",), ("k", "w")]))
    arguments, framed, line, debug, shown = b.choose("scenario", SCENARIOS)
    if hasattr(b, "set_cells"):
        b.set_cells([("a cell", b.cell("cell"))])
    return [f if framed else None, vm, name, operand, arguments if arguments is None else b.lst(arguments),
            b.int("offset", 0, 300), line, debug, shown]


# what is known of the arguments, whether there is a frame, the line number, more detail, the operands shown
SCENARIOS = [(None, True, 7, True, True), ([], True, None, False, True), (["name"], True, 7, True, True), ([3], False, 7, True, True),
             ([(1, 2)], True, None, False, False), ([None], True, 7, False, True)]


def real_format(frame, vm, name, operand, arguments, offset, line, debug, shown):
    if shown:
        r = format_instruction(frame, vm.opc, name, operand, arguments, offset, line, debug, vm=vm)
    else:
        r = format_instruction(frame, vm.opc, name, operand, arguments, offset, line, debug)
    return isinstance(r, str)


def spec_format(frame, vm, name, operand, arguments, offset, line, debug, shown):
    return True


def show_stubs(it):
    # what these show is not compared, and they run no code of the program: the contract "safe_repr"
    return {show.safe_repr: lambda it, a, k: it.m.fstr(), show.callee_name: lambda it, a, k: it.m.fstr()}


def format_stubs(it):
    d = {V.format_instruction: None, **show_stubs(it)}
    for v, pp in flavours():
        for name, fn in getattr(opcode_module(v, pp), "opcode_arg_fmt", {}).items():
            d[fn] = lambda it, a, k: it.m.fstr()     # what xdis shows of a valid operand
    return d


def formats():
    """The instructions of each flavour, with what decides how they are shown."""
    seen, first, rest = set(), [], []
    for v, pp in flavours():
        opc = opcode_module(v, pp)
        fmt = asm.new_vm(v, pp).byteop.stack_fmt
        for n, name in enumerate(opc.opname):
            if name.startswith("<") or name == "BRKPT" or opc.opmap.get(name) != n:
                continue
            f, a = fmt.get(name), getattr(opc, "opcode_arg_fmt", {}).get(name)
            key = (f, a and (a.__module__, a.__qualname__), n in opc.COMPARE_OPS, n >= opc.HAVE_ARGUMENT, f and name, v >= (3, 12))
            if not f and not a and not n in opc.COMPARE_OPS:
                key = (n >= opc.HAVE_ARGUMENT,)
            (rest if key in seen else first).append({"version": v, "pypy": pp, "op": name})
            seen.add(key)
    return first, rest


FIRST, REST = formats()
Contract("format_instruction", ["C25"], FIRST + REST, pre_format, real_format, spec_format, stubs=format_stubs, msg_pure=False,
         fn=["format_instruction"])


# ------------------------------------------------------------------ logging one instruction
def pre_log(b):
    vm, f = b.setup_vm()
    b.block("loop", handler=4, level=0)
    if b.sym:
        b.vm.attrs["format_instruction"] = format_instruction
    return [vm, b.choose("opcode", ["POP_TOP", "LOAD_FAST"]), b.choose("operand", [None, 3]),
            b.choose("arguments", [None, "name"]), b.int("offset", 0, 300), b.choose("line", [None, 7])]


def real_log(vm, name, operand, arguments, offset, line):
    vm.log(name, operand, arguments, offset, line)
    return vm.frame, len(vm.frames)


def spec_log(vm, name, operand, arguments, offset, line):
    return vm.frame, len(vm.frames)


Contract("PyVM.log", ["C25"], [{"version": (2, 7), "pypy": False}, {"version": (3, 8), "pypy": False}], pre_log, real_log, spec_log,
         stubs=lambda it: {PyVM.log: None, **show_stubs(it)}, msg_pure=False, fn=["log"])


# ------------------------------------------------------------------ the same execution with and without logging
class Level:
    """Instruction logging at a level, in a `with` statement; the records go nowhere."""

    def __init__(self, level):
        self.level = level

    def __enter__(self):
        root = logging.root
        self.was = root.manager.disable, root.level, root.handlers[:]
        logging.disable(logging.CRITICAL if self.level is None else logging.NOTSET)
        root.handlers[:] = [logging.StreamHandler(io.StringIO())]
        root.setLevel(logging.CRITICAL if self.level is None else self.level)

    def __exit__(self, *a):
        logging.disable(self.was[0])
        logging.root.setLevel(self.was[1])
        logging.root.handlers[:] = self.was[2]


LEVELS = [None, logging.INFO, logging.DEBUG]


class Operand:
    """A program's object: what it is asked is recorded, it may answer or raise; it cannot be displayed."""

    def __init__(self, did, r, name):
        self.__dict__.update(did=did, r=r, name=name)

    def __repr__(self):
        raise self.r["display"]("no representation")


def asked(op):
    def method(self, *args, **kw):
        if len(self.did) > 40:
            raise KeyError("enough")
        self.did.append((op, self.name, [a.name if isinstance(a, Operand) else type(a).__name__ for a in args], sorted(kw)))
        k = self.r["answers"][len(self.did) % len(self.r["answers"])]
        if k == "raise":
            raise self.r["error"](op)
        if op == "bool":
            return k == "true"
        if op == "iter":
            return iter([1, self])
        return self
    return method


for _op in ["call", "add", "sub", "mul", "getitem", "setitem", "delitem", "bool", "neg", "pos", "invert", "eq", "lt", "contains", "iter",
            "next", "enter", "exit", "iadd", "getattr", "setattr", "delattr", "format", "getslice", "setslice", "delslice"]:
    setattr(Operand, f"__{_op}__", asked(_op))


def one_instruction(case, level):
    """Outcome and stack of one instruction on the given operands."""
    v, pp, name, operand, operands, way = case
    v, did = tuple(v), []
    r = {"display": [ValueError, AttributeError, KeyError][way % 3], "error": [ValueError, KeyError, IndexError][way % 3],
         "answers": [["raise"], ["self"], ["self", "raise", "true"], ["true", "self", "self", "raise"]][way // 3]}
    made = []
    for k in operands:
        made.append({"program's": Operand(did, r, f"op{len(made)}"), "int": 2, "str": "name", "tuple": (1, 2), "pair": (Operand(did, r, "in"), 1),
                     "list": [], "dict": {}, "class": ValueError, "function": len, "none": None, "set": set(), "names": ("x",)}[k])
    code = asm.make_code(v, [(name,) if operand is None else (name, operand), ("RETURN_VALUE",)], pp, co_names=("x", "append", "zzz", "y"),
                         co_consts=(None, 1, "s", 2.5), co_varnames=("a", "b", "c"), co_freevars=("f", "g"), co_cellvars=("h",),
                         co_flags=0x53)
    out = io.StringIO()
    with Level(level), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        vm = asm.new_vm(v, pp, (lambda *a: None) if way % 2 else None)
        base = vm.make_frame(asm.make_code(v, [], pp, co_name="<module>", co_flags=0), f_globals={"x": 1}, f_locals={})
        base.f_lasti = 0
        vm.push_frame(base)
        frame = vm.make_frame(code, {"a": made[0] if made else 1}, f_globals={"__builtins__": __builtins__}, f_locals=None,
                              closure=(P.Cell(1), P.Cell(1)))
        frame.stack.extend(made)
        frame.cells = {n: P.Cell(1) for n in ("f", "g", "h")}
        try:
            got = ["return", type(vm.eval_frame(frame)).__name__]
        except BaseException as e:
            got = ["raise", type(e).__name__, [type(a).__name__ for a in e.args]]
    return [got, [type(x).__name__ for x in frame.stack], len(vm.frames), did]


def instruction_case(case):
    want = one_instruction(case, None)
    for level in LEVELS[1:]:
        got = one_instruction(case, level)
        if got != want:
            return {"case": case, "level": logging.getLevelName(level), "expected": repr(want), "got": repr(got)}
    return None


ALL = FIRST + REST
KINDS = ["program's", "int", "str", "tuple", "pair", "list", "dict", "class", "function", "none", "set"]


def random_case(r):
    while True:
        x = r.choice(ALL)
        opc = opcode_module(x["version"], x["pypy"])
        n = opc.opname.index(x["op"])
        if n < 256 and n not in opc.JREL_OPS and n not in opc.JABS_OPS and x["op"] not in ("EXTENDED_ARG", "CACHE"):
            break

    class B:
        def choose(self, name, values):
            return r.choice(values)
    operand = valid_arguments(B(), x["version"], x["pypy"], x["op"], n)
    if operand is not None and operand > 255:
        operand = 2
    kinds = [r.choice(KINDS if r.random() < .5 else KINDS[:2]) for _ in range(r.randint(0, 6))]
    if x["op"] in ("CALL_FUNCTION_KW", "CALL_METHOD_KW"):
        kinds.append("names")
    return [x["version"], x["pypy"], x["op"], operand, kinds, r.randint(0, 11)]


def instruction_search(tier, seed, secs):
    end, n, case = time.time() + secs, 0, None
    seen = set()
    while n < (6000 if tier == "quick" else 200000) and time.time() < end:
        case = random_case(random.Random(f"{seed}:{n}"))
        n += 1
        seen.add((case[0], case[1], case[2]))
        bad = instruction_case(case)
        if bad:
            return n, bad, [], n
    return n, None, [case], len(seen)


Bounded("instructions with and without logging", "C25", instruction_search, lambda d: instruction_case(d["case"]),
        "one instruction of any flavour on at most six operands, most of them objects of the program that cannot be displayed")


CLASSES = """
class Hidden:
    def __init__(self, n): self.n = n
    def __repr__(self): %s
    def __add__(self, o):
        if o == 3: raise ValueError('three')
        return Hidden(self.n + 1)
    def __neg__(self): return ~None
    def __getitem__(self, k): return {}[k]
    def __len__(self): return [][self.n]
    def __call__(self, *a, **k):
        if a: raise TypeError('not me')
        return self
"""


def program(r):
    """A program on objects that cannot be displayed, and functions that raise."""
    src = CLASSES % r.choice(["raise ValueError('hidden')", "return 3", "return self.missing", "return repr([][1])", "return 'Hidden'"])
    src += c21.raising_program(r)[:-len("f0()\n")] + "h = Hidden(1)\n"
    for _ in range(r.randint(3, 8)):
        e = r.choice(["h + 2", "h + 3", "-h", "h[1]", "len(h)", "h(1)", "h()", "h(k=2)", "h(*[1], **{'z': 2})", "f0()", "list(map(f01, [h]))", "f00()",
                      "[x + 3 for x in (1, h)]", "{h: h[2]}", "(lambda a, b=h: a + b)(h)", "f'{h!r}'", "f'{h:>3}'", "h < 3", "h in h", "h.gone", "h()()",
                      "not h", "next(g0())", "sorted([h, h])", "[*h]", "{**h}", "del_(h)", "h(h, h)", "(yield_(h))"])
        src += f"try:\n    t = {e}\n    print('ok', type(t).__name__)\nexcept Exception as e:\n    print(type(e).__name__, str(e)[:30])\n"
    src += r.choice(["print('end')\n", "f0()\n", "h + 3\n", "-h\n", "h.gone\n", "del h.x\n", "raise h\n", "assert not h\n", "for z in h: pass\n"])
    return src


def program_case(src):
    with Level(None):
        want = run_vm(src)[:2]
    for level in LEVELS[1:]:
        with Level(level):
            got = run_vm(src, vm=asm.new_vm(HOST, False, (lambda *a: None) if len(src) % 2 else None))[:2]
        if got != want:
            return {"program": src, "level": logging.getLevelName(level), "expected": repr(want), "got": repr(got)}
    return None


def program_search(tier, seed, secs):
    end, n, src = time.time() + secs, 0, ""
    while n < (300 if tier == "quick" else 10000) and time.time() < end:
        src = program(random.Random(f"{seed}:{n}"))
        n += 1
        bad = program_case(src)
        if bad:
            return n, bad, [], n
    return n, None, [src[-400:]], n


Bounded("programs with and without logging", "C25", program_search, lambda d: program_case(d["program"]),
        "random programs of the host's version on objects that cannot be displayed, silent, at INFO and at DEBUG")


# ------------------------------------------------------------------ showing an object runs none of its code
def watched(did, base, metaclass):
    """A class whose instances record everything they are asked for."""
    def note(op):
        def method(*args, **kw):
            did.append(op)
            raise ValueError(op)
        return method
    special = [n for n in sorted(set(dir(base)) | {"__getattr__", "__len__", "__iter__", "__bool__", "__call__", "__contains__", "__getitem__"})
               if n.startswith("__") and n not in ("__class__", "__dict__", "__new__", "__init__", "__init_subclass__", "__subclasshook__",
                                                   "__doc__", "__abstractmethods__", "__mro__", "__slots__", "__base__", "__bases__",
                                                   "__basicsize__", "__dictoffset__", "__flags__", "__itemsize__", "__module__", "__name__",
                                                   "__qualname__", "__weakrefoffset__", "__text_signature__", "__annotations__",
                                                   "__type_params__", "__weakref__", "__del__", "__set_name__", "__prepare__",
                                                   "__traceback__", "__cause__", "__context__", "__suppress_context__", "__notes__")]
    body = {n: note(n) for n in special}
    for n in ("__class__", "__name__", "co_name", "func_name"):
        if issubclass(base, type) and n != "co_name":
            continue
        body[n] = property(note(n))
    return metaclass("Watched", (base,), body)


def show_case(seed):
    r, did = random.Random(seed), []
    Meta = type("Meta", (type,), {n: (lambda n: lambda *a, **k: did.append("class " + n) or 1)(n)
                                  for n in ("__repr__", "__str__", "__hash__", "__eq__", "__instancecheck__", "__subclasscheck__", "__getattr__")})
    plain = True

    def value(deep):
        nonlocal plain
        k = r.randint(0, 11 if deep < 3 else 6)
        if k <= 3:
            return r.choice([0, 1.5, "text", b"bytes", None, True, ..., range(3), len, "", NotImplemented, 2j, int, ValueError])
        if k <= 6:
            plain = False
            base = r.choice([object, int, str, list, dict, tuple, set, ValueError, type, frozenset, float])
            cls = watched(did, base, type if base is type or r.random() < .5 else Meta)
            if r.random() < .15:
                return cls
            try:
                return base.__new__(cls, *(("K", (), {}) if base is type else ())) if base is not object else object.__new__(cls)
            except ValueError:
                return cls
        if k == 7:
            return tuple(value(deep + 1) for _ in range(r.randint(0, 4)))
        if k == 8:
            return [value(deep + 1) for _ in range(r.randint(0, 4))]
        if k == 9:
            return {r.choice(["a", 1, None, (1, 2)]): value(deep + 1) for _ in range(r.randint(0, 3))}
        if k == 10:
            return r.choice([{1}, {1, 2}, frozenset([3]), {"x"}])
        v = value(deep + 1)
        return P.Method(v, int, abs) if r.random() < .5 else [v, v]
    v = value(0)
    if any(type(x) is P.Method for x in [v]):
        plain = False
    del did[:]
    got = [show.safe_repr(v), show.callee_name(v)]
    bad = None
    if did:
        bad = {"asked": did, "expected": "no code of the program runs", "got": repr(did)}
    elif type(got[0]) is not str or type(got[1]) is not str:
        bad = {"expected": "text", "got": repr([type(x).__name__ for x in got])}
    return bad and dict(bad, seed=seed)


def show_search(tier, seed, secs):
    end, n = time.time() + secs, 0
    while n < (4000 if tier == "quick" else 100000) and time.time() < end:
        bad = show_case(f"{seed}:{n}")
        n += 1
        if bad:
            return n, bad, [], n
    return n, None, [], n


Bounded("objects shown", "C25", show_search, lambda d: show_case(d["seed"]),
        "nested containers with instances of classes that record everything they are asked, at most three deep")
