"""A small assembler: instructions of any supported version to code objects and interpreter runs."""
import contextlib
import io

from xdis.codetype import to_portable
from xdis.op_imports import get_opcode_module
from xdis.version_info import PythonImplementation

_opcs = {}


def opc_of(version, pypy=False):
    k = (version, pypy)
    if k not in _opcs:
        _opcs[k] = get_opcode_module(version, PythonImplementation.PyPy if pypy else PythonImplementation.CPython)
    return _opcs[k]


def assemble(version, instrs, pypy=False):
    """instrs: "label:" or (opname,) or (opname, int or label)."""
    opc = opc_of(version, pypy)
    word = version >= (3, 6)
    unit = 2 if version >= (3, 10) else 1
    sizes = {}

    def size_of(op, arg):
        code = opc.opmap[op]
        if word:
            return 2 * max(1, (max(arg, 1).bit_length() + 7) // 8)
        if code < opc.HAVE_ARGUMENT:
            return 1
        return 3 if arg < 65536 else 6

    ops = [(i, x) for i, x in enumerate(instrs)]
    for i, x in ops:
        if not isinstance(x, str):
            sizes[i] = size_of(x[0], 0)
    for _ in range(50):
        labels, pos, at = {}, 0, {}
        for i, x in ops:
            if isinstance(x, str):
                labels[x[:-1]] = pos
            else:
                at[i] = pos
                pos += sizes[i]
        changed = False
        args = {}
        for i, x in ops:
            if isinstance(x, str):
                continue
            arg = x[1] if len(x) > 1 else 0
            if isinstance(arg, str):
                code = opc.opmap[x[0]]
                t = labels[arg]
                if code in opc.JREL_OPS:
                    t -= at[i] + sizes[i]
                assert t >= 0, x
                arg = t // unit
            args[i] = arg
            n = size_of(x[0], arg)
            if n > sizes[i]:
                sizes[i] = n
                changed = True
        if not changed:
            break
    out = bytearray()
    for i, x in ops:
        if isinstance(x, str):
            continue
        code, arg = opc.opmap[x[0]], args[i]
        if word:
            k = sizes[i] // 2
            for j in range(k - 1, 0, -1):
                out += bytes([opc.opmap["EXTENDED_ARG"], (arg >> (8 * j)) & 255])
            out += bytes([code, arg & 255])
        elif code < opc.HAVE_ARGUMENT:
            out.append(code)
        else:
            if sizes[i] == 6:
                out += bytes([opc.opmap["EXTENDED_ARG"], (arg >> 16) & 255, arg >> 24])
            out += bytes([code, arg & 255, (arg >> 8) & 255])
    return bytes(out)


def make_code(version, instrs, pypy=False, **kw):
    d = dict(co_argcount=0, co_posonlyargcount=0, co_kwonlyargcount=0, co_nlocals=0, co_stacksize=40, co_flags=0x43,
             co_code=assemble(version, instrs, pypy), co_consts=(None,), co_names=(), co_varnames=(),
             co_filename="prog.py", co_name="f", co_qualname="f", co_firstlineno=1, co_lnotab=b"", co_freevars=(),
             co_cellvars=(), co_exceptiontable=b"", version_triple=tuple(version[:2]) + (0,))
    d.update(kw)
    d["co_nlocals"] = len(d["co_varnames"])
    return to_portable(**d)


def new_vm(version, pypy=False, traced=None):
    from xpython.vm import PyVM
    i = PythonImplementation.PyPy if pypy else PythonImplementation.CPython
    if traced is not None:
        from xpython.vmtrace import PyVMTraced
        return PyVMTraced(traced, python_version=version, python_implementation=i)
    return PyVM(version, i)


def run(version, code, args=None, glob=None, pypy=False, vm=None, outer=True):
    """("return", value) or ("raise", exception), as a caller sees it, and the interpreter.

    outer=True: the code runs as called from another (host) function while a
    frame is active, so that exceptions arrive unchanged.
    """
    vm = vm or new_vm(version, pypy)
    g = {"__name__": "prog", "__builtins__": __builtins__}
    g.update(glob or {})
    if outer:
        base = vm.make_frame(make_code(version, [], pypy, co_name="<module>", co_flags=0), f_globals=g, f_locals={})
        base.f_lasti = 0
        vm.push_frame(base)
    frame = vm.make_frame(code, dict(args or {}), f_globals=g, f_locals=None if code.co_flags & 2 else g)
    depth = len(vm.frames)
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            r = ("return", vm.eval_frame(frame))
        except BaseException as e:
            r = ("raise", e)
    if len(vm.frames) != depth:
        r = ("frames left", len(vm.frames) - depth, r)
    return r, vm
