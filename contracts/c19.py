"""C19: running a program leaves the host process as it was, and reports its status."""
import contextlib
import io
import mimetypes
import os
import random
import subprocess
import sys
import tempfile
import time

import xpython.execfile as E
import xpython.pyobj as P
import xpython.vm as V
from xpython.vm import PyVM, PyVMUncaughtException
from xpython.vmtrace import PyVMTraced

from .base import *
from engine import asm

HOST = sys.version_info[:2]
ONE = [{"version": HOST, "pypy": False}]


# ------------------------------------------------------------------ the host process, as the runners see it
class Sys:
    """Stands for the module sys while a runner is checked."""

    def exit(self, rc=None):
        raise SystemExit(rc)

    def exc_info(self):
        return sys.exc_info()

    def __getattr__(self, name):
        return getattr(sys, name)


class Module:
    def __init__(self, name):
        self.__name__ = name


class Code:
    pass


class Builtins:
    pass


class Source:
    def __init__(self, world):
        self.world = world

    def read(self):
        self.world.step("read")
        return self.world.source

    def close(self):
        self.world.opened = self.world.opened - 1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False


class World:
    """A host process; step `fails` of running a program raises `exception`."""

    def step(self, name):
        if name == self.fails:
            raise self.exception

    def new_module(self, name):
        return Module(name)

    def open_source(self, fname):
        self.step("open")
        self.opened = self.opened + 1
        return Source(self)

    def compile(self, source, filename, mode="exec", *args, **kw):
        self.step("compile")
        self.compiled.append([source.rstrip("\n"), filename == self.sys.argv[0], mode])
        return self.code

    def load_module(self, filename):
        self.step("load")
        return self.version, 0, 0, self.code, self.implementation, 0, None, None

    def source_is_older(self, source_path, bytecode_path):
        return self.older

    def make_compatible_builtins(self, builtins, target_python):
        self.adapted.append(target_python[:2])

    def print(self, *args, **kw):
        pass

    def exec_code_object(self, code, env, python_version=E.PYTHON_VERSION_TRIPLE,
                         python_implementation=E.PYTHON_IMPLEMENTATION, callback=None,
                         format_instruction=E.format_instruction):
        s = self.sys
        file = env.get("__file__")
        if self.kind == "string":       # which name a program without a file gets is left open
            names = [file == s.argv[0]]
        else:
            names = [file, s.argv[0]]
        self.seen.append([code, python_version[:2], python_implementation, callback, format_instruction, names, s.argv[1:],
                          list(s.path), namespace_of(env, s.modules["__main__"]), env.get("__name__"),
                          env.get("__package__"), env.get("__builtins__") is self.builtins])
        # the program can do what it likes
        for what in self.program:
            if what == "main":
                s.modules["__main__"] = None
            elif what == "no main":
                del s.modules["__main__"]
            elif what == "argument":
                s.argv.append("another")
            elif what == "arguments":
                s.argv = None
            elif what == "path":
                s.path.insert(0, "another")
            elif what == "no path":
                s.path[:] = []
            elif what == "paths":
                s.path = ["another"]
        self.step("run")
        return self.rc


def namespace_of(env, module):
    return env is module.__dict__


NAMES = ["new_module", "open_source", "compile", "load_module", "source_is_older", "make_compatible_builtins", "print",
         "exec_code_object"]


def in_world(w, fn, *args):
    """Call fn, with w standing for the rest of the process."""
    return within(fn, args, dict([(n, getattr(w, n)) for n in NAMES], sys=w.sys, BUILTINS=w.builtins))


def within(fn, args, names):
    g, missing = E.__dict__, object()
    saved = {k: g.get(k, missing) for k in names}
    g.update(names)
    try:
        return fn(*args)
    finally:
        for k, v in saved.items():
            if v is missing:
                del g[k]
            else:
                g[k] = v


def symbolic_within(it, fn, args, names):
    g, missing = E.__dict__, object()
    saved = {k: g.get(k, missing) for k in names}
    g.update(names)
    try:
        return it.call(fn, args)
    finally:
        for k, v in saved.items():
            if v is missing:
                del g[k]
            else:
                g[k] = v


def world_stubs(it):
    def h_world(it, args, kwargs):
        w, fn, *rest = args
        names = {n: it.m.getattr(w, n) for n in NAMES}
        names.update(sys=w.attrs["sys"], BUILTINS=w.attrs["builtins"])
        return symbolic_within(it, fn, rest, names)

    def concrete(fn):
        """Host functions of file names, which are concrete here."""
        def h(it, args, kwargs):
            return fn(*args, **kwargs)
        return h
    d = {in_world: h_world, namespace_of: lambda it, a, k: True}
    for fn in (mimetypes.guess_type, os.path.abspath, os.path.dirname, os.path.realpath, os.path.splitext, os.path.join,
               os.path.basename, os.path.split, os.path.exists, os.fspath):
        d[fn] = concrete(fn)
    return d


STEPS = {"file": ["open", "read", "compile", "run"], "bytecode": ["load", "run"], "string": ["compile", "run"]}
DID = [[], ["main"], ["no main"], ["argument"], ["arguments"], ["path"], ["no path"], ["paths"]]


def pre_run(b):
    b.setup_vm()
    kind = b.variant["run"]
    fails = b.choose("fails", [None] + STEPS[kind])
    did = b.choose("program", DID if fails in (None, "run") else [[]])
    plain = fails is None and not did
    few = None if plain else 1
    args = b.choose("arguments", ["tuple", "list", "not iterable"]) if plain else "tuple"
    args = {"tuple": b.tuple, "list": b.list}[args]("args") if args != "not iterable" else None
    old_path = b.list("path")
    if b.choose("path", ["something", "nothing"]) == "nothing":
        old_path = b.lst([])
    elif b.sym:
        from engine.core import E as One
        old_path.segs = [One(b.str("first entry"))] + old_path.segs
    else:
        old_path.insert(0, "first entry")
    w = {"version": HOST, "implementation": impl(False), "source": "", "older": False}
    name = "x.py"
    if kind == "bytecode":
        name = b.str("source name")
        w["version"] = b.choose("version", [(3, 8, 2), (2, 7, 18), (3, 12, 0), (3, 13, 0), (2, 3, 0)][:few])
        w["implementation"] = b.choose("implementation", [impl(False), impl(True)][:few])
        w["older"] = b.choose("older", [True, False][:few])
    elif kind == "file":
        w["source"] = b.choose("source", SOURCES[:few])
    main, argv = b.any("host main"), b.list("host arguments")
    s = b.obj(Sys, "sys", modules=b.dic([("__main__", main)]), argv=argv, path=old_path)
    w.update(sys=s, kind=kind, fails=fails, exception=failure(b, fails), code=b.obj(Code, "code", co_filename=name), opened=0,
             seen=b.lst([]), compiled=b.lst([]), adapted=b.lst([]), rc=b.any("rc"), program=b.lst(did),
             builtins=b.obj(Builtins, "builtins"))
    world = b.obj(World, "world", **w)
    if kind == "string":
        which = SOURCES
    else:
        which = [d + {"file": ".py", "bytecode": ".pyc"}[kind] for d in ("prog", "/a/b/prog", "sub/prog")]
        which += ["prog", "dir/"] if kind == "file" else []
    what = b.choose("what", which if plain else which[1:3])
    return [kind, world, what, args, b.choose("package", [None, "pack"]), b.func("callback"), b.any("format")]


SOURCES = ["", "x = 1", "x = 1\n", "a_rather_long_name = 'longer than what is shown of it'\n"]


def failure(b, fails):
    e = b.exc("failure", BaseException if b.sym else b.r.choice([BaseException, ImportError, OSError]))
    b.not_instance(e, E.NoSourceError, E.WrongBytecodeError)
    if fails == "compile":
        b.not_instance(e, OSError, ImportError)
    return e


def outcome(fn, *args):
    try:
        fn(*args)
    except SystemExit as e:
        return ["exit", e]
    except E.NoSourceError:
        return ["no source"]
    except E.WrongBytecodeError:
        return ["wrong bytecode"]
    except BaseException as e:
        return ["raised", e]
    return ["returned"]


def real_run(kind, w, what, args, package, callback, fmt):
    s = w.sys
    r = outcome(in_world, w, E.run_python_string if kind == "string" else E.run_python_file, what, args, package, callback, fmt)
    return [r if args is not None else r[0], w.seen, w.adapted, w.compiled, w.opened,
            s.modules.get("__main__"), s.argv, s.path]


def spec_run(kind, w, what, args, package, callback, fmt):
    s = w.sys
    main, argv, path = s.modules["__main__"], s.argv, s.path
    seen, adapted, compiled = [], [], []
    if args is None:
        r = "raised"
    elif w.fails in ("open", "read", "load"):
        r = ["no source"] if isinstance(w.exception, (OSError, ImportError)) else raised(w.exception)
    else:
        if kind == "bytecode":
            ok = (2, 4) <= w.version[:2] <= (2, 7) or (3, 1) <= w.version[:2] <= (3, 12)
        else:
            ok = True
        if not ok:
            r = ["wrong bytecode"]
        elif w.fails == "compile":
            r = raised(w.exception)
        else:
            if kind == "bytecode":
                adapted.append(w.version[:2])
            elif kind == "file":
                compiled.append([w.source.rstrip("\n"), True, "exec"])
            else:
                compiled.append([what.rstrip("\n"), True, "exec"])
            if kind == "string":
                where, names = path, [True]
            else:
                where = ["" if package else os.path.abspath(os.path.dirname(what))] + path[1:]
                names = [w.code.co_filename if kind == "bytecode" else what, what]
            seen.append([w.code, w.version[:2], w.implementation, callback, fmt, names, list(args), list(where), True,
                         "__main__", package, True])
            r = raised(w.exception) if w.fails == "run" else ["exit", SystemExit(w.rc)]
    return [r, seen, adapted, compiled, 0, main, argv, path]


def raised(e):
    return ["exit" if isinstance(e, SystemExit) else "raised", e]


Contract("run_python_file", ["C19"], [{"version": HOST, "pypy": False, "run": k} for k in ("file", "bytecode", "string")], pre_run,
         real_run, spec_run, stubs=world_stubs, observables=lambda *a: {}, fn=["run_python_file", "run_python_string"], limits=(60, 3000))


# ------------------------------------------------------------------ which interpreter runs it, and what becomes of its result
class Machine:
    def run_code(self, code, f_globals=None, f_locals=None, toplevel=True):
        self.world.ran.append([self.how, code, f_globals, f_locals, toplevel])
        if self.world.fails:
            raise self.world.exception
        return self.world.rc


class Machines:
    """Stands for the classes of interpreters while exec_code_object is checked."""

    def plain(self, python_version=E.PYTHON_VERSION_TRIPLE, python_implementation=E.PYTHON_IMPLEMENTATION, vmtest_testing=False,
              format_instruction_func=E.format_instruction):
        return self.made(None, python_version, python_implementation, format_instruction_func)

    def traced(self, callback, python_version=E.PYTHON_VERSION_TRIPLE, python_implementation=E.PYTHON_IMPLEMENTATION,
               vmtest_testing=False, event_flags=None, format_instruction_func=E.format_instruction):
        return self.made(callback, python_version, python_implementation, format_instruction_func)

    def made(self, callback, version, implementation, fmt):
        m = Machine()
        m.world = self
        m.how = [callback, version, implementation, fmt]
        return m

    def adapt(self, builtins, target_python):
        pass


def with_machines(w, fn, *args):
    return within(fn, args, {"PyVM": w.plain, "PyVMTraced": w.traced, "make_compatible_builtins": w.adapt})


def machine_stubs(it):
    def h(it, args, kwargs):
        w, fn, *rest = args
        m = it.m.getattr
        return symbolic_within(it, fn, rest, {"PyVM": m(w, "plain"), "PyVMTraced": m(w, "traced"),
                                              "make_compatible_builtins": m(w, "adapt")})
    return {with_machines: h}


def a_callback(*args):
    pass


def pre_exec(b):
    b.setup_vm()
    e = b.exc("failure")
    b.not_instance(e, PyVMUncaughtException)        # run_code's contract: it reports that one itself
    callback = b.choose("callback", [None, a_callback])
    return [b.obj(Machines, "machines", fails=b.choose("fails", [False, True]), exception=e, rc=b.any("rc"), ran=b.lst([])),
            b.any("code"), b.dict("namespace"), b.choose("version", [(2, 7), (3, 8, 2), (3, 12), tuple(E.PYTHON_VERSION_TRIPLE)]),
            b.choose("implementation", [impl(False), impl(True)]), callback, b.any("format")]


def real_exec(w, *args):
    try:
        r = with_machines(w, E.exec_code_object, *args)
    except BaseException as e:
        r = ["raised", e]
    return [r, w.ran]


def spec_exec(w, code, env, version, implementation, callback, fmt):
    ran = [[[callback, version, implementation, fmt], code, env, None, True]]
    return [["raised", w.exception] if w.fails else w.rc, ran]


Contract("exec_code_object", ["C19"], ONE, pre_exec, real_exec, spec_exec, stubs=machine_stubs, fn=["exec_code_object"])


# ------------------------------------------------------------------ run_code
class Tb:
    def print_tb(self, limit=None, file=None):
        pass


class Frame_:
    stack = ()


class Fate:
    """What becomes of the program."""

    def frame(self, code, f_globals, f_locals):
        self.did.append(["frame", code, f_globals, f_locals])
        return self.made

    def run(self, vm, frame):
        self.did.append(["run", frame is self.made])
        if self.exception is not None:
            vm.last_exception = self.last
            vm.last_traceback = self.tb
            raise self.exception
        return self.value


def pre_code(b):
    vm, f = b.setup_vm()
    how = b.choose("how", ["value", "uncaught", "other"])
    tb = b.choose("traceback", [None, b.obj(Tb, "tb")]) if how != "value" else None
    e = {"value": None, "uncaught": b.obj(PyVMUncaughtException, "uncaught", args=b.tup([]))}.get(how) if how != "other" else b.exc("failure")
    if how == "other":
        b.not_instance(e, PyVMUncaughtException)
    cls = b.choose("class", [ValueError, KeyError, ZeroDivisionError]) if how != "value" else ValueError
    value = b.choose("exception", [b.obj(cls, "exception value", args=b.tup([1])), None]) if how != "value" else None
    fate = b.obj(Fate, "fate", exception=e, value=b.any("value"), did=b.lst([]), made=b.obj(Frame_, "frame made"),
                 last=b.tup([cls, value, None]), tb=tb)
    b.setvm(fate=fate, frames=b.lst([]), frame=None)
    toplevel = b.choose("toplevel", [True, False])
    return [vm, b.any("code"), b.dict("the globals"), b.choose("locals", [None, b.dict("the locals")]), toplevel]


def real_code(vm, code, g, loc, toplevel):
    try:
        r = ["returned", vm.run_code(code, g, loc, toplevel)]
    except BaseException as e:
        r = ["raised", e]
    return [r, vm.fate.did]


def spec_code(vm, code, g, loc, toplevel):
    did = [["frame", code, g, loc], ["run", True]]
    t = vm.fate
    if t.exception is None:
        return [["returned", 0 if toplevel else t.value], did]
    vm.last_exception = t.last
    vm.last_traceback = t.tb
    if toplevel and isinstance(t.exception, PyVMUncaughtException):
        return [["returned", 1], did]
    return [["raised", t.exception], did]


def code_stubs(it):
    def h_make(it, args, kwargs):
        a = dict(zip(["vm", "code", "callargs", "f_globals", "f_locals", "closure"], args))
        a.update(kwargs)
        return it.call(Fate.frame, [a["vm"].attrs["fate"], a["code"], a.get("f_globals"), a.get("f_locals")])

    def h_run(it, args, kwargs):
        return it.call(Fate.run, [args[0].attrs["fate"], args[0], args[1]])
    return {PyVM.make_frame: h_make, PyVM.eval_frame: h_run, print: lambda it, a, k: None}


def code_native(b, phase):
    saved = PyVM.make_frame, PyVM.eval_frame

    def make(vm, code, callargs={}, f_globals=None, f_locals=None, closure=None):
        return vm.fate.frame(code, f_globals, f_locals)
    PyVM.make_frame = make
    PyVM.eval_frame = lambda vm, frame: vm.fate.run(vm, frame)
    V.print = lambda *a, **k: None

    def undo():
        PyVM.make_frame, PyVM.eval_frame = saved
        del V.print
    return [undo]


Contract("run_code", ["C19"], ONE, pre_code, real_code, spec_code, stubs=code_stubs, native_stubs=code_native, fn=["run_code"])


# ------------------------------------------------------------------ programs that are really run
ENDS = [("pass", ["exit", 0]), ("raise ValueError(3)", ["exit", 1]), ("1/0", ["exit", 1]), ("undefined_name", ["exit", 1]),
        ("sys.exit()", ["exit", None]), ("sys.exit(0)", ["exit", 0]), ("sys.exit(5)", ["exit", 5]), ("sys.exit('bye')", ["exit", "bye"]),
        ("raise SystemExit(7)", ["exit", 7]), ("raise SystemExit", ["exit", None]), ("raise KeyboardInterrupt", ["KeyboardInterrupt"]),
        ("class Own(Exception): pass\nraise Own('x', 2)", ["exit", 1]), ("assert False, 'no'", ["exit", 1]), ("sys.exit(True)", ["exit", True]),
        ("import no_such_module", ["exit", 1]), ("next(iter([]))", ["exit", 1]), ("exit(3)", ["exit", 3])]
CHANGES = ["sys.argv.append('more')", "sys.argv = ['other']", "del sys.argv[:]", "sys.path.insert(0, 'zz')", "sys.path[:1] = ['yy']", "del sys.path[1:]",
           "sys.path = ['ww']", "sys.modules['__main__'] = sys", "del sys.modules['__main__']", "sys.path.append('vv')", "sys.path.clear()"]


def indent(text):
    return "\n".join("    " + x for x in text.split("\n"))


def wrapped(r, text):
    k = r.randrange(9)
    i = indent(text)
    if k == 0:
        return f"def f():\n{i}\nf()"
    if k == 1:
        return f"try:\n{i}\nfinally:\n    u = 1"
    if k == 2:
        return f"try:\n{i}\nexcept LookupError:\n    u = 1"
    if k == 3:
        return f"for i in (1,):\n{i}"
    if k == 4:
        return f"try:\n    {{}}[1]\nexcept KeyError:\n{i}"
    if k == 5:
        return f"def g():\n{i}\n    yield 1\nfor q in g(): pass"
    if k == 6:
        return f"class C:\n{i}"
    if k == 7:
        return f"exec({text!r})"
    return text


def program(r):
    end, want = r.choice(ENDS)
    for _ in range(r.choice([0, 0, 1, 2])):
        end = wrapped(r, end)
    lines = ["import sys", "print(repr((__name__, __file__, sys.argv, sys.path[0], sys.modules['__main__'].__dict__ is globals())))"]
    return "\n".join(lines + r.sample(CHANGES, r.choice([0, 0, 1, 2])) + [end] + ([""] if r.random() < .5 else [])), want


def host_state():
    return sys.modules.get("__main__"), list(sys.argv), list(sys.path)


@contextlib.contextmanager
def quiet():
    """Tracebacks go to the standard error there was when the module was loaded."""
    saved = P.Traceback.print_tb
    P.Traceback.print_tb = lambda tb, *a, **k: saved(tb, file=io.StringIO())
    try:
        yield
    finally:
        P.Traceback.print_tb = saved


def run_case(seed):
    r = random.Random(seed)
    kind = r.choice(["file", "file", "bytecode", "string", "string", "bad"])
    text, want = program(r)
    args = r.choice([(), ("a",), ["-x", "b c"], ("1", "2", "3")])
    callback = (lambda *a: None) if r.random() < .3 else None
    saved, saved_argv, saved_path = host_state(), sys.argv, sys.path
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, r.choice(["prog.py", "prog", "my prog.py"]))
        if kind == "bytecode":
            name = os.path.join(d, "prog.pyc")
            import importlib._bootstrap_external as be
            source = os.path.join(d, "prog.py")
            data = bytes(be._code_to_timestamp_pyc(compile(text, source, "exec"), 1, len(text)))
        elif kind == "bad":
            what = r.choice(["missing", "directory", "syntax", "encoding", "bytecode", "unsupported", "null"])
            name = os.path.join(d, "prog.py" if what != "bytecode" and what != "unsupported" else "prog.pyc")
            data = {"syntax": b"x = = 1\n", "encoding": b"# coding: nonesuch\nx = 1\n", "bytecode": b"\x00\x01",
                    "unsupported": b"\x99\x4e\x0d\x0a" + bytes(20), "null": b"x = '\0'\n"}.get(what)
            want = {"missing": ["NoSourceError"], "directory": ["NoSourceError"], "syntax": ["SyntaxError"],
                    "encoding": ["SyntaxError"], "null": ["SyntaxError"]}.get(what, ["an error"])
            if what == "directory":
                os.mkdir(name)
        else:
            data = text.encode()
        if kind != "string" and data is not None:
            with open(name, "wb") as f:
                f.write(data)
        cwd = r.random() < .3
        given = os.path.basename(name) if cwd else name
        out = io.StringIO()
        try:
            if cwd:
                os.chdir(d)
            with quiet(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                if kind == "string":
                    E.run_python_string(text, args, callback=callback)
                else:
                    E.run_python_file(given, args, callback=callback)
            got = ["returned"]
        except SystemExit as e:
            got = ["exit", e.code]
        except BaseException as e:
            got = [type(e).__name__]
        finally:
            os.chdir(here)
            state = host_state()
            sys.modules["__main__"] = saved[0]
            sys.argv, sys.path = saved_argv, saved_path
            sys.argv[:], sys.path[:] = saved[1], saved[2]
        shown = out.getvalue().split("\n")[0]
    about = {"run": seed, "kind": kind, "program": text, "arguments": list(args), "traced": callback is not None}
    if state[0] is not saved[0] or state[1:] != saved[1:]:
        return dict(about, expected=f"the process as it was: {saved[0]}, {saved[1]}, {saved[2]}", got=repr(state))
    if want == ["an error"] and got[0] not in ("returned", "exit"):
        want = got
    if kind == "bad":
        about["program"] = what
    if got != want or (want[0] == "exit" and type(got[1]) is not type(want[1])):
        return dict(about, expected=repr(want), got=repr(got))
    if kind == "bad":
        return None
    if kind == "string":
        try:
            seen = eval(shown)
        except Exception:
            seen = None
        ok = isinstance(seen, tuple) and seen[0] == "__main__" and seen[1] == seen[2][0] and seen[2][1:] == list(args) and seen[4]
        if not ok:
            return dict(about, expected="its own name and arguments", got=shown)
    else:
        file = source if kind == "bytecode" else given
        expected = repr(("__main__", file, [given] + list(args), os.path.realpath(d) if cwd else d, True))
        if shown != expected:
            return dict(about, expected=expected, got=shown)
    return None


def run_search(tier, seed, secs):
    end, n = time.time() + secs, 0
    sample = []
    for k in range(3000 if tier == "quick" else 6000):
        n += 1
        bad = run_case(f"{seed}:{k}")
        if len(sample) < 3:
            sample.append(f"run {seed}:{k}")
        if bad or time.time() > end:
            return n, bad, sample, n
    return n, None, sample, n


Bounded("programs run in this process", "C19", run_search, lambda d: run_case(d["run"]),
        "random short programs that end in 17 ways inside at most two constructs and change the process in 11 ways; files that cannot be loaded")


CLI = [("print(1)", 0), ("1/0", 1), ("import sys\nsys.exit(5)", 5), ("import sys\nsys.exit('bye')", 1), ("import sys\nsys.exit()", 0),
       ("raise SystemExit(255)", 255), ("x = = 1", 1), ("def f():\n    raise KeyError(1)\ntry:\n    f()\nfinally:\n    x = 1", 1)]


def cli_case(i, string):
    text, want = CLI[i]
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "prog.py")
        with open(name, "w") as f:
            f.write(text)
        p = subprocess.run(["/opt/venv/bin/python", "-m", "xpython"] + (["-c", text] if string else [name]), cwd=REPO,
                           capture_output=True, text=True, timeout=60, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode != want:
        return {"cli": [i, string], "program": text, "expected": f"status {want}", "got": f"status {p.returncode}",
                "output": (p.stdout + p.stderr)[-600:]}
    return None


def cli_search(tier, seed, secs):
    from concurrent.futures import ThreadPoolExecutor
    cases = [(i, s) for i in range(len(CLI)) for s in (False, True)]
    with ThreadPoolExecutor(4) as pool:
        for bad in pool.map(lambda c: cli_case(*c), cases):
            if bad:
                return len(cases), bad, [], len(cases)
    return len(cases), None, [repr(CLI[0])], len(cases)


Bounded("status of the command", "C19", cli_search, lambda d: cli_case(*d["cli"]), "eight programs, as files and as strings")
