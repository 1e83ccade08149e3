"""Bounded stand-ins: whole programs on the real interpreter against the host Python as the oracle."""
import io
import random
import sys
import time
import contextlib

from .common import *


def run_host(src, name="prog.py"):
    g = {"__name__": "prog", "__builtins__": __builtins__}
    out = io.StringIO()
    code = compile(src, name, "exec", dont_inherit=True)
    with contextlib.redirect_stdout(out):
        try:
            exec(code, g)
            end = None
        except BaseException as e:
            end = type(e).__name__
    return out.getvalue(), end


def run_vm(src, name="prog.py", code=None, version=(3, 12), pypy=False, vm=None):
    from xpython.vm import PyVM, PyVMUncaughtException
    g = {"__name__": "prog", "__builtins__": __builtins__}
    out = io.StringIO()
    if code is None:
        code = compile(src, name, "exec", dont_inherit=True)
    vm = vm or PyVM(version, impl(pypy))
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            frame = vm.make_frame(code, f_globals=g, f_locals=g)
            vm.eval_frame(frame)
            end = None
        except PyVMUncaughtException as e:
            end = e.args[0] if e.args else e.__class__.__name__
            end = vm.last_exception[0].__name__ if vm.last_exception and vm.last_exception[0] else end
        except BaseException as e:
            end = type(e).__name__
    return out.getvalue(), end, vm


def compare_programs(gen, replay_only=None):
    """gen(random.Random) -> source.  A Bounded fn/replay pair."""
    def one(src):
        h = run_host(src)
        v = run_vm(src)[:2]
        if h != v:
            return {"program": src, "expected": repr(h), "got": repr(v)}
        return None

    def fn(tier, seed, secs):
        end = time.time() + secs
        n, samples, seen = 0, [], set()
        while time.time() < end and n < (150 if tier == "quick" else 5000):
            src = gen(random.Random(f"{seed}:{n}"))
            n += 1
            seen.add(src)
            bad = one(src)
            if bad:
                return n, bad, samples, len(seen)
            if len(samples) < 2:
                samples.append(src[:300])
        return n, None, samples, len(seen)

    def replay(d):
        return one(d["program"])
    return fn, replay
