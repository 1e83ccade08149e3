"""C17: each interpreter uses exactly its own version's instruction set."""
import importlib
import json
import random
import subprocess
import sys
import time

import z3

import xpython.byteop as B
import xpython.vm as V
from xpython.vm import PyVM, PyVMError
from xpython.vmtrace import PyVMTraced

from .base import *
from engine import asm
from xdis.version_info import PythonImplementation

CPYTHON = [v for v, pp in flavours() if not pp]
PYPY = [v for v, pp in flavours() if pp]


def class_name(v, pp):
    return "ByteOp%d%d" % v + ("PyPy" if pp else "")


CLASSES = {}
for v_, pp_ in flavours():
    m_ = importlib.import_module("xpython.byteop." + class_name(v_, pp_).lower())
    CLASSES[v_, pp_] = getattr(m_, class_name(v_, pp_))


# ------------------------------------------------------------------ get_byteop, for every version number
def pre_select(b):
    b.setup_vm()
    major, minor = b.int("major", 0), b.int("minor", 0)
    pp = b.variant["pypy"]
    b.ctx.assume(major.t <= 3)        # xdis knows no version 4.0, so no interpreter gets there
    if pp:
        # which instructions a version of PyPy gets that is not supported is left open
        for v in CPYTHON:
            if v not in PYPY:
                b.ctx.assume(z3.Or(major.t != v[0], minor.t != v[1]))
    rest = b.choose("micro", [(), (b.int("micro", 0),)])
    return [b.vm, (major, minor) + rest, PythonImplementation.PyPy if pp else PythonImplementation.CPython, pp]


def real_select(vm, version, i, pp):
    try:
        r = B.get_byteop(vm, version, i)
    except Exception:
        return "rejected"
    return described(r)


def described(r):
    return [type(r), r.vm]


def spec_select(vm, version, i, pp):
    for (v, p), c in ALL:
        if p == pp and version[0] == v[0] and version[1] == v[1]:
            return [c, vm]
    return "rejected"


ALL = tuple(CLASSES.items())


def select_stubs(it):
    from engine.core import HObj

    def made(c):
        return lambda it, a, k: HObj(c, {"vm": a[0]})
    return {c: made(c) for _, c in ALL}


def select_native(b, phase):
    return []


Contract("get_byteop", ["C17"], [{"version": (3, 9), "pypy": pp} for pp in (False, True)], pre_select, real_select, spec_select,
         stubs=select_stubs, fn=["get_byteop"], limits=(60, 2000), native=False)


# ------------------------------------------------------------------ every opcode, every selection: exhaustive
def opcode_case(v, pp, n, arg):
    """A function that executes operation n, if that is none of the instruction set, and nothing else."""
    vm = asm.new_vm(v, pp)
    name = vm.opc.opname[n]
    if name == "EXTENDED_ARG" or name.startswith(FAMILIES) or hasattr(vm.byteop, name):
        return None
    wide = v >= (3, 6)
    code = bytes([n, arg]) if wide else bytes([n, arg, 0]) if n >= vm.opc.HAVE_ARGUMENT else bytes([n])
    pre = asm.make_code(v, ([("RESUME", 0)] if v >= (3, 11) else []) + [("LOAD_CONST", 0)] * 3, pp,
                        co_names=("a", "b"), co_varnames=("c", "d"))
    post = asm.make_code(v, [("LOAD_CONST", 0), ("RETURN_VALUE",)], pp).co_code
    pre.co_code = pre.co_code + code + post * 60
    r, vm = asm.run(v, pre, pypy=pp, vm=vm)
    if r[0] == "raise" and isinstance(r[1], PyVMError) and name in str(r[1]):
        return None
    return {"flavour": [list(v), pp], "opcode": n, "argument": arg, "name": name,
            "expected": f"PyVMError naming {name}", "got": repr(r)}


FAMILIES = ("UNARY_", "BINARY_", "INPLACE_", "SLICE", "STORE_SLICE", "DELETE_SLICE")


def opcode_search(tier, seed, secs):
    n, names = 0, []
    for v, pp in flavours():
        for i in range(256):
            for arg in (0, 1):
                n += 1
                bad = opcode_case(v, pp, i, arg)
                if bad:
                    return n, bad, names[:3], n
    return n, None, ["opcode 8 of 3.8"], n


Bounded("operations that do not exist", "C17", opcode_search,
        lambda d: opcode_case(tuple(d["flavour"][0]), d["flavour"][1], d["opcode"], d["argument"]),
        "every opcode number of every supported flavour, with arguments 0 and 1")


def table(vm):
    """What decides the semantics of an interpreter's instructions."""
    b = vm.byteop
    ops = {}
    for n in range(256):
        name = vm.opc.opname[n]
        if name == "BRKPT":
            name = f"<{n}>"
        f = getattr(b, name, None)
        f = getattr(f, "__func__", f)
        ops[str(n)] = [name, getattr(f, "__module__", None) and f.__module__ + "." + f.__qualname__]
    opmap = sorted((k, n) for k, n in vm.opc.opmap.items() if k != "BRKPT")
    return {"ops": ops, "opmap": [list(x) for x in opmap], "class": type(b).__name__, "version": list(vm.version),
            "is_pypy": [vm.is_pypy], "version_info": list(b.version_info[:2]), "formatters": sorted(b.stack_fmt),
            "bound": b.vm is vm, "have_argument": vm.opc.HAVE_ARGUMENT}


ALONE = """
import sys
sys.path[:0] = %r
from contracts.c17 import *
import json
out = {}
for arg in sys.argv[1:]:
    v, pp = json.loads(arg)
    print(json.dumps(table(asm.new_vm(tuple(v), pp))))
"""


def alone(v, pp):
    """The table of the flavour's interpreter in a process that creates no other."""
    r = subprocess.run([sys.executable, "-c", ALONE % (sys.path,), json.dumps([list(v), pp])], capture_output=True, text=True,
                       timeout=120)
    if r.returncode:
        raise RuntimeError(r.stderr[-800:])
    return json.loads(r.stdout.strip().splitlines()[-1])


def probe(v, pp, vm):
    """A small function that runs on the interpreter."""
    code = asm.make_code(v, ([("RESUME", 0)] if v >= (3, 11) else []) + [("LOAD_CONST", 1), ("RETURN_VALUE",)], pp,
                         co_consts=(None, 42))
    return repr(asm.run(v, code, pypy=pp, vm=vm)[0])


ALONE_CACHE = {}


def all_alone():
    from concurrent.futures import ThreadPoolExecutor
    if not ALONE_CACHE:
        fl = list(flavours())
        with ThreadPoolExecutor(8) as ex:
            for f, t in zip(fl, ex.map(lambda f: alone(*f), fl)):
                ALONE_CACHE[f] = t
    return ALONE_CACHE


def order_case(order):
    """Creating interpreters in that order leaves each of them as if it were the only one."""
    want = all_alone()
    made = []
    for v, pp, traced in order:
        v = tuple(v)
        try:
            vm = asm.new_vm(v, pp, (lambda *a: None) if traced else None)
        except Exception as e:
            return {"order": [list(x) for x in order], "expected": f"an interpreter for {v} {pp}", "got": repr(e)}
        made.append((v, pp, vm, traced))
        for v2, pp2, vm2, tr2 in made:
            got = json.loads(json.dumps(table(vm2)))
            if got != want[v2, pp2]:
                diff = {k: (want[v2, pp2][k], got[k]) for k in got if got[k] != want[v2, pp2][k]}
                for k in ("ops",):
                    if k in diff:
                        diff[k] = {n: (want[v2, pp2][k][n], x) for n, x in got[k].items() if x != want[v2, pp2][k][n]}
                return {"order": [list(x) for x in order], "interpreter": [list(v2), pp2, tr2],
                        "expected": "as if alone", "got": repr(diff)[:1500]}
            if not tr2 and "BRKPT" in vm2.opc.opmap:
                return {"order": [list(x) for x in order], "interpreter": [list(v2), pp2, tr2],
                        "expected": "no breakpoint operation in a plain interpreter", "got": "opmap has BRKPT"}
    for v, pp, vm, traced in made:
        if not traced and probe(v, pp, vm) != "('return', 42)":
            return {"order": [list(x) for x in order], "interpreter": [list(v), pp], "expected": "42", "got": probe(v, pp, vm)}
    return None


def selection_case(v, pp):
    """The selected instruction set is that of the version."""
    t = all_alone()[v, pp]
    want = {"class": class_name(v, pp), "version": list(v), "version_info": list(v), "is_pypy": [pp], "bound": True}
    got = {k: t[k] for k in want}
    names = {n: x[0] for n, x in t["ops"].items()}
    ref = opcode_module(v, pp).opname
    bad = {n: (ref[int(n)], x) for n, x in names.items() if ref[int(n)] != x and ref[int(n)] != "BRKPT"}
    if got != want or bad:
        return {"selection": [list(v), pp], "expected": repr(want), "got": repr(got) + repr(bad)}
    return None


def order_search(tier, seed, secs):
    n, bad, samples = 0, None, []
    for v, pp in flavours():
        n += 1
        bad = selection_case(v, pp)
        if bad:
            return n, bad, samples, n
    fl = [(v, pp, tr) for v, pp in flavours() for tr in (False, True)]
    for x in fl:
        for y in fl if tier != "quick" else random.Random(f"{seed}{x}").sample(fl, 6):
            n += 1
            bad = order_case([x, y])
            if bad:
                return n, bad, samples, n
    end = time.time() + secs
    r = random.Random(f"order:{seed}")
    while time.time() < end:
        order = [r.choice(fl) for _ in range(r.randint(3, 12))]
        n += 1
        bad = order_case(order)
        if bad:
            return n, bad, samples, n
        if len(samples) < 2:
            samples.append(repr(order))
    return n, None, samples, n


def order_replay(d):
    if "selection" in d:
        return selection_case(tuple(d["selection"][0]), d["selection"][1])
    return order_case([(tuple(v), pp, tr) for v, pp, tr in d["order"]])


Bounded("interpreters do not affect each other", "C17", order_search, order_replay,
        "pairs of flavours, plain and tracing, and random sequences of at most 12 interpreters")


def reject_case(v, pp):
    try:
        vm = asm.new_vm(v, pp)
    except Exception:
        return None
    return {"unsupported": [list(v), pp], "expected": "an error", "got": type(vm.byteop).__name__}


UNSUPPORTED = [((a, b), False) for a in range(0, 5) for b in range(0, 30) if (a, b) not in CPYTHON] + [
    ((a, b), True) for a in range(0, 5) for b in range(0, 30) if (a, b) not in PYPY and (a, b) not in CPYTHON]


def reject_search(tier, seed, secs):
    n = 0
    for v, pp in UNSUPPORTED:
        n += 1
        bad = reject_case(v, pp)
        if bad:
            return n, bad, [], n
    return n, None, [repr(UNSUPPORTED[:3])], n


Bounded("unsupported versions", "C17", reject_search, lambda d: reject_case(tuple(d["unsupported"][0]), d["unsupported"][1]),
        "versions 0.0 to 4.29")


# ------------------------------------------------------------------ every operation means what its version says
def meaning_case(key, seed):
    from engine.native import Discard, differ
    for c in Contract.registry:
        if c.real is real_dispatch:
            for v in c.variants:
                if c.key(v) == key:
                    try:
                        d = differ(c, v, seed)
                    except Discard:
                        return None
                    return d and {"operation": key, "seed": seed, "difference": str(d[0]), "expected": repr(d[1])[:600],
                                  "got": repr(d[2])[:600]}


def meanings(shard, shards):
    """The operations of one part of the flavours, against the contracts of all the other properties."""
    mine = list(flavours())[shard::shards]

    def search(tier, seed, secs):
        from engine.native import Discard, differ
        n, keys, bad, samples = 0, set(), None, []
        end = time.time() + 60 + 20 * secs
        for k in range(6 if tier == "quick" else 200):
            for c in Contract.registry:
                if c.real is not real_dispatch or not c.native:
                    continue
                for v in c.variants:
                    if (v["version"], v["pypy"]) not in mine or time.time() > end:
                        continue
                    n += 1
                    keys.add(c.key(v))
                    try:
                        d = differ(c, v, seed * 1000003 + 500 + k)
                    except Discard:
                        continue
                    if d:
                        return n, meaning_case(c.key(v), seed * 1000003 + 500 + k), samples, len(keys)
        return n, bad, sorted(keys)[:2], len(keys)
    return search


SHARDS = 8
for s_ in range(SHARDS):
    Bounded(f"operations mean what their version says ({s_ + 1} of {SHARDS})", "C17", meanings(s_, SHARDS),
            lambda d: meaning_case(d["operation"], d["seed"]),
            "6 random operand sets for each operation of the flavours (200 in the thorough check), against the operation's contract")
