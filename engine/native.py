"""Native evaluation of a contract: the real code and the spec run in CPython on
identically built concrete states, with scripted operands.

Used (a) to replay a refuted obligation on the real code, (b) as the bounded
stand-in for a function outside the symbolic interpreter's subset, (c) as a
run-time cross-check of the contracts the symbolic engine proves.
"""
import logging
import random
import sys
import types
import functools

from .common import *

NOISE = {"im_func", "func_name", "gi_frame_", "gi_frame", "co_name"}


class Discard(BaseException):
    pass


class Script:
    def __init__(self, seed, fmt_events=False, raise_p=0.2):
        self.seed = seed
        self.log = []
        self.k = 0
        self.on_event = None
        self.labels = {}
        self.keep = []
        self.fmt_events = fmt_events
        self.raise_p = raise_p
        self.frozen = False
        self.canon = None
        self.exc_pool = None
        self.kw_unordered = False

    def label(self, o, name):
        if id(o) not in self.labels:
            self.labels[id(o)] = name
            self.keep.append(o)
        return o

    def event(self, op, args, ret="obj", raises=True):
        if self.frozen:
            raise RuntimeError("probe used after the run")
        if op == "len":
            return random.Random(f"{self.seed}:len").randrange(0, 4)
        if self.k > 300:
            raise Discard()
        self.log.append((op, self.canon([a for a in args])))
        k = self.k
        self.k += 1
        r = random.Random(f"{self.seed}:{k}")
        bad = raises and r.random() < self.raise_p
        out = None
        if bad:
            e = self.mk_exc(r, k)
        elif ret == "obj":
            out = self.mk_value(r, f"res{k}")
        elif ret == "bool":
            out = r.random() < 0.5
        elif ret == "int":
            out = r.randrange(0, 4)
        elif ret == "str":
            out = self.label(f"str{k}" + "x", f"res{k}")
        elif ret == "next":
            if r.random() < 0.4:
                e, bad = StopIteration(), True
            else:
                out = self.mk_value(r, f"res{k}")
        if self.on_event:
            self.on_event(k, r, op)
        if bad:
            raise e
        return out

    def mk_exc(self, r, k):
        cls = r.choice([ProbeError, ProbeError, ProbeBase, AttributeError, TypeError, KeyError, IndexError,
                        StopIteration, ValueError, NameError, ImportError, SystemExit, KeyboardInterrupt,
                        GeneratorExit, LookupError, RuntimeError, NotImplementedError])
        e = cls("from script")
        return self.label(e, f"exc{k}")

    def mk_value(self, r, name):
        x = r.random()
        if x < 0.65:
            return self.probe(name, r)
        if x < 0.9:
            return r.choice(AWKWARD) if r.random() < 0.25 else r.choice(
                [None, True, False, 0, 1, 2, -1, 7, "", "abc", (), (1, 2), 3.5, Ellipsis, NotImplemented])
        if x < 0.95:
            return self.label([1, "q"], name)
        return self.label({"a": 1, "b": 2}, name)

    def probe(self, name, r=None):
        r = r or random.Random(f"{self.seed}:{name}")
        cls = r.choice([Probe, Probe, ProbeNoI, ProbeBare])
        o = cls.__new__(cls)
        object.__setattr__(o, "_s", self)
        object.__setattr__(o, "_label", name)
        return self.label(o, name)


class ProbeError(Exception):
    pass


class ProbeBase(BaseException):
    pass


class ProbeBare:
    """Supports attribute access, calls and truth value only."""

    def __repr__(self):
        s = object.__getattribute__(self, "_s")
        if s.fmt_events:
            return s.event("repr", [self], "str")
        return f"<probe {object.__getattribute__(self, '_label')}>"

    def __str__(self):
        s = object.__getattribute__(self, "_s")
        if s.fmt_events:
            return s.event("str", [self], "str")
        return f"<probe {object.__getattribute__(self, '_label')}>"

    def __format__(self, spec):
        s = object.__getattribute__(self, "_s")
        if s.fmt_events:
            return s.event("format", [self, spec], "str")
        return f"<probe>"

    def __bool__(self):
        return self._s.event("bool", [self], "bool")

    def __getattr__(self, name):
        if name in NOISE or (name.startswith("__") and name.endswith("__")):
            raise AttributeError(name)
        return self._s.event("getattr", [self, name])

    def __setattr__(self, name, v):
        self._s.event("setattr", [self, name, v])

    def __delattr__(self, name):
        self._s.event("delattr", [self, name])

    def __call__(self, *a, **k):
        if self._s.kw_unordered:
            k = dict(sorted(k.items()))
        return self._s.event("call", [self, list(a), k])


class ProbeNoI(ProbeBare):
    """Everything but in-place operations."""

    def __len__(self):
        return self._s.event("len", [self], "int", raises=False)

    def __contains__(self, x):
        return self._s.event("contains", [self, x], "bool")

    def __iter__(self):
        self._s.event("iter", [self])
        return self

    def __next__(self):
        return self._s.event("next", [self], "next", raises=True)

    def __enter__(self):
        return self._s.event("enter", [self])

    def __exit__(self, *a):
        return self._s.event("exit", [self] + [x if not isinstance(x, types.TracebackType) else None for x in a])

    __hash__ = object.__hash__

    def keys(self):
        self._s.event("keys", [self])
        return ["a", "b"]


def _mk(name, op, arity):
    if arity == 1:
        def f(self):
            return self._s.event(op, [self])
    else:
        def f(self, o):
            return self._s.event(op, [self, o])
    f.__name__ = name
    return f


for _n in ("add sub mul truediv floordiv mod pow lshift rshift and or xor matmul radd rsub rmul rtruediv rfloordiv "
           "rmod rpow rlshift rrshift rand ror rxor rmatmul eq ne lt le gt ge getitem delitem").split():
    setattr(ProbeNoI, f"__{_n}__", _mk(f"__{_n}__", _n, 2))
for _n in "neg pos invert".split():
    setattr(ProbeNoI, f"__{_n}__", _mk(f"__{_n}__", _n, 1))
ProbeNoI.__setitem__ = lambda self, k, v: self._s.event("setitem", [self, k, v]) and None
ProbeNoI.__hash__ = object.__hash__


class Probe(ProbeNoI):
    pass


for _n in "iadd isub imul itruediv ifloordiv imod ipow ilshift irshift iand ior ixor imatmul".split():
    setattr(Probe, f"__{_n}__", _mk(f"__{_n}__", _n, 2))
Probe.__hash__ = object.__hash__
for _c in (ProbeBare, ProbeNoI, Probe):
    _c.__slots__ = ()

PRIM = (int, float, complex, str, bytes, type(None), bool, type(Ellipsis), type(NotImplemented))


class Canon:
    """Structural form of a value, modulo labels."""

    def __init__(self, script, observables):
        self.s = script
        self.obs = observables

    def __call__(self, v, depth=0, contents=False, memo=None):
        s = self.s
        memo = memo if memo is not None else {}
        if type(v) in PRIM:
            return f"{type(v).__name__}:{v!r}"
        if not contents and id(v) in s.labels and not isinstance(v, PRIM):
            return "#" + s.labels[id(v)]
        if id(v) in memo:
            return f"@{memo[id(v)]}"
        memo[id(v)] = len(memo)
        if depth > 8:
            return f"...{type(v).__name__}"
        rec = lambda x: self(x, depth + 1, False, memo)
        t = type(v)
        if t in (list, tuple):
            return (t.__name__,) + tuple(rec(x) for x in v)
        if t in (set, frozenset):
            return (t.__name__,) + tuple(sorted((rec(x) for x in v), key=repr))
        if isinstance(v, dict):
            return (t.__name__,) + tuple((rec(k), rec(x)) for k, x in v.items())
        if t is slice:
            return ("slice", rec(v.start), rec(v.stop), rec(v.step))
        if isinstance(v, tuple):
            return (t.__name__,) + tuple(rec(x) for x in v)
        if isinstance(v, BaseException):
            c = ("exc", t.__name__ if t.__module__ in ("builtins",) else self(t, depth + 1, False, memo),
                 rec(v.__cause__))
            if t is StopIteration:
                c += (rec(v.value),)
            return c
        if isinstance(v, type):
            return f"class {v.__module__}.{v.__qualname__}"
        if isinstance(v, types.FunctionType):
            return f"function {v.__module__}.{v.__qualname__}"
        if isinstance(v, types.MethodType):
            return ("method", rec(v.__func__), rec(v.__self__))
        if isinstance(v, (types.BuiltinFunctionType, types.MethodWrapperType)):
            return ("builtin", v.__name__, rec(v.__self__) if not isinstance(v.__self__, types.ModuleType) else 0)
        if isinstance(v, types.ModuleType):
            return "module " + v.__name__
        for c in t.__mro__:
            if c in self.obs:
                names = self.obs[c]
                return (t.__name__,) + tuple((n, rec(getattr(v, n))) for n in names if hasattr(v, n))
        if (t.__module__ or "").startswith("xpython"):
            return (t.__name__,) + tuple((n, rec(x)) for n, x in sorted(vars(v).items()))
        if hasattr(v, "co_code") and hasattr(v, "co_name"):
            return ("code", v.co_name, str(v.co_code))
        if isinstance(v, types.TracebackType):
            return "traceback"
        try:
            it = type(iter(v)) is t if hasattr(t, "__iter__") and t.__module__ == "builtins" else False
        except Exception:
            it = False
        if it:
            return ("iterator", t.__name__)
        return f"<{t.__module__}.{t.__qualname__}>"


NAMES = ["x", "y", "z", "len", "f", "print", "T"]


# values that are not equal to themselves, equal but not identical, or used as markers by careless code
AWKWARD = [float("nan"), StopIteration, KeyError, 1.0, 0.0, True, (1.0,), "exception", "return", "continue", -0.0]


class NatBuilder:
    sym = False

    def __init__(self, script, seed, variant, contract):
        self.s = script
        self.r = random.Random(f"{seed}:pre")
        self.variant, self.contract = variant, contract
        self.version = variant.get("version", (3, 12))
        self.pypy = variant.get("pypy", False)
        self.op = variant.get("op")
        self.roots = {}
        self.containers = []
        self.havoc_dicts = []
        self.cells_havoc = []
        self.vm = self.f = None
        self.chosen = {}
        self.earlier = []
        self.logging = self.r.random() < 0.25

    def any(self, name):
        x = self.r.random()
        if x < 0.07 and self.earlier:
            return self.r.choice(self.earlier)  # the same object twice
        v = self.any1(name, self.r.random())
        self.earlier.append(v)
        return v

    def any1(self, name, x):
        if x < 0.6:
            return self.s.probe(name)
        if x < 0.66:
            return self.r.choice(AWKWARD)
        if x < 0.9:
            return self.r.choice([None, True, False, 0, 1, 2, -1, 5, 300, "", "abc", "x", (), (1, 2), 3.5, b"q",
                                  int, list, Ellipsis])
        k = self.r.randrange(4)
        v = [[1, 2, 3], {"a": 1, "b": 2}, {1, 2, 3}, [[1], [2]]][k]
        self.track(v, name)
        return v

    def track(self, v, name):
        self.s.label(v, name)
        self.containers.append(v)
        return v

    def instance(self, name, cls):
        if cls is types.TracebackType:
            try:
                raise ProbeError(name)
            except ProbeError as e:
                return self.s.label(e.__traceback__, name)
        return self.s.label(cls(), name)

    def anys(self, n, name="v"):
        return [self.any(f"{name}{i}") for i in range(n)]

    truthy_obj = any

    def str(self, name):
        return self.r.choice(["", "abc", "x", "%s", "long text"])

    def name(self, name="name"):
        return self.r.choice(NAMES)

    def exc_cls(self, base):
        pool = [c for c in (ProbeError, ProbeBase, ValueError, KeyError, StopIteration, TypeError, SystemExit,
                            KeyboardInterrupt, AttributeError, base) if issubclass(c, base)]
        return self.r.choice(pool)

    def exc(self, name, base=BaseException):
        return self.s.label(self.exc_cls(base)("e", name), name)

    def exc_class(self, name, base=BaseException):
        c = self.exc_cls(base)
        if self.r.random() < 0.3:
            hook = self.r.choice([None, True, False])
            meta = type("M", (type,), {} if hook is None else {"__subclasscheck__": lambda c, o: hook})
            if self.r.random() < 0.5:
                return self.s.label(meta("MetaExc", (c,), {}), name)
            return self.s.label(type("SubExc", (c,), {}), name)
        return c

    def a_class(self, name):
        return self.s.label(self.r.choice([type("A", (), {}), type("B", (list,), {}), type("E", (Exception,), {})]),
                            name)

    def func(self, name):
        return self.s.probe(name)

    def int(self, name, lo=None, hi=None):
        lo_ = -3 if lo is None else lo
        hi_ = lo_ + 40 if hi is None else hi
        x = self.r.random()
        if x < 0.25:
            return lo_
        if x < 0.35:
            return hi_
        if x < 0.8:
            return self.r.randint(lo_, min(hi_, lo_ + 4))
        return self.r.randint(lo_, hi_)

    def bool(self, name):
        return self.r.random() < 0.5

    def choose(self, name, options):
        if name not in self.chosen:
            self.chosen[name] = self.r.randrange(len(options))
        return options[self.chosen[name]]

    def assume(self, cond):
        if not cond:
            raise Discard()

    def not_instance(self, o, *classes):
        if isinstance(o, classes):
            raise Discard()

    def is_not(self, o, *values):
        if any(o is v for v in values):
            raise Discard()

    def items(self, name, hi=4):
        return [self.any(f"{name}[{i}]") for i in range(self.r.randrange(0, hi))]

    def list(self, name):
        return self.track(self.items(name), name)

    def tuple(self, name):
        return tuple(self.items(name))

    def strtuple(self, name):
        return tuple(self.r.sample(["a", "b", "c", "d"], self.r.randrange(0, 4)))

    def set(self, name):
        return self.track(set(x for x in [self.any(f"{name}[{i}]") for i in range(self.r.randrange(0, 4))]
                              if _hashable(x)), name)

    def dict(self, name):
        d = {}
        for n in NAMES:
            if self.r.random() < 0.4:
                d[n] = self.any(f"{name}.{n}")
        return self.track(d, name)

    def mapping(self, name):
        if self.r.random() < 0.7:
            return self.track({k: self.any(f"{name}.{k}") for k in self.r.sample(["a", "b", "c", "d", "e"],
                                                                               self.r.randrange(0, 4))}, name)
        return self.any(name)

    def iterable(self, name):
        x = self.r.randrange(6)
        if x < 2:
            return self.list(name)
        if x == 2:
            return self.tuple(name)
        if x == 3:
            return self.r.choice(["", "a", "ab", "abc", {1: 2}, {3: 4, 5: 6}, b"xy"])
        if x == 4:
            return self.r.choice([iter([1, 2]), range(3), iter("abcd"), (i for i in (1, 2, 3))])
        return self.any(name)

    def lst(self, items, name=None):
        v = list(items)
        return self.track(v, name) if name else v

    def tup(self, items):
        return tuple(items)

    def dic(self, items, name=None):
        v = dict(items)
        return self.track(v, name) if name else v

    def obj(self, cls, name, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            setattr(o, k, v)
        return self.track(o, name)

    def host(self, v):
        return v

    def setup_vm(self, code=None, module_level=None, traced=False):
        from .symstate import native_base
        vm, f0, f = native_base(self.version, self.pypy, code, traced)
        self.s.label(vm, "vm")
        self.track(vm.frames, "vm.frames")
        for fr, p in ((f, "frame"), (f0, "caller")):
            self.track(fr, p)
            fr.stack[:] = [self.any(f"{p}.stack[{i}]") for i in range(self.r.choice([0, 1, 2, 3, 6]))]
            self.track(fr.stack, p + ".stack")
            for i in range(self.r.choice([0, 0, 1, 2])):
                fr.block_stack.append(self.block(self.r.choice(["loop", "finally", "except"]), 40 + i,
                                                 self.r.randint(0, len(fr.stack)), f"{p}.block{i}"))
            self.track(fr.block_stack, p + ".block_stack")
            fr.f_lasti = self.int(p + ".lasti", 0)
            g = self.dict(p + ".globals")
            fr.f_globals = g
            if p == "frame":
                if module_level is None:
                    module_level = False
                elif module_level == "both":
                    module_level = self.choose("module_level", [False, True])
            fr.f_locals = g if (p == "frame" and module_level) else self.dict(p + ".locals")
            fr.f_builtins = self.dict(p + ".builtins")
            fr.fallthrough = True
            if hasattr(fr, "exc_info"):
                fr.exc_info = self.any(p + ".exc_info")
            for d in (g, fr.f_locals, fr.f_builtins):
                if all(d is not e for e in self.havoc_dicts):
                    self.havoc_dicts.append(d)
        vm.return_value = self.any("vm.return_value")
        vm.last_exception = (self.any("le.type"), self.any("le.value"), self.any("le.tb"))
        vm.last_traceback = self.any("vm.last_traceback")
        if hasattr(vm, "in_exception_processing"):
            vm.in_exception_processing = self.bool("vm.iep")
        self.vm, self.f, self.f0 = vm, f, f0
        self.roots["vm"] = vm
        self.s.on_event = self.on_event
        self.events_on = True
        return vm, f

    def on_event(self, k, r, op):
        if r.random() < 0.5:
            return
        for i, d in enumerate(self.havoc_dicts):
            n = r.choice(NAMES)
            if r.random() < 0.5:
                d.pop(n, None)
            else:
                d[n] = self.s.probe(f"havoc{k}.{i}", r)
        for i, c in enumerate(self.cells_havoc):
            for a in vars(c):
                if r.random() < 0.5:
                    setattr(c, a, self.s.probe(f"havoccell{k}.{i}", r))
        if self.vm is not None:
            self.vm.return_value = self.s.probe(f"havocrv{k}", r)
            self.vm.last_exception = tuple(self.s.probe(f"havocle{k}.{i}", r) for i in range(3))

    def new_frame(self, name, code=None, **attrs):
        fr = self.vm.make_frame(code or mkcode(self.version), f_globals={}, f_locals={})
        self.track(fr, name)
        fr.stack[:] = [self.any(f"{name}.stack[{i}]") for i in range(self.r.choice([0, 1, 2, 3]))]
        self.track(fr.stack, name + ".stack")
        for i in range(self.r.choice([0, 0, 1, 2])):
            fr.block_stack.append(self.block(self.r.choice(["loop", "finally", "setup-except"]), 40 + i,
                                             self.r.randint(0, len(fr.stack)), f"{name}.block{i}"))
        self.track(fr.block_stack, name + ".block_stack")
        for a in ("f_globals", "f_locals", "f_builtins"):
            setattr(fr, a, self.dict(f"{name}.{a}"))
            self.havoc_dicts.append(getattr(fr, a))
        fr.exc_info = self.any(name + ".exc_info")
        for k, v in attrs.items():
            setattr(fr, k, v)
        self.roots[name] = fr
        return fr

    def push(self, *vals):
        self.f.stack.extend(vals)

    def push_seg(self, name, n):
        self.f.stack.extend(self.any(f"{name}[{i}]") for i in range(n))

    def stack_len(self):
        return len(self.f.stack)

    def setf(self, **kw):
        for k, v in kw.items():
            setattr(self.f, k, v)

    def setvm(self, **kw):
        for k, v in kw.items():
            setattr(self.vm, k, v)

    def block(self, type, handler, level, name="block"):
        from xpython.pyobj import Block
        b = Block.__new__(Block, type, handler, level) if issubclass(Block, tuple) else Block(type, handler, level)
        if not isinstance(b, tuple):
            self.s.label(b, name)
        return b

    def push_block(self, blk):
        self.f.block_stack.append(blk)

    def handling(self, name="handled", frame=None):
        f = frame or self.f
        kind = self.choose(name + ".kind", [0, 1])
        e = None
        if kind:
            e = (self.exc_class(name + ".type"), self.exc(name + ".value"), self.any(name + ".tb"))
        f.exc_info = e
        return e

    _missing = object()

    def cell(self, name, value=_missing):
        from xpython.pyobj import Cell
        c = Cell(self.any(name + ".contents") if value is NatBuilder._missing else value)
        self.track(c, name)
        self.cells_havoc.append(c)
        return c

    def set_cells(self, items, extra=True):
        d = {}
        if extra:
            for n in ("other1", "other2"):
                d[n] = self.cell("cell." + n)
        d.update(items)
        self.f.cells = self.track(d, "frame.cells")

    def code(self, name="code"):
        return self.s.label(mkcode(self.version, co_name="inner_" + name), name)

    def fresh_iter(self, name):
        return self.s.probe(name)


def _hashable(x):
    try:
        hash(x)
        return True
    except Exception:
        return False


class _Args:
    pass


def run_phase(contract, variant, seed, phase, logging_on=None):
    from .symstate import observables_for
    s = Script(seed, fmt_events=not contract.msg_pure)
    s.kw_unordered = variant.get("version", (3, 12)) < (3, 6)  # keyword arguments had no order
    s.canon = Canon(s, observables_for(contract))
    b = NatBuilder(s, seed, variant, contract)
    args = contract.pre(b)
    if args is None:
        raise Discard()
    undo = []
    if contract.native_stubs:
        undo = contract.native_stubs(b, phase)
    fn = contract.real if phase == "real" else contract.spec
    import logging as L
    want = b.logging if logging_on is None else logging_on
    if want and phase == "real" and not s.fmt_events:
        L.disable(L.NOTSET)
        lg = L.getLogger("xpython")
        root_level = L.root.level
        hs = L.root.handlers[:]
        L.root.handlers[:] = [L.NullHandler()]
        L.root.setLevel(L.DEBUG)
    try:
        try:
            v = fn(*args)
            outcome = ("return", v)
        except Discard:
            raise
        except BaseException as e:
            outcome = ("raise", e)
    finally:
        if want and phase == "real" and not s.fmt_events:
            L.disable(L.CRITICAL)
            L.root.handlers[:] = hs
            L.root.setLevel(root_level)
        for u in undo:
            u()
    s.frozen = True
    return b, s, outcome


def state(b, s, outcome, contract):
    """Observable final state."""
    c = s.canon
    out = {"outcome": outcome[0], "result": c(outcome[1])}
    out["operations"] = [(o, a) for o, a in s.log]
    exceptional = outcome[0] == "return" and isinstance(outcome[1], str) and outcome[1] in ("exception", "reraise")
    vm = b.vm
    for i, v in enumerate(b.containers):
        out[f"{s.labels[id(v)]}"] = c(v, contents=True)
    if vm is not None:
        out["frames"] = c(vm.frames)
        out["vm.frame"] = c(vm.frame)
        if vm.frame is not None:
            out["stack"] = c(vm.frame.stack, contents=True)
        for fr in vm.frames:
            if id(fr) in s.labels:
                out[s.labels[id(fr)] + ".block_stack="] = c(fr.block_stack, contents=True)
        if exceptional:
            out["current exception"] = (c(vm.last_exception[0]), c(vm.last_exception[1]))
        else:
            out["last_exception"] = c(vm.last_exception)
            out["return_value"] = c(vm.return_value)
    for k, v in b.roots.items():
        if k != "vm":
            out["root " + k] = c(v, contents=True)
    if contract.nat_observe:
        for k, v in contract.nat_observe(b, outcome).items():
            out[k] = c(v, contents=isinstance(v, (list, dict, set)))
    return out, exceptional


_sig = None


def last_signature():
    return _sig


def differ(contract, variant, seed):
    """None when the contract holds on this input, else (label, expected, actual)."""
    global _sig
    rb, rs, ro = run_phase(contract, variant, seed, "real")
    _sig = (ro[0], str(ro[1])[:40] if isinstance(ro[1], (str, int, type(None))) else type(ro[1]).__name__,
            tuple(o for o, _ in rs.log), len(rb.f.stack) if rb.f is not None else 0)
    sb, ss, so = run_phase(contract, variant, seed, "spec")
    r, rex = state(rb, rs, ro, contract)
    s, sex = state(sb, ss, so, contract)
    if contract.msg_pure is False or True:
        pass
    if rex and sex and rb.f is not None:
        # unwinding cuts the stack: compare what lies below the operands only
        n = len(sb.f.stack)
        if len(rb.f.stack) < n:
            return "value stack below the operands", s.get("frame.stack"), r.get("frame.stack")
        rb.f.stack[n:] = []
        r, _ = state(rb, rs, ro, contract)
    for k in s:
        if k not in r or r[k] != s[k]:
            return k, s[k], r.get(k)
    for k in r:
        if k not in s:
            return k, None, r[k]
    return None


def search(contract, variant, seeds, deadline=None):
    """(evaluations, first difference or None)"""
    import time
    n = 0
    for seed in seeds:
        if deadline and time.time() > deadline:
            break
        try:
            d = differ(contract, variant, seed)
        except Discard:
            continue
        n += 1
        if d is not None:
            return n, (seed, d)
    return n, None
