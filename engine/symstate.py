"""Symbolic pre-states and the symbolic check of one contract variant."""
import logging
import time
import types

import z3

from .common import *
from .core import *
from . import core
from .interp import Interp, LoopRule
from .models import Models, MISSING


def _is_repo_obj(o):
    return (type(o).__module__ or "").startswith("xpython")


class SymBuilder:
    sym = True

    def __init__(self, ctx, models, interp, variant, contract):
        self.ctx, self.m, self.it = ctx, models, interp
        self.variant = variant
        self.contract = contract
        self.version = variant.get("version", (3, 12))
        self.pypy = variant.get("pypy", False)
        self.op = variant.get("op")
        self.roots = {}
        self.havoc_dicts = []
        self.n = 0
        self.counts = {}
        self.keep = []
        self.vm = self.f = None
        self.cells_havoc = []

    # -- generic values
    def any(self, name):
        return self.ctx.obj(name)

    def anys(self, n, name="v"):
        return [self.any(f"{name}{i}") for i in range(n)]

    def truthy_obj(self, name):
        return self.ctx.obj(name)

    def str(self, name):
        return self.ctx.obj(name, "str")

    def name(self, name="name"):
        return self.ctx.obj(name, "str")

    def exc(self, name, base=BaseException):
        o = self.ctx.obj(name)
        self.ctx.assume(self.ctx.sub(self.ctx.typeof(o), base))
        return o

    def exc_class(self, name, base=BaseException):
        o = self.ctx.obj(name)
        self.ctx.assume(self.ctx.sub(self.ctx.typeof(o), type))
        self.ctx.assume(self.ctx.sub(o.t, base))
        return o

    def a_class(self, name):
        o = self.ctx.obj(name)
        self.ctx.assume(self.ctx.sub(self.ctx.typeof(o), type))
        return o

    def klass(self, name):
        """An unknown class, without special subclass checks."""
        o = self.ctx.obj(name, "class")
        self.ctx.assume(self.ctx.sub(self.ctx.typeof(o), type))
        return o

    def func(self, name):
        return self.ctx.obj(name)

    def int(self, name, lo=None, hi=None):
        return self.ctx.int(name, lo, hi)

    def bool(self, name):
        return SBool(z3.Bool(name))

    def choose(self, name, options):
        ch = self.ctx.__dict__.setdefault("choices", {})
        if name not in ch:
            ch[name] = self.ctx.choose(len(options))
        return options[ch[name]]

    def assume(self, cond):
        """cond: SBool or bool"""
        if isinstance(cond, SBool):
            self.ctx.assume(cond.t)
            if self.ctx.check() == z3.unsat:
                raise PathAbort()
        elif not cond:
            raise PathAbort()

    def not_instance(self, o, *classes):
        for c in classes:
            self.assume(SBool(z3.Not(self.ctx.sub(self.ctx.typeof(o), c))))

    def is_not(self, o, *values):
        for v in values:
            self.assume(SBool(o.t != self.ctx.lift(v)))

    def instance(self, name, cls):
        o = self.ctx.obj(name)
        self.ctx.assume(self.ctx.sub(self.ctx.typeof(o), cls))
        return o

    def seqbase(self, name):
        n = self.ctx.int(name + ".len", 0)
        return SeqBase(name, n.t), n.t

    def list(self, name):
        b, n = self.seqbase(name)
        return HList([S(b, z3.IntVal(0), n)], uid=name)

    def tuple(self, name):
        b, n = self.seqbase(name)
        return HTuple([S(b, z3.IntVal(0), n)])

    def strtuple(self, name):
        n = self.ctx.int(name + ".len", 0)
        ctx = self.ctx
        b = SeqBase(name, n.t, lambda t: ctx.obj_of(t, "str"))
        return HTuple([S(b, z3.IntVal(0), n.t)])

    def set(self, name):
        b, n = self.seqbase(name)
        return HSet([S(b, z3.IntVal(0), n)], uid=name)

    def dict(self, name):
        return HDict(DictBase(name), uid=name)

    def mapping(self, name):
        """An unknown mapping or iterable: user object."""
        return self.ctx.obj(name)

    def iterable(self, name):
        """A list, a tuple, or an object of unknown kind."""
        k = self.choose(name + ".kind", [0, 1, 2])
        return [self.list, self.tuple, self.any][k](name)

    def lst(self, items, name=None):
        return HList([E(x) for x in items], uid=name)

    def tup(self, items):
        return HTuple([E(x) for x in items])

    def dic(self, items, name=None):
        return HDict(None, list(items), uid=name)

    def obj(self, cls, name, **attrs):
        return HObj(cls, attrs, uid=name)

    def host(self, v):
        return v

    # -- vm
    def setup_vm(self, code=None, module_level=None, traced=False):
        vm, f0, f = native_base(self.version, self.pypy, code, traced)
        memo = {}
        hvm = self.mirror(vm, "vm", memo)
        hf = memo[id(f)]
        hf0 = memo[id(f0)]
        fb, n = self.seqbase("frames")
        hvm.attrs["frames"] = HList([S(fb, z3.IntVal(0), n), E(hf0), E(hf)], uid="vm.frames")
        hf.attrs["f_back"] = hf0
        for fr, p in ((hf, "frame"), (hf0, "caller")):
            b, n = self.seqbase(p + ".stack")
            fr.attrs["stack"] = HList([S(b, z3.IntVal(0), n)], uid=p + ".stack")
            b, n = self.seqbase(p + ".blocks")
            fr.attrs["block_stack"] = HList([S(b, z3.IntVal(0), n)], uid=p + ".block_stack")
            fr.attrs["f_lasti"] = self.int(p + ".lasti", 0)
            g = HDict(DictBase(p + ".globals"), uid=p + ".f_globals")
            fr.attrs["f_globals"] = g
            if p == "frame":
                if module_level is None:
                    module_level = False
                elif module_level == "both":
                    module_level = self.choose("module_level", [False, True])
            loc = g if (p == "frame" and module_level) else HDict(DictBase(p + ".locals"), uid=p + ".f_locals")
            fr.attrs["f_locals"] = loc
            fr.attrs["f_builtins"] = HDict(DictBase(p + ".builtins"), uid=p + ".f_builtins")
            fr.attrs["fallthrough"] = True
            fr.attrs["exc_info"] = self.any(p + ".exc_info")
            for d in (g, loc, fr.attrs["f_builtins"]):
                if d not in self.havoc_dicts:
                    self.havoc_dicts.append(d)
        hvm.attrs["return_value"] = self.any("vm.return_value")
        hvm.attrs["last_exception"] = HTuple([E(self.any("le.type")), E(self.any("le.value")), E(self.any("le.tb"))])
        hvm.attrs["last_traceback"] = self.any("vm.last_traceback")
        hvm.attrs["in_exception_processing"] = self.bool("vm.iep")
        self.vm, self.f, self.f0 = hvm, hf, hf0
        self.native_vm, self.memo = vm, memo
        self.roots["vm"] = hvm
        self.ctx.on_event = self.on_event
        return hvm, hf

    def new_frame(self, name, code=None, **attrs):
        """A frame that is not on the call stack, with arbitrary stack, blocks and namespaces."""
        fr = self.native_vm.make_frame(code or mkcode(self.version), f_globals={"__builtins__": {}}, f_locals={})
        self.keep.append(fr)
        h = self.mirror(fr, name, self.memo)
        for a, p in (("stack", ".stack"), ("block_stack", ".blocks")):
            b, n = self.seqbase(name + p)
            h.attrs[a] = HList([S(b, z3.IntVal(0), n)], uid=name + p)
        for a in ("f_globals", "f_locals", "f_builtins"):
            h.attrs[a] = HDict(DictBase(name + "." + a), uid=name + "." + a)
            self.havoc_dicts.append(h.attrs[a])
        h.attrs["exc_info"] = self.any(name + ".exc_info")
        h.attrs.update(attrs)
        self.roots[name] = h
        return h

    def mirror(self, o, path, memo):
        if id(o) in memo:
            return memo[id(o)]
        if isinstance(o, Sym):
            return o
        if type(o) is list:
            r = HList(uid=path)
            memo[id(o)] = r
            r.segs = [E(self.mirror(x, f"{path}[{i}]", memo)) for i, x in enumerate(o)]
            return r
        if type(o) is dict:
            if path.endswith("stack_fmt") or path.endswith("linestarts") or path.endswith("line_starts"):
                return o
            r = HDict(None, uid=path)
            memo[id(o)] = r
            r.over = [(k, self.mirror(v, f"{path}[{k!r}]", memo)) for k, v in o.items()]
            return r
        if _is_repo_obj(o) and not isinstance(o, (type, types.FunctionType, types.ModuleType, tuple)):
            r = HObj(type(o), {}, uid=path)
            memo[id(o)] = r
            d = dict(getattr(o, "__dict__", {}))
            for k, v in d.items():
                r.attrs[k] = self.mirror(v, f"{path}.{k}", memo)
            return r
        return o

    def on_event(self, k, op, out):
        """User code ran: everything it can reach may have changed."""
        if op in NO_HAVOC or op.startswith("cmp is"):
            return
        for d in self.havoc_dicts:
            d.base = DictBase(f"{d.uid}@{k}")
            d.over = []
        for c in self.cells_havoc:
            c.attrs["contents"] = Obj(z3.Const(f"{c.uid}.contents@{k}", U))
        if self.vm is not None:
            a = self.vm.attrs
            a["return_value"] = Obj(z3.Const(f"return_value@{k}", U))
            a["last_exception"] = HTuple([E(Obj(z3.Const(f"le.{n}@{k}", U))) for n in ("type", "value", "tb")])
            a["last_traceback"] = Obj(z3.Const(f"last_traceback@{k}", U))
            a["in_exception_processing"] = SBool(z3.Bool(f"iep@{k}"))
            a["f_code"] = Obj(z3.Const(f"f_code@{k}", U))

    # -- in stubs
    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1
        return self.counts[what]

    def cut(self, label):
        """Stop here, and compare what the code and the contract did."""
        raise CutPoint(label)

    def havoc_frame(self, f, tag):
        """The instructions of the frame ran: its stacks and position are arbitrary."""
        for a in ("stack", "block_stack"):
            b, n = self.seqbase(f"{f.uid}.{a}@{tag}")
            f.attrs[a] = HList([S(b, z3.IntVal(0), n)], uid=f"{f.uid}.{a}")
        f.attrs["f_lasti"] = self.int(f"{f.uid}.lasti@{tag}", 0)
        f.attrs["exc_info"] = self.any(f"{f.uid}.exc_info@{tag}")
        f.attrs["fallthrough"] = self.bool(f"{f.uid}.fallthrough@{tag}")

    # -- frame helpers
    def push(self, *vals):
        st = self.f.attrs["stack"]
        st.segs = rnorm(self.ctx, st.segs + [E(v) for v in vals])

    def push_seg(self, name, n):
        """Push n (SInt) arbitrary values."""
        b = SeqBase(name, zi(n))
        st = self.f.attrs["stack"]
        st.segs = st.segs + [S(b, z3.IntVal(0), zi(n))]

    def stack_len(self):
        return mkint(rlen(self.f.attrs["stack"].segs))

    def setf(self, **kw):
        self.f.attrs.update(kw)

    def setvm(self, **kw):
        self.vm.attrs.update(kw)

    def block(self, type, handler, level, name="block"):
        from xpython.pyobj import Block
        return HObj(Block, {"type": type, "handler": handler, "level": level}, uid=name)

    def push_block(self, blk):
        bs = self.f.attrs["block_stack"]
        bs.segs = rnorm(self.ctx, bs.segs + [E(blk)])

    def cell(self, name, value=MISSING):
        from xpython.pyobj import Cell
        proto = Cell(None)
        key = next(iter(vars(proto)))
        c = HObj(Cell, {}, uid=name)
        for k in vars(proto):
            c.attrs[k] = self.any(name + ".contents") if value is MISSING else value
        self.cells_havoc.append(c)
        return c

    def set_cells(self, items, extra=True):
        """frame.cells: the given named cells over arbitrary others."""
        from xpython.pyobj import Cell
        self.f.attrs["cells"] = HDict(DictBase("frame.cells") if extra else None, list(items), uid="frame.cells")

    def handling(self, name="handled", frame=None):
        """frame.exc_info: an exception, or none."""
        f = frame or self.f
        kind = self.choose(name + ".kind", [0, 1])
        e = None
        if kind:
            e = self.tup([self.exc_class(name + ".type"), self.exc(name + ".value"), self.any(name + ".tb")])
        f.attrs["exc_info"] = e
        return e

    def code(self, name="code"):
        return self.ctx.obj(name)

    def fresh_iter(self, name):
        return self.ctx.obj(name)


NO_HAVOC = {"print", "join"}


def native_base(version, pypy, code=None, traced=False):
    from xpython.vm import PyVM
    if traced:
        from xpython.vmtrace import PyVMTraced
        vm = PyVMTraced(lambda *a, **k: None, python_version=version, python_implementation=impl(pypy))
    else:
        vm = PyVM(version, impl(pypy))
    code = code or mkcode(version)
    f0 = vm.make_frame(mkcode(version, co_name="<module>"), f_globals={"__builtins__": {}}, f_locals={})
    f0.f_lasti = 0
    vm.push_frame(f0)
    from xpython.pyobj import Cell
    f = vm.make_frame(code, f_globals={"__builtins__": {}}, f_locals={},
                      closure=tuple(Cell(None) for _ in code.co_freevars or ()) or None)
    f.f_lasti = 0
    f.fallthrough = True
    vm.push_frame(f)
    return vm, f0, f


# ------------------------------------------------------------------------- default observation
FRAME_OBS = ["stack", "block_stack", "f_lasti", "fallthrough", "f_locals", "f_globals", "f_builtins", "cells",
             "f_back", "generator", "call_shape_kwnames", "f_code", "exc_info", "finished", "thrown",
             "yield_from"]


class Result:
    def __init__(self):
        self.proved = 0
        self.refuted = []      # (label, detail)
        self.unsupported = []  # reasons
        self.aborted = 0
        self.bounded = False
        self.stats = Stats()
        self.paths = 0
        self.functions = set()
        self.samples = []
        self.kinds = set()

    def status(self):
        if self.refuted:
            return "refuted"
        if self.unsupported:
            return "undecided"
        if not self.proved:
            return "vacuous"
        return "bounded" if self.bounded else "proved"


def run_phase(ctx, contract, variant, phase):
    ctx.phase = phase
    ctx.exc_stack = []
    ctx.evpos = 0
    ctx.on_event = None
    m = Models(ctx)
    m.msg_pure = contract.msg_pure
    it = Interp(ctx, m)
    it.builder_variant = variant
    install_summaries(it, contract)
    b = SymBuilder(ctx, m, it, variant, contract)
    it.builder = b
    args = contract.pre(b)
    if args is None:
        raise PathAbort()
    if phase == "real" and ctx.check() == z3.unsat:
        raise PathAbort()
    fn = contract.real if phase == "real" else contract.spec
    m.observables = observables_for(contract)
    try:
        v = it.call(fn, list(args))
        outcome = ("return", v)
    except PyRaise as p:
        outcome = ("raise", p.value)
    except CutPoint as c:
        outcome = ("cut", c.label)
    return b, m, it, args, outcome


def observables_for(contract):
    from xpython.vm import PyVM
    from xpython.pyobj import Frame, Function, Generator, Cell, Block
    d = {PyVM: ["frame", "frames"], Frame: FRAME_OBS,
         Function: ["func_code", "func_name", "func_defaults", "func_globals", "func_closure", "__kwdefaults__",
                    "__annotations__", "__qualname__"]}
    if contract.observables:
        d.update(contract.observables())
    return d


def install_summaries(it, contract):
    import xpython.vm as V
    import xpython.pyobj as P
    import xpython.byteop.byteop24 as B24
    from xpython.byteop.byteop import ByteOpBase

    def fmt(i, a, k):
        return i.m.fstr()

    def nothing(i, a, k):
        return None

    def tb(i, a, k):
        return i.ctx.obj(i.ctx.fresh("traceback"), "true")

    it.summaries[V.format_instruction] = fmt
    it.summaries[V.PyVM.log] = nothing
    it.summaries[P.traceback_from_frame] = tb
    for n in ("note_traceback", "note_handler"):    # these have contracts of their own (C21)
        if hasattr(V.PyVM, n):
            it.summaries[getattr(V.PyVM, n)] = nothing
    for c in _all_byteops():
        f = vars(c).get("traceback_from_frame")
        if f is not None:
            it.summaries[f] = tb
    for n in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log"):
        it.summaries[getattr(logging.Logger, n)] = nothing
    it.summaries[logging.Logger.isEnabledFor] = lambda i, a, k: SBool(z3.Bool("log_enabled"))
    if contract.stubs:
        for f, h in contract.stubs(it).items():
            if h is None:
                it.summaries.pop(f, None)
            else:
                it.summaries[f] = h


_bo = []


def _all_byteops():
    if not _bo:
        from xpython.byteop.byteop import ByteOpBase
        import xpython.byteop

        def rec(c):
            _bo.append(c)
            for s in c.__subclasses__():
                rec(s)
        rec(ByteOpBase)
    return _bo


def default_observe(b, outcome):
    """label -> value for the comparison."""
    out = {}
    if b.vm is not None:
        out["vm"] = b.vm
    out.update(b.roots)
    return out


def compare(ctx, contract, real, spec):
    """Formulas under which the two outcomes agree."""
    rb, rm, rit, rargs, ro = real
    sb, sm, sit, sargs, so = spec
    fs = []
    memo = {}
    m = sm
    if ctx.evpos != len(ctx.events):
        raise Refuted("extra operation", f"the code performs {ctx.events[ctx.evpos][0]}"
                                         f"{tuple(ctx.events[ctx.evpos][1])!r}, the contract does not")
    if ro[0] != so[0]:
        raise Refuted("outcome", f"contract: {so[0]} {so[1]!r}; code: {ro[0]} {ro[1]!r}")
    rr, ss = ro[1], so[1]
    m.same(rr, ss, fs, memo, "result" if ro[0] == "return" else "exception raised")
    obs = contract.observe or default_observe
    r, s = obs(rb, ro), obs(sb, so)
    exceptional = so[0] == "return" and so[1] in ("exception", "reraise") and isinstance(so[1], str)
    if exceptional and sb.f is not None and sb.f.attrs.get("stack") is not None and ro[1] == so[1]:
        # unwinding cuts the stack later: items below the operands must be unchanged
        rs, sp = rb.f.attrs["stack"], sb.f.attrs["stack"]
        n = rlen(sp.segs)
        if isinstance(rs, HList):
            if not ctx.proves(z3.IntVal(0) + rlen(rs.segs) >= n):
                raise Refuted("value stack", "items below the operands were removed")
            rs.segs = rslice(ctx, rs.segs, 0, mkint(n))[1]
    for k in s:
        if k not in r:
            raise Refuted(k, "missing")
        m.same(r[k], s[k], fs, memo, k)
    if sb.vm is not None and so[0] == "return":
        why = so[1]
        if isinstance(why, str) and why in ("exception", "reraise"):
            le_r, le_s = rb.vm.attrs.get("last_exception"), sb.vm.attrs.get("last_exception")
            for i, lab in ((0, "current exception type"), (1, "current exception")):
                m.same(m.getitem(le_r, i), m.getitem(le_s, i), fs, memo, lab)
        elif contract.observe is None or True:
            m.same(rb.vm.attrs.get("last_exception"), sb.vm.attrs.get("last_exception"), fs, memo,
                   "last_exception")
            m.same(rb.vm.attrs.get("return_value"), sb.vm.attrs.get("return_value"), fs, memo, "return_value")
    return fs


def check(contract, variant, budget=20.0, maxpaths=400):
    res = Result()
    res.bounded = bool(contract.bounded)
    t0 = time.time()
    Ctx.deadline = t0 + budget
    work = [[]]
    unroll = set()
    while work:
        prefix = work.pop()
        if res.paths >= maxpaths or time.time() > Ctx.deadline:
            res.unsupported.append("path or time budget")
            break
        ctx = Ctx(prefix, res.stats)
        ctx.saw_unknown = False
        ctx.functions = res.functions
        ctx.unroll = unroll
        res.paths += 1
        label = None
        again = set()
        try:
            real = run_phase(ctx, contract, variant, "real")
            spec = run_phase(ctx, contract, variant, "spec")
            ctx.phase = "cmp"
            fs = compare(ctx, contract, real, spec)
            n = max(1, len(fs))
            res.stats.obligations += n
            goal = z3.And([f for _, f in fs]) if fs else z3.BoolVal(True)
            goal = z3.simplify(goal)
            if z3.is_true(goal):
                r = z3.unsat
                # the path condition itself must be satisfiable for the path to count
            else:
                r = ctx.check(z3.Not(goal))
            if r == z3.unsat:
                res.proved += 1
                res.stats.discharged += n
                res.kinds.add(str(spec[4][0]) + ":" + (str(spec[4][1]) if isinstance(spec[4][1], (str, type(None)))
                                                        else "value"))
                if len(res.samples) < 2:
                    res.samples.append(f"{contract.key(variant)}: path {len(ctx.taken)} decisions, outcome "
                                       f"{spec[4][0]} {str(spec[4][1])[:60]}, {n} equalities")
            elif r == z3.sat:
                bad = [l for l, f in fs if ctx.check(z3.Not(f)) == z3.sat]
                raise Refuted("; ".join(bad[:4]) or "postcondition",
                              f"code outcome {real[4]!r}, contract outcome {spec[4]!r}; decisions {ctx.taken}")
            else:
                res.unsupported.append("solver: unknown")
        except PathAbort:
            res.aborted += 1
        except Refuted as e:
            if ctx.search_rules:
                again = ctx.search_rules
            else:
                res.stats.obligations += 1
                # the path must be feasible for the refutation to count
                if ctx.check() == z3.unsat:
                    res.aborted += 1
                elif ctx.saw_unknown:
                    res.unsupported.append("solver: unknown")
                else:
                    res.refuted.append((e.label, f"{e.detail}; decisions {ctx.taken}; events "
                                                 f"{[(o, a, out[0]) for o, a, out, _ in ctx.events]!r}"[:1500]))
                    if len(res.refuted) >= 3:
                        work = []
        except Unsupported as e:
            again = ctx.search_rules
            if not again:
                res.unsupported.append(str(e))
                if len(res.unsupported) > 3:
                    work = []
        except LoopRule as e:
            again = {e.node}
        except RecursionError:
            res.unsupported.append("recursion")
        if again:
            # Once more, unrolling those loops instead: the rule may lose what matters
            unroll |= again
            res.proved = res.aborted = 0
            res.unsupported.clear()
            res.refuted.clear()
            work = [[]]
            continue
        if ctx.bounded:
            res.bounded = True
        work.extend(ctx.alts)
    res.stats.paths += res.paths
    res.wall = time.time() - t0
    return res
