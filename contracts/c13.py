"""C13: raising, re-raising and handling exceptions."""
import types

from .blocks import *
from xpython.pyobj import Traceback
from xpython.vm import PyVM


# ------------------------------------------------------------------ the exception being handled
def some_handled(b, name="active"):
    """What vm.exc_info() says: an exception, or that there is none."""
    if b.choose(name + ".kind", [0, 1]):
        return b.tup([b.exc_class(name + ".type"), b.exc(name + ".value"), b.any(name + ".tb")])
    return b.tup([None, None, None])


def pre_exc_info(b):
    b.setup_vm()
    b.setvm(frames=b.lst([b.f0, b.f]))
    b.handling("outer", b.f0)
    b.handling("inner", b.f)
    return [b.vm]


def s_exc_info(vm):
    f = vm.frame
    while f is not None:
        if f.exc_info is not None:
            return f.exc_info
        f = f.f_back
    return (None, None, None)


Contract("PyVM.exc_info", ["C13"], [{"version": v, "pypy": p} for v, p in flavours()], pre_exc_info,
         lambda vm: vm.byteop.exc_info() if vm.version < (3, 0) else vm.exc_info(), s_exc_info,
         fn=["exc_info"], bounded="two frames")


# ------------------------------------------------------------------ raise
def stub_exc_info(it):
    def h(it, args, kwargs):
        return some_handled(it.builder)
    return {PyVM.exc_info: h}


def nat_exc_info(b, phase):
    cls = type(b.vm)
    old = PyVM.exc_info
    v = some_handled(b)
    PyVM.exc_info = lambda self: v
    return [lambda: setattr(PyVM, "exc_info", old)]


def active(vm):
    return vm.exc_info()


def s_reraise(vm):
    e = vm.exc_info()
    if e[0] is None:
        if vm.version < (3, 0):
            raise TypeError("exceptions must be classes or instances, not NoneType")
        raise RuntimeError("No active exception to reraise")
    vm.last_exception = (e[0], e[1], e[2])
    return "reraise"


def op_bare(prop, lo, hi):
    op(prop, "RAISE_VARARGS", lambda b: (0, [0]), lambda vm, f, argc: s_reraise(vm), lo=lo, hi=hi,
       name=f"op:RAISE_VARARGS 0[{lo}-{hi}]", stubs=stub_exc_info, native_stubs=nat_exc_info)


op_bare("C13", None, None)


def exception_operand(b, kind, name="exc"):
    if kind == "class":
        return b.exc_class(name)
    if kind == "instance":
        return b.exc(name)
    x = b.any(name)
    b.not_instance(x, type, BaseException, tuple)
    return x


def pre_raise2(b):
    kind = b.variant["kind"]
    if kind.startswith("tuple"):
        x = b.tup([exception_operand(b, kind[5:]), b.any("rest")])
        if b.choose("nested", [False, True]):
            x = b.tup([x])
    elif kind == "empty":
        x = b.tup([])
    else:
        x = exception_operand(b, kind)
    n = b.variant["argc"]
    ops = [x]
    if n > 1:
        v = b.variant["value"]
        if v == "none":
            ops.append(None)
        elif v == "tuple":
            ops.append(b.tuple("value"))
        elif v == "exc":
            ops.append(b.exc("value"))
        else:
            y = b.any("value")
            b.not_instance(y, tuple)
            ops.append(y)
    if n > 2:
        t = b.variant["tb"]
        if t == "none":
            ops.append(None)
        elif t == "tb":
            ops.append(b.instance("tb", types.TracebackType))
        else:
            y = b.any("tb")
            b.not_instance(y, types.TracebackType, Traceback)
            ops.append(y)
    b.push(*ops)
    return n, [n]


def is_exc_class(c):
    return isinstance(c, type) and issubclass(c, BaseException)


def s_raise2(vm, f, argc):
    tb = f.stack.pop() if argc > 2 else None
    val = f.stack.pop() if argc > 1 else None
    exc = f.stack.pop()
    if tb is not None and not isinstance(tb, (Traceback, types.TracebackType)):
        raise TypeError("raise: arg 3 must be a traceback or None")
    while isinstance(exc, tuple) and len(exc) > 0:
        exc = exc[0]
    if is_exc_class(exc):
        if not isinstance(val, exc):
            if val is None:
                val = exc()
            elif isinstance(val, tuple):
                val = exc(*val)
            else:
                val = exc(val)
            if not isinstance(val, BaseException):
                raise TypeError("calling the class should have returned an instance of BaseException")
    elif isinstance(exc, BaseException):
        if val is not None:
            raise TypeError("instance exception may not have a separate value")
        val = exc
    else:
        raise TypeError("exceptions must be classes or instances")
    if tb is None:
        raise val
    vm.last_exception = (type(val), val, tb)
    return "reraise"


def raise2_variants(v, pp, n):
    out = []
    for kind in ("class", "instance", "other", "tupleclass", "tupleinstance", "tupleother", "empty"):
        out.append({"argc": 1, "kind": kind})
        for val in ("none", "tuple", "exc", "any"):
            out.append({"argc": 2, "kind": kind, "value": val})
            if kind in ("class", "instance", "tupleclass"):
                for tb in ("none", "tb", "any"):
                    out.append({"argc": 3, "kind": kind, "value": val, "tb": tb})
    return out


flat2 = lambda v, pp, n: [x for x in raise2_variants(v, pp, n) if not x["kind"].startswith("tuple")]
nest2 = lambda v, pp, n: [x for x in raise2_variants(v, pp, n) if x["kind"].startswith("tuple")]
op("C13", "RAISE_VARARGS", pre_raise2, s_raise2, hi=(2, 7), extra=flat2)
op("C13", "RAISE_VARARGS", pre_raise2, s_raise2, hi=(2, 7), extra=nest2, name="op:RAISE_VARARGS of tuples",
   bounded="tuples of two items, nested up to twice")


def pre_raise3(b):
    ops = [exception_operand(b, b.variant["kind"])]
    c = b.variant.get("cause")
    if c == "none":
        ops.append(None)
    elif c:
        x = exception_operand(b, c, "cause")
        b.is_not(x, None)
        ops.append(x)
    b.push(*ops)
    return len(ops), [len(ops)]


def s_raise3(vm, f, argc):
    cause = f.stack.pop() if argc > 1 else None
    exc = f.stack.pop()
    if is_exc_class(exc):
        val = exc()
        if not isinstance(val, BaseException):
            raise TypeError("calling the class should have returned an instance of BaseException")
    elif isinstance(exc, BaseException):
        val = exc
    else:
        raise TypeError("exceptions must derive from BaseException")
    if argc > 1:
        if is_exc_class(cause):
            cause = cause()
        elif not isinstance(cause, BaseException) and (cause is not None or vm.version < (3, 3)):
            raise TypeError("exception causes must derive from BaseException")
        val.__cause__ = cause
    raise val


op("C13", "RAISE_VARARGS", pre_raise3, s_raise3, lo=(3, 0),
   extra=lambda v, pp, n: [{"kind": k} for k in ("class", "instance", "other")] +
   [{"kind": k, "cause": c} for k in ("class", "instance", "other") for c in ("none", "class", "instance", "other")])


# ------------------------------------------------------------------ re-raising at the end of handlers
def pre_reraise39(b):
    b.push(b.any("tb"), b.exc("value"), b.exc_class("type"))
    if b.version >= (3, 10):
        return b.choose("oparg", [0, 1]), [b.choose("oparg", [0, 1])]
    return None


def s_reraise39(vm, f, oparg=0):
    exctype = f.stack.pop()
    val = f.stack.pop()
    tb = f.stack.pop()
    vm.last_exception = (exctype, val, tb)
    return "reraise"


op("C13", "RERAISE", pre_reraise39, s_reraise39, lo=(3, 9), hi=(3, 10))


def pre_reraise11(b):
    n = b.choose("oparg", [0, 1, 2])
    if n:
        b.push(b.int("lasti", 0))
    if n == 2:
        b.push(b.any("between"))
    b.push(b.exc("value"))
    return n, [n]


def s_reraise11(vm, f, oparg):
    v = f.stack.pop()
    vm.last_exception = (type(v), v, v.__traceback__)
    return "reraise"


op("C13", "RERAISE", pre_reraise11, s_reraise11, lo=(3, 11))


def pre_push_info(b):
    b.handling()
    b.push(b.exc("value"))


def s_push_info(vm, f):
    v = f.stack.pop()
    f.stack.append(f.exc_info[1] if f.exc_info is not None else None)
    f.exc_info = (type(v), v, v.__traceback__)
    f.stack.append(v)


op("C13", "PUSH_EXC_INFO", pre_push_info, s_push_info, lo=(3, 11))


def s_assertion(vm, f):
    f.stack.append(AssertionError)


op("C13", "LOAD_ASSERTION_ERROR", lambda b: None, s_assertion)


# ------------------------------------------------------------------ 3.11+: the exception table, of any length
def varint(n):
    out = [n & 63]
    while n > 63:
        n >>= 6
        out.append(n & 63 | 64)
    return out[::-1]


def pre_table(b):
    """A table, the instruction that raised, and the index of the first entry that it is in (or the length)."""
    vm, f = b.setup_vm(mkcode(b.version))
    b.setvm(last_exception=b.tup([b.exc_class("type"), b.exc("raised"), b.any("tb")]))
    if b.sym:
        import z3
        from engine.core import HList, HObj, S, SInt, SBool, SeqBase, U, rlen
        from xdis.bytecode import _ExceptionTableEntry
        start, end, target, depth = [z3.Function("entry." + x, U, z3.IntSort()) for x in
                                     ("start", "end", "target", "depth")]
        lasti = z3.Function("entry.lasti", U, z3.BoolSort())
        n = b.ctx.int("entries.len", 0)
        base = SeqBase("entries", n.t, lambda t: HObj(
            _ExceptionTableEntry, {"start": SInt(start(t)), "end": SInt(end(t)), "target": SInt(target(t)),
                                   "depth": SInt(depth(t)), "lasti": SBool(lasti(t))}))
        at, m = f.attrs["f_lasti"], b.int("first", 0)
        size = rlen(f.attrs["stack"].segs)

        def inside(k):
            return z3.And(start(base.f(k)) <= at.t, at.t < end(base.f(k)))

        def facts(k):
            b.ctx.assume(z3.Implies(z3.And(0 <= k, k < m.t), z3.Not(inside(k))))
            b.ctx.assume(z3.And(depth(base.f(k)) >= 0, depth(base.f(k)) <= size, target(base.f(k)) >= 0))
        b.ctx.assume(m.t <= n.t)
        b.ctx.assume(z3.Implies(m.t < n.t, inside(m.t)))
        for k in (m.t, *map(z3.IntVal, range(5))):
            facts(k)
        b.index_facts, b.witnesses = [facts], [m]
        b.table = HList([S(base, z3.IntVal(0), n.t)], uid="entries")
        return [vm, b.table, m]
    k = b.r.choice([0, 1, 2, 3, 6])
    entries, bytes_ = [], []
    lasti = 2 * b.r.randrange(0, 100)
    for i in range(k):
        s, size = 2 * b.r.randrange(0, 100), 2 * b.r.randrange(0, 60)
        if b.r.random() < .3:
            s, size = max(0, lasti - b.r.choice([0, 2, 4])), b.r.choice([0, 2, 4, 6, 200])
        e = (s, s + size, 2 * b.r.randrange(0, 5000), b.r.randint(0, len(f.stack)), b.r.random() < .5)
        entries.append(e)
        one = varint(e[0] // 2) + varint(size // 2) + varint(e[2] // 2) + varint(e[3] << 1 | e[4])
        bytes_ += [one[0] | 128] + one[1:]
    code = mkcode(b.version)
    code.co_exceptiontable = bytes(bytes_)
    b.setf(f_code=code, f_lasti=lasti)
    entries = [types.SimpleNamespace(start=s, end=e, target=t, depth=d, lasti=l) for s, e, t, d, l in entries]
    first = [i for i, e in enumerate(entries) if e.start <= lasti < e.end] + [len(entries)]
    return [vm, entries, first[0]]


def stub_table(it):
    import xpython.vm as V
    return {V.parse_exception_table: lambda it, a, k: it.builder.table}


def s_table(vm, entries, m):
    if m == len(entries):
        return "exception"
    e = entries[m]
    f = vm.frame
    cut(f, e.depth)
    if e.lasti:
        f.stack.append(f.f_lasti)
    f.stack.append(vm.last_exception[1])
    f.f_lasti = e.target
    f.fallthrough = False


Contract("exception_handling_311", ["C13", "C12"], [{"version": v, "pypy": p} for v, p in flavours() if v >= (3, 11)], pre_table,
         lambda vm, entries, m: vm.exception_handling_311(), s_table, fn=["exception_handling_311"], stubs=stub_table)
