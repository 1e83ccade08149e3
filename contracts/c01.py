"""C01: operator instructions."""
import operator

from .base import *


def classic_div(x, y):
    """Python 2's / on operands without __future__ division."""
    if isinstance(x, int) and isinstance(y, int):
        return x // y
    m = getattr(type(x), "__div__", None)
    if m is not None:
        r = m(x, y)
        if r is not NotImplemented:
            return r
    m = getattr(type(y), "__rdiv__", None)
    if m is not None:
        r = m(y, x)
        if r is not NotImplemented:
            return r
    return x / y


def classic_idiv(x, y):
    m = getattr(type(x), "__idiv__", None)
    if m is not None:
        r = m(x, y)
        if r is not NotImplemented:
            return r
    return classic_div(x, y)


UN = {"POSITIVE": operator.pos, "NEGATIVE": operator.neg, "NOT": operator.not_, "CONVERT": repr,
      "INVERT": operator.invert}
BIN = {"POWER": operator.pow, "MULTIPLY": operator.mul, "DIVIDE": classic_div, "FLOOR_DIVIDE": operator.floordiv,
       "TRUE_DIVIDE": operator.truediv, "MODULO": operator.mod, "ADD": operator.add, "SUBTRACT": operator.sub,
       "SUBSCR": operator.getitem, "LSHIFT": operator.lshift, "RSHIFT": operator.rshift, "AND": operator.and_,
       "XOR": operator.xor, "OR": operator.or_, "MATRIX_MULTIPLY": operator.matmul}
INP = {"POWER": operator.ipow, "MULTIPLY": operator.imul, "DIVIDE": classic_idiv, "FLOOR_DIVIDE": operator.ifloordiv,
       "TRUE_DIVIDE": operator.itruediv, "MODULO": operator.imod, "ADD": operator.iadd, "SUBTRACT": operator.isub,
       "LSHIFT": operator.ilshift, "RSHIFT": operator.irshift, "AND": operator.iand, "XOR": operator.ixor,
       "OR": operator.ior, "MATRIX_MULTIPLY": operator.imatmul}
# operands of BINARY_OP, from the CPython documentation of opcode.h
NB = ["ADD", "AND", "FLOOR_DIVIDE", "LSHIFT", "MATRIX_MULTIPLY", "MULTIPLY", "MODULO", "OR", "POWER", "RSHIFT",
      "SUBTRACT", "TRUE_DIVIDE", "XOR"]


def operands(n):
    def pre(b):
        b.push(*b.anys(n))
        return None, []
    return pre


def s1(fn):
    def spec(vm, f):
        x = f.stack.pop()
        f.stack.append(fn(x))
    return spec


def s2(fn):
    def spec(vm, f, *arg):
        y = f.stack.pop()
        x = f.stack.pop()
        f.stack.append(fn(x, y))
    return spec


@per_variant
def unary(b):
    return s1(UN[b.op[6:]])


@per_variant
def binary(b):
    return s2(BIN[b.op[7:]])


@per_variant
def inplace(b):
    return s2(INP[b.op[8:]])


@per_variant
def binary_op(b):
    n = b.variant["nb"]
    return s2(BIN[NB[n]] if n < 13 else INP[NB[n - 13]])


op("C01", " ".join("UNARY_" + k for k in UN if k != "CONVERT"), operands(1), unary)
op("C01", "UNARY_CONVERT", operands(1), unary, msg_pure=False)
op("C01", " ".join("BINARY_" + k for k in BIN), operands(2), binary)
op("C01", " ".join("INPLACE_" + k for k in INP if k != "DIVIDE"), operands(2), inplace)


def div_stub(it):
    # classic_divide has its own contract: BINARY_DIVIDE
    import xpython.byteop.byteop as B
    h = event_stub("classic division")
    d = {classic_div: h}
    if hasattr(B, "classic_divide"):
        d[B.classic_divide] = h
    return d


op("C01", "INPLACE_DIVIDE", operands(2), inplace, stubs=div_stub)


def pre_nb(b):
    b.push(*b.anys(2))
    n = b.variant["nb"]
    return n, [n]


op("C01", "BINARY_OP", pre_nb, binary_op, extra=lambda v, pp, n: [{"nb": i} for i in range(26)])


# ---- slices
def pre_slice(b):
    b.push(*b.anys(b.variant["n"] + (2 if b.op.startswith("STORE") else 1)))
    return None, []


def bounds(f, n):
    lo = hi = None
    if n & 2:
        hi = f.stack.pop()
    if n & 1:
        lo = f.stack.pop()
    return lo, hi


def s_slice(n):
    def spec(vm, f):
        lo, hi = bounds(f, n)
        x = f.stack.pop()
        f.stack.append(x[lo:hi])
    return spec


def s_store_slice(n):
    def spec(vm, f):
        lo, hi = bounds(f, n)
        x = f.stack.pop()
        v = f.stack.pop()
        x[lo:hi] = v
    return spec


def s_del_slice(n):
    def spec(vm, f):
        lo, hi = bounds(f, n)
        x = f.stack.pop()
        del x[lo:hi]
    return spec


@per_variant
def slices(b):
    k = int(b.op[-1])
    return (s_slice if b.op.startswith("SLICE") else s_store_slice if b.op.startswith("STORE") else s_del_slice)(k)


SL = " ".join(p + "SLICE+" + str(i) for p in ("", "STORE_", "DELETE_") for i in range(4))
op("C01", SL, pre_slice, slices, extra=lambda v, pp, n: [{"n": bin(int(n[-1])).count("1")}], hi=(2, 7))


def s_binary_slice(vm, f):
    hi = f.stack.pop()
    lo = f.stack.pop()
    x = f.stack.pop()
    f.stack.append(x[lo:hi])


def s_store_slice12(vm, f):
    hi = f.stack.pop()
    lo = f.stack.pop()
    x = f.stack.pop()
    v = f.stack.pop()
    x[lo:hi] = v


op("C01", "BINARY_SLICE", operands(3), s_binary_slice)
op("C01", "STORE_SLICE", operands(4), s_store_slice12)
