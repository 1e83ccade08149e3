"""C02: comparisons."""
import operator

from .base import *


def x_in(x, y):
    return x in y


def x_not_in(x, y):
    return x not in y


def x_is(x, y):
    return x is y


def x_is_not(x, y):
    return x is not y


# cmp_op, as documented in the dis module of each version
CMP = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge, x_in, x_not_in, x_is, x_is_not]


def pre_cmp(b):
    b.push(*b.anys(2))
    n = b.variant["n"] << 4 if b.version >= (3, 12) else b.variant["n"]
    if b.version >= (3, 12):
        # the low bits are the inline-cache's comparison mask
        n |= b.choose("mask", [0, 2, 15])
    return n, [n]


@per_variant
def s_cmp(b):
    fn = CMP[b.variant["n"]]

    def spec(vm, f, n):
        y = f.stack.pop()
        x = f.stack.pop()
        f.stack.append(fn(x, y))
    return spec


op("C02", "COMPARE_OP", pre_cmp, s_cmp,
   extra=lambda v, pp, n: [{"n": i} for i in range(10 if v < (3, 9) else 6)])


KINDS = ["class", "not", "other", "empty", "single", "pair", "mixed", "nested"]


def handler_operand(b):
    kind = b.variant["kind"]
    if kind == "class":
        y = b.exc_class("handler")
    elif kind == "not":
        y = b.any("handler")
        b.not_instance(y, tuple, type)
    elif kind == "other":
        y = int
    elif kind == "pair":
        y = b.tup([b.exc_class("h1"), b.exc_class("h2")])
    elif kind == "mixed":
        y = b.tup([b.exc_class("h1"), int])
    elif kind == "nested":
        y = b.tup([b.tup([b.exc_class("h1")]), b.exc_class("h2")])
    elif kind == "single":
        y = b.tup([b.exc_class("h1")])
    else:
        y = b.tup([])
    return y


def pre_match(b):
    x = b.exc_class("raised")
    b.push(x, handler_operand(b))
    return 10, [10]


def is_exc_class(c):
    return isinstance(c, type) and issubclass(c, BaseException)


def matches2(x, y):
    if isinstance(y, tuple):
        for c in y:
            if matches2(x, c):
                return True
        return False
    return is_exc_class(y) and issubclass(x, y)


def matches3(x, y):
    classes = y if isinstance(y, tuple) else (y,)
    for c in classes:
        if not is_exc_class(c):
            raise TypeError("catching classes that do not inherit from BaseException is not allowed")
    for c in classes:
        if type.__subclasscheck__(c, x):
            return True
    return False


@per_variant
def s_match(b):
    matches = matches2 if b.version < (3, 0) else matches3

    def spec(vm, f, n):
        y = f.stack.pop()
        x = f.stack.pop()
        f.stack.append(matches(x, y))
    return spec


one = lambda v, pp, n: [{"kind": k} for k in KINDS[:3]]
several = lambda v, pp, n: [{"kind": k} for k in KINDS[3:]]
TUPLES = "tuples of up to two classes"
op("C02 C13", "COMPARE_OP", pre_match, s_match, hi=(3, 8), name="op:COMPARE_OP exception match", extra=one)
op("C02 C13", "COMPARE_OP", pre_match, s_match, hi=(3, 8), name="op:COMPARE_OP exception match, tuples",
   extra=several, bounded=TUPLES)


def pre_inv(b):
    b.push(*b.anys(2))
    n = b.variant["invert"]
    return n, [n]


def s_is(vm, f, invert):
    y = f.stack.pop()
    x = f.stack.pop()
    f.stack.append(x is not y if invert else x is y)


def s_contains(vm, f, invert):
    y = f.stack.pop()
    x = f.stack.pop()
    f.stack.append(x not in y if invert else x in y)


inv = lambda v, pp, n: [{"invert": 0}, {"invert": 1}]
op("C02", "IS_OP", pre_inv, s_is, extra=inv)
op("C02", "CONTAINS_OP", pre_inv, s_contains, extra=inv)


def pre_exc_jump(b):
    pre_match(b)
    t = b.int("target", 0)
    return t, [t]


def s_exc_jump(vm, f, target):
    y = f.stack.pop()
    x = f.stack.pop()
    if not matches3(x, y):
        f.f_lasti = target
        f.fallthrough = False


op("C02 C13", "JUMP_IF_NOT_EXC_MATCH", pre_exc_jump, s_exc_jump, extra=one)
op("C02 C13", "JUMP_IF_NOT_EXC_MATCH", pre_exc_jump, s_exc_jump, extra=several, bounded=TUPLES,
   name="op:JUMP_IF_NOT_EXC_MATCH, tuples")


def pre_check_match(b):
    x = b.exc("raised")
    b.push(x, handler_operand(b))


def s_check_match(vm, f):
    y = f.stack.pop()
    f.stack.append(matches3(type(f.stack[len(f.stack) - 1]), y))


op("C02 C13", "CHECK_EXC_MATCH", pre_check_match, s_check_match, extra=one)
op("C02 C13", "CHECK_EXC_MATCH", pre_check_match, s_check_match, extra=several, bounded=TUPLES,
   name="op:CHECK_EXC_MATCH, tuples")
