"""C04: jumps and loops."""
from .base import *


def jump(f, target):
    """Control goes on at target (the decoder advances unless fallthrough is false)."""
    f.f_lasti = target
    f.fallthrough = False


def pre_jump(n):
    def pre(b):
        b.push(*b.anys(n))
        t = b.int("target", 0)
        return b.int("oparg", 0), [t]
    return pre


def s_jump(vm, f, target):
    jump(f, target)


def s_if_true(vm, f, target):
    if f.stack[len(f.stack) - 1]:
        jump(f, target)


def s_if_false(vm, f, target):
    if not f.stack[len(f.stack) - 1]:
        jump(f, target)


def s_pop_if_true(vm, f, target):
    if f.stack.pop():
        jump(f, target)


def s_pop_if_false(vm, f, target):
    if not f.stack.pop():
        jump(f, target)


def s_if_true_or_pop(vm, f, target):
    if f.stack[len(f.stack) - 1]:
        jump(f, target)
    else:
        f.stack.pop()


def s_if_false_or_pop(vm, f, target):
    if f.stack[len(f.stack) - 1]:
        f.stack.pop()
    else:
        jump(f, target)


def s_pop_if_none(vm, f, target):
    if f.stack.pop() is None:
        jump(f, target)


def s_pop_if_not_none(vm, f, target):
    if f.stack.pop() is not None:
        jump(f, target)


def s_for_iter(vm, f, target):
    it = f.stack[len(f.stack) - 1]
    try:
        v = next(it)
    except StopIteration:
        f.stack.pop()
        jump(f, target)
    else:
        f.stack.append(v)


def s_for_iter12(vm, f, target):
    # from 3.12 the END_FOR at the target removes the iterator
    it = f.stack[len(f.stack) - 1]
    try:
        v = next(it)
    except StopIteration:
        jump(f, target)
    else:
        f.stack.append(v)


def s_pop(vm, f):
    f.stack.pop()


op("C04 C05", "JUMP_FORWARD JUMP_ABSOLUTE JUMP_BACKWARD JUMP_BACKWARD_NO_INTERRUPT", pre_jump(0), s_jump)
op("C04", "JUMP_IF_TRUE", pre_jump(1), s_if_true)
op("C04", "JUMP_IF_FALSE", pre_jump(1), s_if_false)
op("C04", "POP_JUMP_IF_TRUE POP_JUMP_FORWARD_IF_TRUE POP_JUMP_BACKWARD_IF_TRUE", pre_jump(1), s_pop_if_true)
op("C04", "POP_JUMP_IF_FALSE POP_JUMP_FORWARD_IF_FALSE POP_JUMP_BACKWARD_IF_FALSE", pre_jump(1), s_pop_if_false)
op("C04", "JUMP_IF_TRUE_OR_POP", pre_jump(1), s_if_true_or_pop)
op("C04", "JUMP_IF_FALSE_OR_POP", pre_jump(1), s_if_false_or_pop)
op("C04", "POP_JUMP_IF_NONE POP_JUMP_FORWARD_IF_NONE POP_JUMP_BACKWARD_IF_NONE", pre_jump(1), s_pop_if_none)
op("C04", "POP_JUMP_IF_NOT_NONE POP_JUMP_FORWARD_IF_NOT_NONE POP_JUMP_BACKWARD_IF_NOT_NONE", pre_jump(1),
   s_pop_if_not_none)
op("C04", "FOR_ITER", pre_jump(1), s_for_iter, hi=(3, 11))
op("C04", "FOR_ITER", pre_jump(1), s_for_iter12, lo=(3, 12))
op("C04", "END_FOR", lambda b: (b.push(*b.anys(1)), (None, []))[1], s_pop)


def s_get_iter(vm, f):
    x = f.stack.pop()
    f.stack.append(iter(x))


op("C04", "GET_ITER", lambda b: (b.push(*b.anys(1)), (None, []))[1], s_get_iter)
