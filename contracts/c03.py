"""C03: stack-shuffling instructions."""
from .base import *


def vals(n):
    def pre(b):
        b.push(*b.anys(n))
    return pre


def s_nop(vm, f):
    return None


def s_pop_top(vm, f):
    f.stack.pop()


def s_rot_two(vm, f):
    st = f.stack
    b = st.pop()
    a = st.pop()
    st.append(b)
    st.append(a)


def s_rot_three(vm, f):
    st = f.stack
    c = st.pop()
    b = st.pop()
    a = st.pop()
    st.append(c)
    st.append(a)
    st.append(b)


def s_rot_four(vm, f):
    st = f.stack
    d = st.pop()
    c = st.pop()
    b = st.pop()
    a = st.pop()
    st.append(d)
    st.append(a)
    st.append(b)
    st.append(c)


def s_dup_top(vm, f):
    st = f.stack
    a = st.pop()
    st.append(a)
    st.append(a)


def s_dup_top_two(vm, f):
    st = f.stack
    b = st.pop()
    a = st.pop()
    st.append(a)
    st.append(b)
    st.append(a)
    st.append(b)


def s_dup_topx(vm, f, n):
    f.stack.extend(f.stack[len(f.stack) - n:])


def s_copy(vm, f, i):
    f.stack.append(f.stack[len(f.stack) - i])


def s_swap(vm, f, i):
    st = f.stack
    a = st[len(st) - i]
    b = st[len(st) - 1]
    st[len(st) - i] = b
    st[len(st) - 1] = a


def s_rot_n(vm, f, n):
    st = f.stack
    top = st.pop()
    st.insert(len(st) - (n - 1), top)


def s_push_const(vm, f, c):
    f.stack.append(c)


op("C03", "NOP", lambda b: (None, []), s_nop)
op("C03 C05", "CACHE", lambda b: (None, []), s_nop)


def pre_resume(b):
    where = b.int("where", 0, 3)
    return where, [where]


op("C03", "RESUME", pre_resume, lambda vm, f, where: None)
op("C03", "POP_TOP", vals(1), s_pop_top)
op("C03", "ROT_TWO", vals(2), s_rot_two)
op("C03", "ROT_THREE", vals(3), s_rot_three)
op("C03", "ROT_FOUR", vals(4), s_rot_four)
op("C03", "DUP_TOP", vals(1), s_dup_top)
op("C03", "DUP_TOP_TWO", vals(2), s_dup_top_two)


def pre_topx(b):
    n = b.int("n", 1, 5)
    b.push_seg("items", n)
    return n, [n]


def pre_n(lo):
    def pre(b):
        n = b.int("n", lo, 255)
        b.push_seg("items", n)
        return n, [n]
    return pre


def pre_const(b):
    c = b.any("const")
    return b.int("n", 0), [c]


op("C03", "DUP_TOPX", pre_topx, s_dup_topx)
op("C03", "COPY", pre_n(1), s_copy)
op("C03", "SWAP", pre_n(2), s_swap)
op("C03", "ROT_N", pre_n(2), s_rot_n)
op("C03", "LOAD_CONST", pre_const, s_push_const)
