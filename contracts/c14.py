"""C14: with statements."""
from .blocks import *


# ------------------------------------------------------------------ entering
def pre_setup_with(b):
    b.push(b.any("manager"))
    return b.int("oparg", 0), [b.int("target", 0)]


def s_setup_with(vm, f, target):
    mgr = f.stack.pop()
    if vm.version < (3, 6):
        leave = mgr.__exit__
        enter = mgr.__enter__
    else:
        enter = mgr.__enter__
        leave = mgr.__exit__
    f.stack.append(leave)
    value = enter()
    f.block_stack.append(Block("with" if vm.version < (3, 0) else "finally", target, len(f.stack)))
    f.stack.append(value)


op("C14", "SETUP_WITH", pre_setup_with, s_setup_with, hi=(3, 10))


def pre_before_with(b):
    b.push(b.any("manager"))


def s_before_with(vm, f):
    mgr = f.stack.pop()
    try:
        enter = mgr.__enter__
        leave = mgr.__exit__
    except AttributeError:
        raise TypeError("the object does not support the context manager protocol")
    f.stack.append(leave)
    f.stack.append(enter())


op("C14", "BEFORE_WITH", pre_before_with, s_before_with, lo=(3, 11))


# ------------------------------------------------------------------ leaving
def put_reason(b, kind):
    """Why the block is left, as its handler finds it on the stack."""
    if kind == "exception":
        b.push(b.any("tb"), b.exc("value"), b.exc_class("type"))
    elif kind == "none":
        b.push(None)
    else:
        if kind != "break":
            b.push(b.any("result"))
        b.push(kind)


def pre_cleanup(b):
    kind = b.variant["why"]
    leave = b.any("exit")
    if b.version > (2, 5):
        b.push(leave)
    if kind == "exception" and b.version >= (3, 0):
        b.handling()
        b.push_block(b.block("except-handler", b.int("handler", 0), b.stack_len()))
        push_triple(b)
    put_reason(b, kind)
    if b.version == (2, 5):
        b.push(leave)


def take_exit(vm, f):
    """Remove the exit method; give it and the arguments to call it with."""
    if vm.version == (2, 5):
        leave = f.stack.pop()
        why = f.stack[len(f.stack) - 1]
        if why is None or isinstance(why, str):
            return leave, None, None, None
        return leave, why, f.stack[len(f.stack) - 2], f.stack[len(f.stack) - 3]
    why = f.stack.pop()
    if why is None or isinstance(why, str):
        if why == "return" or why == "continue":
            result = f.stack.pop()
            leave = f.stack.pop()
            f.stack.append(result)
        else:
            leave = f.stack.pop()
        f.stack.append(why)
        return leave, None, None, None
    value = f.stack.pop()
    tb = f.stack.pop()
    if vm.version < (3, 0):
        leave = f.stack.pop()
    else:
        old_type = f.stack.pop()
        old_value = f.stack.pop()
        old_tb = f.stack.pop()
        leave = f.stack.pop()
        f.stack.append(old_tb)
        f.stack.append(old_value)
        f.stack.append(old_type)
        # the handler's items are one lower, so this is left above them
        f.stack.append(None)
        block = f.block_stack.pop()
        f.block_stack.append(Block(block.type, block.handler, block.level - 1))
    f.stack.append(tb)
    f.stack.append(value)
    f.stack.append(why)
    return leave, why, value, tb


def s_cleanup(vm, f):
    leave, exctype, value, tb = take_exit(vm, f)
    r = leave(exctype, value, tb)
    if exctype is not None and r:
        if vm.version < (3, 0):
            f.stack.pop()
            f.stack.pop()
            f.stack.pop()
            f.stack.append(None)
        else:
            f.stack.append("silenced")


REASONS = ["none", "exception", "return", "continue", "break"]
op("C14", "WITH_CLEANUP", pre_cleanup, s_cleanup, hi=(3, 4), extra=lambda v, pp, n: [{"why": w} for w in REASONS])


def s_cleanup_start(vm, f):
    leave, exctype, value, tb = take_exit(vm, f)
    r = leave(exctype, value, tb)
    f.stack.append(exctype)
    f.stack.append(r)


op("C14", "WITH_CLEANUP_START", pre_cleanup, s_cleanup_start, lo=(3, 5), hi=(3, 8),
   extra=lambda v, pp, n: [{"why": w} for w in (REASONS if v < (3, 8) else REASONS[:2])])


def pre_finish(b):
    kind = b.variant["why"]
    if kind == "exception":
        b.handling()
        b.push_block(b.block("except-handler", b.int("handler", 0), b.stack_len()))
        push_triple(b)
        b.push(None)
    put_reason(b, kind)
    b.push(b.exc_class("type") if kind == "exception" else None, b.any("exit_result"))


def s_finish(vm, f):
    r = f.stack.pop()
    exctype = f.stack.pop()
    if exctype is not None and r:
        if vm.version < (3, 8):
            f.stack.append("silenced")
        else:
            unwind_handler(f, f.block_stack.pop().level)
            f.stack.append(None)


op("C14", "WITH_CLEANUP_FINISH", pre_finish, s_finish, lo=(3, 5), hi=(3, 8),
   extra=lambda v, pp, n: [{"why": w} for w in (REASONS if v < (3, 8) else REASONS[:2])])


def pre_except_start(b):
    b.push(b.any("exit"))
    if b.version < (3, 11):
        push_triple(b)
        b.push(b.any("tb"), b.exc("value"), b.exc_class("type"))
    else:
        b.push(b.int("lasti", 0))
        b.push(None if b.choose("previous", [0, 1]) else b.exc("previous"), b.exc("value"))


def s_except_start(vm, f):
    n = len(f.stack)
    if vm.version < (3, 11):
        leave, exctype, value, tb = f.stack[n - 7], f.stack[n - 1], f.stack[n - 2], f.stack[n - 3]
    else:
        leave, value = f.stack[n - 4], f.stack[n - 1]
        exctype, tb = type(value), value.__traceback__
    f.stack.append(leave(exctype, value, tb))


op("C14", "WITH_EXCEPT_START", pre_except_start, s_except_start, lo=(3, 9))
