"""What the contracts about blocks and exceptions share: CPython's fast_block_end."""
from .base import *
from xpython.pyobj import Block


def cut(f, n):
    """Leave n items on the value stack."""
    f.stack[n:] = []


def handled(f, exctype, value, tb):
    if exctype is None:
        f.exc_info = None
    else:
        f.exc_info = (exctype, value, tb)


def unwind_handler(f, level):
    """UNWIND_EXCEPT_HANDLER: the three items above level are what was handled before."""
    cut(f, level + 3)
    exctype = f.stack.pop()
    value = f.stack.pop()
    tb = f.stack.pop()
    handled(f, exctype, value, tb)


def handled_before(f):
    if f.exc_info is None:
        return None, None, None
    return f.exc_info[0], f.exc_info[1], f.exc_info[2]


def one_block(vm, f, why):
    """Leave the innermost block for why; gives the reason to go on leaving, or None."""
    block = f.block_stack[len(f.block_stack) - 1]
    if block.type == "loop" and why == "continue":
        f.f_lasti = vm.return_value
        f.fallthrough = False
        return None
    f.block_stack.pop()
    if block.type == "except-handler":
        unwind_handler(f, block.level)
        return why
    cut(f, block.level)
    if block.type == "loop" and why == "break":
        f.f_lasti = block.handler
        f.fallthrough = False
        return None
    if why == "exception" and block.type in ("setup-except", "finally", "with"):
        exctype, value, tb = vm.last_exception
        if vm.version >= (3, 0):
            f.block_stack.append(Block("except-handler", None, len(f.stack)))
            old = handled_before(f)
            f.stack.append(old[2])
            f.stack.append(old[1])
            f.stack.append(old[0])
            f.exc_info = (exctype, value, tb)
        elif block.type != "finally":
            f.exc_info = (exctype, value, tb)
        f.stack.append(tb)
        f.stack.append(value)
        f.stack.append(exctype)
        f.f_lasti = block.handler
        f.fallthrough = False
        return None
    if block.type in ("finally", "with"):
        if why == "return" or why == "continue":
            f.stack.append(vm.return_value)
        f.stack.append(why)
        f.f_lasti = block.handler
        f.fallthrough = False
        return None
    return why


def push_triple(b, name="previous"):
    """Push what a handler saved: an exception, or that none was handled."""
    if b.choose(name + ".kind", [0, 1]):
        t = [b.any(name + ".tb"), b.exc(name + ".value"), b.exc_class(name + ".type")]
    else:
        t = [None, None, None]
    b.push(*t)
    return t


def push_some(b, name):
    n = b.int(name + ".n", 0, 6)
    b.push_seg(name, n)


def block_types(version):
    """The block types bytecode of the version can have, and reasons to leave them."""
    if version < (3, 0):
        return ["loop", "setup-except", "finally", "with"], ["exception", "return", "break", "continue"]
    if version < (3, 8):
        return ["loop", "setup-except", "finally", "except-handler"], ["exception", "return", "break", "continue"]
    return ["setup-except", "finally", "except-handler"], ["exception"]


def current_exception(b):
    """vm.last_exception: an exception and its class."""
    b.setvm(last_exception=b.tup([b.exc_class("current.type"), b.exc("current.value"), b.any("current.tb")]))
