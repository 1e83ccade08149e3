"""C12: blocks: how loops, exception handlers and finally clauses are left."""
from .blocks import *
from xpython.vm import PyVM


# ------------------------------------------------------------------ unwinding, one block at a time
def unwind_variants():
    out = []
    for v, pp in flavours():
        if v >= (3, 11):
            continue
        types, whys = block_types(v)
        for t in types:
            for w in whys:
                out.append({"version": v, "pypy": pp, "type": t, "why": w})
    return out


def pre_unwind(b):
    b.setup_vm()
    f = b.f
    current_exception(b)
    b.handling()
    blk = b.block(b.variant["type"], b.int("handler", 0), b.stack_len())
    b.push_block(blk)
    if b.variant["type"] == "except-handler":
        push_triple(b)
    push_some(b, "above")
    return [b.vm, b.variant["why"]]


Contract("manage_block_stack", ["C12"], unwind_variants(), pre_unwind,
         lambda vm, why: vm.manage_block_stack(why),
         lambda vm, why: one_block(vm, vm.frame, why), fn=["manage_block_stack", "unwind_block", "restore_exc_info"])


# ------------------------------------------------------------------ instructions that make blocks
def pre_setup(b):
    push_some(b, "values")
    t = b.int("target", 0)
    return b.int("oparg", 0), [t]


def make_block(kind):
    def spec(vm, f, target):
        f.block_stack.append(Block(kind, target, len(f.stack)))
    return spec


op("C12", "SETUP_LOOP", pre_setup, make_block("loop"), hi=(3, 7))
op("C12", "SETUP_EXCEPT", pre_setup, make_block("setup-except"), hi=(3, 9))
op("C12", "SETUP_FINALLY", pre_setup, make_block("finally"), hi=(3, 10))


def pre_pop_block(b):
    kind = b.choose("type", ["loop", "setup-except", "finally"])
    b.push_block(b.block(kind, b.int("handler", 0), b.stack_len()))


def s_pop_block(vm, f):
    f.block_stack.pop()


op("C12", "POP_BLOCK", pre_pop_block, s_pop_block, hi=(3, 10))


def pre_pop_block_junk(b):
    b.push_block(b.block("loop", b.int("handler", 0), b.stack_len()))


# ------------------------------------------------------------------ reasons to leave them
def s_break(vm, f):
    return "break"


def s_continue(vm, f, target):
    vm.return_value = target
    return "continue"


def s_return(vm, f):
    vm.return_value = f.stack.pop()
    return "return"


def s_return_const(vm, f, value):
    vm.return_value = value
    return "return"


op("C12", "BREAK_LOOP", lambda b: None, s_break, hi=(3, 7))
op("C12", "CONTINUE_LOOP", pre_setup, s_continue, hi=(3, 7))
op("C12 C16", "RETURN_VALUE", lambda b: b.push(b.any("value")), s_return)


def pre_return_const(b):
    v = b.any("value")
    return b.int("oparg", 0), [v]


op("C12 C16", "RETURN_CONST", pre_return_const, s_return_const, lo=(3, 12))


# ------------------------------------------------------------------ END_FINALLY
WHYS = ["return", "continue", "break"]


def push_exc(b, name="exc"):
    t = [b.any(name + ".tb"), b.exc(name + ".value"), b.exc_class(name + ".type")]
    b.push(*t)
    return t


def pre_end_finally(b):
    kind = b.variant["why"]
    b.handling()
    if kind == "silenced":
        b.push_block(b.block("except-handler", b.int("handler", 0), b.stack_len()))
        push_triple(b)
        push_some(b, "above")
        b.push("silenced")
    elif kind == "exception":
        push_exc(b)
    elif kind == "none":
        b.push(None)
    elif kind == "int":
        b.push(b.int("address", 0))
    else:
        if kind in ("return", "continue"):
            b.push(b.any("result"))
        b.push(kind)
    return None


def s_end_finally(vm, f):
    v = f.stack.pop()
    if v is None:
        return None
    if isinstance(v, str):
        if v == "silenced":
            unwind_handler(f, f.block_stack.pop().level)
            return None
        if v == "return" or v == "continue":
            vm.return_value = f.stack.pop()
        return v
    val = f.stack.pop()
    tb = f.stack.pop()
    vm.last_exception = (v, val, tb)
    return "reraise"


def s_end_finally38(vm, f):
    v = f.stack.pop()
    if v is None:
        return None
    if isinstance(v, int):
        f.f_lasti = v
        f.fallthrough = False
        return None
    val = f.stack.pop()
    tb = f.stack.pop()
    vm.last_exception = (v, val, tb)
    return "reraise"


op("C12 C13", "END_FINALLY", pre_end_finally, s_end_finally, hi=(3, 7),
   extra=lambda v, pp, n: [{"why": w} for w in
                           ["none", "exception"] + WHYS + (["silenced"] if v >= (3, 0) else [])])
op("C12 C13", "END_FINALLY", pre_end_finally, s_end_finally38, lo=(3, 8), hi=(3, 8),
   extra=lambda v, pp, n: [{"why": w} for w in ["none", "exception", "int"]])


# ------------------------------------------------------------------ leaving handlers
def pre_pop_except(b):
    b.handling()
    b.push_block(b.block("except-handler", b.int("handler", 0), b.stack_len()))
    push_triple(b)
    if b.version < (3, 8):
        push_some(b, "above")


def s_pop_except(vm, f):
    unwind_handler(f, f.block_stack.pop().level)


op("C12 C13", "POP_EXCEPT", pre_pop_except, s_pop_except, lo=(3, 0), hi=(3, 7))


def pre_pop_except38(b):
    # A value being returned may be below what is restored.
    b.handling()
    b.push_block(b.block("except-handler", b.int("handler", 0), b.stack_len()))
    if b.choose("returning", [False, True]):
        b.push(b.any("result"))
    push_triple(b)


def s_pop_except38(vm, f):
    f.block_stack.pop()
    exctype = f.stack.pop()
    value = f.stack.pop()
    tb = f.stack.pop()
    handled(f, exctype, value, tb)


op("C12 C13", "POP_EXCEPT", pre_pop_except38, s_pop_except38, lo=(3, 8), hi=(3, 10))


def pre_pop_except11(b):
    b.handling()
    if b.choose("previous.kind", [0, 1]):
        b.push(b.exc("previous"))
    else:
        b.push(None)


def s_pop_except11(vm, f):
    v = f.stack.pop()
    if v is None:
        f.exc_info = None
    else:
        f.exc_info = (type(v), v, v.__traceback__)


op("C12 C13", "POP_EXCEPT", pre_pop_except11, s_pop_except11, lo=(3, 11))


# ------------------------------------------------------------------ 3.8 finally blocks
def s_begin_finally(vm, f):
    f.stack.append(None)


def s_call_finally(vm, f, target):
    # instructions take two bytes
    f.stack.append(f.f_lasti + 2)
    f.f_lasti = target
    f.fallthrough = False


op("C12", "BEGIN_FINALLY", lambda b: None, s_begin_finally, lo=(3, 8), hi=(3, 8))
op("C12", "CALL_FINALLY", pre_setup, s_call_finally, lo=(3, 8), hi=(3, 8))


def pre_pop_finally(b):
    b.handling()
    kind = b.variant["why"]
    if kind == "exception":
        b.push_block(b.block("except-handler", b.int("handler", 0), b.stack_len()))
        push_triple(b)
        push_exc(b)
    elif kind == "none":
        b.push(None)
    else:
        b.push(b.int("address", 0))
    n = b.variant["preserve"]
    if n:
        b.push(b.any("result"))
    return n, [n]


def s_pop_finally(vm, f, preserve):
    result = f.stack.pop() if preserve else None
    v = f.stack.pop()
    if not (v is None or isinstance(v, int)):
        f.stack.pop()
        f.stack.pop()
        s_pop_except38(vm, f)
    if preserve:
        f.stack.append(result)


op("C12", "POP_FINALLY", pre_pop_finally, s_pop_finally, lo=(3, 8), hi=(3, 8),
   extra=lambda v, pp, n: [{"why": w, "preserve": p} for w in ["none", "exception", "int"] for p in [0, 1]])
