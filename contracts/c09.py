"""C09: calls."""
from .base import *
from xpython.byteop.byteop import ByteOpBase
from xpython.byteop.byteop37 import NULL


def resolved_call(vm, func, pos, kw):
    """Calls func and pushes the result (the contract of call_function_with_args_resolved)."""
    vm.frame.stack.append(func(*pos, **kw))


def push_result(vm, r):
    vm.frame.stack.append(r)


def stubs(it):
    def call(vm, func, pos, kw):
        version = vm.attrs["version"]
        items = list(kw.over)
        if version < (3, 6) and all(isinstance(k, str) for k, _ in items):
            # keywords had no order
            items.sort(key=lambda x: x[0])
        from engine.core import HDict
        r = it.m.event("call of", func, pos, HDict(kw.base, items))
        it.call(push_result, [vm, r])

    def real(it_, args, kwargs):
        names = ["self", "func", "pos_args", "named_args"]
        a = dict(zip(names, args))
        a.update(kwargs)
        call(a["self"].attrs["vm"], a["func"], a["pos_args"], a["named_args"])

    def spec(it_, args, kwargs):
        call(*args)
    return {ByteOpBase.call_function_with_args_resolved: real, resolved_call: spec}


def pairs(b, n):
    for i in range(n):
        b.push(["ka", "kb", "kc", "kd"][i], b.any(f"kwval{i}"))


def pop_pairs(f, n):
    kw = {}
    items = take(f, 2 * n)
    for i in range(n):
        kw[items[2 * i]] = items[2 * i + 1]
    return kw


KW_BOUND = "at most 3 explicit keywords, ** mapping of at most 2 keys (positional count unbounded)"
MAPS = [(), ("m1",), ("m1", "m2"), ("ka",), ("m1", "kb")]


def nkw(v, pp, n):
    return [{"nkw": i} for i in (0, 1, 2, 3)]


def pre_call(b):
    n = b.int("argc", 0, 255)
    k = b.variant["nkw"]
    b.push(b.func("func"))
    b.push_seg("arg", n)
    pairs(b, k)
    return n + (k << 8), [n + (k << 8)]


def s_call(vm, f, argc):
    kw = pop_pairs(f, argc >> 8)
    pos = take(f, argc & 255)
    resolved_call(vm, f.stack.pop(), pos, kw)


def old_style(v, pp, n):
    return v < (3, 6) or (v == (3, 6) and pp)


def new_style(v, pp, n):
    return not old_style(v, pp, n)


op("C09", "CALL_FUNCTION", pre_call, s_call, hi=(3, 6), when=old_style, extra=nkw, bounded=KW_BOUND, stubs=stubs)
# PyPy kept the pre-3.6 layout of its own method calls up to 3.6
op("C09", "CALL_METHOD", lambda b: pre_call(b), s_call, hi=(3, 6), pypy=True, extra=nkw, bounded=KW_BOUND,
   stubs=stubs)


def has_var(n):
    return n in ("CALL_FUNCTION_VAR", "CALL_FUNCTION_VAR_KW")


def has_map(n):
    return n in ("CALL_FUNCTION_KW", "CALL_FUNCTION_VAR_KW")


def var_extra(v, pp, n):
    return [{"nkw": k, "map": m} for k in (0, 1, 2) for m in (range(len(MAPS)) if has_map(n) else (0,))]


def star_args(b, dup):
    if dup:
        return b.list("star") if b.choose("star", [0, 1]) else b.tuple("star")
    return b.iterable("star")


def pre_call_var(b):
    n = b.int("argc", 0, 255)
    k = b.variant["nkw"]
    m = MAPS[b.variant["map"]]
    dup = ("ka" in m and k > 0) or ("kb" in m and k > 1)
    mapping = b.dic([(x, b.any("map." + x)) for x in m], "mapping")
    b.push(b.func("func"))
    b.push_seg("arg", n)
    v35 = b.version == (3, 5) or (b.version == (3, 6) and b.pypy)
    if v35 and has_var(b.op):
        b.push(star_args(b, dup))
    pairs(b, k)
    if not v35 and has_var(b.op):
        b.push(star_args(b, dup))
    if has_map(b.op):
        b.push(mapping)
    return n + (k << 8), [n + (k << 8)]


def spec_call_var(b):
    v35 = b.version == (3, 5) or (b.version == (3, 6) and b.pypy)
    var, mapped = has_var(b.op), has_map(b.op)

    def s(vm, f, argc):
        star = []
        mapping = {}
        if mapped:
            mapping = f.stack.pop()
        if var and not v35:
            star = f.stack.pop()
        kw = pop_pairs(f, argc >> 8)
        if var and v35:
            star = f.stack.pop()
        pos = take(f, argc & 255)
        func = f.stack.pop()
        merge_into(kw, mapping)
        pos.extend(star)
        resolved_call(vm, func, pos, kw)
    return s


op("C09", "CALL_FUNCTION_VAR CALL_FUNCTION_KW CALL_FUNCTION_VAR_KW", pre_call_var, per_variant(spec_call_var),
   hi=(3, 6), when=old_style, extra=var_extra, bounded=KW_BOUND, stubs=stubs)


# ------------------------------------------------------------------ 3.6+: no keywords / constant tuple of keywords
def pre_call36(b):
    n = b.int("argc", 0)
    b.push(b.func("func"))
    b.push_seg("arg", n)
    return n, [n]


def s_call36(vm, f, n):
    pos = take(f, n)
    resolved_call(vm, f.stack.pop(), pos, {})


op("C09", "CALL_FUNCTION", pre_call36, s_call36, lo=(3, 6), when=new_style, stubs=stubs)


def pre_call_kw(b):
    n = b.int("argc", 0)
    k = b.variant["nkw"]
    b.push(b.func("func"))
    b.push_seg("arg", n)
    names = ["kb", "ka", "kd"][:k]
    b.push(*b.anys(k, "kwval"))
    b.push(tuple(names))
    return n + k, [n + k]


def s_call_kw(vm, f, argc):
    names = f.stack.pop()
    vals = take(f, len(names))
    kw = {}
    i = 0
    while i < len(names):
        kw[names[i]] = vals[i]
        i += 1
    pos = take(f, argc - len(names))
    resolved_call(vm, f.stack.pop(), pos, kw)


op("C09", "CALL_FUNCTION_KW", pre_call_kw, s_call_kw, lo=(3, 6), when=new_style, extra=nkw, bounded=KW_BOUND, stubs=stubs)


# ------------------------------------------------------------------ CALL_FUNCTION_EX
def pre_ex(b):
    flag = b.choose("flag", [0, 1])
    if b.version >= (3, 11):
        b.push(NULL)
    b.push(b.func("func"))
    b.push(b.iterable("star"))
    if flag:
        b.push(b.choose("mapkind", [b.dic([(x, b.any("m." + x)) for x in MAPS[b.variant["map"]]], "mapping"),
                                    b.mapping("anymap")]))
    return flag, [flag]


def spec_ex(b):
    v311 = b.version >= (3, 11)

    def s(vm, f, flags):
        kw = {}
        if flags & 1:
            kw = {**f.stack.pop()}
        pos = [*f.stack.pop()]
        func = f.stack.pop()
        if v311:
            f.stack.pop()
        resolved_call(vm, func, pos, kw)
    return s


op("C09", "CALL_FUNCTION_EX", pre_ex, per_variant(spec_ex), stubs=stubs,
   extra=lambda v, pp, n: [{"map": i} for i in (0, 2, 4)])


# ------------------------------------------------------------------ 3.11+
def pre_call311(b):
    n = b.int("argc", 0)
    k = b.variant["nkw"]
    names = ("kb", "ka", "kd")[:k]
    if b.choose("method", [0, 1]):
        b.push(b.func("meth"), b.any("self"))
    else:
        b.push(NULL, b.func("func"))
    b.push_seg("arg", n)
    b.push(*b.anys(k, "kwval"))
    if k:
        b.setf(call_shape_kwnames=b.tup(names))
    return n + k, [n + k]


def s_call311(vm, f, argc):
    names = f.call_shape_kwnames
    f.call_shape_kwnames = ()
    k = len(names)
    vals = take(f, k)
    pos = take(f, argc - k)
    second = f.stack.pop()
    first = f.stack.pop()
    kw = {}
    i = 0
    while i < k:
        kw[names[i]] = vals[i]
        i += 1
    if first is NULL:
        resolved_call(vm, second, pos, kw)
    else:
        resolved_call(vm, first, [second] + pos, kw)


op("C09", "CALL", pre_call311, s_call311, extra=nkw, bounded=KW_BOUND, stubs=stubs)


def s_nothing(vm, f, *a):
    pass


def s_kwnames(vm, f, names):
    f.call_shape_kwnames = names


def s_pushnull(vm, f):
    f.stack.append(NULL)


op("C09", "PRECALL", pre_call311, s_nothing, extra=nkw)
op("C09", "KW_NAMES", lambda b: (b.int("i", 0), [b.strtuple("names")]), s_kwnames)
op("C09 C03", "PUSH_NULL", lambda b: (None, []), s_pushnull)


# ------------------------------------------------------------------ method calls: lookup, then call
def real_method_call(vm, name, look, call, argc, args, names, specfn):
    why = vm.dispatch(look, 0, [name], vm.frame.f_lasti, None)
    if why is not None:
        return why
    for a in args:
        vm.frame.stack.append(a)
    if names is not None:
        if vm.version >= (3, 11):
            vm.dispatch("KW_NAMES", 0, [names], vm.frame.f_lasti, None)
        else:
            vm.frame.stack.append(names)
    if vm.version[:2] == (3, 11):
        vm.dispatch("PRECALL", argc, [argc], vm.frame.f_lasti, None)
    return vm.dispatch(call, argc, [argc], vm.frame.f_lasti, None)


def spec_method_call(vm, name, look, call, argc, args, names, specfn):
    try:
        obj = vm.frame.stack.pop()
        m = getattr(obj, name)
        if vm.version < (3, 6) or vm.version[:2] == (3, 6):
            k = argc >> 8
            n = argc & 255
            kw = {}
            i = 0
            while i < k:
                kw[args[n + 2 * i]] = args[n + 2 * i + 1]
                i += 1
        elif names is None:
            n = argc
            kw = {}
        else:
            k = len(names)
            n = argc - k
            kw = {}
            i = 0
            while i < k:
                kw[names[i]] = args[n + i]
                i += 1
        resolved_call(vm, m, args[:n], kw)
    except BaseException as e:
        vm.last_exception = (type(e), e, None)
        return "exception"
    return None


def method_variants():
    out = []
    for v, pp in flavours():
        opm = opcode_module(v, pp).opmap
        for look, call in (("LOOKUP_METHOD", "CALL_METHOD"), ("LOOKUP_METHOD", "CALL_METHOD_KW"),
                           ("LOAD_METHOD", "CALL_METHOD"), ("LOAD_METHOD", "CALL_METHOD_KW"), ("LOAD_METHOD", "CALL")):
            if look in opm and call in opm:
                for k in (0, 1, 2, 3):
                    if call == "CALL_METHOD_KW" and k == 0 or call == "CALL_METHOD" and v >= (3, 7) and k > 0:
                        continue
                    for n in (0, 1, 2):
                        out.append({"version": v, "pypy": pp, "look": look, "call": call, "npos": n, "nkw": k})
    return out


def pre_method_call(b):
    b.setup_vm()
    v = b.variant
    n, k = v["npos"], v["nkw"]
    b.push(b.any("obj"))
    args = b.anys(n, "arg")
    names = None
    argc = n + k
    if b.version <= (3, 6):
        argc = n + (k << 8)
        for i in range(k):
            args += [["ka", "kb", "kc"][i], b.any(f"kwval{i}")]
    else:
        if k:
            names = ("kb", "ka", "kc")[:k]
        args += b.anys(k, "kwval")
    return [b.vm, b.name(), v["look"], v["call"], argc, b.lst(args), names, None]


Contract("method call", ["C09", "C22"], method_variants(), pre_method_call, real_method_call, spec_method_call,
         fn=["LOOKUP_METHOD", "LOAD_METHOD", "CALL_METHOD", "CALL_METHOD_KW", "CALL"], stubs=stubs,
         bounded="at most 2 positional and 3 keyword arguments in the lookup-then-call composition")
