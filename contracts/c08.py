"""C08: containers, unpacking and formatting."""
from .base import *

N3 = "operand counts 0 to 3"


def nvariants(*ns):
    return lambda v, pp, n: [{"n": i} for i in ns]


# ------------------------------------------------------------------ building from a symbolic number of items
def pre_count(b):
    n = b.int("count", 0, 255)
    b.push_seg("items", n)
    return n, [n]


def s_build_tuple(vm, f, n):
    f.stack.append(tuple(take(f, n)))


def s_build_list(vm, f, n):
    f.stack.append(list(take(f, n)))


op("C08", "BUILD_TUPLE", pre_count, s_build_tuple)
op("C08", "BUILD_LIST", pre_count, s_build_list)


def pre_n(b):
    n = b.variant["n"]
    b.push(*b.anys(n))
    return n, [n]


def s_build_set(vm, f, n):
    items = take(f, n)
    s = set()
    for x in items:
        s.add(x)
    f.stack.append(s)


op("C08", "BUILD_SET", pre_n, s_build_set, extra=nvariants(0, 1, 2, 3), bounded=N3)


def pre_list_from_arg(b):
    b.push(*b.anys(1))
    return 0, [0]


def s_list_from_arg(vm, f, n):
    v = f.stack.pop()
    f.stack.append([])
    f.stack.append(v)


op("C08", "BUILD_LIST_FROM_ARG", pre_list_from_arg, s_list_from_arg, pypy=True)


def s_empty_map(vm, f, n):
    f.stack.append({})


op("C08", "BUILD_MAP", lambda b: (b.int("size", 0), [b.int("size", 0)]), s_empty_map, hi=(3, 4))


def pre_2n(b):
    n = b.variant["n"]
    b.push(*b.anys(2 * n))
    return n, [n]


def s_build_map(vm, f, n):
    items = take(f, 2 * n)
    d = {}
    for i in range(n):
        d[items[2 * i]] = items[2 * i + 1]
    f.stack.append(d)


op("C08", "BUILD_MAP", pre_2n, s_build_map, lo=(3, 5), extra=nvariants(0, 1, 2, 3), bounded=N3)


def pre_store_map(b):
    b.push(b.choose("map", [b.dict("d"), b.any("user")]))
    b.push(*b.anys(2))


def s_store_map(vm, f):
    k = f.stack.pop()
    v = f.stack.pop()
    d = f.stack.pop()
    d[k] = v
    f.stack.append(d)


op("C08", "STORE_MAP", pre_store_map, s_store_map, hi=(3, 4))


def pre_const_map(b):
    n = b.variant["n"]
    b.push(*b.anys(n))
    b.push(b.tup(b.anys(n, "k")))
    return n, [n]


def s_const_map(vm, f, n):
    keys = f.stack.pop()
    vals = take(f, n)
    d = {}
    for i in range(n):
        d[keys[i]] = vals[i]
    f.stack.append(d)


op("C08", "BUILD_CONST_KEY_MAP", pre_const_map, s_const_map, extra=nvariants(0, 1, 2, 3), bounded=N3)


def pre_slice(b):
    n = b.choose("n", [2, 3])
    b.push(*b.anys(n))
    return n, [n]


def s_slice(vm, f, n):
    it = take(f, n)
    f.stack.append(slice(it[0], it[1]) if n == 2 else slice(it[0], it[1], it[2]))


op("C08", "BUILD_SLICE", pre_slice, s_slice)


def pre_strings(b):
    n = b.variant["n"]
    b.push(*[b.str(f"s{i}") for i in range(n)])
    return n, [n]


def s_strings(vm, f, n):
    f.stack.append("".join(take(f, n)))


op("C08", "BUILD_STRING", pre_strings, s_strings, extra=nvariants(0, 1, 2, 3), bounded=N3)


def fmt_variants(v, pp, n):
    return [{"flags": i} for i in range(8)]


def pre_format(b):
    fl = b.variant["flags"]
    b.push(b.any("value"))
    if fl & 4:
        b.push(b.str("spec"))
    return fl, [fl]


def s_format(vm, f, fl):
    spec = f.stack.pop() if fl & 4 else ""
    v = f.stack.pop()
    if fl & 3 == 1:
        v = str(v)
    elif fl & 3 == 2:
        v = repr(v)
    elif fl & 3 == 3:
        v = ascii(v)
    f.stack.append(format(v, spec))


op("C08", "FORMAT_VALUE", pre_format, s_format, extra=fmt_variants)


# ------------------------------------------------------------------ additions to a container deeper in the stack
def pre_deep(kind, n):
    def pre(b):
        k = b.int("i", 1)
        c = {"list": b.list, "set": b.set, "dict": b.dict}[kind]("target")
        b.push(c)
        b.push_seg("between", k - 1)
        if n == "iterable":
            b.push(b.iterable("it"))
        elif n == "mapping":
            b.push(b.mapping("m"))
        else:
            b.push(*b.anys(n))
        return k, [k]
    return pre


def pre_append24(b):
    b.push(b.list("target"))
    b.push(*b.anys(1))


def s_append24(vm, f):
    v = f.stack.pop()
    f.stack.pop().append(v)


def s_append(vm, f, i):
    v = f.stack.pop()
    f.stack[-i].append(v)


def s_add(vm, f, i):
    v = f.stack.pop()
    f.stack[-i].add(v)


def s_map_add27(vm, f, i):
    k = f.stack.pop()
    v = f.stack.pop()
    f.stack[-i][k] = v


def s_map_add38(vm, f, i):
    v = f.stack.pop()
    k = f.stack.pop()
    f.stack[-i][k] = v


op("C08", "LIST_APPEND", pre_append24, s_append24, hi=(2, 6))
op("C08", "LIST_APPEND", pre_deep("list", 1), s_append, lo=(2, 7))
op("C08", "SET_ADD", pre_deep("set", 1), s_add, lo=(2, 7))
op("C08", "MAP_ADD", pre_deep("dict", 2), s_map_add27, lo=(2, 7), hi=(3, 7))
op("C08", "MAP_ADD", pre_deep("dict", 2), s_map_add38, lo=(3, 8))


def s_extend(vm, f, i):
    v = f.stack.pop()
    f.stack[-i].extend(v)


def s_update(vm, f, i):
    v = f.stack.pop()
    f.stack[-i].update(v)


def s_dict_update(vm, f, i):
    v = f.stack.pop()
    if not hasattr(v, "keys"):
        raise TypeError("not a mapping")
    f.stack[-i].update(v)


def s_dict_merge(vm, f, i):
    v = f.stack.pop()
    if not hasattr(v, "keys"):
        raise TypeError("not a mapping")
    merge_into(f.stack[-i], v)


def s_to_tuple(vm, f):
    f.stack.append(tuple(f.stack.pop()))


op("C08", "LIST_EXTEND", pre_deep("list", "iterable"), s_extend)
op("C08", "SET_UPDATE", pre_deep("set", "iterable"), s_update)
op("C08", "DICT_UPDATE", pre_deep("dict", "mapping"), s_dict_update)
op("C08", "LIST_TO_TUPLE", lambda b: b.push(b.list("l")), s_to_tuple)


def pre_merge(b):
    """The mapping merged has known keys; what it is merged into is arbitrary."""
    n = b.variant["n"]
    k = b.int("i", 1)
    b.push(b.dict("target"))
    b.push_seg("between", k - 1)
    b.push(b.dic([(("a", "b", "c")[i], b.any(f"x{i}")) for i in range(n)]) if n < 4 else b.any("m"))
    return k, [k]


op("C08 C09", "DICT_MERGE", pre_merge, s_dict_merge, extra=nvariants(0, 1, 2, 3), bounded="at most 3 keywords merged")


# ------------------------------------------------------------------ unpacking into a new container
def pre_iterables(b):
    n = b.variant["n"]
    b.push(*[b.iterable(f"it{i}") for i in range(n)])
    return n, [n]


def flat(vals):
    out = []
    for v in vals:
        out.extend(v)
    return out


def s_tuple_unpack(vm, f, n):
    f.stack.append(tuple(flat(take(f, n))))


def s_list_unpack(vm, f, n):
    f.stack.append(flat(take(f, n)))


op("C08", "BUILD_TUPLE_UNPACK BUILD_TUPLE_UNPACK_WITH_CALL", pre_iterables, s_tuple_unpack,
   extra=nvariants(0, 1, 2, 3), bounded=N3)
op("C08", "BUILD_LIST_UNPACK", pre_iterables, s_list_unpack, extra=nvariants(0, 1, 2, 3), bounded=N3)


def s_set_unpack(vm, f, n):
    s = set()
    for it in take(f, n):
        s.update(it)
    f.stack.append(s)


op("C08", "BUILD_SET_UNPACK", pre_iterables, s_set_unpack, extra=nvariants(0, 1, 2, 3), bounded=N3)


def pre_mappings(b):
    n = b.variant["n"]
    b.push(*[b.mapping(f"m{i}") for i in range(n)])
    return n, [n]


def s_map_unpack(vm, f, n):
    d = {}
    for m in take(f, n):
        d.update(m)
    f.stack.append(d)


op("C08", "BUILD_MAP_UNPACK", pre_mappings, s_map_unpack, extra=nvariants(0, 1, 2, 3), bounded=N3)

KEYS = [[("a", "b")], [("a",), ("b",)], [("a", "b"), ("b",)], [("a", "b"), (), ("c", "a")], [(), ()], [("x",), ("y", "z"),
                                                                                                   ("w",)]]


def pre_call_maps(b):
    k = KEYS[b.variant["n"]]
    for i, keys in enumerate(k):
        b.push(b.dic([(x, b.any(f"{x}{i}")) for x in keys]))
    n = len(k)
    arg = n | (b.choose("fnpos", [1, 2, 3]) << 8) if (b.version == (3, 5) or b.pypy and b.version == (3, 6)) else n
    return arg, [arg]


def s_call_maps(vm, f, n):
    d = {}
    for m in take(f, n & 255):
        merge_into(d, m)
    f.stack.append(d)


op("C08 C09", "BUILD_MAP_UNPACK_WITH_CALL", pre_call_maps, s_call_maps, extra=nvariants(0, 1, 2, 3, 4, 5),
   bounded="at most 3 mappings of at most 2 keywords")


# ------------------------------------------------------------------ unpacking onto the stack
def pre_unpack(b):
    n = b.variant["n"]
    b.push(b.iterable("seq"))
    return n, [n]


def first(it, n):
    out = []
    for i in range(n):
        try:
            out.append(next(it))
        except StopIteration:
            raise ValueError("not enough values to unpack")
    return out


def push_reversed(f, items):
    i = len(items)
    while i:
        i -= 1
        f.stack.append(items[i])


def s_unpack(vm, f, n):
    it = iter(f.stack.pop())
    items = first(it, n)
    try:
        next(it)
    except StopIteration:
        push_reversed(f, items)
        return
    raise ValueError("too many values to unpack")


op("C08", "UNPACK_SEQUENCE", pre_unpack, s_unpack, extra=nvariants(0, 1, 2, 3), bounded=N3)


def unpack_ex(v, pp, n):
    return [{"before": i, "after": j} for i in (0, 1, 2) for j in (0, 1, 2)]


def pre_unpack_ex(b):
    v = b.variant
    b.push(b.iterable("seq"))
    a = v["before"] + (v["after"] << 8)
    return a, [a]


def s_unpack_ex(vm, f, a):
    before = a & 255
    after = a >> 8
    it = iter(f.stack.pop())
    items = first(it, before)
    rest = list(it)
    n = len(rest)
    if n < after:
        raise ValueError("not enough values to unpack")
    i = n
    while i > n - after:
        i -= 1
        f.stack.append(rest[i])
    f.stack.append(rest[:n - after])
    push_reversed(f, items)


op("C08", "UNPACK_EX", pre_unpack_ex, s_unpack_ex, extra=unpack_ex, bounded="at most 2 values before and after")
