"""Instruction contracts: the real entry point is PyVM.dispatch."""
from engine.common import *


def real_dispatch(vm, op, int_arg, arguments, specfn):
    return vm.dispatch(op, int_arg, arguments, vm.frame.f_lasti, None)


def spec_dispatch(vm, op, int_arg, arguments, specfn):
    try:
        why = specfn(vm, vm.frame, *arguments)
    except BaseException as e:
        vm.last_exception = (type(e), e, None)
        return "exception"
    return why


def in_versions(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v <= hi)


def op_variants(names, lo=None, hi=None, pypy=None, when=None, extra=None):
    out = []
    for v, pp in flavours():
        if not in_versions(v, lo, hi) or (pypy is not None and pp != pypy):
            continue
        opm = set(opcode_module(v, pp).opmap) | set(opcode_module(v, pp).opname)
        for n in names:
            if n in opm and (when is None or when(v, pp, n)):
                base = {"op": n, "version": v, "pypy": pp}
                for e in (extra(v, pp, n) if extra else [{}]):
                    d = dict(base)
                    d.update(e)
                    out.append(d)
    return out


def op(prop, names, pre, spec, lo=None, hi=None, pypy=None, when=None, extra=None, name=None, module_level=None, **kw):
    """Contract of the instructions called names, executed through PyVM.dispatch.

    pre(b) pushes the operands and returns (int_arg, decoded argument list).
    spec(vm, f, *arguments) transforms the frame as documented and returns the
    reason to leave the block (None to go on), or raises the exception the
    program must see.
    """
    if isinstance(names, str):
        names = names.split()
    variants = op_variants(names, lo, hi, pypy, when, extra)

    def pre_(b):
        if b.vm is None:
            b.setup_vm(module_level=module_level)
        r = pre(b)
        if r is None:
            int_arg, args = None, []
        else:
            int_arg, args = r
        return [b.vm, b.op, int_arg, b.lst(args), specfn(b, spec)]

    def specfn(b, spec):
        return spec(b) if getattr(spec, "per_variant", False) else spec

    return Contract(name or f"op:{'/'.join(names)[:40]}" + (f"[{lo}-{hi}]" if lo or hi else ""),
                    prop.split(), variants, pre_, real_dispatch, spec_dispatch, fn=names, **kw)


def per_variant(f):
    """spec chosen from the builder (for specs that depend on the version)."""
    f.per_variant = True
    return f


def event_stub(name, **kw):
    """Summary of a function under its own contract: an opaque operation."""
    def h(it, args, kwargs):
        return it.m.event(name, *args, **kw)
    return h


def take(f, n):
    k = len(f.stack) - n
    items = f.stack[k:]
    f.stack[k:] = []
    return items


def merge_into(d, v):
    for k in v.keys():
        if k in d:
            raise TypeError("multiple values for keyword argument")
        d[k] = v[k]
