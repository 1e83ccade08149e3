"""Access to the code under verification, and the contract registry."""
import logging
import os
import sys

sys.dont_write_bytecode = True
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
for p in (REPO,):
    if p not in sys.path:
        sys.path.insert(0, p)
for p in ("/opt/venv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)

logging.disable(logging.CRITICAL)

from xdis.codetype import to_portable  # noqa
from xdis.version_info import PythonImplementation  # noqa

CPY = [(2, 4), (2, 5), (2, 6), (2, 7), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8),
       (3, 9), (3, 10), (3, 11), (3, 12)]
PYPY = [(2, 7), (3, 2), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9)]


def impl(pypy):
    return PythonImplementation.PyPy if pypy else PythonImplementation.CPython


def flavours():
    return [(v, False) for v in CPY] + [(v, True) for v in PYPY]


_codes = {}


def mkcode(version, **kw):
    """A code object of the given version; equal arguments give the same object
    (within one evaluation: the 200 most recently asked for are kept)."""
    key = (version, repr(sorted((k, (len(v), id(v)) if isinstance(v, tuple) and len(v) > 100 else v)
                                for k, v in kw.items())))
    code = _codes.pop(key, None) or _mkcode(version, **kw)
    _codes[key] = code
    if len(_codes) > 200:
        del _codes[next(iter(_codes))]
    return code


def _mkcode(version, **kw):
    d = dict(co_argcount=0, co_posonlyargcount=0, co_kwonlyargcount=0, co_nlocals=0, co_stacksize=20, co_flags=0,
             co_code=b"\x09\x00" * 20, co_consts=(None,), co_names=(), co_varnames=(), co_filename="prog.py",
             co_name="f", co_qualname="f", co_firstlineno=1, co_lnotab=b"", co_freevars=(), co_cellvars=(),
             co_exceptiontable=b"", version_triple=tuple(version[:2]) + (0,))
    d.update(kw)
    return to_portable(**d)


_opcs = {}


def opcode_module(version, pypy):
    from xdis.op_imports import get_opcode_module
    k = (version, pypy)
    if k not in _opcs:
        _opcs[k] = get_opcode_module(version, impl(pypy))
    return _opcs[k]


class Contract:
    """One contract: pre-state builder, the real entry point and the spec."""

    registry = []

    def __init__(self, name, props, variants, pre, real, spec, observe=None, bounded=None, weight=1.0,
                 native=True, symbolic=True, stubs=None, fn=None, observables=None, cases=None, msg_pure=True,
                 native_stubs=None, nat_observe=None, group=None, limits=None, search=True):
        self.name, self.props, self.variants = name, props, variants
        self.pre, self.real, self.spec = pre, real, spec
        self.observe = observe
        self.bounded = bounded          # text of the bound when the symbolic check is bounded by construction
        self.weight = weight
        self.native, self.symbolic = native, symbolic
        self.stubs = stubs              # {real function: handler}
        self.fn = fn                    # names of the functions under contract
        self.observables = observables
        self.cases = cases
        self.search = search            # more native evaluations where the symbolic check does not decide
        self.limits = limits            # (seconds, paths) for the symbolic check, if more than usual
        self.msg_pure = msg_pure
        self.native_stubs, self.nat_observe = native_stubs, nat_observe
        Contract.registry.append(self)

    def key(self, variant):
        return self.name + ":" + variant_str(variant)


class Bounded:
    """A bounded native check that stands in where no contract is in reach.

    fn(tier, seed, seconds) -> (evaluations, None or a JSON description of the
    failing input, samples, distinct cases); replay(description) -> the failure
    or None.
    """

    registry = []

    def __init__(self, name, props, fn, replay, bound):
        self.name, self.props, self.fn, self.replay, self.bound = name, props.split(), fn, replay, bound
        Bounded.registry.append(self)


def variant_str(v):
    return ",".join(f"{k}={'.'.join(map(str, x)) if isinstance(x, tuple) and k == 'version' else x}"
                    for k, x in v.items())
