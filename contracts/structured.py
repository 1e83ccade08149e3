"""Bounded: programs of nested blocks in the bytecode of every version, against the host."""
from engine import structured
from .base import *

WHAT = ("random functions of nested loops, try, except, finally and with statements, which return, break, continue and "
        "raise, up to 4 deep, in bytecode of 2.4-2.7, 3.1-3.10 (assembled here as that version's compiler does) and "
        "3.12; the host Python is the oracle")

Bounded("programs of nested blocks", "C12 C13 C14 C16", *structured.bounded(False), WHAT)
Bounded("generators of nested blocks", "C13 C15 C16", *structured.bounded(True),
        WHAT + "; the functions are generators, some delegating to others, driven by next, send, throw and close")


def observer(event, offset, bytecode_name, byte_code, line_number, int_arg, event_arg, vm):
    return observer


Bounded("traced programs of nested blocks", "C18", *structured.bounded(False, observer, quick=12), WHAT + "; the tracing interpreter")
Bounded("traced generators of nested blocks", "C18", *structured.bounded(True, observer, quick=12),
        WHAT + "; generators in the tracing interpreter")
