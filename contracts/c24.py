"""C24: compatibility builtins only fill gaps and behave as in the old version."""
import builtins
import contextlib
import io
import os
import random
import sys
import tempfile
import time

import xpython.stdlib.builtins as S
from xpython.byteop.byteop import ByteOpBase
from xpython.stdlib.builtins import make_compatible_builtins

from .base import *
from engine import asm

HOST = sys.version_info[:2]
ONE = [{"version": HOST, "pypy": False}]


# ------------------------------------------------------------------ cmp
class Ordered:
    """A value with an order whose comparisons return what they like that is true or false."""

    def __lt__(self, other):
        return self.yes if self.rank < other.rank else self.no

    def __gt__(self, other):
        return self.yes if self.rank > other.rank else self.no

    def __eq__(self, other):
        return self.yes if self.rank == other.rank else self.no

    def __le__(self, other):
        return self.yes if self.rank <= other.rank else self.no

    def __ge__(self, other):
        return self.yes if self.rank >= other.rank else self.no

    def __ne__(self, other):
        return self.yes if self.rank != other.rank else self.no

    __hash__ = object.__hash__


class Unordered:
    """A value that is only equal or not."""

    def __eq__(self, other):
        return self.rank == other.rank

    def __ne__(self, other):
        return self.rank != other.rank

    def __lt__(self, other):
        raise TypeError()

    def __gt__(self, other):
        raise TypeError()

    def __le__(self, other):
        raise TypeError()

    def __ge__(self, other):
        raise TypeError()

    __hash__ = object.__hash__


def pre_cmp(b):
    kind = b.variant["values"]
    b.setup_vm()
    n, m = b.int("first", -20, 20) if not b.sym else b.ctx.int("first"), b.int("second", -20, 20) if not b.sym else b.ctx.int("second")
    if kind == "integers":
        x, y = n, m
    elif kind == "tuples of integers":
        x, y = b.tup([n, 1]), b.tup([m, 1])
    else:
        # only equality is documented for the second kind
        if kind == "unordered":
            m = n
        cls = Ordered if kind == "ordered" else Unordered
        how = {"yes": b.choose("yes", [True, 5, "yes"]), "no": b.choose("no", [False, 0, None, ""])} if kind == "ordered" else {}
        x = b.obj(cls, "x", rank=n, **how)
        y = b.choose("other", [b.obj(cls, "y", rank=m, **how), x])
        if y is x:
            m = n
    return [x, y, n, m]


def spec_cmp(x, y, n, m):
    if n == m:
        return 0
    return -1 if n < m else 1


def real_cmp(x, y, n, m):
    r = S.cmp(x, y)
    return r if type(r) is int else ("not an integer", r)


Contract("cmp", ["C24"], [dict(v, values=k) for v in ONE for k in ("integers", "tuples of integers", "ordered", "unordered")], pre_cmp,
         real_cmp, spec_cmp, fn=["cmp"])


# ------------------------------------------------------------------ apply
def pre_apply(b):
    b.setup_vm()
    kw = b.choose("keywords", [None, b.dic([]), b.dic([("ka", b.any("ka"))]), b.dic([("ka", b.any("ka")), ("kb", b.any("kb"))])])
    return [b.func("f"), b.list("positional") if b.choose("list", [False, True]) else b.tuple("positional"),
            b.choose("given", [0, 1]) if kw is None else 2, kw]


def real_apply(f, pos, n, kw):
    if n == 0:
        return S.apply(f)
    if n == 1:
        return S.apply(f, pos)
    return S.apply(f, pos, kw)


def spec_apply(f, pos, n, kw):
    if n == 0:
        return f()
    if n == 1:
        return f(*pos)
    return f(*pos, **kw)


Contract("apply", ["C24"], ONE, pre_apply, real_apply, spec_apply, fn=["apply"])


# ------------------------------------------------------------------ adapting the builtins, and what they do then
PY2 = {"apply", "basestring", "buffer", "cmp", "coerce", "execfile", "file", "intern", "long", "raw_input", "reduce", "reload",
       "unichr", "unicode", "xrange", "StandardError"}
KNOWN = sorted(PY2 | {"OverflowWarning", "breakpoint"})


def adapt_case(seed):
    """Some of the builtins of the host, adapted to one version after another."""
    r = random.Random(seed)
    d = dict(vars(builtins))
    for n in KNOWN:
        d.pop(n, None)
    if r.random() < .7:
        d["breakpoint"] = breakpoint
    for n in r.sample(sorted(d), r.choice([0, 0, 3, 60])):
        del d[n]
    for n in r.sample(KNOWN + ["own name", "another"], r.choice([0, 2, 6])):
        d[n] = ("own", n)
    versions = [r.choice([v for v, pp in flavours()] + [(2, 3), (3, 0), (4, 0), 2.7, 3.8]) for _ in range(r.randint(1, 5))]
    about = {"adapt": seed, "versions": [str(v) for v in versions]}
    for i, v in enumerate(versions):
        before = dict(d)
        v = v if type(v) is not tuple or r.random() < .5 else v + (1,)
        with contextlib.redirect_stdout(io.StringIO()):
            make_compatible_builtins(d, v)
            after = dict(d)
            if r.random() < .5:
                make_compatible_builtins(d, v)
        if set(d) != set(after) or any(d[n] is not after[n] for n in d):
            return dict(about, expected="adapting twice is adapting once", got=repr(sorted(set(d) ^ set(after))))
        changed = sorted(n for n in before if n not in d or d[n] is not before[n])
        if changed:
            return dict(about, expected="nothing replaced or removed", got=repr(changed))
        new = set(d) - set(before)
        pair = v[:2] if type(v) is tuple else (int(str(v)[0]), int(str(v)[2]))
        want = PY2 - set(before) if (2, 4) <= pair <= (2, 7) else set()
        allowed = want | ({"OverflowWarning"} if pair < (3, 0) else {"breakpoint"} if pair >= (3, 7) else set())
        if not want <= new or not new <= allowed:
            return dict(about, expected=f"{pair}: new {sorted(want)}", got=repr(sorted(new)))
        bad = [n for n in new if not behaves(n, d[n])]
        if bad:
            return dict(about, expected=f"{bad[0]} as in the old version", got=repr(d[bad[0]]))
    return None


def outcome(f, *a, **k):
    try:
        r = f(*a, **k)
        return [type(r).__name__, r]
    except BaseException as e:
        return ["raised", type(e).__name__]


BEHAVES = {
    "apply": [(lambda f: f(max, (3, 5)), 5), (lambda f: f(dict, (), {"a": 1}), {"a": 1}), (lambda f: f(list), []), (lambda f: f(max, [1, 2]), 2)],
    "basestring": [(lambda f: isinstance("a", f), True), (lambda f: isinstance(1, f), False)],
    "buffer": [(lambda f: bytes(f(b"abc")[1:2]), b"b")],
    "cmp": [(lambda f: f(1, 2), -1), (lambda f: f(2, 1), 1), (lambda f: f("a", "a"), 0), (lambda f: f(None, None), 0), (lambda f: f([1, 2], [1, 3]), -1),
            (lambda f: f({}, {}), 0), (lambda f: f(1j, 1j), 0), (lambda f: f(1, 1.0), 0), (lambda f: f((2,), (1, 5)), 1)],
    "coerce": [(lambda f: f(1, 2), (1, 2)), (lambda f: f(1, 2.5), (1.0, 2.5)), (lambda f: f(2.5, True), (2.5, 1.0)), (lambda f: f(1j, 2.0), (1j, 2 + 0j)),
               (lambda f: f("a", "b"), ("a", "b")), (lambda f: f(1, 2j), (1 + 0j, 2j))],
    "intern": [(lambda f: f("abc"), "abc")],
    "long": [(lambda f: f("12"), 12), (lambda f: f(2.7), 2), (lambda f: isinstance(3, f), True)],
    "reduce": [(lambda f: f(lambda a, b: a - b, [10, 3, 2]), 5), (lambda f: f(lambda a, b: a + b, [], 7), 7)],
    "unichr": [(lambda f: f(0x263a), "\u263a")],
    "unicode": [(lambda f: f(12), "12"), (lambda f: f(b"ab", "ascii"), "ab")],
    "xrange": [(lambda f: list(f(1, 7, 2)), [1, 3, 5]), (lambda f: len(f(4)), 4)],
    "StandardError": [(lambda f: issubclass(ValueError, f), True), (lambda f: issubclass(f, BaseException), True),
                      (lambda f: issubclass(KeyboardInterrupt, f), False)],
    "OverflowWarning": [(lambda f: issubclass(f, Exception), True)],
    "reload": [(lambda f: f(sys.modules["xpython.version"]) is sys.modules["xpython.version"], True)],
    "file": [(lambda f: reads(f), "some text")],
    "execfile": [(lambda f: runs(f), [5, 5, 5])],
}


@contextlib.contextmanager
def text_file(text):
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "included.py")
        with open(name, "w") as f:
            f.write(text)
        yield name


def reads(f):
    with text_file("some text") as name:
        with f(name) as g:
            return g.read()


def runs(f):
    with text_file("result = value + 1\n") as name:
        g = {"value": 4}
        f(name, g)
        h, loc = {"value": 4}, {}
        f(name, h, loc)
        # without namespaces, in those of the program
        v = (2, 7)
        vm = asm.new_vm(v, False)
        code = asm.make_code(v, [("LOAD_NAME", 0), ("LOAD_CONST", 1), ("CALL_FUNCTION", 1), ("POP_TOP",), ("LOAD_CONST", 0), ("RETURN_VALUE",)],
                             False, co_names=("execfile",), co_consts=(None, name), co_flags=0)
        k = {"value": 4, "execfile": f, "__builtins__": {}}
        vm.run_code(code, k)
        return [g.get("result"), loc.get("result"), k.get("result")]


def behaves(name, f):
    for test, want in BEHAVES.get(name, []):
        if outcome(test, f) != [type(want).__name__, want]:
            return False
    return True


def adapt_search(tier, seed, secs):
    end, n = time.time() + secs, 0
    for k in range(400 if tier == "quick" else 4000):
        n += 1
        bad = adapt_case(f"{seed}:{k}")
        if bad or time.time() > end:
            return n, bad, [], n
    return n, None, [f"adapt {seed}:0"], n


Bounded("builtins adapted", "C24", adapt_search, lambda d: adapt_case(d["adapt"]),
        "random namespaces adapted to at most five versions in turn; a table of calls of each function")


VALUES = [None, True, False, 0, 1, -1, 7, 2.5, -2.5, float("inf"), 1e300, 10 ** 30, "", "a", "ab", "b", (), (1,), (1, 2), (2,), [], [1], [1, "a"], {}, {"a": 1},
          b"", b"a", frozenset(), frozenset([1]), 1j, 2 + 0j, type, int, len]


def pair_case(i, j):
    """cmp and coerce of two values, against what the order and the numeric tower say."""
    x, y = VALUES[i], VALUES[j]
    try:
        want = 0 if x is y or x == y else -1 if x < y else 1 if x > y else None
    except TypeError:
        want = "TypeError"
    if want is not None:
        got = outcome(S.cmp, x, y)
        if got != (["raised", "TypeError"] if want == "TypeError" else ["int", want]):
            return {"pair": [i, j], "call": f"cmp({x!r}, {y!r})", "expected": want, "got": repr(got)}
        back = outcome(S.cmp, y, x)
        if want != "TypeError" and back != ["int", -want]:
            return {"pair": [i, j], "call": f"cmp({y!r}, {x!r})", "expected": -want, "got": repr(back)}
    tower = [bool, int, float, complex]
    if type(x) in tower and type(y) in tower:
        k = max(tower.index(type(x)), tower.index(type(y)))
        want = (x, y) if k < 2 else (tower[k](x), tower[k](y))
        got = outcome(S.coerce, x, y) if abs(x) < 1e200 and abs(y) < 1e200 or k != 2 else ["tuple", want]
        if got != ["tuple", want] or [type(v) for v in got[1]] != [type(v) for v in want]:
            return {"pair": [i, j], "call": f"coerce({x!r}, {y!r})", "expected": repr(want), "got": repr(got)}
    elif type(x) is not type(y):
        got = outcome(S.coerce, x, y)
        if got != ["raised", "TypeError"]:
            return {"pair": [i, j], "call": f"coerce({x!r}, {y!r})", "expected": "TypeError", "got": repr(got)}
    return None


def pair_search(tier, seed, secs):
    n = 0
    for i in range(len(VALUES)):
        for j in range(len(VALUES)):
            n += 1
            bad = pair_case(i, j)
            if bad:
                return n, bad, [], n
    return n, None, [repr(VALUES[:4])], n


Bounded("cmp and coerce of pairs", "C24", pair_search, lambda d: pair_case(*d["pair"]), f"the pairs of {len(VALUES)} values")
