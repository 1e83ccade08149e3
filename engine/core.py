"""Core of the deductive engine: symbolic values, paths, ropes, dictionaries.

A *path* is one run of the real function followed by one run of its spec
function from an identical symbolic pre-state.  All paths are explored by
re-execution with a prefix of recorded decisions, so no state is ever cloned.
"""
import time
import z3

z3.set_param("smt.random_seed", 1)

U = z3.DeclareSort("U")
_SUB = z3.Function("sub", U, U, z3.BoolSort())        # subclass relation
_TYPEOF = z3.Function("typeof", U, U)                  # exact class
_CALLABLE = z3.Function("callable", U, z3.BoolSort())
_BOXINT = z3.Function("boxint", z3.IntSort(), U)
_INTVAL = z3.Function("intval", U, z3.IntSort())


class Unsupported(Exception):
    """The engine cannot interpret this construct: the obligation is undecided."""


class CutPoint(BaseException):
    """The exploration of both the code and the contract ends here; what they did so far is compared."""

    def __init__(self, label):
        self.label = label


class PathAbort(BaseException):
    """The current path is infeasible."""


class Refuted(BaseException):
    """The current path definitely violates the contract."""

    def __init__(self, label, detail=""):
        BaseException.__init__(self, label, detail)
        self.label, self.detail = label, detail


class PyRaise(Exception):
    """An exception of the interpreted program, carrying its value."""

    def __init__(self, value):
        Exception.__init__(self)
        self.value = value


# ------------------------------------------------------------------ values
class Sym:
    __slots__ = ()


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return mkint(self.t + zi(o))

    def __sub__(self, o):
        return mkint(self.t - zi(o))

    def __repr__(self):
        return f"SInt({self.t})"


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class Obj(Sym):
    """An opaque value.  kind: None (any value), 'str' (an exact str)."""
    __slots__ = ("t", "kind")

    def __init__(self, t, kind=None):
        self.t, self.kind = t, kind

    @property
    def name(self):
        return str(self.t)

    def __repr__(self):
        return f"<{self.t}>"


class E:
    """One explicit element of a rope."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class S:
    """The slice [lo:hi) of an uninterpreted sequence."""
    __slots__ = ("base", "lo", "hi")

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    def __repr__(self):
        return f"{self.base.name}[{self.lo}:{self.hi}]"


class SeqBase:
    """An uninterpreted sequence; elements are elt(i)."""

    def __init__(self, name, length, wrap=None):
        self.name, self.length = name, length
        self.f = z3.Function("elt_" + name, z3.IntSort(), U)
        self.wrap = wrap or (lambda t: Obj(t))

    def at(self, i):
        return self.wrap(z3.simplify(self.f(i if z3.is_expr(i) else z3.IntVal(i))))


class HObj(Sym):
    """A heap object of a (real) class with known attributes."""
    __slots__ = ("cls", "attrs", "uid", "extra")

    def __init__(self, cls, attrs=None, uid=None):
        self.cls, self.attrs, self.uid = cls, attrs if attrs is not None else {}, uid
        self.extra = None

    def __repr__(self):
        return f"<H {self.cls.__name__}{'' if self.uid is None else '#' + str(self.uid)}>"


class HSeq(Sym):
    __slots__ = ("segs", "uid", "cls")

    def __init__(self, segs=(), uid=None, cls=None):
        self.segs = list(segs)
        self.uid = uid
        self.cls = cls


class HList(HSeq):
    def __repr__(self):
        return "[" + ", ".join(map(repr, self.segs)) + "]"


class HTuple(HSeq):
    """cls is set for named tuples."""

    def __repr__(self):
        return (self.cls.__name__ if self.cls else "") + "(" + ", ".join(map(repr, self.segs)) + ")"


class HSet(HSeq):
    """segs is the insertion sequence."""

    def __repr__(self):
        return "set[" + ", ".join(map(repr, self.segs)) + "]"


DELETED = type("DELETED", (), {"__repr__": lambda s: "DELETED"})()


class DictBase:
    def __init__(self, name, kind=None):
        self.name = name
        self.dom = z3.Function("dom_" + name, U, z3.BoolSort())
        self.val = z3.Function("val_" + name, U, U)
        self.nonempty = z3.Bool("nonempty_" + name)
        self.kind = kind          # wrapper of values

    def wrap(self, t):
        return self.kind(t) if self.kind else Obj(t)


class HDict(Sym):
    __slots__ = ("base", "over", "uid", "cls")

    def __init__(self, base=None, over=(), uid=None, cls=dict):
        self.base, self.over, self.uid, self.cls = base, list(over), uid, cls

    def __repr__(self):
        return "{" + (f"**{self.base.name}, " if self.base else "") + ", ".join(
            f"{k!r}: {v!r}" for k, v in self.over) + "}"


class Bound(Sym):
    """A bound method: a real function (or a model) and its receiver."""
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class BuiltinMethod(Sym):
    """name of a modelled method of a symbolic receiver."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class IFunc(Sym):
    """A function defined inside interpreted code (lambda or nested def)."""
    __slots__ = ("node", "env", "globs", "defaults", "kwdefaults", "name", "defcls")

    def __init__(self, node, env, globs, defaults, kwdefaults, name):
        self.node, self.env, self.globs = node, env, globs
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name


class SuperObj(Sym):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class HIter(Sym):
    """An iterator over explicit elements."""
    __slots__ = ("items", "uid")

    def __init__(self, items, uid=None):
        self.items = list(items)
        self.uid = uid


class RIter(Sym):
    """An iterator over a list or tuple that may hold unknown parts."""
    __slots__ = ("seq", "pos", "uid")

    def __init__(self, seq):
        self.seq, self.pos, self.uid = seq, 0, None


class SSlice(Sym):
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


def is_sym(v):
    return isinstance(v, Sym)


# ------------------------------------------------------------------ paths
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.unknown = 0
        self.second = 0

    def add(self, o):
        for k in vars(self):
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def as_dict(self):
        return dict(vars(self))


class Ctx:
    """One path."""

    MAXDEC = 400
    deadline = None

    def __init__(self, prefix, stats):
        self.prefix = prefix          # list of recorded choices (ints, or ('f',bool) forced)
        self.taken = []
        self.alts = []                # new prefixes discovered
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.pc = []
        self.lifted = {}
        self.lift_list = []
        self.classes = []             # lifted class constants
        self.fresh_n = {}
        self.events = []
        self.phase = "real"
        self.evpos = 0
        self.exc_stack = []
        self.on_event = None
        self.steps = 0
        self.fact_cache = {}
        self.bounded = False
        self.notes = []
        self.unroll = set()
        self.search_rules = set()

    # -- names
    def fresh(self, name):
        n = self.fresh_n.get((self.phase, name), 0)
        self.fresh_n[(self.phase, name)] = n + 1
        return f"{self.phase[0]}!{name}!{n}"

    def obj(self, name, kind=None):
        o = Obj(z3.Const(name, U), kind)
        if kind == "str":
            self.assume(_TYPEOF(o.t) == self.lift(str))
        return o

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        return SInt(t)

    # -- constraints
    def assume(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra):
        self.stats.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            self.saw_unknown = True
        return r

    def sat(self, c):
        return self.check(c) != z3.unsat

    def proves(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def tick(self):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported("too many steps")
        if self.steps % 256 == 0 and Ctx.deadline and time.time() > Ctx.deadline:
            raise Unsupported("time budget of the obligation exhausted")

    def branch(self, c):
        """Decide the boolean term c on this path."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            ch = self.prefix[i]
            self.taken.append(ch)
            v = ch[1] if isinstance(ch, tuple) else bool(ch)
            if not isinstance(ch, tuple):
                self.assume(c if v else z3.Not(c))
            return v
        if i > self.MAXDEC:
            raise Unsupported("too many decisions")
        t = self.sat(c)
        f = self.sat(z3.Not(c))
        if t and f:
            self.alts.append(self.taken + [0])
            self.taken.append(1)
            self.assume(c)
            return True
        if t:
            self.taken.append(("f", True))
            return True
        if f:
            self.taken.append(("f", False))
            return False
        raise PathAbort()

    def choose(self, n):
        """Nondeterministic choice among n alternatives."""
        if n == 1:
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            ch = self.prefix[i]
            self.taken.append(ch)
            return ch
        for k in range(1, n):
            self.alts.append(self.taken + [k])
        self.taken.append(0)
        return 0

    # -- host constants as terms
    def lift(self, v):
        """The term of a host constant."""
        if isinstance(v, Obj):
            return v.t
        if isinstance(v, SInt):
            t = _BOXINT(v.t)
            k = ("boxint", t.get_id())
            if k not in self.fact_cache:
                self.fact_cache[k] = t
                self.assume(_INTVAL(t) == v.t)
                self.assume(_TYPEOF(t) == self.lift(int))
            return t
        key = self._key(v)
        if key in self.lifted:
            return self.lifted[key][0]
        nm = f"c!{len(self.lifted)}!{str(getattr(v, '__name__', repr(v)))[:20]}"
        t = z3.Const(nm, U)
        for _, (o, _) in self.lifted.items():
            self.assume(t != o)
        self.lifted[key] = (t, v)
        if isinstance(v, (HObj, HSeq, HDict)):
            pass
        elif not isinstance(v, Sym):
            if isinstance(v, type):
                for c, ct in self.classes:
                    self.assume(_SUB(t, ct) == bool(_issub(v, c)))
                    self.assume(_SUB(ct, t) == bool(_issub(c, v)))
                self.assume(_SUB(t, t))
                self.classes.append((v, t))
            if type(v) is not type:
                self.assume(_TYPEOF(t) == self.lift(type(v)))
            elif v is not type:
                self.assume(_TYPEOF(t) == self.lift(type))
            if type(v) in (int, bool):
                self.assume(_INTVAL(t) == int(v))
        return t

    @staticmethod
    def _key(v):
        if isinstance(v, (int, str, bytes, float, type(None), bool)):
            return (type(v), v)
        if isinstance(v, tuple) and all(isinstance(x, (int, str, bytes, float, type(None), bool)) for x in v):
            return (tuple, tuple((type(x), x) for x in v))
        return (id(v),)

    # -- class predicates
    def sub(self, ct, cls):
        """Term: the class term ct is a subclass of the host class cls."""
        lt = self.lift(cls)
        key = ("sub", ct.get_id(), lt.get_id())
        if key not in self.fact_cache:
            self.fact_cache[key] = True
            p = _SUB(ct, lt)
            lst = self.fact_cache.setdefault(("subs", ct.get_id()), [])
            for c2 in lst:
                q = _SUB(ct, self.lift(c2))
                if _issub(cls, c2):
                    self.assume(z3.Implies(p, q))
                elif _issub(c2, cls):
                    self.assume(z3.Implies(q, p))
                elif _disjoint(cls, c2):
                    self.assume(z3.Not(z3.And(p, q)))
            lst.append(cls)
            if cls is object:
                self.assume(p)
            if cls in _FINAL:
                self.assume(p == (ct == lt))
            # keep the term alive so that ids stay unique
            self.fact_cache[("keep", ct.get_id())] = ct
        return _SUB(ct, lt)

    def sub2(self, a, b):
        """Term: the class term a is a subclass of the class term b (a partial order)."""
        known = self.fact_cache.setdefault("clsterms", [])
        for t in (a, b):
            if all(not t.eq(k) for k in known):
                known.append(t)
                self.assume(_SUB(t, t))
                for x in known:
                    self.assume(z3.Implies(z3.And(_SUB(x, t), _SUB(t, x)), x == t))
                    for y in known:
                        for p, q, r in ((x, y, t), (x, t, y), (t, x, y)):
                            self.assume(z3.Implies(z3.And(_SUB(p, q), _SUB(q, r)), _SUB(p, r)))
        return _SUB(a, b)

    def typeof(self, o):
        return _TYPEOF(o.t)


_FINAL = (type(None), bool, type(NotImplemented), type(Ellipsis), range, slice)
_SOLID = (int, str, bytes, float, complex, list, tuple, dict, set, frozenset, type, BaseException,
          type(None), slice, range, bytearray, type(lambda: 0), type(len), type(Ellipsis))


def _issub(a, b):
    try:
        return issubclass(a, b)
    except TypeError:
        return False


def _solid(c):
    for s in _SOLID:
        if _issub(c, s):
            return s
    return None


def _disjoint(a, b):
    sa, sb = _solid(a), _solid(b)
    return sa is not None and sb is not None and not _issub(sa, sb) and not _issub(sb, sa)


# ------------------------------------------------------------------ ropes
def zi(x):
    """int or SInt or z3 -> z3 or int"""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return int(x)
    return x


def mkint(x):
    if z3.is_expr(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        return SInt(x)
    return x


def seg_len(s):
    if isinstance(s, E):
        return 1
    if not z3.is_expr(s.lo) and s.lo == 0 or z3.is_int_value(s.lo) and s.lo.as_long() == 0:
        return s.hi
    return z3.simplify(s.hi - s.lo) if z3.is_expr(s.hi) or z3.is_expr(s.lo) else s.hi - s.lo


def rlen(segs):
    k, n = 0, None
    for s in segs:
        d = seg_len(s)
        if z3.is_expr(d):
            n = d if n is None else n + d
        else:
            k += d
    if n is None:
        return k
    n = n + k if k else n
    return z3.simplify(n) if z3.is_expr(n) else n


def rnorm(ctx, segs):
    out = []
    for s in segs:
        if isinstance(s, S):
            d = seg_len(s)
            if not z3.is_expr(d) or z3.is_int_value(d):
                d = d if not z3.is_expr(d) else d.as_long()
                if d == 0:
                    continue
                if d <= 4:
                    for k in range(d):
                        out.append(E(s.base.at(z3.simplify(s.lo + k) if z3.is_expr(s.lo) else s.lo + k)))
                    continue
            if out and isinstance(out[-1], S) and out[-1].base is s.base and \
                    _same(out[-1].hi, s.lo):
                out[-1] = S(s.base, out[-1].lo, s.hi)
                continue
        out.append(s)
    return out


def _same(a, b):
    if z3.is_expr(a) or z3.is_expr(b):
        return z3.is_true(z3.simplify(a == b))
    return a == b


def rsplit_end(ctx, segs, n):
    """Split so that the second part has exactly n elements (0 <= n <= len assumed)."""
    segs = list(segs)
    tail = []
    n = zi(n)
    n = z3.simplify(n) if z3.is_expr(n) else n
    while True:
        if not z3.is_expr(n) or z3.is_int_value(n):
            nn = n if not z3.is_expr(n) else n.as_long()
            if nn <= 0:
                break
        elif ctx.branch(n <= 0):
            break
        if not segs:
            # n > len: excluded by the caller
            raise PathAbort()
        s = segs.pop()
        d = seg_len(s)
        if isinstance(s, E):
            tail.insert(0, s)
            n = n - 1
        else:
            if ctx.branch(d <= n if (z3.is_expr(d) or z3.is_expr(n)) else bool(d <= n)):
                tail.insert(0, s)
                n = n - d
            else:
                cut = s.hi - n
                cut = z3.simplify(cut) if z3.is_expr(cut) else cut
                segs.append(S(s.base, s.lo, cut))
                tail.insert(0, S(s.base, cut, s.hi))
                n = 0
        n = z3.simplify(n) if z3.is_expr(n) else n
    return rnorm(ctx, segs), rnorm(ctx, tail)


def rsplit(ctx, segs, pos):
    """Split at position pos (0 <= pos <= len assumed)."""
    pos = zi(pos)
    pos = z3.simplify(pos) if z3.is_expr(pos) else pos
    n = rlen(segs)
    if not z3.is_expr(pos):
        head = []
        rest = list(segs)
        p = pos
        while rest and isinstance(rest[0], E) and p > 0:
            head.append(rest.pop(0))
            p -= 1
        if p == 0:
            return head, rest
    a, b = rsplit_end(ctx, segs, n - pos)
    return a, b


def clamp(ctx, i, n, default):
    """Python slice index normalisation; n is the length."""
    if i is None:
        return default
    i = zi(i)
    if not z3.is_expr(i):
        if i >= 0:
            if not z3.is_expr(n):
                return min(i, n)
            return i if (i == 0 or ctx.branch(n >= i)) else n
        if not z3.is_expr(n):
            return max(0, n + i)
        return z3.simplify(n + i) if ctx.branch(n >= -i) else 0
    if ctx.branch(i >= 0):
        return i if ctx.branch(i <= n) else n
    return z3.simplify(n + i) if ctx.branch(n + i >= 0) else 0


def rslice(ctx, segs, a, b):
    n = rlen(segs)
    lo = clamp(ctx, a, n, 0)
    hi = clamp(ctx, b, n, n)
    if not ctx.branch(lo <= hi if (z3.is_expr(lo) or z3.is_expr(hi)) else bool(lo <= hi)):
        hi = lo
    left, rest = rsplit(ctx, segs, lo) if not _same(lo, 0) else ([], list(segs))
    if b is None or _same(hi, n):
        mid, right = rest, []
    else:
        mid, right = rsplit(ctx, rest, hi - lo)
    return left, mid, right


def rindex(ctx, segs, i):
    """(left, element, right) or None when out of range."""
    n = rlen(segs)
    i = zi(i)
    if not z3.is_expr(i):
        if i < 0:
            # from the end
            k = -i
            if z3.is_expr(n):
                if not ctx.branch(n >= k):
                    return None
            elif n < k:
                return None
            left, right = rsplit_end(ctx, segs, k)
        else:
            if z3.is_expr(n):
                if not ctx.branch(n > i):
                    return None
            elif n <= i:
                return None
            left, right = rsplit(ctx, segs, i)
    else:
        p = z3.IntVal(0)
        for k, s in enumerate(segs):
            d = z3.simplify(i - p)
            if z3.is_int_value(d):
                d = d.as_long()
                while d > 0 and k < len(segs) and isinstance(segs[k], E):
                    d -= 1
                    k += 1
                if d == 0 and k < len(segs) and isinstance(segs[k], E):
                    return list(segs[:k]), segs[k].v, list(segs[k + 1:])
                break
            p = p + seg_len(s)
        if ctx.branch(i < 0):
            if not ctx.branch(n + i >= 0):
                return None
            left, right = rsplit_end(ctx, segs, -i)
        else:
            if not ctx.branch(i < n):
                return None
            left, right = rsplit(ctx, segs, i)
    return _head(ctx, left, right)


def _head(ctx, left, right):
    right = list(right)
    while right:
        s = right[0]
        if isinstance(s, E):
            return left, s.v, right[1:]
        d = seg_len(s)
        if ctx.branch(d > 0 if z3.is_expr(d) else bool(d > 0)):
            lo1 = z3.simplify(s.lo + 1) if z3.is_expr(s.lo) else s.lo + 1
            return left, s.base.at(s.lo), rnorm(ctx, [S(s.base, lo1, s.hi)] + right[1:])
        right.pop(0)
    raise PathAbort()


def elems(v):
    """The explicit elements of a fully explicit rope, else None."""
    if all(isinstance(s, E) for s in v.segs):
        return [s.v for s in v.segs]
    return None
