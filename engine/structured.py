"""Random structured programs: loops, try, with, return, raise, generators.

Each program exists twice: as Python source, which the host Python runs (the
oracle), and as bytecode of a chosen version, laid out as that version's own
compiler lays it out, which x-python runs.
"""
import builtins
import contextlib
import io
import random
import time

from .asm import make_code, new_vm

EXCS = ["KeyError", "ValueError", "LookupError", "OSError", "StopIteration", "GeneratorExit"]
NAMES = ("mark", "flag", "info", "items", "cms", "subs") + tuple(EXCS) + tuple(f"f{i}" for i in range(4)) + ("__enter__", "__exit__")


# ---------------------------------------------------------------- programs

def is_generator(version, f):
    return f == 0 or f == 1 and version >= (3, 3)


class Gen:
    def __init__(self, rng, version, generators=False):
        self.r, self.v, self.n, self.generators = rng, version, 0, generators
        # A StopIteration leaving a generator changed its meaning in 3.7.
        self.excs = EXCS[:4] if not generators else EXCS if version >= (3, 7) else EXCS[:4] + EXCS[5:]

    def program(self):
        return [self.body(3, f, "func") for f in range(3)]

    def k(self):
        self.n += 1
        return self.n

    def body(self, depth, f, where, n=None):
        out = []
        for _ in range(n or self.r.choice([1, 1, 2, 2, 3])):
            s = self.stmt(depth, f, where)
            out.append(s)
            if s[0] in ("return", "raise", "break", "continue", "reraise"):
                break
        return out

    def stmt(self, depth, f, where):
        r = self.r
        leaf = [("mark", self.k())] * 2
        leaf.append(("if", [r.choice(self.leaves(f, where))], r.choice([[], [("mark", self.k())]])))
        leaf.append(r.choice(self.leaves(f, where)))
        if f < 2:
            k = r.randrange(f + 1, 3)
            if self.generators and k == 1 and self.v >= (3, 3):
                leaf.append(("yieldfrom", "f1()"))
            else:
                leaf.append(("call", k))
        if self.generators and is_generator(self.v, f):
            leaf += [("yield", self.k())] * 2
            if self.v >= (3, 3):
                leaf.append(("yieldfrom", r.choice(["items[2]", "items[3]", "subs[0]()", "subs[1]()"])))
        if self.v >= (3,):
            leaf.append(("info",))
        if depth == 0 or r.random() < 0.3:
            return r.choice(leaf)
        w = where + " "
        d = depth - 1
        kind = r.choice(["for", "while", "try", "try", "finally", "finally", "with", "with"])
        if kind == "for":
            return ("for", r.randrange(4), self.body(d, f, self.enter(where, "loop")),
                    self.body(d, f, where, 1) if r.random() < 0.3 else [])
        if kind == "while":
            return ("while", self.body(d, f, self.enter(where, "loop")), self.body(d, f, where, 1) if r.random() < 0.3 else [])
        if kind == "try":
            hs = []
            for _ in range(r.choice([1, 1, 2])):
                named = r.random() < 0.4
                hs.append((r.choice(self.excs), named, self.body(d, f, w + "handler")))
            if r.random() < 0.2:
                hs.append((None, False, self.body(d, f, w + "handler")))
            return ("try", self.body(d, f, w + "try"), hs, self.body(d, f, where, 1) if r.random() < 0.3 else [])
        if kind == "finally":
            return ("finally", self.body(d, f, w + "try"), self.body(d, f, w + "final"))
        if self.v < (2, 5):
            return ("mark", self.k())
        return ("with", r.randrange(3), self.body(d, f, w + "with"))

    def enter(self, where, x):
        return where + " " + x

    def leaves(self, f, where):
        r = self.r
        out = [("return", self.k()), ("raise", r.choice(self.excs)), ("raise", r.choice(self.excs))]
        ws = where.split()
        if "loop" in ws:
            inner = ws[len(ws) - ws[::-1].index("loop"):]
            out += [("break",)] * 2
            if "final" not in inner or self.v >= (3, 8):
                out += [("continue",)] * 2
        if ws[-1] == "handler" and self.v >= (3,):
            out.append(("reraise",))
        return out


def source(prog, generator, version=(3, 12)):
    out = []

    def emit(body, ind):
        p = "    " * ind
        if not body:
            out.append(p + "pass")
        for s in body:
            k = s[0]
            if k == "mark":
                out.append(f"{p}mark({s[1]})")
            elif k == "info":
                out.append(f"{p}mark(info()[0])")
            elif k == "call":
                out.append(f"{p}f{s[1]}()")
            elif k == "yield":
                out.append(f"{p}mark((yield {s[1]}))" if version >= (2, 5) else f"{p}yield {s[1]}")
            elif k == "yieldfrom":
                # (kept, so that the collector does not close it)
                out.append(f"{p}mark((yield from keep({s[1]})))")
            elif k == "return":
                out.append(f"{p}return {s[1]}" if not generator_fn or version >= (3, 3) else f"{p}return")
            elif k == "raise":
                out.append(f"{p}raise {s[1]}")
            elif k == "reraise":
                out.append(f"{p}raise")
            elif k in ("break", "continue"):
                out.append(p + k)
            elif k == "if":
                out.append(f"{p}if flag():")
                emit(s[1], ind + 1)
                if s[2]:
                    out.append(f"{p}else:")
                    emit(s[2], ind + 1)
            elif k == "for":
                out.append(f"{p}for x in items[{s[1]}]:")
                emit(s[2], ind + 1)
                if s[3]:
                    out.append(f"{p}else:")
                    emit(s[3], ind + 1)
            elif k == "while":
                out.append(f"{p}while flag():")
                emit(s[1], ind + 1)
                if s[2]:
                    out.append(f"{p}else:")
                    emit(s[2], ind + 1)
            elif k == "try":
                out.append(f"{p}try:")
                emit(s[1], ind + 1)
                for e, named, b in s[2]:
                    out.append(f"{p}except {e} as e:" if named else f"{p}except {e}:" if e else f"{p}except:")
                    if named:
                        out.append(f"{p}    mark(e)")
                    emit(b, ind + 1)
                if s[3]:
                    out.append(f"{p}else:")
                    emit(s[3], ind + 1)
            elif k == "finally":
                out.append(f"{p}try:")
                emit(s[1], ind + 1)
                out.append(f"{p}finally:")
                emit(s[2], ind + 1)
            elif k == "with":
                out.append(f"{p}with cms[{s[1]}]:")
                emit(s[2], ind + 1)
            else:
                raise AssertionError(k)
    for i, body in enumerate(prog):
        generator_fn = generator and is_generator(version, i)
        out.append(f"def f{i}():")
        emit(body, 1)
        if generator_fn:
            out.append("    if 0: yield")
        out.append("")
    return "\n".join(out)


# ---------------------------------------------------------------- bytecode

class Comp:
    """One function to instructions of one version, as its compiler does it."""

    def __init__(self, version, generator):
        self.v, self.out, self.nl, self.generator = version, [], 0, generator
        self.consts = [None]
        self.fb = []      # frame blocks, innermost last: [kind, ...]

    def label(self):
        self.nl += 1
        return f"L{self.nl}"

    def op(self, *x):
        self.out.append(x)

    def at(self, label):
        self.out.append(label + ":")

    def const(self, c):
        for i, x in enumerate(self.consts):
            if x is c or (type(x) is type(c) and x == c):
                break
        else:
            self.consts.append(c)
            i = len(self.consts) - 1
        self.op("LOAD_CONST", i)

    def glob(self, n):
        self.op("LOAD_GLOBAL", NAMES.index(n))

    def jump_false(self, label, pop=True):
        """Pops the condition; returns what to emit at the label first."""
        if self.v >= (2, 7) and self.v != (3, 0):
            self.op("POP_JUMP_IF_FALSE", label)
            return False
        self.op("JUMP_IF_FALSE", label)
        self.op("POP_TOP")
        return True

    def function(self, body):
        if self.generator and self.v == (3, 10):
            self.op("GEN_START", 0)
        self.body(body)
        self.const(None)
        self.op("RETURN_VALUE")
        flags = 0x43 | (0x20 if self.generator else 0)
        return make_code(self.v, self.out, co_consts=tuple(self.consts), co_names=NAMES, co_varnames=("x", "e") + tuple(f"_{i}" for i in range(8)),
                         co_flags=flags)

    def body(self, b):
        for s in b:
            getattr(self, "s_" + s[0])(*s[1:])

    def s_mark(self, k):
        self.glob("mark")
        self.const(k)
        self.op("CALL_FUNCTION", 1)
        self.op("POP_TOP")

    def s_info(self):
        self.glob("mark")
        self.glob("info")
        self.op("CALL_FUNCTION", 0)
        self.const(0)
        self.op("BINARY_SUBSCR")
        self.op("CALL_FUNCTION", 1)
        self.op("POP_TOP")

    def s_call(self, k):
        self.glob(f"f{k}")
        self.op("CALL_FUNCTION", 0)
        self.op("POP_TOP")

    def s_yield(self, k):
        if self.v < (2, 5):
            self.const(k)
            self.op("YIELD_VALUE")
            return
        self.glob("mark")
        self.const(k)
        self.op("YIELD_VALUE")
        self.op("CALL_FUNCTION", 1)
        self.op("POP_TOP")

    def s_yieldfrom(self, what):
        self.glob("mark")
        self.glob(what[:-2] if what[0] == "f" else what.split("[")[0])
        if what[0] != "f":
            self.const(int(what.split("[")[1].split("]")[0]))
            self.op("BINARY_SUBSCR")
        if what.endswith("()"):
            self.op("CALL_FUNCTION", 0)
        self.op("GET_YIELD_FROM_ITER" if self.v >= (3, 5) else "GET_ITER")
        self.const(None)
        self.op("YIELD_FROM")
        self.op("CALL_FUNCTION", 1)
        self.op("POP_TOP")

    def s_raise(self, e):
        self.glob(e)
        self.op("RAISE_VARARGS", 1)

    def s_reraise(self):
        self.op("RAISE_VARARGS", 0)

    def s_if(self, then, orelse):
        other, end = self.label(), self.label()
        self.glob("flag")
        self.op("CALL_FUNCTION", 0)
        pop = self.jump_false(other)
        self.body(then)
        self.op("JUMP_FORWARD", end)
        self.at(other)
        if pop:
            self.op("POP_TOP")
        self.body(orelse)
        self.at(end)

    # -- leaving blocks, 3.8 and later: as compiler_unwind_fblock
    def unwind(self, fb, preserve):
        kind, v = fb[0], self.v
        if kind in ("while",):
            return
        if kind == "for":
            if preserve:
                self.op("ROT_TWO")
            self.op("POP_TOP")
        elif kind == "try":
            self.op("POP_BLOCK")
        elif kind == "finally_try":
            if v >= (3, 9):
                self.op("POP_BLOCK")
                saved, self.fb = self.fb, self.fb[:self.fb.index(fb)]
                if preserve:
                    self.fb = self.fb + [["value"]]
                self.body(fb[1])
                self.fb = saved
            elif fb[3]:     # with a placeholder
                self.op("POP_BLOCK")
                if preserve:
                    self.op("ROT_TWO")
                    self.op("POP_TOP")
                    self.op("CALL_FINALLY", fb[2])
                else:
                    self.op("CALL_FINALLY", fb[2])
                    self.op("POP_TOP")
            else:
                self.op("POP_BLOCK")
                self.op("CALL_FINALLY", fb[2])
        elif kind == "finally_end":
            if v >= (3, 9):
                if preserve:
                    self.op("ROT_FOUR")
                for _ in range(3):
                    self.op("POP_TOP")
                if preserve:
                    self.op("ROT_FOUR")
                self.op("POP_EXCEPT")
            else:
                self.op("POP_FINALLY", int(preserve))
                if fb[1]:
                    if preserve:
                        self.op("ROT_TWO")
                    self.op("POP_TOP")
        elif kind == "with":
            self.op("POP_BLOCK")
            if preserve:
                self.op("ROT_TWO")
            if v >= (3, 9):
                self.call_exit()
            else:
                self.op("BEGIN_FINALLY")
                self.op("WITH_CLEANUP_START")
                self.op("WITH_CLEANUP_FINISH")
                self.op("POP_FINALLY", 0)
        elif kind == "handler":
            named, end = fb[1], fb[2]
            if v >= (3, 9):
                if named:
                    self.op("POP_BLOCK")
                if preserve:
                    self.op("ROT_FOUR")
                self.op("POP_EXCEPT")
                if named:
                    self.drop_name()
            else:
                if preserve:
                    self.op("ROT_FOUR")
                if named:
                    self.op("POP_BLOCK")
                    self.op("POP_EXCEPT")
                    self.op("CALL_FINALLY", end)
                else:
                    self.op("POP_EXCEPT")
        elif kind == "value":
            if preserve:
                self.op("ROT_TWO")
            self.op("POP_TOP")
        else:
            raise AssertionError(kind)

    def s_return(self, k):
        """3.8+: a constant result is loaded after unwinding; load it before, as for other expressions."""
        if self.generator and self.v < (3, 3):
            k = None
        self.const(k)
        if self.v >= (3, 8):
            for fb in reversed(self.fb[:]):
                self.unwind(fb, True)
        self.op("RETURN_VALUE")

    def loop(self):
        for i in range(len(self.fb) - 1, -1, -1):
            if self.fb[i][0] in ("for", "while"):
                return i

    def s_break(self):
        if self.v < (3, 8):
            self.op("BREAK_LOOP")
            return
        i = self.loop()
        for fb in reversed(self.fb[i + 1:]):
            self.unwind(fb, False)
        self.unwind(self.fb[i], False)
        self.op("JUMP_ABSOLUTE", self.fb[i][2])

    def s_continue(self):
        i = self.loop()
        if self.v < (3, 8):
            inner = self.fb[i + 1:]
            self.op("CONTINUE_LOOP" if inner else "JUMP_ABSOLUTE", self.fb[i][1])
            return
        for fb in reversed(self.fb[i + 1:]):
            self.unwind(fb, False)
        self.op("JUMP_ABSOLUTE", self.fb[i][1])

    def s_for(self, n, body, orelse):
        top, exit_, end = self.label(), self.label(), self.label()
        if self.v < (3, 8):
            self.op("SETUP_LOOP", end)
        self.glob("items")
        self.const(n)
        self.op("BINARY_SUBSCR")
        self.op("GET_ITER")
        self.at(top)
        self.op("FOR_ITER", exit_)
        self.op("STORE_FAST", 0)
        self.fb.append(["for", top, end])
        self.body(body)
        self.fb.pop()
        self.op("JUMP_ABSOLUTE", top)
        self.at(exit_)
        if self.v < (3, 8):
            self.op("POP_BLOCK")
        self.body(orelse)
        self.at(end)

    def s_while(self, body, orelse):
        top, exit_, end = self.label(), self.label(), self.label()
        if self.v < (3, 8):
            self.op("SETUP_LOOP", end)
        self.at(top)
        self.glob("flag")
        self.op("CALL_FUNCTION", 0)
        pop = self.jump_false(exit_)
        self.fb.append(["while", top, end])
        self.body(body)
        self.fb.pop()
        self.op("JUMP_ABSOLUTE", top)
        self.at(exit_)
        if pop:
            self.op("POP_TOP")
        if self.v < (3, 8):
            self.op("POP_BLOCK")
        self.body(orelse)
        self.at(end)

    def drop_name(self):
        self.const(None)
        self.op("STORE_FAST", 1)
        self.op("DELETE_FAST", 1)

    def mark_e(self):
        self.glob("mark")
        self.op("LOAD_FAST", 1)
        self.op("CALL_FUNCTION", 1)
        self.op("POP_TOP")

    def s_try(self, body, handlers, orelse):
        v = self.v
        handler, els, end = self.label(), self.label(), self.label()
        self.op("SETUP_EXCEPT" if v < (3, 8) else "SETUP_FINALLY", handler)
        self.fb.append(["try"])
        self.body(body)
        self.fb.pop()
        self.op("POP_BLOCK")
        self.op("JUMP_FORWARD", els)
        self.at(handler)
        for exc, named, b in handlers:
            nxt = self.label()
            pop = False
            if exc:
                self.op("DUP_TOP")
                self.glob(exc)
                if v >= (3, 9):
                    self.op("JUMP_IF_NOT_EXC_MATCH", nxt)
                else:
                    self.op("COMPARE_OP", 10)
                    pop = self.jump_false(nxt)
            self.op("POP_TOP")
            if named:
                self.op("STORE_FAST", 1)
            else:
                self.op("POP_TOP")
            self.op("POP_TOP")
            cleanup = self.label()
            if named and v >= (3,):
                self.op("SETUP_FINALLY", cleanup)
            self.fb.append(["handler", named and v >= (3,), cleanup])
            if named:
                self.mark_e()
            self.body(b)
            self.fb.pop()
            if not named or v < (3,):
                if v >= (3,):
                    self.op("POP_EXCEPT")
            elif v < (3, 8):
                self.op("POP_BLOCK")
                self.op("POP_EXCEPT")
                self.const(None)
                self.at(cleanup)
                self.drop_name()
                self.op("END_FINALLY")
            elif v == (3, 8):
                self.op("POP_BLOCK")
                self.op("BEGIN_FINALLY")
                self.at(cleanup)
                self.drop_name()
                self.op("END_FINALLY")
                self.op("POP_EXCEPT")
            else:
                self.op("POP_BLOCK")
                self.op("POP_EXCEPT")
                self.drop_name()
                self.op("JUMP_FORWARD", end)
                self.at(cleanup)
                self.drop_name()
                self.op("RERAISE", 1)
            self.op("JUMP_FORWARD", end)
            self.at(nxt)
            if pop:
                self.op("POP_TOP")
        if v >= (3, 9):
            self.op("RERAISE", 0)
        else:
            self.op("END_FINALLY")
        self.at(els)
        self.body(orelse)
        self.at(end)

    def s_finally(self, body, final):
        v = self.v
        fin, end = self.label(), self.label()
        breaks = v == (3, 8) and exits(final)
        if breaks:
            self.const(None)
        self.op("SETUP_FINALLY", fin)
        self.fb.append(["finally_try", final, fin, breaks])
        self.body(body)
        self.fb.pop()
        self.op("POP_BLOCK")
        if v < (3, 8):
            self.const(None)
        elif v == (3, 8):
            self.op("BEGIN_FINALLY")
        else:
            self.body(final)
            self.op("JUMP_FORWARD", end)
        self.at(fin)
        self.fb.append(["finally_end", breaks])
        self.body(final)
        self.fb.pop()
        if v >= (3, 9):
            self.op("RERAISE", 0)
        else:
            self.op("END_FINALLY")
        if breaks:
            self.op("POP_TOP")
        self.at(end)

    def call_exit(self):
        self.const(None)
        self.op("DUP_TOP")
        self.op("DUP_TOP")
        self.op("CALL_FUNCTION", 3)
        self.op("POP_TOP")

    def s_with(self, n, body):
        v = self.v
        fin, end = self.label(), self.label()
        self.glob("cms")
        self.const(n)
        self.op("BINARY_SUBSCR")
        if v < (2, 7) or v in ((3, 0), (3, 1)):
            # 2.5 keeps __exit__ in a temporary variable, the others on the stack.
            self.op("DUP_TOP")
            self.op("LOAD_ATTR", NAMES.index("__exit__"))
            if v == (2, 5):
                self.op("STORE_FAST", self.temp())
            else:
                self.op("ROT_TWO")
            self.op("LOAD_ATTR", NAMES.index("__enter__"))
            self.op("CALL_FUNCTION", 0)
            self.op("POP_TOP")
            self.op("SETUP_FINALLY", fin)
        else:
            self.op("SETUP_WITH", fin)
            self.op("POP_TOP")
        self.fb.append(["with"])
        self.body(body)
        self.fb.pop()
        self.op("POP_BLOCK")
        if v >= (3, 9):
            caught = self.label()
            self.call_exit()
            self.op("JUMP_FORWARD", end)
            self.at(fin)
            self.op("WITH_EXCEPT_START")
            self.op("POP_JUMP_IF_TRUE", caught)
            self.op("RERAISE", 1)
            self.at(caught)
            for _ in range(3):
                self.op("POP_TOP")
            self.op("POP_EXCEPT")
            self.op("POP_TOP")
            self.at(end)
            return
        if v == (3, 8):
            self.op("BEGIN_FINALLY")
        else:
            self.const(None)
        self.at(fin)
        if v == (2, 5):
            self.op("LOAD_FAST", self.temp())
        if v >= (3, 5):
            self.op("WITH_CLEANUP_START")
            self.op("WITH_CLEANUP_FINISH")
        else:
            self.op("WITH_CLEANUP")
        self.op("END_FINALLY")

    # 2.5: one temporary per nesting depth of with
    def temp(self):
        return 2 + sum(1 for x in self.fb if x[0] == "with")


def exits(body):
    """Whether a return, or a break or continue out of it, occurs in body."""
    def walk(b, inloop):
        for s in b:
            if s[0] == "return":
                return True
            if s[0] in ("break", "continue") and not inloop:
                return True
            if s[0] == "if" and (walk(s[1], inloop) or walk(s[2], inloop)):
                return True
            if s[0] == "for" and (walk(s[2], True) or walk(s[3], inloop)):
                return True
            if s[0] == "while" and (walk(s[1], True) or walk(s[2], inloop)):
                return True
            if s[0] == "try" and (walk(s[1], inloop) or any(walk(h[2], inloop) for h in s[2]) or walk(s[3], inloop)):
                return True
            if s[0] == "finally" and (walk(s[1], inloop) or walk(s[2], inloop)):
                return True
            if s[0] == "with" and walk(s[2], inloop):
                return True
        return False
    return walk(body, False)


# ---------------------------------------------------------------- running

class Budget(BaseException):
    pass


def environment(seed, info=None):
    """The names a program uses, and the log of what it did."""
    import sys
    log = []
    rng = random.Random(seed)
    left = [400]

    def mark(x):
        left[0] -= 1
        if left[0] < 0:
            raise Budget
        log.append(x.__name__ if isinstance(x, type) else type(x).__name__ if isinstance(x, BaseException) else x)

    def flag():
        mark("flag")
        return rng.random() < 0.5

    class CM:
        def __init__(self, n, suppress):
            self.n, self.suppress = n, suppress

        def enter(self):
            log.append(f"enter{self.n}")

        def exit(self, t, v, tb):
            mark(f"exit{self.n} {t.__name__ if t else t} {type(v).__name__} {tb is not None}")
            return self.suppress

    class Subs:
        def __getitem__(self, n):
            return lambda: Sub(log, n)

    class CMObject:
        # Attributes that are builtins, so that no interpreter takes them over.
        def __init__(self, cm):
            import functools
            self.cm = cm

        def __enter__(self):
            return self.cm.enter()

        def __exit__(self, t, v, tb):
            return self.cm.exit(t, v, tb)
    g = {"mark": mark, "flag": flag, "info": info or sys.exc_info, "items": [[], [1], [1, 2], [1, 2, 3]],
         "cms": [CMObject(CM(0, False)), CMObject(CM(1, True)), CMObject(CM(2, "yes"))], "subs": Subs()}
    kept = []

    def keep(x):
        kept.append(x)
        return x
    g["keep"] = keep
    return g, log


class Sub:
    """An iterator with send, throw and close, of its own."""

    def __init__(self, log, n):
        self.log, self.n, self.left = log, n, 2

    def __iter__(self):
        return self

    def step(self, what):
        self.log.append(f"sub{self.n} {what}")
        self.left -= 1
        if self.left < 0:
            raise StopIteration(f"result{self.n}")
        return f"sub{self.n}.{self.left}"

    def __next__(self):
        return self.step("next")

    def send(self, x):
        return self.step(f"send {x}")

    def throw(self, t, v=None, tb=None):
        name = t.__name__ if isinstance(t, type) else type(t).__name__
        if self.n and name == "ValueError":
            raise OSError
        return self.step(f"throw {name}")

    def close(self):
        self.log.append(f"sub{self.n} close")
        if self.n:
            raise LookupError


def drive(gen, log, seed, version):
    """Run a generator in a random way."""
    r = random.Random(f"drive {seed}")
    excs = EXCS if version >= (3, 12) else [e for e in EXCS if e != "StopIteration"]
    simple = version < (2, 5) or r.random() < 0.3
    for i in range(30 if simple else 14):
        op = "next" if simple else r.choice(["next", "next", "send", "send", "throw", "throw class", "close"])
        try:
            if op == "next":
                x = next(gen)
            elif op == "send":
                x = gen.send(r.choice([i, None]))
            elif op == "throw":
                x = gen.throw(getattr(builtins, r.choice(excs))())
            elif op == "throw class":
                x = gen.throw(getattr(builtins, r.choice(excs)))
            elif r.random() < 0.4:
                x = gen.close()
            else:
                continue
            log.append(f"{op}: {x!r}")
        except Budget:
            raise
        except StopIteration as e:
            log.append(f"{op} stops: {e.value!r}")
        except BaseException as e:
            if type(e).__name__ == "PyVMUncaughtException":
                raise
            log.append(f"{op} raises: {type(e).__name__}")


def run_host(src, seed, generator, version):
    import sys
    g, log = environment(seed)
    keep = g["keep"]
    exec(compile(src, "prog.py", "exec", dont_inherit=True), g)
    try:
        r = ("return", drive(keep(g["f0"]()), log, seed, version) if generator else g["f0"]())
    except BaseException as e:
        r = ("raise", type(e).__name__)
    return r, list(log)


def run_vm(version, prog, seed, generator, traced=None):
    import sys
    from xpython.pyobj import Function
    vm = new_vm(version, traced=traced)
    g, log = environment(seed, vm.byteop.exc_info)
    keep = g["keep"]
    g["__builtins__"] = __builtins__
    base = vm.make_frame(make_code(version, [], co_name="<module>", co_flags=0), f_globals=g, f_locals={})
    base.f_lasti = 0
    if traced is not None:
        base.f_trace, base.event_flags = vm.callback, vm.event_flags
    vm.push_frame(base)
    if version >= (3, 12):
        # The host's own compiler
        vm.run_code(compile(source(prog, generator, version), "prog.py", "exec", dont_inherit=True), f_globals=g,
                    f_locals=g, toplevel=False)
        prog = []
    for i, b in enumerate(prog):
        code = Comp(version, generator and is_generator(version, i)).function(b)
        args = (f"f{i}", code, g, [], None, vm)
        g[f"f{i}"] = Function(*args)
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            r = ("return", drive(keep(g["f0"]()), log, seed, version) if generator else g["f0"]())
        except BaseException as e:
            r = ("raise", type(e).__name__ if type(e).__name__ != "PyVMUncaughtException" else vm.last_exception[0].__name__)
            r_exc = e
    if len(vm.frames) != 1:
        r = (r, "frames left: %d" % (len(vm.frames) - 1))
    return r, log


def one(version, seed, generator=False, traced=None):
    rng = random.Random(seed)
    g = Gen(rng, version, generator)
    prog = g.program()
    src = source(prog, generator, version)
    h = run_host(src, seed, generator, version)
    v = run_vm(version, prog, seed, generator, traced)
    if h != v:
        return {"version": list(version), "seed": seed, "generator": generator, "program": src,
                "expected": repr(h)[:1500], "got": repr(v)[:1500]}
    return None


VERSIONS = [(2, 4), (2, 5), (2, 6), (2, 7), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9),
            (3, 10), (3, 12)]


def bounded(generator, traced=None, versions=VERSIONS, quick=100):
    """A Bounded fn/replay pair comparing structured programs of all the versions with the host."""
    import signal
    import time
    import warnings

    def timed(v, seed):
        def alarm(*a):
            raise Budget("does not end")
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, 10, 1)
        try:
            return one(v, seed, generator, traced)
        except Budget:
            return {"version": list(v), "seed": seed, "generator": generator, "expected": "ends",
                    "got": "does not end within 10 s"}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def fn(tier, seed, secs):
        warnings.simplefilter("ignore")
        end = time.time() + secs
        n, samples = 0, []
        for i in range(quick if tier == "quick" else 100000):
            for v in versions:
                if time.time() > end:
                    return n, None, samples, n
                n += 1
                bad = timed(v, f"{seed}.{i}")
                if bad:
                    bad["traced"] = bool(traced)
                    return n, bad, samples, n
                if len(samples) < 2:
                    samples.append(source(Gen(random.Random(f"{seed}.{i}"), v, generator).program(), generator, v)[:400])
        return n, None, samples, n

    def replay(d):
        return timed(tuple(d["version"]), d["seed"])
    return fn, replay
