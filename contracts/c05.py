"""C05: decoding an instruction: its operation, its full operand, the offsets."""
from xdis.cross_types import UnicodeForPython3

from .base import *
from engine.symstate import FRAME_OBS

EXT = "EXTENDED_ARG"


def mode(opc, version, op):
    """What the operand of an operation stands for."""
    code = opc.opmap[op]
    if code < opc.HAVE_ARGUMENT:
        return "none"
    if code in opc.CONST_OPS:
        return "const"
    if code in opc.FREE_OPS:
        return "free" if version < (3, 11) else "fast"
    if code in opc.NAME_OPS:
        if version >= (3, 11) and op == "LOAD_GLOBAL" or version >= (3, 12) and op == "LOAD_ATTR":
            return "name1"
        return "name2" if op == "LOAD_SUPER_ATTR" else "name"
    if code in opc.JREL_OPS:
        return "jrel"
    if code in opc.JABS_OPS:
        return "jabs"
    if code in opc.LOCAL_OPS:
        return "local" if version < (3, 11) else "fast"
    return "plain"


def caches(version, op):
    """Size in bytes of the inline caches a jump's offset counts from."""
    return 2 if version == (3, 12) and op in ("FOR_ITER", "SEND") else 0


def real_parse(vm, prev, jumping, how):
    name, code, int_arg, arguments, offset, line = vm.parse_byte_and_args(prev, how.replay)
    if jumping:
        int_arg = None  # the operand is the target
    return name, code, int_arg, list(arguments), offset, line


def spec_for(b):
    version, opname = b.version, b.op
    opc = opcode_module(b.version, b.pypy)
    code, what, ext = opc.opmap[opname], mode(opc, version, opname), opc.opmap[EXT]
    word = version >= (3, 6)
    jump_unit = 2 if version >= (3, 10) else 1
    backward = version >= (3, 11) and "_BACKWARD" in opname
    cache = caches(version, opname)
    name = opc.opname[code]

    def spec(vm, prev, jumping, how):
        f = vm.frame
        bytes_, co = f.f_code.co_code, f.f_code
        at = f.f_lasti + how.step      # after a jump: there; else after the previous instruction
        f.fallthrough = True
        line = None
        arg = 0
        for k in range(how.prefixes):
            starts = f.linestarts.get(at, None)
            if starts is not None:
                line = f.f_lineno = starts
            if word:
                arg = arg * 256 + bytes_[at + 1]
                at = at + 2
            else:
                arg = arg * 65536 + bytes_[at + 1] + 256 * bytes_[at + 2]
                at = at + 3
        starts = f.linestarts.get(at, None)
        if starts is not None:
            line = f.f_lineno = starts
        f.f_lasti = at
        if what == "none":
            return name, code, None, [], at, line
        if word:
            arg = arg * 256 + bytes_[at + 1]
            end = at + 2
        else:
            arg = arg * 65536 + bytes_[at + 1] + 256 * bytes_[at + 2]
            end = at + 3
        if what == "plain":
            operands = [arg]
        elif what == "const":
            v = co.co_consts[arg]
            operands = [str(v) if isinstance(v, UnicodeForPython3) else v]
        elif what == "name":
            operands = [co.co_names[arg]]
        elif what == "name1":
            operands = [co.co_names[arg // 2], arg % 2 == 1]
        elif what == "name2":
            operands = [co.co_names[arg // 4], arg % 2 == 1, arg // 2 % 2 == 1]
        elif what == "local":
            operands = [co.co_varnames[arg]]
        elif what == "fast":
            operands = [f.localsplusnames[arg]]
        elif what == "free":
            n = len(co.co_cellvars)
            operands = [co.co_cellvars[arg] if arg < n else co.co_freevars[arg - n]]
        elif what == "jabs":
            operands = [jump_unit * arg]
        elif backward:
            operands = [end - jump_unit * arg]
        else:
            operands = [end + cache + jump_unit * arg]
        return name, code, (None if jumping else arg), operands, at, line

    return spec


class How:
    def __init__(self, step, prefixes, replay):
        self.step, self.prefixes, self.replay = step, prefixes, replay


BRKPT = 8


def pre_parse(b):
    opc = opcode_module(b.version, b.pypy)
    word = b.version >= (3, 6)
    what = mode(opc, b.version, b.op)
    size = 2 if word else 3
    own = 2 if word else (1 if what == "none" else 3)
    full = b.variant["depth"] == "full"
    most = 0 if what == "none" else 3 if word and full else 1
    ways = [("operand", n) for n in range(most + 1)] + [("jump", 0)]
    if full:
        ways += [("no operand", 0), ("breakpoint", 0), ("replay", 0)] + [("jump", 1)] * (most > 0)
    come, prefixes = b.choose("way", ways)
    step = {"jump": 0, "replay": 0, "no operand": 2 if word else 1}.get(come, size)
    prev = opc.opmap["POP_TOP" if come in ("jump", "no operand") else "LOAD_CONST"]
    seen = BRKPT if come == "breakpoint" else prev
    replay = come == "replay"   # the instruction that a breakpoint stands for, at the breakpoint
    # the previous instruction, if that is where we are, the prefixes, and the instruction
    before = [seen, None, None][:step]
    code = (before + [opc.opmap[EXT], None, None][:size] * prefixes
            + [BRKPT if replay else opc.opmap[b.op], None, None][:own])
    vm, f = b.setup_vm(mkcode(b.version))
    b.setf(fallthrough=come != "jump")
    if b.sym:
        from engine.core import HTuple, HObj, HDict, DictBase, SeqBase, S, E, SInt, mkint, rlen, _INTVAL
        import z3
        ctx = b.ctx

        def byte(t):
            v = z3.Int("byte!" + str(t))
            ctx.assume(v >= 0)
            ctx.assume(v <= 255)
            return SInt(v)
        lasti = f.attrs["f_lasti"]
        rest = ctx.int("rest.len", 0)
        cb, ra = SeqBase("before", lasti.t, byte), SeqBase("after", rest.t, byte)
        bts = [b.int(f"byte{i}", 0, 255) if x is None else x for i, x in enumerate(code)]
        bytes_ = HTuple([S(cb, z3.IntVal(0), lasti.t)] + [E(x) for x in bts] + [S(ra, z3.IntVal(0), rest.t)])
        arg = z3.IntVal(0)
        for i in range(len(before), len(code), size) if what != "none" else ():
            arg = 256 * arg + zi_(bts[i + 1]) if word else 65536 * arg + zi_(bts[i + 1]) + 256 * zi_(bts[i + 2])
        attrs = {"co_code": bytes_, "co_flags": 0, "co_name": "f", "co_filename": "prog.py"}
        for n in ("co_consts", "co_names", "co_varnames", "co_cellvars", "co_freevars"):
            attrs[n] = b.tuple(n) if n == "co_consts" else b.strtuple(n)
        f.attrs["localsplusnames"] = b.strtuple("localsplusnames")
        f.attrs["f_code"] = HObj(type(mkcode(b.version)), attrs, uid="code")
        f.attrs["linestarts"] = HDict(DictBase("linestarts", lambda t: SInt(_INTVAL(t))), uid="linestarts")
        f.attrs["f_lineno"] = b.int("lineno", 0)
        for k in range(1, prefixes):  # lines start at the first prefix
            at = mkint(lasti.t + step + size * k)
            ctx.assume(z3.Not(f.attrs["linestarts"].base.dom(ctx.lift(at))))
        if come == "breakpoint":
            f.attrs["brkpt"] = HDict(None, [(lasti, prev)], uid="brkpt")
        if replay:
            f.attrs["brkpt"] = HDict(None, [(lasti, opc.opmap[b.op])], uid="brkpt")
        limit = {"const": "co_consts", "local": "co_varnames", "name": "co_names", "name1": "co_names",
                 "name2": "co_names"}
        if what in limit:
            k = {"name1": 2, "name2": 4}.get(what, 1)
            ctx.assume((arg / k if k > 1 else arg) < rlen(attrs[limit[what]].segs))
        elif what == "fast":
            ctx.assume(arg < rlen(f.attrs["localsplusnames"].segs))
        elif what == "free":
            ctx.assume(arg < rlen(attrs["co_cellvars"].segs) + rlen(attrs["co_freevars"].segs))
    else:
        f.f_lasti = b.int("lasti", 0, 60) * (2 if word else 1)
        small = what in ("const", "local", "name", "name1", "name2", "fast", "free")
        bts = [(b.r.choice([0, 1, 2, 3, 4, 5, 7, 9, 100, 127, 128, 200, 255]) if x is None else x) for x in code]
        if small:
            for i in range(step, len(code) - size, size):  # keep the tuples short
                last = i + size >= len(code) - own
                for j in range(1, size):
                    bts[i + j] = b.r.choice([0, 1, 2]) if word and last else 0
            if not word:
                bts[-1] = b.r.choice([0, 0, 1])
        noise = [b.r.randrange(256) for _ in range(f.f_lasti + 6)]
        bytes_ = bytes(noise[:f.f_lasti] + bts + noise[f.f_lasti:])
        big = 1200

        cells = b.r.choice([0, 1, 2, 5, 300])
        consts = names(1000, big) if b.r.random() < .8 else names(UnicodeForPython3(b"u\xc3\xa9"), big)
        # a name can have several uses: a global's, a parameter's that is captured, ...
        n, v, c, fr, l = b.r.choice(["nvcfl"] * 4 + ["nvvfl", "vvcfv", "nvvfv", "nncnl", "fffff", "ccccc"])
        f.f_code = mkcode(b.version, co_code=bytes_, co_consts=consts, co_names=names(n, big),
                          co_varnames=names(v, big), co_cellvars=names(c, cells), co_freevars=names(fr, big))
        f.localsplusnames = names(l, big)
        f.linestarts = {i: b.r.randrange(1, 900) for i in range(len(bytes_)) if b.r.random() < 0.4}
        f.f_lineno = b.r.randrange(1, 900)
        if come == "breakpoint":
            f.brkpt[f.f_lasti] = prev
        if replay:
            f.brkpt[f.f_lasti] = opc.opmap[b.op]
    given = opc.opmap[b.op] if replay else seen if come != "jump" else prev
    return [vm, given, what in ("jabs", "jrel"), How(step, prefixes, replay)]


_names = {}


def names(p, n):
    """A tuple of n names (numbers, the same string); the same object every time."""
    k = str(p), n
    if k not in _names:
        _names[k] = tuple(f"{p}{i}" if isinstance(p, str) else p + i if isinstance(p, int) else p for i in range(n))
    return _names[k]


def zi_(x):
    from engine.core import zi
    return zi(x)


def frame_obs():
    from xpython.pyobj import Frame
    return {Frame: FRAME_OBS + ["f_lineno"]}


def variants():
    """Every operation; one of each kind of operand, and every jump, in full."""
    out = []
    for v, pp in flavours():
        opm = opcode_module(v, pp).opmap
        opc = opcode_module(v, pp)
        seen, kinds = set(), set()
        for n, code in sorted(opm.items(), key=lambda x: (x[1], x[0])):
            if n != EXT and code < 256 and code not in seen:
                seen.add(code)
                m = mode(opc, v, n)
                full = m in ("jabs", "jrel") or m not in kinds
                kinds.add(m)
                out.append({"op": n, "version": v, "pypy": pp, "depth": "full" if full else "some"})
    return out


def pre_(b):
    args = pre_parse(b)
    return [args[0], args[1], args[2], args[3], spec_for(b)]


def real_(vm, prev, jumping, how, spec):
    return real_parse(vm, prev, jumping, how)


def spec_(vm, prev, jumping, how, spec):
    return spec(vm, prev, jumping, how)


Contract("decode", ["C05"], variants(), pre_, real_, spec_, observables=frame_obs, fn=["parse_byte_and_args"])
