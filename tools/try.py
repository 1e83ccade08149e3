"""Developer tool: run contracts and show what is not proved, grouped by contract.
usage: try.py MODS [-f filter] [-n native evaluations] [-s (skip symbolic)]"""
import sys, time, importlib, argparse, multiprocessing
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from engine.common import *
from engine import symstate, native
ap = argparse.ArgumentParser()
ap.add_argument("mods"); ap.add_argument("-f", default=""); ap.add_argument("-n", type=int, default=40)
ap.add_argument("-s", action="store_true"); ap.add_argument("-w", type=int, default=330); ap.add_argument("-g", type=int, default=14)
ap.add_argument("-b", type=float, default=20); ap.add_argument("-p", type=int, default=400)
a = ap.parse_args()
for m in a.mods.split(","):
    importlib.import_module("contracts." + m)
jobs = [(i, j) for i, c in enumerate(Contract.registry) for j, v in enumerate(c.variants) if a.f in c.key(v)]


def one(ij):
    c = Contract.registry[ij[0]]; v = c.variants[ij[1]]
    t = time.time()
    st, why = "skipped", ""
    if not a.s and c.symbolic:
        try:
            r = symstate.check(c, v, budget=max(a.b, (c.limits or (0, 0))[0]), maxpaths=max(a.p, (c.limits or (0, 0))[1]))
        except BaseException:
            import traceback
            return "CRASH", 0, traceback.format_exc()[-500:], "", 0, c.name, str(v), c.key(v)
        st = r.status()
        if st != "proved":
            why = f"paths={r.paths} ok={r.proved} {r.refuted[:1] or sorted(set(r.unsupported))[:2]}"
    ne = 0; nat = ""
    if a.n and c.native:
        import signal
        def al(*x): raise TimeoutError("native")
        signal.signal(signal.SIGALRM, al); signal.alarm(60)
        try:
            ne, bad = native.search(c, v, range(a.n), time.time() + 60)
        except BaseException as e:
            import traceback
            bad = (-1, ("HARNESS", "", traceback.format_exc()[-600:]))
        signal.alarm(0)
        if bad:
            nat = f"seed {bad[0]} {bad[1][0]}:\n      spec {bad[1][1]!r}\n      code {bad[1][2]!r}"
    vv = f"{'.'.join(map(str, v.get('version', ())))}{'p' if v.get('pypy') else ''}"
    ex = ",".join(f"{k}={x}" for k, x in v.items() if k not in ("op", "version", "pypy"))
    return st, ne, why, nat, time.time() - t, c.name + " " + str(v.get("op", "")), vv + (f"[{ex}]" if ex else ""), c.key(v)


if __name__ == "__main__":
    tot = {}; n = 0; slow = []; groups = {}
    t0 = time.time()
    with multiprocessing.Pool(8) as p:
        for st, ne, why, nat, dt, g, vv, key in p.imap_unordered(one, jobs):
            tot[st] = tot.get(st, 0) + 1; n += ne
            slow.append((round(dt, 1), key))
            if st != "proved" and st != "skipped" or nat:
                groups.setdefault((g, st, bool(nat)), []).append((vv, why, nat))
    for (g, st, b), l in list(groups.items())[:a.g]:
        l.sort()
        print(f"{st}{' NATIVE-FAIL' if b else ''} {g}: {len(l)}x " + " ".join(x[0] for x in l)[:160])
        print("   ", l[0][1][:a.w])
        if b:
            print("   ", "\n".join(y[:a.w] for y in l[0][2].splitlines()))
    slow.sort(reverse=True)
    print(len(groups), "groups;", tot, "native evaluations", n, f"{time.time()-t0:.1f}s", "slowest", slow[:2])
