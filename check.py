#!/usr/bin/env python3-vt
"""Decide one property: check.py PROP [--tier quick|thorough] [--replay FILE]

Every contract of the property is checked on /repo's current source: the real
functions are parsed and executed symbolically against the contract, z3
discharges every path's obligations, and the same contract is evaluated natively
(real code against contract, scripted operands).  Exit 0 or 1.
"""
import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pkgutil
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TIERS = {  # native evaluations per variant, symbolic budget s, max paths, search evaluations, search s, bounded s
    "quick": (24, 20.0, 400, 3000, 8.0, 20.0),
    "thorough": (600, 180.0, 6000, 40000, 60.0, 200.0),
}
LIMITS = {"quick": (240, 780), "thorough": (3600, 6 * 3600)}  # s for a job, s for all of them
TRUSTED = [
    "engine/ (symbolic executor for the Python subset the contracts reach: statement semantics, argument binding, "
    "built-in containers as ropes, integers as mathematical integers)",
    "the models of built-in functions, and of user operations as opaque events, in engine/models.py",
    "the specification functions and pre-states in contracts/",
    "z3",
    "xdis opcode tables and code objects",
]


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def load(props=None):
    from engine.common import Contract, Bounded
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module("contracts." + m)
    return Contract, Bounded


def worker_init():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    sys.unraisablehook = lambda *a: None


def native_eval(c, v, seeds, secs):
    """(evaluations, None | (seed, label, expected, actual), nontrivial)"""
    from engine import native
    end = time.time() + secs
    n = 0
    sig = set()
    for s in seeds:
        if time.time() > end:
            break
        signal.setitimer(signal.ITIMER_REAL, 10, 1)
        try:
            d = native.differ(c, v, s)
        except native.Discard:
            continue
        except Hang:
            return n + 1, (s, "termination", "ends", "does not end within 10 s"), sig
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        n += 1
        sig.add(native.last_signature())
        if d is not None:
            return n, (s, str(d[0]), repr(d[1])[:600], repr(d[2])[:600]), sig
    return n, None, sig


def run_job(job):
    kind, i, j, tier, seed = job
    try:
        if kind == "bounded":
            return run_bounded(i, tier, seed)
        return run_contract(i, j, tier, seed)
    except Hang:
        return dict(lost(job, "error"), status="error", error="hang")
    except BaseException:
        return dict(lost(job, "error"), status="error", error=traceback.format_exc()[-1500:])


def run_contract(i, j, tier, seed):
    from engine.common import Contract
    from engine import symstate
    nn, budget, maxpaths, sn, ss, _ = TIERS[tier]
    c = Contract.registry[i]
    v = c.variants[j]
    key = c.key(v)
    out = {"kind": "contract", "key": key, "name": c.name, "bound": c.bounded or "unrolled", "i": i, "j": j, "status": "skipped", "obligations": 0, "discharged": 0,
           "queries": 0, "solver_s": 0.0, "paths": 0, "evaluations": 0, "samples": [], "refuted": [], "reasons": [],
           "found": None, "kinds": [], "functions": []}
    if c.symbolic:
        if c.limits:
            budget, maxpaths = max(budget, c.limits[0]), max(maxpaths, c.limits[1])
        res = symstate.check(c, v, budget=budget, maxpaths=maxpaths)
        out.update(status=res.status(), obligations=res.stats.obligations, discharged=res.stats.discharged,
                   queries=res.stats.queries, solver_s=getattr(res.stats, "solver_s", 0.0), paths=res.paths,
                   samples=res.samples, refuted=[(a, b) for a, b in res.refuted[:3]],
                   reasons=sorted(set(res.unsupported))[:3], kinds=sorted(res.kinds),
                   functions=sorted(res.functions))
    if c.native:
        base = seed * 1000003
        n, bad, sig = native_eval(c, v, range(base, base + nn), 20 if tier == "quick" else 60)
        if bad is None and c.search and out["status"] in ("refuted", "undecided", "vacuous", "skipped"):
            n2, bad, sig2 = native_eval(c, v, range(base + nn, base + sn), ss)
            n += n2
            sig |= sig2
        out["evaluations"] = n
        out["distinct"] = len(sig)
        out["found"] = bad
    return out


def run_bounded(i, tier, seed):
    from engine.common import Bounded
    b = Bounded.registry[i]
    t = time.time()
    n, bad, samples, distinct = b.fn(tier, seed, TIERS[tier][5])
    return {"kind": "bounded", "key": b.name, "i": i, "status": "bounded", "evaluations": n, "distinct": distinct,
            "samples": samples[:2], "found": bad, "bound": b.bound, "wall": time.time() - t}


def write_replay(prop, d):
    path = os.path.join(HERE, "evidence", "replay")
    os.makedirs(path, exist_ok=True)
    import hashlib
    h = hashlib.sha1((prop + d["key"]).encode()).hexdigest()[:10]
    f = os.path.join(path, f"{prop}-{h}.json")
    with open(f, "w") as o:
        json.dump(d, o, indent=1)
    return f


def known_findings(prop):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def matches(k, r):
    """A listed finding names the contract variant and the obligation that fails."""
    if not any(r["key"] == x for x in k["keys"]):
        return False
    labels = [a for a, _ in r.get("refuted", [])]
    if r.get("found"):
        labels.append(r["found"][1])
    return all(any(l == w or l.startswith(w) for w in k["labels"]) for l in labels)


def replay(prop, path):
    d = json.load(open(path))
    load()
    from engine.common import Contract, Bounded
    worker_init()
    if d["kind"] == "bounded":
        b = [b for b in Bounded.registry if b.name == d["key"]][0]
        bad = b.replay(d["found"])
        print(("FAILS: " if bad else "holds: ") + str(bad or d["key"]))
        return 1 if bad else 0
    for c in Contract.registry:
        for v in c.variants:
            if c.key(v) == d["key"]:
                if d.get("found"):
                    n, bad, _ = native_eval(c, v, [d["found"][0]], 60)
                    if bad:
                        print(f"FAILS: {d['key']} input seed {bad[0]}: {bad[1]}\n  contract: {bad[2]}\n  code:     "
                              f"{bad[3]}")
                        return 1
                from engine import symstate
                res = symstate.check(c, v, budget=120)
                print(f"{d['key']}: {res.status()} {res.refuted[:2]}")
                return 1 if res.refuted else 0
    print("no such contract")
    return 1


def worker(conn):
    worker_init()
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        conn.send(run_job(job))


def lost(job, why):
    from engine.common import Bounded, Contract
    kind, i, j = job[:3]
    if kind == "bounded":
        b = Bounded.registry[i]
        return {"kind": "bounded", "key": b.name, "status": "undecided", "evaluations": 0, "bound": b.bound + " (" + why
                + ")", "samples": []}
    c = Contract.registry[i]
    return {"kind": "contract", "key": c.key(c.variants[j]), "name": c.name, "bound": c.bounded or "unrolled",
            "status": "undecided", "reasons": [why], "evaluations": 0}


def run_jobs(jobs, n, limits, enough, verbose):
    """Run the jobs in n processes.  A process that dies (out of memory) or takes
    too long over a job is replaced; its job is undecided."""
    job_limit, limit = limits
    ctx = multiprocessing.get_context("fork")
    t0 = time.time()
    todo = list(reversed(jobs))
    results = []
    live = {}       # connection: [process, job or None, since]

    def start():
        mine, theirs = ctx.Pipe()
        p = ctx.Process(target=worker, args=(theirs,), daemon=True)
        p.start()
        theirs.close()
        live[mine] = [p, None, 0]

    def stop(conn):
        p = live.pop(conn)[0]
        p.kill()
        p.join()
        conn.close()

    def done(r):
        results.append(r)
        if verbose and (r["status"] != "proved" or r.get("found")):
            print(str(r)[:600])

    while True:
        while todo and len(live) < n:
            start()
        for conn, w in list(live.items()):
            if w[1] is None:
                if todo:
                    w[1], w[2] = todo.pop(), time.time()
                    try:
                        conn.send(w[1])
                    except OSError:
                        todo.append(w[1])
                        stop(conn)
                else:
                    stop(conn)
        if not live:
            if todo:
                continue
            break
        for conn in multiprocessing.connection.wait(list(live), 5):
            job = live[conn][1]
            try:
                done(conn.recv())
                live[conn][1] = None
            except (EOFError, OSError):
                stop(conn)
                done(lost(job, "the process deciding it ended (out of memory)"))
        now = time.time()
        for conn, w in list(live.items()):
            if w[1] is not None and now - w[2] > job_limit:
                stop(conn)
                done(lost(w[1], f"not decided within {job_limit} s"))
        if enough(results) or now - t0 > limit:
            rest = [w[1] for w in live.values() if w[1] is not None] + todo
            for conn in list(live):
                stop(conn)
            for job in rest:
                done(lost(job, "not attempted: enough failures were found" if enough(results) else
                          f"not decided within {limit} s"))
            break
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=list(TIERS))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    if a.replay:
        return replay(prop, a.replay)
    try:
        Contract, Bounded = load()
    except BaseException:
        err = traceback.format_exc()
        d = {"property": prop, "kind": "load", "key": "load", "error": err[-3000:]}
        f = write_replay(prop, d)
        evidence(prop, a.tier, seed, t0, [], 1, ["the code under contract could not be loaded: " + err[-400:]])
        print(f"the code under contract could not be loaded:\n{err[-1500:]}")
        print(f"VIOLATION property={prop} replay={f} no-failing-input-found")
        return 1
    jobs = []
    for i, b in enumerate(Bounded.registry):
        if prop in b.props:
            jobs.append(("bounded", i, 0, a.tier, seed))
    cj = [("contract", i, j, a.tier, seed) for i, c in enumerate(Contract.registry) if prop in c.props
          for j, v in enumerate(c.variants)]
    cj.sort(key=lambda x: -Contract.registry[x[1]].weight)
    jobs += cj
    known = known_findings(prop)

    def enough(results):
        """Failing inputs were found, or so many obligations fail, that the rest adds nothing."""
        bad = [r for r in results if (r["status"] == "refuted" or r.get("found"))
               and not any(matches(k, r) for k in known)]
        return sum(bool(r.get("found")) for r in bad) >= 4 or len(bad) >= 60

    results = run_jobs(jobs, a.jobs, LIMITS[a.tier], enough, a.v)
    return conclude(prop, a.tier, seed, t0, results)


def conclude(prop, tier, seed, t0, results):
    known = known_findings(prop)
    used = {}
    violations = []
    for r in results:
        if r["status"] == "error":
            violations.append(r)
        elif r.get("found") or r["status"] == "refuted":
            k = next((k for k in known if matches(k, r)), None)
            if k:
                used.setdefault(k["what"], []).append(r)
            else:
                violations.append(r)
        elif r["status"] == "vacuous" and not r.get("evaluations"):
            r["error"] = "no obligation was generated"
            violations.append(r)
    if not results:
        print("no contracts for", prop)
        return 1
    for w in used:
        print(f"KNOWN-FINDING: property={prop} {w}")
    evidence(prop, tier, seed, t0, results, len(violations), [])
    st = {}
    for r in results:
        st[r["status"]] = st.get(r["status"], 0) + 1
    print(f"{prop} {tier}: {st}, obligations {sum(r.get('obligations', 0) for r in results)}, discharged "
          f"{sum(r.get('discharged', 0) for r in results)}, native evaluations "
          f"{sum(r.get('evaluations', 0) for r in results)}, {time.time() - t0:.1f} s")
    if violations:
        violations.sort(key=lambda r: (not r.get("found"), r["status"] == "error"))
        for r in violations[:3]:
            d = dict(r, property=prop)
            f = write_replay(prop, d)
            if r.get("found"):
                if r["kind"] == "bounded":
                    print(f"  {r['key']}: {str(r['found'])[:700]}")
                else:
                    print(f"  contract {r['key']}: obligation [{r['refuted'][0][0] if r['refuted'] else r['found'][1]}]"
                          f" fails; input seed {r['found'][0]}, {r['found'][1]}: contract {r['found'][2][:300]} code "
                          f"{r['found'][3][:300]}")
                print(f"VIOLATION property={prop} replay={f}")
            else:
                print(f"  contract {r['key']}: {str(r.get('refuted') or r.get('error'))[:900]}")
                print(f"VIOLATION property={prop} replay={f} no-failing-input-found")
        return 1
    return 0


def evidence(prop, tier, seed, t0, results, nviol, notes):
    from engine import common
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]} \
        if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {}
    cs = [r for r in results if r.get("kind") == "contract"]
    bs = [r for r in results if r.get("kind") == "bounded"]
    fns = set()
    for r in cs:
        fns.update(r.get("functions", []))
    names = {}
    for r in cs:
        names.setdefault(r["key"].split(":version")[0].split(",version")[0], []).append(r["status"])
    summary = {}
    for k, v in names.items():
        summary[k] = {s: v.count(s) for s in set(v)}
    assumptions = list(notes) + [
        "operands' own operations are arbitrary but are performed through Python's protocols (modelled as opaque events "
        "with arbitrary results, exceptions and effects on the variables and cells in reach); len() has no effect",
        "integers are mathematical (Python's are); object identity of equal immutable primitives is not observed",
        "instruction formatting (PyVM.format_instruction, PyVM.log, logging) and traceback_from_frame are summarised as "
        "effect-free in other functions' obligations; C21 and C25 check them on their own",
    ]
    und = [r for r in cs if r["status"] in ("undecided", "skipped", "vacuous")]
    if und:
        assumptions.append(f"{len(und)} contract variants are outside the symbolic subset and are checked natively only "
                           f"(bounded, {sum(r.get('evaluations', 0) for r in und)} evaluations): "
                           + "; ".join(sorted({r['key'][:80] + ': ' + ', '.join(r['reasons'])[:100] for r in und})[:12]))
    bounded_sym = [r for r in cs if r["status"] == "bounded"]
    if bounded_sym:
        assumptions.append(f"{len(bounded_sym)} contract variants are proved only up to a stated size (bounded): "
                           + "; ".join(sorted({f"{r['name']} ({r['bound']})" for r in bounded_sym})))
    for r in bs:
        assumptions.append(f"bounded check {r['key']}: {r['bound']}")
    samples = []
    for r in cs + bs:
        samples += r.get("samples", [])
        if len(samples) >= 6:
            break
    cov = {
        "obligations": sum(r.get("obligations", 0) for r in cs),
        "discharged": sum(r.get("discharged", 0) for r in cs),
        "checker_cmd": f"python3-vt check.py {prop} --tier {tier}",
        "trusted_base": TRUSTED,
        "samples": samples[:6] or ["none"],
        "contract_variants": len(cs),
        "variants_by_status": {s: sum(r["status"] == s for r in cs) for s in {r["status"] for r in cs}},
        "contracts": summary,
        "functions_interpreted": sorted(fns),
        "back_end": "z3 " + z3v(),
        "solver_queries": sum(r.get("queries", 0) for r in cs),
        "solver_s": round(sum(r.get("solver_s", 0) for r in cs), 2),
        "paths": sum(r.get("paths", 0) for r in cs),
        "evaluations": sum(r.get("evaluations", 0) for r in results),
        "distinct_nontrivial": sum(r.get("distinct", 0) for r in results),
        "rule": "native evaluations run real code and contract on the same seeded concrete state; distinct counts "
                "different (outcome, operation log) pairs per variant",
        "bounded_checks": [{"name": r["key"], "bound": r["bound"], "evaluations": r["evaluations"]} for r in bs],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": man.get(prop, {}).get("level", "proof"),
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return ""


if __name__ == "__main__":
    sys.exit(main())
