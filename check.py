#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property by symbolic execution of the code in /repo.
check.py --setup builds the engine.  Exit 0: held on everything explored; 1: violation (confirmed by native replay)."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENG = os.path.join(VERIF, "engine")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from units import PROPS  # noqa: E402

BASE = ["-std=c++17", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
        "-ftrivial-auto-var-init=pattern", "-w"]
SYM = BASE + ["-O1"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def localise(o):
    """Make the template instances of an object file local, so that instrumented ones are not used by the runtime, Z3 or libstdc++ and vice versa."""
    sh(["ld", "-r", "--force-group-allocation", o, "-o", o + ".r"])
    syms = [l.split()[2] for l in sh(["nm", o + ".r"]).split("\n") if re.match(r"^[0-9a-f]+ [WVu] ", l)]
    with open(o + ".syms", "w") as f:
        f.write("\n".join(x for x in syms if not x.startswith("DW.")) + "\n")
    sh(["objcopy", f"--localize-symbols={o}.syms", o + ".r", o])
    os.unlink(o + ".r")
    os.unlink(o + ".syms")


def engine():
    """Build the pass, the runtime and the kernel stand-ins; returns the directory (keyed by the sources)."""
    h = hashlib.sha256()
    for f in sorted(os.listdir(ENG)):
        h.update(f.encode() + open(os.path.join(ENG, f), "rb").read())
    h.update(repr(SYM).encode())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:16])
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "done")):
            return d
        for x in os.listdir(BUILD):
            if x.startswith("engine-"):
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        os.makedirs(d)
        so = os.path.join(d, "SymPass.so")
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(sh, ["g++", "-O2", "-std=c++17", "-c", f"{ENG}/rt.cpp", "-o", f"{d}/rt.o"]),
                  ex.submit(sh, ["clang++", *BASE, "-O1", "-c", f"{ENG}/replay.cpp", "-o", f"{d}/replay.o"])]
            sh(["g++", "-O1", "-fPIC", "-shared", "-fno-rtti", "-std=c++17", "-I/usr/include/llvm-18",
                "-I/usr/include/llvm-c-18", f"{ENG}/SymPass.cpp", "-o", so, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
            sh(["clang++", *SYM, f"-fpass-plugin={so}", "-fno-builtin", "-c", f"{ENG}/kernels.cpp", "-o", f"{d}/kernels.o"])
            for f in fs:
                f.result()
        localise(f"{d}/rt.o")
        localise(f"{d}/kernels.o")
        open(os.path.join(d, "done"), "w").close()
    return d


def unit_flags(u):
    return ["-I", f"{REPO}/include", *u.get("flags", [])]


def build_sym(e, u, out):
    src = f"{VERIF}/harness/{u['src']}"
    sh(["clang++", *SYM, f"-fpass-plugin={e}/SymPass.so", *unit_flags(u), "-c", src, "-o", out + ".o"])
    localise(out + ".o")
    sh(["clang++", out + ".o", f"{e}/rt.o", f"{e}/kernels.o", "-lz3", "-o", out])
    return out


def build_native(e, u, out):
    src = f"{VERIF}/harness/{u['src']}"
    sh(["clang++", *BASE, "-O1", *unit_flags(u), "-c", src, "-o", out + ".n.o"])
    sh(["clang++", out + ".n.o", f"{e}/replay.o", "-llapack", "-lblas", "-o", out + ".native"])
    return out + ".native"


def replay(binary, model, tier, pert, work, secs=30):
    f = os.path.join(work, "model.txt")
    with open(f, "w") as o:
        o.write(model)
    try:
        p = subprocess.run([binary, f, str(tier), str(pert), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=secs + 30, cwd=work)
    except subprocess.TimeoutExpired:
        return 1, "the operation does not terminate"
    m = re.search(r"REPLAY-VIOLATED (.*)", p.stdout)
    return p.returncode, (m.group(1) if m else p.stdout[-200:])


def demangle(names):
    p = subprocess.run(["c++filt", "-p"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    out = set()
    for n in p.stdout.split("\n"):
        if not re.match(r"^(TAT|lazy|square)::", n):
            continue
        depth, r = 0, ""
        for ch in n:
            if ch == "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif depth == 0:
                r += ch
        out.add(r)
    return sorted(out)


def known_for(prop):
    try:
        k = json.load(open(f"{VERIF}/known_findings.json"))
    except FileNotFoundError:
        return []
    return [x for x in k.get("findings", []) if x["property"] == prop]


def matches(f, unit, what, model):
    if f.get("unit") not in (None, unit) or not re.search(f["what_regex"], what):
        return False
    vals = dict(l.split(" ", 1) for l in model.strip().split("\n") if " " in l)
    return all(str(vals.get(k)) in [str(x) for x in (v if isinstance(v, list) else [v])] for k, v in f.get("when", {}).items())


def main():
    if sys.argv[1] == "--setup":
        print(engine())
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tn = 1 if tier == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    t0 = time.time()
    e = engine()
    os.makedirs(f"{BUILD}/work", exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=f"{BUILD}/work")
    rdir = f"{VERIF}/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    units = [u for u in spec["units"] if tn >= u.get("tier", 0)]
    results, viol, known, unconfirmed, notes = [], [], {}, [], []
    validated = disagreed = 0
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            syms = [ex.submit(build_sym, e, u, f"{work}/u{i}") for i, u in enumerate(units)]
            nats = [ex.submit(build_native, e, u, f"{work}/u{i}") for i, u in enumerate(units)]
            for i, u in enumerate(units):
                b = syms[i].result()
                out = f"{work}/u{i}.json"
                budget = u.get("thorough_budget", 900) if tn else u.get("budget", 60)
                p = subprocess.run([b, "--out", out, "--budget", str(budget), "--tier", str(tn), "--path-seconds", str(u.get("path_seconds", 60)),
                                    "--rlimit", str(u.get("rlimit", 20000000) * (10 if tn else 1))],
                                   cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if not os.path.exists(out):
                    raise BuildError("the symbolic run gave no result: " + p.stdout[-2000:])
                r = json.load(open(out))
                r["unit"] = u["name"]
                results.append(r)
                nat = nats[i].result()
                for w in r["witnesses"]:
                    rc, txt = replay(nat, w, tn, 0, work)
                    if rc == 0:
                        validated += 1
                    elif rc == 1:
                        disagreed += 1
                        notes.append(f"{u['name']}: native run of a path witness disagrees: {txt}")
                        # the real code crashes on an input the solver chose for a path of the property's domain
                        if txt == "the operation crashes" and all(replay(nat, w, tn, 0, work)[1] == txt for _ in range(2)):
                            r["violations"].append({"what": txt, "model": w})
                done = set()
                for v in r["violations"]:
                    if v["what"] in done:
                        continue
                    hit = [f for f in known_for(prop) if matches(f, u["name"], v["what"], v["model"])]
                    ok, pert = False, 0
                    for pert in range(0, 16):
                        rc, txt = replay(nat, v["model"], tn, pert, work, 10)
                        if rc == 1:
                            ok = True
                            break
                    if not ok:
                        unconfirmed.append(f"{u['name']}: {v['what']}")
                        continue
                    done.add(v["what"])
                    if hit:
                        known[hit[0]["id"]] = hit[0]["title"]
                        continue
                    path = f"{rdir}/{prop}-{len(viol)}.txt"
                    with open(path, "w") as o:
                        o.write(f"# property {prop}, unit {u['name']} ({u['src']}), tier {tn}, perturbation {pert}\n# symbolic run: {v['what']}\n"
                                f"# native run: {txt}\n# rebuild and rerun: python3 {VERIF}/check.py --replay {path}\n")
                        o.write(v["model"])
                    viol.append((v["what"], path))
                if viol:
                    break
        for f in known_for(prop):
            if f["id"] in known:
                print(f"KNOWN-FINDING: property={prop} {f['title']}")
    except BuildError as x:
        print(f"check.py: cannot build or run the check for {prop}:\n{x}", file=sys.stderr)
        shutil.rmtree(work, ignore_errors=True)
        return 2
    shutil.rmtree(work, ignore_errors=True)
    tot = lambda k: sum(r[k] for r in results)
    ended = sum(r["ends"].get("end", 0) for r in results)
    reach = {}
    for r in results:
        for k, n in r["reach"].items():
            reach[k] = reach.get(k, 0) + n
    missing = [m for u in units for m in u.get("reach", []) if m not in reach]
    limits = {}
    for r in results:
        for k, n in r["limits"].items():
            limits[k] = limits.get(k, 0) + n
    fn = demangle(sorted({f for r in results for f in r["functions"]}))
    complete = all(r["complete"] for r in results) and not missing
    cov = {
        "states": ended, "transitions": tot("decisions"), "traces_validated_against_impl": validated,
        "samples": [{"unit": r["unit"], "witness": w} for r in results for w in r["witnesses"][:2]][:8],
        "exhaustive": complete,
        "explanation": "states: program paths executed to the end, each standing for all inputs that follow it; transitions: symbolic branch decisions",
        "technique": "symbolic execution of the LLVM IR of the real code; every branch and every assertion decided by Z3 over all values in the bounds",
        "bounds": [{"unit": u["name"], "bounds": u["bounds"], "complete": r["complete"], "wall_s": r["wall"], "paths": r["paths"], "ends": r["ends"],
                    "unexplored_items": r["unexplored"]} for u, r in zip(units, results)],
        "outside_the_claim": spec.get("outside", []),
        "functions_encoded": len(fn), "functions": fn[:150],
        "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
        "assertions": tot("asserts"), "assertion_queries": tot("assert_queries"), "solver_seconds": round(tot("solver_s"), 2),
        "solver": "z3 (libz3)", "vacuity_witnesses_reached": reach, "vacuity_witnesses_missing": missing,
        "undecided_or_unsupported": limits, "counterexamples_not_reproduced_natively": unconfirmed, "native_disagreements": notes[:5],
        "known_findings_seen": known,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")
    for u in unconfirmed:
        print("note: not reproduced natively, not reported:", u)
    for n in notes[:3]:
        print("note:", n)
    for w, path in viol:
        print("violated:", w)
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} {tier}: {ended} paths, {tot('queries')} queries, {tot('solver_s'):.1f}s solver, complete={complete}, {time.time()-t0:.1f}s"
          + (f", limits={limits}" if limits else "") + (f", missing witnesses={missing}" if missing else ""))
    return 1 if viol else 0


def do_replay(path):
    t = open(path).read()
    m = re.search(r"property (\w+), unit (.*?) \(.*?\), tier (\d), perturbation (\d+)", t)
    u = [u for u in PROPS[m.group(1)]["units"] if u["name"] == m.group(2)][0]
    e = engine()
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        nat = build_native(e, u, f"{work}/u")
        rc, txt = replay(nat, "".join(l + "\n" for l in t.split("\n") if l and not l.startswith("#")), int(m.group(3)), int(m.group(4)), work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(rc, txt)
    return rc


COMMON_ASSUMPTIONS = [
    "floating point numbers are treated as real numbers: rounding, overflow, NaN and infinities are outside the claim",
    "claims hold within the stated bounds only; shapes, permutations and charges outside them are not covered",
    "memory allocation succeeds; single thread",
    "clang 18 at -O1 translates the C++ source to LLVM IR faithfully; Z3 answers are trusted; counterexamples are confirmed by a native run",
]

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2]))
    sys.exit(main())
