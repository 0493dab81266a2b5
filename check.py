#!/usr/bin/env python3
"""check.py <property>: solver-based check of one property against /repo.

Compiles the property's harnesses together with /repo's current headers through
the SymPass plugin, executes them symbolically, replays every counterexample on
a plain build of the same harness, and writes evidence/<property>.json.
exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import json, os, re, shutil, subprocess, sys, time, glob, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

INC = ["-I" + VERIF + "/engine", "-I" + VERIF + "/harness", "-I" + REPO, "-I" + REPO + "/inc", "-I/usr/include/eigen3"]
DEFS = ["-DRAPIDJSON_HAS_CXX11_RVALUE_REFS", "-DNDEBUG"]
SYMFLAGS = ["-std=gnu++20", "-O1", "-g0", "-w", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-DEIGEN_DONT_VECTORIZE",
            "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0"]


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def compile_sym(src, exe, race=False):
    obj = exe + ".o"
    rc, o = sh(["clang++-18", "-fpass-plugin=" + BUILD + "/SymPass.so"] + SYMFLAGS + DEFS + INC + ["-c", src, "-o", obj])
    if rc:
        return rc, o
    return sh(["clang++-18", obj, BUILD + "/symrt.o"] + ([BUILD + "/symrace.o"] if race else []) + ["-o", exe, "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp", "-lnlopt"])


def compile_native(src, exe, san=False, race=False):
    fl = ["-std=gnu++20", "-O1", "-g0", "-w", "-DSYM_NATIVE"] + DEFS
    if san:
        fl += ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]
    env = dict(os.environ)
    if race:  # plain arithmetic, memory accesses still reported
        env["SYM_RACE_ONLY"] = "1"
        fl += ["-fpass-plugin=" + BUILD + "/SymPass.so", BUILD + "/symrace.o"]
    rc, o = sh(["clang++-18"] + fl + INC + [src, BUILD + "/symnative.o", "-o", exe, "-ltbb", "-lnlopt"], env=env)
    return rc, o


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else ""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    out = os.path.join(VERIF, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc, o = sh([VERIF + "/engine/build.sh", BUILD])
    if rc:
        print(o)
        print("engine build failed")
        return 2
    tus = cfg["tus"]
    deadline = t0 + (600 if tier == "quick" else 3600)
    pool = cf.ThreadPoolExecutor(8)
    symf, natf = {}, {}
    for tu in tus:
        symf[tu] = pool.submit(compile_sym, f"{VERIF}/harness/{tu}.cpp", f"{out}/{tu}.sym", cfg.get("race", False))
    for tu in tus:
        natf[tu] = pool.submit(compile_native, f"{VERIF}/harness/{tu}.cpp", f"{out}/{tu}.nat", False, cfg.get("race", False))
    tot, cases, samples, funcs, failed = {}, [], [], set(), []
    cands = []
    for tu in tus:
        rc, o = symf[tu].result()
        if rc:
            failed.append(tu)
            print(f"harness {tu} does not compile against the current tree:\n" + o[-3000:])
            continue
        od = f"{out}/{tu}"
        os.makedirs(od)
        env = dict(os.environ)
        if tier == "thorough":
            os.makedirs(od + "/dump")
            env["SYM_DUMP"] = od + "/dump"
            env["SYM_DUMP_MAX"] = "60"
        left = max(20, deadline - time.time() - 60)
        cmd = [f"{out}/{tu}.sym", "--tier", "1" if tier == "thorough" else "0", "--out", od, "--seed", str(seed), "--total", str(min(left, cfg.get("total", 120) * (1 if tier == "quick" else 12))),
               "--nl-ms", str(cfg.get("nl_ms", 4000) * (1 if tier == "quick" else 5))]
        if only:
            cmd += ["--only", only]
        rc, o = sh(cmd, timeout=left + 60, env=env)
        print(f"[{pid}] {tu}: " + o.strip()[-2000:].split("\n")[-1])
        if not os.path.exists(od + "/summary.json"):
            print("symbolic run failed", rc)
            return 2
        s = json.load(open(od + "/summary.json"))
        for k, v in s.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for c in s["cases"]:
            c["tu"] = tu
            cases.append(c)
        if os.path.exists(od + "/samples.txt"):
            samples += [l.rstrip("\n") for l in open(od + "/samples.txt", errors="replace")]
        if os.path.exists(od + "/functions.txt"):
            funcs |= set(open(od + "/functions.txt", errors="replace").read().split())
        for f in sorted(glob.glob(od + "/cand_*_0.txt"), key=lambda f: int(f.split("_")[-2])):
            d = {}
            for l in open(f, errors="replace"):
                k, _, v = l.rstrip("\n").partition(" ")
                d.setdefault(k, v)
            cands.append((tu, d.get("case", ""), d.get("label", ""), d.get("kind", ""), f))
    if len(failed) == len(tus):
        return 2
    # ---- replay of counterexamples on the real code
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k["status"] == "open"]
    groups = {}
    for tu, case, label, kind, f in cands:
        groups.setdefault((tu, case, re.sub(r"\d+", "#", label), kind == "SIGSEGV" or label in ("crash", "hang")), []).append((kind, f))
    replays = {"tried": 0, "reproduced": 0, "not_reproduced": 0, "known": 0}
    violations = []
    knownhit = {}
    san = {}
    nocompile = set()

    def replay(tu, f, crash):
        exes = []
        rc, o = natf[tu].result()
        if rc == 0:
            exes.append((f"{out}/{tu}.nat", 20))
        else:
            nocompile.add(tu)
        if crash:
            if tu not in san:
                san[tu] = compile_native(f"{VERIF}/harness/{tu}.cpp", f"{out}/{tu}.san", True, cfg.get("race", False))
            if san[tu][0] == 0:
                exes.append((f"{out}/{tu}.san", 40))
        for exe, lim in exes:
            rc, o = sh([exe, "--replay", f, "--limit", str(lim)], timeout=lim + 20)
            m = re.search(r"REPLAY-FAIL (.*)", o)
            if m:
                return m.group(1)[:300]
            if "AddressSanitizer" in o:
                return "label=asan " + "".join(re.findall(r"ERROR: AddressSanitizer: \S+", o)[:1])
        return None

    maxgroups = 200
    for gi, ((tu, case, label, crash), fs) in enumerate(groups.items()):
        if gi >= maxgroups or len(violations) >= (99 if "--all" in sys.argv else 3) or time.time() > deadline:
            break
        done = False
        for kind, f in fs[:3]:
            for g in sorted(glob.glob(f[:-len("_0.txt")] + "_*.txt")):
                replays["tried"] += 1
                r = replay(tu, g, crash)
                if r:
                    replays["reproduced"] += 1
                    k = next((k for k in known if re.fullmatch(k["case"], case) and re.search(k["label"], r)), None)
                    if k:
                        replays["known"] += 1
                        knownhit[k["id"]] = k
                    else:
                        violations.append((tu, case, r, g))
                    done = True
                    break
                replays["not_reproduced"] += 1
            if done:
                break
    for k in knownhit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    # ---- translator validation: witnesses of explored paths run on the plain build
    traces = {"paths_replayed": 0, "agree": 0, "diverge": 0, "pruned": 0}
    if not violations:
        for tu in tus:
            if tu in failed or natf[tu].result()[0]:
                continue
            for f in sorted(glob.glob(f"{out}/{tu}/wit_*.txt"))[:cfg.get("wits", 60)]:
                rc, o = sh([f"{out}/{tu}.nat", "--replay", f, "--limit", "20"], timeout=30)
                traces["paths_replayed"] += 1
                if "REPLAY-OK" in o:
                    traces["agree"] += 1
                elif "REPLAY-PRUNED" in o:
                    traces["pruned"] += 1
                else:
                    traces["diverge"] += 1
                    traces.setdefault("diverging", []).append(os.path.basename(f) + ": " + o.strip()[-200:])
    # ---- second solver on a sample of the queries (thorough)
    cross = {}
    if tier == "thorough":
        ag = dis = unk = 0
        qs = sorted(glob.glob(f"{out}/*/dump/*.smt2"))[:120]

        def run(q):
            rc, o = sh(["cvc5", "--lang=smt2", "--tlimit=10000", q], timeout=20)
            return q, o.strip().split("\n")[-1] if o else ""
        for q, a in pool.map(run, qs):
            exp = "sat" if q.endswith(".sat.smt2") else "unsat"
            if a == exp:
                ag += 1
            elif a in ("sat", "unsat"):
                dis += 1
                print("solver disagreement", q, a)
            else:
                unk += 1
        cross = {"cvc5_agree": ag, "cvc5_disagree": dis, "cvc5_unknown": unk}
    # ---- evidence
    names = set()
    if funcs:
        p = subprocess.run(["c++filt", "-p"], input="\n".join(sorted(funcs)), stdout=subprocess.PIPE, text=True)
        for l in p.stdout.split("\n"):
            prev = None
            while prev != l:
                prev = l
                l = re.sub(r"<[^<>]*>", "", l)
            l = re.sub(r"\[abi:[^\]]*\]|\{lambda.*|\.\w+$", "", l).strip()
            if "gbs::" in l:
                names.add(l[:120])
    checks = sum(c["checks"] for c in cases)
    incomplete = [c["name"] for c in cases if c["abandoned"] or c["unsupported"] or c["timeouts"]]
    vac = [c["name"] for c in cases if c["checks"] == 0]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"), "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "assumptions": COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
        "coverage": {
            "states": sum(c["paths"] for c in cases),
            "transitions": int(tot.get("q_const", 0) + tot.get("q_interval", 0) + tot.get("q_cache", 0) + tot.get("q_witness", 0)),
            "traces_validated_against_impl": traces["agree"],
            "samples": samples[:12],
            "explanation": "states = feasible symbolic paths explored to the end; transitions = symbolic branch decisions taken on them; every check is an assertion over all values of the symbolic variables on its path",
            "harness_cases": len(cases), "assertions_checked": checks,
            "assertions_by": {k: int(tot.get(k, 0)) for k in ("c_identity", "c_z3id", "c_interval", "c_solver", "c_concrete", "c_undecided")},
            "queries": {k: int(tot.get(k, 0)) for k in ("q_interval", "q_cache", "q_linear", "q_nonlinear", "q_sample_sat", "q_unknown", "linear_sat", "linear_unsat", "nl_sat", "nl_unsat")},
            "solver_time_s": round(tot.get("solver_s", 0), 2),
            "bounds": cfg["bounds"],
            "max_symbolic_variables_in_a_case": max([c["vars"] for c in cases] or [0]),
            "incomplete_cases": incomplete, "cases_without_assertion": vac, "harnesses_not_compiled": failed,
            "exhaustive": not incomplete and not failed and not tot.get("c_undecided", 0),
            "functions_encoded_count": len(names), "functions_encoded": sorted(names)[:200],
            "counterexample_replays": replays, "trace_validation": traces, "cross_check": cross,
            "case_table": [{k: c[k] for k in ("name", "paths", "checks", "undecided", "abandoned", "unsupported", "wall_s")} for c in cases][:400],
        },
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"[{pid}] cases={len(cases)} paths={ev['coverage']['states']} checks={checks} undecided={int(tot.get('c_undecided', 0))} incomplete={len(incomplete)} replays={replays} traces={ {k: v for k, v in traces.items() if k != 'diverging'} } wall={ev['wall_s']}")
    for t in traces.get("diverging", [])[:5]:
        print("  diverging:", t)
    if vac:
        print("  no assertion reached in:", vac[:10])
    if incomplete:
        print("  incomplete:", incomplete[:10])
    if violations:
        for tu, case, r, g in violations:
            dst = os.path.join(out, "violation_" + str(violations.index((tu, case, r, g))) + ".txt")
            with open(g) as a, open(dst, "w") as b:
                b.write(a.read())
                b.write(f"# harness {tu}; replay: {out}/{tu}.nat --replay {dst}\n# native result: {r}\n")
            print(f"  {case}: {r}")
            print(f"VIOLATION property={pid} replay={dst}")
        return 1
    if nocompile - set(failed):
        print("  note: native build failed for", nocompile)
    for tu in tus:  # keep the output directory small
        for ext in (".sym", ".sym.o", ".nat", ".san"):
            try:
                os.remove(f"{out}/{tu}{ext}")
            except OSError:
                pass
    return 0


COMMON_ASSUMPTIONS = [
    "double arithmetic of the code is interpreted over the exact reals (no rounding, overflow or signed zero); constants are the exact values of the double literals, sqrt/sin/cos of non-symbolic values are their double results",
    "the explored program is clang's unoptimised IR of /repo's headers as instantiated by the harness, with the parallel algorithms on their serial back end",
    "branches whose feasibility the solver could not decide within its budget are explored on both sides",
]
if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # never let a driver error look like a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
