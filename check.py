#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] | --replay FILE | --setup | --list"""
import os, sys, time, json, re
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
try:
    import numpy
except ImportError:
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import build, runner, se, props
from concurrent.futures import ThreadPoolExecutor


def exe_for(key, mode):
    e = props.EXES[key]
    return build.link(e["src"], e.get("lib", []), mode, e.get("libs", []), e.get("stubs", []), e.get("flags", []), e.get("summaries", ()))


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) what=(.*?) \| (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        build.engine()
        print("engine built")
        with ThreadPoolExecutor(3) as tp:
            for k, f in [((k, m), tp.submit(exe_for, k, m)) for k in props.EXES for m in ("sym", "plain")]:
                try:
                    f.result()
                except build.BuildError as e:
                    print("not built in advance:", k, str(e)[-300:])
        return 0
    if a[0] == "--list":
        for p in props.PROPS:
            print(p, len(props.PROPS[p]["cases"]))
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        import tempfile
        tmp = tempfile.mkdtemp()
        txt = runner.replay(exe_for(d["exe"], "plain"), d["case"], d["inputs"], tmp)
        os.rmdir(tmp)
        print(txt)
        return 1 if re.search("FAIL|EXCEPTION|CRASH|TIMEOUT", txt) or not re.search("DONE|QUIT", txt) else 0
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--case") + 1] if "--case" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    t0 = time.time()
    budget = P.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    cases = [c for c in P["cases"] if tier == "thorough" or not c[2].get("thorough")]
    if only:
        cases = [c for c in cases if re.fullmatch(only, c[1])]
    keys = sorted({c[0] for c in cases})
    with ThreadPoolExecutor(4) as tp:
        poly = tp.submit(build.engine_part, "polyeng")
        syms = {k: tp.submit(exe_for, k, "sym") for k in keys}
        sym = {k: f.result() for k, f in syms.items()}
        poly = poly.result()
    tb = time.time() - t0
    plain = {}

    def get_plain(k):
        if k not in plain:
            plain[k] = exe_for(k, "plain")
        return plain[k]

    log = lambda s: print("# " + s, flush=True)
    T = runner.explore(cases, sym, get_plain, poly, dict(P.get("opts", {})), seed, t0 + budget, log)
    # cross-validation of the encoding: the real build must agree on each case's default input
    val, valbad = 0, []
    if (tier == "thorough" or P.get("validate", True)) and not T["violations"]:
        import tempfile
        tmp = tempfile.mkdtemp(prefix="se_v_")
        with ThreadPoolExecutor(4) as tp:
            list(tp.map(get_plain, keys))
        with ThreadPoolExecutor(8) as tp:
            for c, txt in zip(cases, tp.map(lambda c: runner.replay(plain[c[0]], c[1], {}, tmp), cases)):
                if re.search("FAIL|EXCEPTION|CRASH|TIMEOUT", txt):
                    valbad.append((c, txt.strip().splitlines()[0]))
                else:
                    val += 1
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
        for c, l in valbad:
            T["violations"].append({"case": c[1], "exe": c[0], "what": "default input: " + l, "inputs": {}, "replay": [l]})
    kn = known(pid)
    newv, hit = [], []
    for v in T["violations"]:
        m = [k for k in kn if k[0] == v["case"] and (k[1] == v["what"] or v["what"].startswith("default input") and v["what"].endswith(" " + k[1]))]
        if m:
            if m[0] not in hit:
                hit.append(m[0])
        else:
            newv.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for n, v in enumerate(newv):
        rp = os.path.join(HERE, "evidence", "%s-replay-%d.json" % (pid, n))
        json.dump(dict(v, property=pid, how="python3 check.py --replay <this file>"), open(rp, "w"), indent=1, sort_keys=True)
        v["path"] = rp
    cs = T["cases"]
    st = T["stats"]
    paths = sum(c["paths"] for c in cs.values())
    obl = sum(c["obl"] for c in cs.values())
    ok = sum(c["ok"] for c in cs.values())
    und = sum(len(c["und"]) for c in cs.values())
    und += sum(c["skipped_paths"] for c in cs.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "other"),
        "coverage": {
            "explanation": "Bounded symbolic execution of the real code (LLVM IR of /repo's current sources, instrumented at "
            "compile time): every path inside the stated bounds is followed, each decision's other side is decided by a model or "
            "by z3, and each obligation is decided over all inputs of its path (exact normal form, LRA over bounded monomials, "
            "NRA).",
            "obligations": obl, "discharged": ok, "undecided": und, "paths": paths,
            "evaluations": paths, "distinct_nontrivial": sum(1 for c in cs.values() if c["reach"]),
            "solver": {"z3_queries": st.get("queries", 0), "sat": st.get("sat", 0), "unsat": st.get("unsat", 0),
                       "unknown": st.get("unknown", 0), "seconds": round(st.get("solver_s", 0), 2),
                       "settled_by_exact_normal_form": st.get("normal_form", 0),
                       "normal_form_cross_checks_by_z3": {k: st.get("xcheck_" + k, 0) for k in ("unsat", "unknown", "sat")},
                       "flips_found_by_concrete_model": st.get("flip_by_model", 0),
                       "flips_refuted_by_intervals": st.get("flip_interval", 0)},
            "bounds": P["bounds"],
            "functions_encoded": sorted(build_demangle(f for f in T["funcs"])),
            "cases": {k: {"paths": c["paths"], "path_ends": c["ends"], "obligations": c["obl"], "discharged": c["ok"],
                          "how": c["how"], "undecided": sorted(set(c["und"]))[:8], "n_undecided": len(c["und"]),
                          "skipped_paths": c["skipped_paths"], "reach": c["reach"], "symbolic_inputs": c["inputs"],
                          "dag_nodes": c["nodes"], "decisions": c["dec"], "concretised_values": c["conc"]} for k, c in sorted(cs.items())},
            "default_inputs_validated_on_plain_build": val,
            "build_s": round(tb, 1),
            "samples": [{"case": k, "reach": c["reach"], "paths": c["paths"]} for k, c in list(sorted(cs.items()))[:3]],
            "counterexamples_not_confirmed": T["unconfirmed"][:10],
            "exhaustive": und == 0,
        },
        "assumptions": props.COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(newv),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, sort_keys=True)
    for k in kn:
        print("KNOWN-FINDING: property=%s %s [%s%s]" % (pid, k[2], k[0], "" if k in hit else ", not observed this run"))
    vac = [k for k, c in cs.items() if not c["reach"]]
    print("%s %s: %d cases, %d paths, %d/%d obligations, %d undecided, %d solver queries (%.1f s), build %.1f s, wall %.1f s%s" % (
        pid, tier, len(cases), paths, ok, obl, und, st.get("queries", 0), st.get("solver_s", 0), tb, time.time() - t0,
        "; no witness: " + ",".join(vac) if vac else ""))
    if "-v" in a:
        for k, c in sorted(cs.items()):
            print("  ", k, "paths", c["paths"], c["ends"], "obl %d/%d" % (c["ok"], c["obl"]), c["how"], "und", len(c["und"]), sorted(set(c["und"]))[:3],
                  "skipped", c["skipped_paths"], "conc", c["conc"], "nodes", c["nodes"], "cpu %.1f" % c["t"], "reach", c["reach"])
        for u in T["unconfirmed"][:10]:
            print("   unconfirmed", u)
    for v in newv[:8]:
        print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
        print("#   case %s: %s: %s" % (v["case"], v["what"], "; ".join(v["replay"])[:300]))
    return 1 if newv else 0


def build_demangle(names):
    import subprocess
    names = sorted(set(names))
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), text=True, stdout=subprocess.PIPE).stdout.split("\n")
    out = []
    for x in r:
        x = x.strip()
        if x and ("nimble" in x or "(" not in x or "::" not in x) and not x.startswith(("harness", "std::", "void std::", "Kokkos", "main")):
            out.append(x.split("(")[0][:120] if len(x) > 160 else x)
    return sorted(set(out))


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = main()
    except build.BuildError as e:
        print(str(e)[-3000:])
        rc = 2
    finally:
        sys.stdout.flush()
    os._exit(rc)
