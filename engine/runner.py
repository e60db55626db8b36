"""Scheduler: explores the paths of all cases of a property in parallel and collects verdicts."""
import os, sys, time, json, tempfile, shutil, random, zlib, traceback, threading
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED, ThreadPoolExecutor
import numpy as np
import se, build


def job_path(a):
    exe, case, seeds, prefix, opts, tmp, uid, seed, poly = a
    st = se.Stats()
    out = os.path.join(tmp, "r%d.rec" % uid)
    t0 = time.time()
    try:
        se.run_bin(exe, case, seeds, prefix, out, opts.get("run_s", 60))
        if not os.path.exists(out):
            # the run died without being able to report: note its choices, so that the same run of the plain build can confirm it
            lg, chs = out + ".ch", []
            se.run_bin(exe, case, seeds, prefix, out, opts.get("run_s", 60), {"SE_CHLOG": lg})
            if os.path.exists(lg):
                chs = [(l.split()[0], int(l.split()[1])) for l in open(lg) if len(l.split()) == 2]
                os.remove(lg)
            if not os.path.exists(out):
                return {"kind": "path", "status": "dead", "new": [], "und": ["no record"], "stats": st.d, "nobl": 0, "uid": uid, "chs": chs, "seeds": seeds}
        rec = se.Rec(out)
        rec.polyexe = poly
        if rec.status == "diverged":
            return {"kind": "path", "status": "diverged", "new": [], "und": ["re-execution diverged"], "stats": st.d, "nobl": 0, "uid": uid}
        rng = np.random.default_rng((seed * 1000003 + uid * 7919 + zlib.crc32(case.encode())) & 0x7FFFFFFF)
        new, und = se.expand(rec, len(prefix), opts, rng, st, poly)
        easy, hard = [], []
        for i, (kind, a, b, tol, what, ek) in enumerate(rec.obl):
            quick = a if kind == "tr" else kind != "fi" and (a == b and kind != "lt" or rec.nodes[a][0] == "c" == rec.nodes[b][0])
            (easy if quick else hard).append(i)
        return {"kind": "path", "status": rec.status, "easy": easy, "hard": hard, "new": new, "und": und, "stats": st.d, "nobl": len(rec.obl), "uid": uid,
                "funcs": rec.funcs, "reach": rec.reach, "conc": rec.conc, "nnodes": len(rec.nodes), "ndec": len(rec.decs),
                "nin": len(rec.vars), "t": time.time() - t0,
                "crash": None if rec.status in ("ok", "quit") else rec.seeds(),
                "prefix": [(e[0], rec.decvalue(e)) for _, e in rec.decs],
                "chs": [(e[1], e[3]) for _, e in rec.decs if e[0] == "C"], "seeds": rec.seeds()}
    except Exception:
        return {"kind": "path", "status": "driver error", "new": [], "und": [traceback.format_exc()[-800:]], "stats": st.d, "nobl": 0, "uid": uid}


def job_obl(a):
    case, idxs, opts, tmp, uid, seed, poly = a
    st = se.Stats()
    t0 = time.time()
    try:
        rec = se.Rec(os.path.join(tmp, "r%d.rec" % uid))
        rec.polyexe = poly
        rng = np.random.default_rng((seed * 1000003 + uid * 31 + idxs[0]) & 0x7FFFFFFF)
        r = se.decide(rec, idxs, opts, poly, rng, st)
        o = [(rec.obl[i][4], v, info) for i, v, info in r]
        tt = time.time() - t0
        chs = [(e[1], e[3]) for _, e in rec.decs if e[0] == "C"]
        return {"kind": "obl", "res": o, "stats": st.d, "uid": uid, "chs": chs, "t": tt}
    except Exception:
        return {"kind": "obl", "res": [("driver", "undecided", traceback.format_exc()[-800:])] * len(idxs), "stats": st.d,
                "uid": uid, "chs": []}


def job_infeasible(a):
    """a run ended abnormally: is the path that leads there really feasible?"""
    case, opts, tmp, uid = a
    st = se.Stats()
    rec = se.Rec(os.path.join(tmp, "r%d.rec" % uid))
    v, info = se.path_bad(rec, len(rec.ev), opts, np.random.default_rng(0), st)
    return v, info, st.d


def chkey(chs):
    cnt, out = {}, {}
    for n, v in chs:
        c = cnt.get(n, 0)
        cnt[n] = c + 1
        out["choice:" + n + ("#%d" % c if c else "")] = float(v)
    return out


def replay(exe, case, seeds, tmp, tmo=60):
    out = os.path.join(tmp, "replay%d_%d.out" % (os.getpid(), random.getrandbits(40)))
    se.run_bin(exe, case, seeds, [], out, tmo)
    try:
        txt = open(out).read()
        os.remove(out)
    except OSError:
        txt = "CRASH\n"
    return txt


def explore(cases, sym_exe, get_plain, poly, opts0, seed, deadline, log=lambda s: None, nproc=8):
    """cases: list of (exe_key, case_name, opts). sym_exe: {exe_key: path}. get_plain(exe_key) -> path (lazy)."""
    tmp = tempfile.mkdtemp(prefix="se_")
    T = {"cases": {}, "stats": {}, "violations": [], "funcs": set(), "unconfirmed": [], "timeouts": 0}
    uid = 0
    pending = {}
    live = {}      # uid -> number of outstanding obligation jobs
    seen_prefix = set()
    stop_case = set()
    ex = ProcessPoolExecutor(nproc)

    def addstats(d):
        for k, v in d.items():
            T["stats"][k] = T["stats"].get(k, 0) + v

    def C(ck):
        return T["cases"].setdefault(ck, {"paths": 0, "obl": 0, "ok": 0, "und": [], "how": {}, "reach": {}, "ends": {}, "nodes": 0,
                                          "dec": 0, "inputs": 0, "conc": 0, "skipped_paths": 0, "t": 0.0})

    def submit_path(ci, seeds, prefix):
        nonlocal uid
        key = (ci, tuple(prefix))
        if key in seen_prefix:
            return
        seen_prefix.add(key)
        ek, cn, o = cases[ci]
        c = C(cn)
        if c["paths"] + c.get("queued", 0) >= o.get("max_paths", 2000):
            c["skipped_paths"] += 1
            return
        c["queued"] = c.get("queued", 0) + 1
        uid += 1
        oo = dict(opts0, **o)
        pending[ex.submit(job_path, (sym_exe[ek], cn, seeds, prefix, oo, tmp, uid, seed, poly))] = ("p", ci, uid)

    def release(u):
        live[u] = live.get(u, 0) - 1
        if live[u] <= 0:
            try:
                os.remove(os.path.join(tmp, "r%d.rec" % u))
            except OSError:
                pass

    def confirm(ci, what, seeds, chs, extra=""):
        ek, cn, o = cases[ci]
        if (cn, what) in stop_case:
            return
        s = dict(seeds)
        s.update(chkey(chs))
        txt = replay(get_plain(ek), cn, s, tmp, o.get("run_s", 60))
        bad = [l for l in txt.splitlines() if l.startswith(("FAIL", "EXCEPTION", "CRASH", "TIMEOUT"))]
        if what == "the run dies" and not bad and "DONE" not in txt:
            bad = ["CRASH without a word"]
        if bad and "QUIT" not in txt:
            stop_case.add((cn, what))
            T["violations"].append({"case": cn, "exe": ek, "what": what, "inputs": s, "replay": bad[:5]})
            log("violation: %s / %s: %s" % (cn, what, bad[0]))
        else:
            T["unconfirmed"].append({"case": cn, "what": what, "replay": txt[:200]})
            log("not confirmed by replay: %s / %s (%s)" % (cn, what, txt[:80].strip()))

    try:
        for ci in range(len(cases)):
            submit_path(ci, {}, [])
        while pending:
            done, _ = wait(list(pending), timeout=5, return_when=FIRST_COMPLETED)
            now = time.time()
            if now > deadline:
                for f, (k, ci, u) in list(pending.items()):
                    if f.done():
                        continue
                    f.cancel()
                    C(cases[ci][1])["und"].append("time budget" if k == "o" else "time budget (path)")
                pending = {f: v for f, v in pending.items() if f.done()}
                if not pending:
                    break
                done = set(pending)
            for f in done:
                k, ci, u = pending.pop(f)
                ek, cn, o = cases[ci]
                c = C(cn)
                try:
                    r = f.result()
                except Exception as e:
                    c["und"].append("worker: %r" % (e,))
                    continue
                if k == "x":
                    v, info, sd = r
                    addstats(sd)
                    if v == "bad":
                        confirm(ci, live_status[u][0], info, live_status[u][1])
                    release(u)
                    continue
                addstats(r["stats"])
                c["t"] += r.get("t", 0.0)
                if k == "p":
                    c["queued"] -= 1
                    c["paths"] += 1
                    st = r["status"].split(" ")[0]
                    c["ends"][st] = c["ends"].get(st, 0) + 1
                    c["und"] += r["und"]
                    T["funcs"].update(r.get("funcs", []))
                    for w in set(r.get("reach", [])):
                        c["reach"][w] = c["reach"].get(w, 0) + 1
                    c["nodes"] = max(c["nodes"], r.get("nnodes", 0))
                    c["dec"] = max(c["dec"], r.get("ndec", 0))
                    c["inputs"] = max(c["inputs"], r.get("nin", 0))
                    c["conc"] = max(c["conc"], r.get("conc", 0))
                    for s, p in r["new"]:
                        submit_path(ci, s, p)
                    n = r["nobl"]
                    c["obl"] += n
                    live[u] = 1
                    if st == "dead":
                        confirm(ci, "the run dies", r["seeds"], r["chs"])
                    if st in ("exception", "crash"):
                        live[u] += 1
                        live_status[u] = (r["status"], r.get("chs", []))
                        pending[ex.submit(job_infeasible, (cn, dict(opts0, **o), tmp, u))] = ("x", ci, u)
                    elif st == "timeout":
                        T["timeouts"] += 1
                        live[u] += 1
                        live_status[u] = (r["status"], r.get("chs", []))
                        pending[ex.submit(job_infeasible, (cn, dict(opts0, **o), tmp, u))] = ("x", ci, u)
                    ch = o.get("chunk", 24)
                    easy, hard = r.get("easy", []), r.get("hard", [])
                    for part in ([easy] if easy else []) + [hard[b:b + ch] for b in range(0, len(hard), ch)]:
                        live[u] += 1
                        pending[ex.submit(job_obl, (cn, part, dict(opts0, **o), tmp, u, seed, poly))] = ("o", ci, u)
                    release(u)
                else:
                    for what, v, info in r["res"]:
                        if v == "ok":
                            c["ok"] += 1
                            c["how"][info] = c["how"].get(info, 0) + 1
                        elif v == "undecided":
                            c["und"].append("%s: %s" % (what, info))
                        else:
                            nb = len(T["violations"])
                            confirm(ci, what, info, r["chs"])
                            if len(T["violations"]) == nb and (cn, what) not in stop_case:
                                c["und"].append("%s: counterexample not confirmed by replay" % what)
                    release(u)
            if len(T["violations"]) >= opts0.get("max_violations", 12):
                for f in pending:
                    f.cancel()
                break
    finally:
        procs = list((getattr(ex, "_processes", None) or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()
        for p in procs:
            p.join(5)
        shutil.rmtree(tmp, ignore_errors=True)
    return T


live_status = {}
