#!/usr/bin/env python3
"""mutate.py PID N SEED WORKERS FILE[:lo-hi] ...   random small changes of the given files in scratch copies; prints those the check of PID does not notice."""
import os, random, re, shutil, subprocess, sys, threading, queue
pid, n, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
extra = os.environ.get("MUT_ARGS", "").split()
RULES = [(r"(?<![<>=!+\-*/&|-])<(?![<=])(?= *[\w(])", ["<="]), (r"(?<![<>-])>(?![>=])(?= *[\w(])", [">="]), (r"<=", ["<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
         (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0\.5\b", ["0.25"]), (r"(?<![\w.\"])([0-9])(?![\w.\"])", ["+1", "-1"]), (r"(?<![\w.])([0-9]+\.[0-9]+)(?![\w])", ["*2"]),
         (r"\+\+", ["--"]), (r"^\s*[\w\->.\[\]()]+\s*[-+*/]?=\s.*;\s*$", ["DEL"]), (r"^\s*[\w\->.:]+\(.*\);\s*$", ["DEL"]), (r"^\s*continue;\s*$", ["DEL"]), (r"^\s*break;\s*$", ["DEL"]), (r"if \((?!constexpr)", ["if (!("]),
         (r"_X_|_XX\b", ["SWAPY"]), (r"_y\b", ["_x"]), (r"_z\b", ["_y"])]
muts = []
for spec in sys.argv[5:]:
    f, _, rng = spec.partition(":")
    lines = open("/repo/" + f).read().split("\n")
    lo, hi = (int(x) for x in rng.split("-")) if rng else (1, len(lines))
    blk = False
    for i in range(lo - 1, min(hi, len(lines))):
        l = lines[i]
        if "/*" in l: blk = True
        if "*/" in l: blk = False; continue
        if blk or l.strip().startswith(("//", "#", "*", "template", "NIMBLE_", "std::cout", "std::cerr", "throw", "printf")) or "for (" in l and " : " in l: continue
        code = l.split("//")[0]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                for r in reps:
                    t = m.group(0)
                    if r == "DEL": new = ";"
                    elif r == "SWAPY": new = l.replace("X", "Y")
                    elif r == "if (!(":
                        # balance
                        d = 0; e = None
                        for k in range(m.start() + 3, len(code)):
                            if code[k] == "(": d += 1
                            if code[k] == ")":
                                d -= 1
                                if d == 0: e = k; break
                        if e is None: continue
                        new = code[:m.start()] + "if (!" + code[m.start() + 3:e + 1] + ")" + code[e + 1:]
                    elif r in ("+1", "-1"):
                        v = int(t) + int(r)
                        if v < 0: continue
                        new = code[:m.start()] + str(v) + code[m.end():]
                    elif r == "*2": new = code[:m.start()] + str(float(t) * 2 if float(t) else 1.0) + code[m.end():]
                    else: new = code[:m.start()] + r + code[m.end():]
                    if new != l: muts.append((f, i, l, new))
random.seed(seed)
random.shuffle(muts)
print(len(muts), "possible changes", flush=True)
q = queue.Queue()
for m in muts[:n]: q.put(m)
base = "/tmp/mut-%s-%d" % (pid, os.getpid())
res = {"killed": 0, "survived": 0, "nobuild": 0, "other": 0}
lock = threading.Lock()
def work(w):
    d = "%s/%d" % (base, w)
    os.makedirs(d)
    subprocess.run("mkdir -p %s/repo && cp -a /repo/src /repo/tpl %s/repo/ && mkdir %s/verif && cp -a /verif/engine /verif/harness /verif/*.py /verif/known_findings.txt /verif/build %s/verif/" % (d, d, d, d), shell=True)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try: f, i, old, new = q.get_nowait()
        except queue.Empty: return
        p = d + "/repo/" + f
        L = open("/repo/" + f).read().split("\n")
        L[i] = new
        open(p, "w").write("\n".join(L))
        try:
            r = subprocess.run(["python3", "check.py", pid] + extra, cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=900)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired: rc, out = 99, "timeout"
        open(p, "w").write(open("/repo/" + f).read())
        k = "killed" if rc == 1 and "VIOLATION" in out else "survived" if rc == 0 else "nobuild" if "error:" in out else "other"
        with lock:
            res[k] += 1
            if k in ("survived", "other"):
                print("%s %s:%d\n  - %s\n  + %s" % (k, f, i + 1, old.strip(), new.strip()), flush=True)
                if k == "other": print("    ", rc, out[-200:].replace("\n", " / "), flush=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base)
print(res)
