#!/usr/bin/env python3
"""trybugs.py FILE WORKERS [FILTER]   FILE defines BUGS = [(PID, file, old, new[, nth])]; runs the check of PID on each change in a scratch copy and prints the verdict."""
import os, re, shutil, subprocess, sys, threading, queue
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = int(sys.argv[2]); flt = sys.argv[3] if len(sys.argv) > 3 else "."
SRC = os.environ.get("BUG_REPO", "/repo")
base = "/tmp/try-%d" % os.getpid()
q = queue.Queue()
for k, b in enumerate(ns["BUGS"]):
    if re.search(flt, "%s#%d" % (b[0], k)): q.put((k, b))
def work(w):
    d = "%s/%d" % (base, w)
    os.makedirs(d)
    subprocess.run("mkdir -p %s/repo && cp -a %s/src %s/tpl %s/repo/ && mkdir %s/verif && cp -a /verif/engine /verif/harness /verif/*.py /verif/known_findings.txt /verif/build %s/verif/" % (d, SRC, SRC, d, d, d), shell=True)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try: k, b = q.get_nowait()
        except queue.Empty: return
        pid, f, old, new = b[:4]; nth = b[4] if len(b) > 4 else None
        f = "src/" + f
        s = open(SRC + "/" + f).read()
        c = s.count(old)
        if c == 0 or (c > 1 and nth is None):
            print("%s#%d BAD count=%d %s" % (pid, k, c, old), flush=True); continue
        if nth is None: nth = 0
        pos = -1
        for _ in range(nth + 1): pos = s.find(old, pos + 1)
        open(d + "/repo/" + f, "w").write(s[:pos] + new + s[pos + len(old):])
        try:
            r = subprocess.run(["python3", "check.py", pid], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=1200)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired: rc, out = 99, "timeout"
        shutil.copy(SRC + "/" + f, d + "/repo/" + f)
        v = "caught" if rc == 1 and "VIOLATION" in out else "SURVIVED" if rc == 0 else "OTHER rc=%s %s" % (rc, out[-300:])
        print("%s#%d %s: %s" % (pid, k, v, new.strip()[:90].replace("\n", " / ")), flush=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base)
