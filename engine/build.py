"""Builds the engine, and instrumented / plain objects of /repo's current sources (content-hash cache)."""
import hashlib, os, re, subprocess, sys, threading, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
CACHE = os.path.join(VERIF, "build")
DEFS = ["-DNIMBLE_HAVE_EXODUS", "-DNIMBLE_HAVE_KOKKOS", "-DNIMBLE_HAVE_MPI", "-DNIMBLE_HAVE_TRILINOS", "-DNDEBUG", "-DOMPI_SKIP_MPICXX"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/src/contact", "-I" + REPO + "/src/integrators", "-I" + REPO + "/tpl",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "-isystem", "/usr/include/trilinos", "-I" + ENG]
BASE = ["-std=c++14", "-w", "-fno-access-control", "-O1", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize"]


TRAP_OK = re.compile(r"Tpetra|Belos|MueLu|Xpetra|Teuchos|Tempus|MPI_|ompi_|PMPI")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def h(*parts):
    s = hashlib.sha256()
    for p in parts:
        s.update(p if isinstance(p, bytes) else str(p).encode())
        s.update(b"\0")
    return s.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_locks, _ll = {}, threading.Lock()


def lock(k):
    with _ll:
        return _locks.setdefault(k, threading.Lock())


def cached(key, suffix, make):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + suffix)
    with lock(out):
        if os.path.exists(out):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        make(tmp)
        os.rename(tmp, out)
    return out


def engine_part(name):
    if name == "pass":
        src = ENG + "/sympass.cpp"
        flags = subprocess.check_output(["llvm-config", "--cxxflags"], text=True).split()
        return cached(h("pass", rd(src)), ".so",
                      lambda o: sh(["clang++", "-shared", "-fPIC", "-O1", "-w"] + flags + ["-fno-rtti", src, "-o", o]))
    if name == "polyeng":
        src = ENG + "/polyeng.cpp"
        return cached(h("polyeng", rd(src)), ".exe",
                      lambda o: sh(["g++", "-O2", "-std=c++17", "-w", src, "-lgmpxx", "-lgmp", "-o", o]))
    src = ENG + "/" + name + ".cpp"
    return cached(h(name, rd(src), rd(ENG + "/symapi.h")), ".o",
                  lambda o: sh(["clang++", "-O1", "-g0", "-std=c++17", "-w", "-c", src, "-o", o]))


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        s = hashlib.sha256()
        for root in (REPO + "/src", REPO + "/tpl", VERIF + "/harness"):
            for d, dn, fs in sorted(os.walk(root)):
                dn.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".hxx", ".inc")):
                        p = os.path.join(d, f)
                        s.update(p.encode())
                        s.update(rd(p))
        _hdr = s.hexdigest()
    return _hdr


def obj(src, mode, extra=()):
    """mode: sym (instrumented) or plain; src absolute."""
    flags = BASE + DEFS + INC + list(extra)
    if mode == "sym":
        plug = engine_part("pass")
        flags = flags + ["-DSE_SYM", "-fpass-plugin=" + plug]
    key = h("obj", mode, headers_hash(), rd(src), rd(ENG + "/symapi.h"), " ".join(flags), src)
    return cached(key, ".o", lambda o: sh(["clang++"] + flags + ["-c", src, "-o", o]))


def lib_sources():
    out = []
    for pat in ("src/*.cc", "src/contact/*.cc", "src/integrators/*.cc"):
        out += sorted(glob.glob(REPO + "/" + pat))
    skip = ("nimble_main.cc", "nimble_tpetra_utils.cc")
    return [s for s in out if os.path.basename(s) not in skip]


def link(harness, sources, mode, extra_libs=(), stubs=(), extra_flags=(), summaries=()):
    """summaries: {source: forced include} used in the symbolic build; dropped when the code no longer offers the summarised function."""
    if summaries and mode == "sym":
        try:
            return link_(harness, sources, mode, extra_libs, stubs, extra_flags, dict(summaries))
        except BuildError as e:
            print("# summaries do not fit the current code, continuing without: " + str(e)[-300:].replace("\n", " "))
    return link_(harness, sources, mode, extra_libs, stubs, extra_flags, {})


def link_(harness, sources, mode, extra_libs, stubs, extra_flags, summaries):
    """harness: file name in /verif/harness; sources: repo-relative list, or None for the whole library."""
    eng_threads = ThreadPoolExecutor(8)
    rt = eng_threads.submit(engine_part, "symrt" if mode == "sym" else "replayrt")
    if mode == "sym":
        engine_part("pass")
    hs = [VERIF + "/harness/" + x for x in harness.split()]

    def attempt(srcs):
        futs = [eng_threads.submit(obj, s, mode, list(extra_flags) + (["-include", VERIF + "/harness/" + summaries[os.path.relpath(s, REPO)]]
                                                                      if os.path.relpath(s, REPO) in summaries else []))
                for s in hs + srcs]
        st = [eng_threads.submit(obj, VERIF + "/harness/" + s, "plain", extra_flags) for s in stubs]
        os_ = [f.result() for f in futs] + [f.result() for f in st] + [rt.result()]
        key = h("exe", mode, *[os.path.basename(o) for o in os_], " ".join(extra_libs))
        # Undefined symbols of code paths the harness never executes are allowed to stay unresolved only if asked
        stub_ok = "STUB" in extra_libs
        cmd = lambda o, more: ["clang++", "-o", o] + os_ + more + [l for l in extra_libs if l != "STUB"] + ["-lm", "-lpthread", "-ldl"]

        def make(o):
            if not stub_ok:
                return sh(cmd(o, []))
            # what the harness never calls (Tpetra) is stubbed by a trap
            r = subprocess.run(cmd(o, ["-Wl,--no-demangle"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return
            names = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))
            if not names or any(not TRAP_OK.search(n) for n in names):
                raise BuildError("undefined reference: " + " ".join(n for n in names if not TRAP_OK.search(n))[:3000] + "\n" + (r.stdout[-3000:] if not names else ""))
            asm = o + ".s"
            with open(asm, "w") as f:
                for n in names:
                    f.write('.globl "%s"\n"%s":\n' % (n, n))
                f.write("ud2\n.fill 4096,1,0\n.section .note.GNU-stack,\"\",@progbits\n")
            try:
                sh(cmd(o, [asm]))
            finally:
                os.unlink(asm)

        return cached(key, ".exe", make)

    try:
        uq = sorted(glob.glob(REPO + "/src/uq/*.cc")) if "-DNIMBLE_HAVE_UQ" in extra_flags else []
        srcs = lib_sources() + uq if sources is None else [REPO + "/" + s for s in sources]
        if sources is not None and not all(os.path.exists(s) for s in srcs):
            srcs = lib_sources()
        try:
            return attempt(srcs)
        except BuildError as e:
            if sources is None or "undefined reference" not in str(e):
                raise
            return attempt(lib_sources())
    finally:
        eng_threads.shutdown(wait=False)


def engine():
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(engine_part, ["pass", "polyeng", "symrt", "replayrt"]))


if __name__ == "__main__":
    engine()
