"""Builds everything a check needs from the current sources (all outputs under
/verif/build, keyed by content hash): the engine, the run-time model, the
repository as LLVM IR, the repository natively with sanitizers, harnesses."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(ROOT, "build"))
CXX = "/usr/bin/clang++"
JOBS = os.cpu_count() or 4
IRF = "-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic -fno-pie -gline-tables-only -emit-llvm -c".split()
WARN = ["-w"]

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

import threading
SLOTS = threading.Semaphore(JOBS)
def limited(cmd):
    with SLOTS:
        return run(cmd)

def par(cmds):
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(limited, cmds))

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]

class once:
    """directory built at most once per key; concurrent builders wait"""
    def __init__(self, name):
        self.dir = os.path.join(BUILD, name)
    def make(self, fn):
        os.makedirs(BUILD, exist_ok=True)
        ok = os.path.join(self.dir, ".ok")
        if os.path.exists(ok):
            os.utime(ok)
            return self.dir
        with open(os.path.join(BUILD, ".lock-" + os.path.basename(self.dir)), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(ok):
                tmp = self.dir + ".tmp%d" % os.getpid()
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
                try:
                    fn(tmp)
                    open(os.path.join(tmp, ".ok"), "w").close()
                    shutil.rmtree(self.dir, ignore_errors=True)
                    os.rename(tmp, self.dir)
                finally:
                    shutil.rmtree(tmp, ignore_errors=True)
        return self.dir

def prune(keep=40):
    ds = []
    for d in glob.glob(os.path.join(BUILD, "*", ".ok")):
        ds.append((os.path.getmtime(d), os.path.dirname(d)))
    ds.sort(reverse=True)
    for t, d in ds[keep:]:
        if time.time() - t > 1800 and os.path.realpath(d).startswith(os.path.realpath(BUILD) + "/"):
            shutil.rmtree(d, ignore_errors=True)

def engine():
    E = os.path.join(ROOT, "engine")
    srcs = glob.glob(E + "/*.cpp") + glob.glob(E + "/*.h")
    def mk(out):
        cf = run(["llvm-config-18", "--cxxflags"]).split()
        lf = run(["llvm-config-18", "--ldflags"]).split()
        cmds = []
        for n in ("compile", "exec"):
            cmds.append([CXX] + cf + ["-fexceptions", "-O2", "-std=c++17", "-w", "-c", "%s/%s.cpp" % (E, n), "-o", "%s/%s.o" % (out, n)])
        for n in ("expr", "solver"):
            cmds.append(["/usr/bin/g++", "-O2", "-std=c++17", "-w", "-c", "%s/%s.cpp" % (E, n), "-o", "%s/%s.o" % (out, n)])
        par(cmds)
        run([CXX] + ["%s/%s.o" % (out, n) for n in ("compile", "exec", "expr", "solver")] + lf + ["-lLLVM-18", "-lz3", "-lpthread", "-o", out + "/sx"])
    return os.path.join(once("engine-" + digest(srcs)).make(mk), "sx")

def shim():
    S = os.path.join(ROOT, "shim")
    srcs = glob.glob(S + "/*.cpp") + glob.glob(S + "/*.h")
    def mk(out):
        names = [os.path.basename(f)[:-4] for f in glob.glob(S + "/*.cpp")]
        par([[CXX, "-std=c++17"] + IRF + WARN + ["%s/%s.cpp" % (S, n), "-o", "%s/%s.bc" % (out, n)] for n in names])
        run(["llvm-link"] + ["%s/%s.bc" % (out, n) for n in sorted(names)] + ["-o", out + "/shim.bc"])
    return os.path.join(once("shim-" + digest(srcs, " ".join(IRF))).make(mk), "shim.bc")

def repo_files():
    out = []
    for top in ("include", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = [x for x in ds if x not in ("tests", "examples")]
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)

def repo_sources():
    return [f for f in repo_files() if f.endswith(".cpp")]

class Variant:
    """one build configuration of the repository"""
    def __init__(self, fake=0, trace=0, nonzero=1, debug=1, compat=0):
        self.fake, self.trace, self.nonzero, self.debug, self.compat = fake, trace, nonzero, debug, compat
    @property
    def name(self):
        return "f%dt%dn%d" % (self.fake, self.trace, self.nonzero) + ("" if self.debug else "d0") + ("c1" if self.compat else "")
    def pub(self):
        return (["-DJNI_DEBUG"] if self.debug else []) + (["-DJNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT"] if self.compat else []) + ["-DEnableJNIVMGC", "-I%s/include" % REPO]
    def client(self):
        """as code using the library sees it: whether the library traces does not show"""
        return Variant(self.fake, 0, self.nonzero, self.debug, self.compat)
    def sources(self):
        return [f for f in repo_sources() if self.debug or "/codegen/" not in f]
    def priv(self):
        d = ["-DJNIVM_FAKE_JNI_SYNTAX=%d" % self.fake, "-I%s/src" % REPO]
        if self.nonzero: d.append("-DJNI_RETURN_NON_ZERO")
        if self.trace: d.append("-DJNI_TRACE")
        return d

def objname(f):
    return os.path.relpath(f, REPO).replace("/", "_")

def repo_key(v):
    return digest(repo_files(), v.name + REPO)

def lib_ir(v):
    regex = ["-isystem", os.path.join(ROOT, "shim", "include")]
    key = digest(repo_files() + glob.glob(os.path.join(ROOT, "shim", "include", "*")), v.name + REPO + " ".join(IRF))
    def mk(out):
        par([[CXX, "-std=c++14"] + IRF + WARN + regex + v.pub() + v.priv() + [f, "-o", "%s/%s.bc" % (out, objname(f))] for f in v.sources()])
        run(["llvm-link"] + ["%s/%s.bc" % (out, objname(f)) for f in v.sources()] + ["-o", out + "/lib.bc"])
    return os.path.join(once("ir-" + key).make(mk), "lib.bc")

SAN = {"asan": "-fsanitize=address,unreachable,return -fno-sanitize-recover=all".split(),
       "tsan": "-fsanitize=thread".split()}
NATF = "-O1 -gline-tables-only -fno-omit-frame-pointer".split()

def lib_native(v, san):
    def mk(out):
        par([[CXX, "-std=c++14"] + NATF + SAN[san] + WARN + v.pub() + v.priv() + ["-c", f, "-o", "%s/%s.o" % (out, objname(f))] for f in v.sources()]
            + [[CXX, "-std=c++17", "-O1", "-g", "-w", "-c", os.path.join(ROOT, "replay/sxrt.cpp"), "-o", out + "/sxrt.o"]])
        run(["ar", "rcs", out + "/lib.a"] + ["%s/%s.o" % (out, objname(f)) for f in v.sources()])
    key = digest(repo_files() + [os.path.join(ROOT, "replay/sxrt.cpp"), os.path.join(ROOT, "harness/sx.h")], v.name + REPO + san + " ".join(NATF + SAN[san]))
    return once("nat-" + key).make(mk)

def hfiles():
    return glob.glob(os.path.join(ROOT, "harness", "*"))

IRH = "-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic -fno-pie -gline-tables-only -emit-llvm -c".split()
def hkey(src, v, what, defs):
    f = os.path.join(ROOT, "harness", src)
    hd = [x for x in hfiles() if x.endswith(".h")]
    inc = [x for x in repo_files() if x.endswith((".h", ".hpp"))]
    return digest([f] + hd + inc, src + v.name + REPO + what + " ".join(defs))

def harness_ir_obj(src, v, defs=()):
    v = v.client()
    f = os.path.join(ROOT, "harness", src)
    def mk(out):
        run([CXX, "-std=c++17"] + IRH + WARN + ["-Werror=return-type"] + v.pub() + v.priv() + list(defs) + [f, "-o", out + "/h.bc"])
    return os.path.join(once("hiro-" + hkey(src, v, " ".join(IRH), defs)).make(mk), "h.bc")

def harness_ir(src, v, defs=()):
    o, lib, sh = harness_ir_obj(src, v, defs), lib_ir(v), shim()
    def mk(out):
        run(["llvm-link", o, lib, sh, "-o", out + "/all.bc"])
    return os.path.join(once("hir-" + digest([o, lib, sh])).make(mk), "all.bc")

WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_trylock", "-Wl,--wrap=pthread_mutex_unlock"]
WRAP += ["-Wl,--wrap=__tsan_atomic%d_%s" % (w, o) for w in (8, 16, 32, 64) for o in ("exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "compare_exchange_val")]
NATH = "-O0 -gline-tables-only -fno-omit-frame-pointer".split()
def harness_native_obj(src, v, san, defs=()):
    v = v.client()
    f = os.path.join(ROOT, "harness", src)
    def mk(out):
        run([CXX, "-std=c++17"] + NATH + SAN[san] + WARN + ["-Dmain=sx_harness_main"] + v.pub() + v.priv() + list(defs) + ["-c", f, "-o", out + "/h.o"])
    return os.path.join(once("hnato-" + hkey(src, v, san + " ".join(NATH), defs)).make(mk), "h.o")

def harness_native(src, v, san, defs=()):
    o, lib = harness_native_obj(src, v, san, defs), lib_native(v, san)
    def mk(out):
        run([CXX] + SAN[san] + [o, lib + "/lib.a", lib + "/sxrt.o"] + WRAP + ["-ldl", "-lpthread", "-rdynamic", "-o", out + "/h"])
    return os.path.join(once("hnat-" + digest([o, lib + "/lib.a", lib + "/sxrt.o"])).make(mk), "h")

def prepare(hs):
    """everything the listed (source, variant, defines) need, built in parallel"""
    jobs = [engine, shim]
    for src, v, defs, san in hs:
        jobs += [lambda s=src, v=v, d=defs: harness_ir_obj(s, v, d), lambda s=src, v=v, d=defs, n=san: harness_native_obj(s, v, n, d),
                 lambda v=v: lib_ir(v), lambda v=v, n=san: lib_native(v, n)]
    with ThreadPoolExecutor(len(jobs)) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()

if __name__ == "__main__":
    t = time.time()
    engine(); shim()
    print("engine and run-time model built in %.1f s" % (time.time() - t))
