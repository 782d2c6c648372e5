"""Build the real code of /repo (bitcode and native replay binaries) in a scratch folder."""
import os, re, shutil, subprocess, concurrent.futures as cf, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GINV_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
IRFLAGS = ("-x c++ -O1 -DNDEBUG -fno-inline -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic "
           "-Wno-everything -emit-llvm -c").split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


class Tree:
    """A copy of the library sources with the generated config headers."""

    def __init__(self, work):
        self.work = work
        self.trees = {}
        self.bc = {}

    def src(self, pool=True):
        d = os.path.join(self.work, "src" if pool else "srcnp")
        if d in self.trees:
            return d
        for m in ("util", "ginv"):
            os.makedirs(os.path.join(d, m), exist_ok=True)
            for f in os.listdir(os.path.join(REPO, m)):
                p = os.path.join(REPO, m, f)
                if os.path.isfile(p) and f.endswith((".h", ".cpp", ".in", ".hpp", ".inl", ".c", ".cc")) and f != "config.h":
                    shutil.copy(p, os.path.join(d, m, f))
            cfg = os.path.join(d, m, "config.h.in")
            if os.path.exists(cfg):
                t = open(cfg).read()
                def rep(mm):
                    n = mm.group(1)
                    on = n.endswith("ALLOCATOR") and (pool or n == "GINV_UTIL_INTEGER_ALLOCATOR" and False)
                    return "#define " + n if on else "/* #undef %s */" % n
                open(os.path.join(d, m, "config.h"), "w").write(re.sub(r"^#cmakedefine +(\S+).*$", rep, t, flags=re.M))
        self.trees[d] = 1
        return d

    def sources(self):
        """Library sources: those the project's build lists, i.e. all but bpoly.cpp (which does not compile)."""
        d = self.src()
        out = []
        for m in ("util", "ginv"):
            for f in sorted(glob.glob(os.path.join(d, m, "*.cpp"))):
                if os.path.basename(f) != "bpoly.cpp":
                    out.append(os.path.relpath(f, d))
        return out

    def bitcode(self):
        """One bitcode file per library source; sources nobody needs may fail and are skipped."""
        if self.bc:
            return self.bc
        d = self.src()
        os.makedirs(os.path.join(self.work, "bc"), exist_ok=True)

        def one(f):
            o = os.path.join(self.work, "bc", f.replace("/", "_") + ".bc")
            inc = ["-I" + d, "-I" + d + "/util", "-I" + d + "/ginv"]
            run(["clang-18", "-std=c++11"] + IRFLAGS + inc + [os.path.join(d, f), "-o", o])
            return f, o
        with cf.ThreadPoolExecutor(8) as ex:
            for f, o in ex.map(one, self.sources()):
                self.bc[f] = o
        return self.bc

    def link(self, harness, defs, tag, only=None):
        d = self.src()
        bc = self.bitcode()
        h = os.path.join(self.work, tag + ".h.bc")
        inc = ["-I" + d, "-I" + d + "/util", "-I" + d + "/ginv", "-I" + HARNESS]
        run(["clang-18", "-std=c++17"] + IRFLAGS + inc + defs + [os.path.join(HARNESS, harness + ".cpp"), "-o", h])
        x = os.path.join(self.work, tag + ".bc")
        run(["llvm-link-18", h] + [bc[f] for f in bc] + ["-o", x])
        return x

    CONFIGS = {
        "release": (True, ["g++", "-O3", "-DNDEBUG"]),
        "asan": (True, ["clang++-18", "-O1", "-g", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"]),
        "asan-nopool": (False, ["clang++-18", "-O1", "-g", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"]),
        "debug": (True, ["g++", "-O0", "-g"]),
    }

    def native(self, cfg, harness, entry, defs):
        pool, cc = self.CONFIGS[cfg]
        d = self.src(pool)
        out = os.path.join(self.work, "nat_" + cfg)
        os.makedirs(out, exist_ok=True)
        inc = ["-I" + d, "-I" + d + "/util", "-I" + d + "/ginv", "-I" + HARNESS]

        def one(job):
            src, o, std, extra = job
            if not os.path.exists(o):
                run(cc + ["-w", std] + inc + extra + ["-c", src, "-o", o])
            return o
        jobs = [(os.path.join(d, f), os.path.join(out, f.replace("/", "_") + ".o"), "-std=c++11", []) for f in self.sources()]
        tag = harness + "_" + entry
        jobs.append((os.path.join(HARNESS, harness + ".cpp"), os.path.join(out, harness + ".h.o"), "-std=c++17", defs))
        jobs.append((os.path.join(HARNESS, "replay.cpp"), os.path.join(out, tag + ".r.o"), "-std=c++17", ["-DVS_ENTRY=" + entry] + defs))
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, jobs))
        exe = os.path.join(out, tag + ".exe")
        if not os.path.exists(exe):
            run(cc + objs[::-1] + ["-lgmp", "-o", exe])
        return exe


def write_assignment(path, inp):
    with open(path, "w") as f:
        for k, v in inp:
            f.write("%s\t%s\n" % (k, v))


def run_replay(exe, path, timeout=20):
    """-> (verdict, detail): verdict in ok, check, assume, crash, leak, hang"""
    env = dict(os.environ, VS_REPLAY=path, GLIBC_TUNABLES="glibc.malloc.tcache_count=0",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
    try:
        p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=os.path.dirname(exe), errors="replace", text=True)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % timeout
    out, err = p.stdout, p.stderr
    if p.returncode == 42:
        m = re.search(r"CHECK-FAILED: (.*)", out)
        return "check", m.group(1) if m else "check failed"
    if p.returncode == 43:
        return "assume", "assumption not met"
    if "AddressSanitizer" in err:
        m = re.search(r"AddressSanitizer: (\S+)", err)
        return "crash", "AddressSanitizer: " + (m.group(1) if m else "error")
    if p.returncode != 0 or "REPLAY-COMPLETED" not in err:
        return "crash", "terminated with status %d" % p.returncode
    if "(mSize != 0)" in err:
        return "leak", "pool destroyed with memory still in use"
    return "ok", ""
