#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree. Content-hash cached in build/."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))

DEFS = ["-D_HAS_EXCEPTIONS=1", "-D__STDC_CONSTANT_MACROS=1", "-D__STDC_FORMAT_MACROS=1", "-D__STDC_LIMIT_MACROS=1",
        "-Dfptu_EXPORTS", "-DFPTU_SIM=1"]
BASE = ["-fexceptions", "-fno-common", "-ffunction-sections", "-fdata-sections", "-g1", "-DNDEBUG", "-std=gnu++20",
        "-fPIC", "-fno-gnu-unique", "-w"]
import re
try: # arithmetic flags as the library's own build has them
    MATH = re.findall(r'"(-f[a-z-]*math[a-z-]*)"', re.sub(r"#.*", "", open(REPO + "/src/CMakeLists.txt").read()))
except OSError:
    MATH = ["-ffast-math"]
LIBX = MATH + ["-fvisibility=hidden"]
WRAPS = ["malloc", "free", "calloc", "realloc", "clock_gettime", "clock_getres"]
FLAVOURS = {
    "plain": dict(cxx="g++", opt=["-O1"], lib=[], har=[], link=[], worlds=None),
    # calls in headers stay calls, as in a build made for size
    "size": dict(cxx="g++", opt=["-O1"], lib=[], har=["-O2", "-fno-inline", "-fPIE"], link=[], worlds=None),
    "asan": dict(cxx="g++", opt=["-O1"], lib=["-fsanitize=address", "-fno-omit-frame-pointer"],
                 har=["-fsanitize=address", "-DSIM_ASAN=1"], link=["-fsanitize=address"], worlds=None),
    "thr": dict(cxx="g++", opt=["-O1"], lib=["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"], har=["-DSIM_THR=1"], link=["-lpthread"],
                wraps=["memcpy", "memmove", "memset", "memcmp", "pthread_mutex_lock", "pthread_mutex_unlock",
                       "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]),
}

def sources(flavour):
    lib = sorted(glob.glob(REPO + "/src/*.cxx") + glob.glob(REPO + "/src/1Hippeus/*.cxx"))
    har = ["core.cpp", "heap.cpp", "machine.cpp", "fields.cpp", "model.cpp", "allot.cpp", "version.cxx", "clockseam.cpp"]
    # worlds of each flavour: first lines of world files carry "// flavours: a b"
    for w in sorted(glob.glob(HERE + "/sim/w_*.cpp")):
        head = open(w).readline()
        if "flavours:" in head and flavour in head.split("flavours:")[1].split():
            har.append(os.path.basename(w))
    if flavour == "thr":
        har.append("tsanrt.cpp")
    return lib, [HERE + "/sim/" + h for h in har if os.path.exists(HERE + "/sim/" + h)]

def tree_hash(flavour):
    h = hashlib.sha256()
    files = []
    for root in (REPO + "/fast_positive", REPO + "/src", HERE + "/sim"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    files.append(os.path.join(HERE, "build.py"))
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        h.update(open(f, "rb").read())
    h.update(flavour.encode())
    return h.hexdigest()[:24]

def build(flavour, log=None):
    fl = FLAVOURS[flavour]
    d = os.path.join(OUT, flavour)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(d, "sim")
        stamp = os.path.join(d, "stamp")
        th = tree_hash(flavour)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == th:
            return exe
        lib, har = sources(flavour)
        inc = ["-I" + REPO, "-I" + HERE + "/sim/config", "-I" + HERE + "/sim"]
        jobs = []
        hsrc = hashlib.sha256()
        for s in lib + har:
            islib = s in lib
            o = os.path.join(d, ("l_" if islib else "h_") + os.path.relpath(s, REPO if islib else HERE).replace("/", "_") + ".o")
            cmd = [fl["cxx"]] + DEFS + inc + BASE + fl["opt"]
            if islib:
                cmd += LIBX + fl["lib"]
                b = os.path.basename(s)
                if b == "scan_AVX.cxx": cmd += ["-mavx"]
                if b == "scan_AVX2.cxx": cmd += ["-mavx2"]
            else:
                cmd += fl["har"]
                # inline code of the library compiled into worlds is instrumented as well
                if flavour == "thr" and os.path.basename(s) not in ("core.cpp", "heap.cpp", "machine.cpp", "clockseam.cpp", "tsanrt.cpp"):
                    cmd += fl["lib"]
            jobs.append((s, o, cmd + ["-c", s, "-o", o]))
        # heavy files first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (1 << 20) * ("rw.cxx" in j[0] or "autogrowth" in j[0] or "/w_" in j[0]))
        def run(j):
            s, o, cmd = j
            # per-object cache by preprocessed text
            pp = subprocess.run([c for c in cmd if c != "-c"][:-2] + ["-E"], capture_output=True)
            if pp.returncode:
                return s, pp
            k = hashlib.sha256(pp.stdout + " ".join(cmd).encode()).hexdigest()
            kf = o + ".key"
            if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == k:
                return s, None
            r = subprocess.run(cmd, capture_output=True)
            if r.returncode == 0:
                open(kf, "w").write(k)
            return s, r
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            for s, r in ex.map(run, jobs):
                if r is not None and r.returncode:
                    sys.stderr.write(r.stderr.decode(errors="replace"))
                    raise SystemExit("build of %s failed (flavour %s)" % (s, flavour))
        export = []
        if flavour == "plain":
            # the library as a module of its own, to be booted again and again on simulated machines
            export = ["-Wl,--export-dynamic-symbol=" + x for x in ["__wrap_" + w for w in WRAPS] + ["fptu_sim_*", "_Zn*", "_Zd*"]]
            so = os.path.join(d, "libfptu_sim.so")
            r = subprocess.run([fl["cxx"], "-shared", "-o", so + ".tmp", "-Wl,-z,lazy"] + [o for s, o, _ in jobs if s in lib or s.endswith("sim/version.cxx")] +
                               ["-Wl,--wrap=" + w for w in WRAPS], capture_output=True)
            if r.returncode:
                sys.stderr.write(r.stderr.decode(errors="replace"))
                raise SystemExit("link of the module failed")
            os.rename(so + ".tmp", so)
        r = subprocess.run([fl["cxx"], "-o", exe + ".tmp"] + [o for _, o, _ in jobs] +
                           ["-Wl,--wrap=" + w for w in WRAPS + fl.get("wraps", [])] + ["-Wl,--gc-sections"] + export + fl["link"] + ["-ldl"], capture_output=True)
        if r.returncode:
            sys.stderr.write(r.stderr.decode(errors="replace"))
            raise SystemExit("link failed (flavour %s)" % flavour)
        os.rename(exe + ".tmp", exe)
        open(stamp, "w").write(th)
        return exe

if __name__ == "__main__":
    import time
    for f in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(build(f), "%.1fs" % (time.time() - t))
