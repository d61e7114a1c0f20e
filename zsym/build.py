"""Builds /repo's current working tree for checking: LLVM bitcode for the
symbolic executor, native executables for replay.  Never writes in /repo."""
import collections
import fcntl
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile
import threading
import time

REPO = os.environ.get("ZCM_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONFIGS = {
    "debug": [],
    "release": ["-DNDEBUG", "-DZCM_RELEASE_BUILD"],
    "noswizzle": ["-DZCM_DISABLE_SWIZZLE"],
    "release_noswizzle": ["-DNDEBUG", "-DZCM_RELEASE_BUILD", "-DZCM_DISABLE_SWIZZLE"],
}
STD = ["-std=c++14", "-include", "stddef.h"]
IRFLAGS = STD + ["-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-w", "-emit-llvm", "-c"]


class BuildError(Exception):
    pass


def _run(cmd):
    for k in range(3):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not p.returncode:
            return
        # a compiler that was killed, or found no memory, is started again
        if p.returncode > 0 and not any(x in p.stdout for x in ("Killed", "signal", "memory", "No space", "internal compiler error")):
            break
        time.sleep(2 + 10 * k)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


class Build:
    """one scratch directory per check run; an optional content-keyed cache"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="zcmv.")
        self.key = self._treekey()
        c = os.environ.get("ZCM_VERIF_CACHE")
        self.cache = c if c and os.path.isdir(c) else None
        self.locks = collections.defaultdict(threading.Lock)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _treekey(self):
        h = hashlib.sha256()
        for f in sorted(glob.glob(os.path.join(REPO, "include", "**", "*"), recursive=True) +
                        glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read())
        return h.hexdigest()[:24]

    def _cached(self, name, make):
        with self.locks[name]:
            return self._cached1(name, make)

    def _cached1(self, name, make):
        out = os.path.join(self.dir, name)
        if os.path.exists(out):
            return out
        cp = self.cache and os.path.join(self.cache, self.key + "." + name)
        if cp and os.path.exists(cp):
            shutil.copyfile(cp, out)
            return out
        make(out)
        if cp:
            shutil.copyfile(out, cp + ".tmp%d" % os.getpid())
            os.replace(cp + ".tmp%d" % os.getpid(), cp)
        return out

    def libbc(self, config):
        def make(out):
            objs = []

            def one(ix):
                i, s = ix
                o = os.path.join(self.dir, "%s.%d.bc" % (config, i))
                _run(["clang++-18"] + IRFLAGS + CONFIGS[config] + ["-I", REPO + "/include", s, "-o", o])
                return o
            with cf.ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(one, enumerate(sources())))
            _run(["llvm-link-18"] + objs + ["-o", out])
        return self._cached("lib.%s.bc" % config, make)

    def syntax(self, config, harness):
        """None, or the compiler's complaints about the harness"""
        p = subprocess.run(["clang++-18", "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-w"] + STD + CONFIGS[config] +
                           ["-I", REPO + "/include", "-I", HERE + "/harness", harness],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.stdout if p.returncode else None

    def module(self, config, harness):
        """bitcode of the library linked with the harness source file"""
        lib = self.libbc(config)
        tag = os.path.basename(harness) + "." + config
        hb = os.path.join(self.dir, "h.%s.bc" % tag)
        out = os.path.join(self.dir, "all.%s.bc" % tag)
        _run(["clang++-18"] + IRFLAGS + CONFIGS[config] + ["-I", REPO + "/include", "-I", HERE + "/harness", harness, "-o", hb])
        _run(["llvm-link-18", lib, hb, "-o", out])
        return out

    NATIVE = {
        "debug": ["g++", "-O0", "-g0"],
        "release": ["g++", "-O2", "-g0", "-ffp-contract=off"],
        "noswizzle": ["g++", "-O0", "-g0"],
        "release_noswizzle": ["g++", "-O2", "-g0", "-ffp-contract=off"],
        "asan": ["clang++-18", "-O0", "-g1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all"],
        "threads": ["clang++-18", "-O0", "-g1", "-fsanitize=thread", "-pthread", "-DZH_THREADS"],
        "zero": ["clang++-18", "-O0", "-g0", "-ftrivial-auto-var-init=zero", "-ffp-contract=off"],
        "pattern": ["clang++-18", "-O0", "-g0", "-ftrivial-auto-var-init=pattern", "-ffp-contract=off"],
    }

    def native(self, config, harness, flavour=None):
        fl = flavour or config
        cc = self.NATIVE[fl]
        base = cc + STD + ["-w"] + CONFIGS[config] + ["-I", REPO + "/include", "-I", HERE + "/harness"]
        tag = "%s.%s" % (config, fl)

        def mklib(out):
            def one(ix):
                i, s = ix
                o = os.path.join(self.dir, "%s.%d.o" % (tag, i))
                _run(base + ["-c", s, "-o", o])
                return o
            with cf.ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(one, enumerate(sources())))
            if os.path.exists(out):
                os.unlink(out)
            _run(["ar", "rcs", out] + objs)
        exe = os.path.join(self.dir, "%s.%s.exe" % (os.path.basename(harness), tag))
        if flavour is None:
            lib = self._cached("lib.%s.a" % tag, mklib)
            return self._link(base, cc, harness, lib, exe)
        # on demand, from worker processes
        with open(os.path.join(self.dir, tag + ".lock"), "w") as lf:
            fcntl.flock(lf, fcntl.LOCK_EX)
            lib = self._cached("lib.%s.a" % tag, mklib)
            return self._link(base, cc, harness, lib, exe)

    def _link(self, base, cc, harness, lib, exe):
        if not os.path.exists(exe):
            _run(base + [harness, lib, "-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-no-pie"] +
                 (["-lm"] if "clang" not in cc[0] else ["-lm"]))
        return exe
