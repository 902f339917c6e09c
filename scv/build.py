"""Builds of the extractor, of /repo's core sources and of native harnesses,
cached by content under /verif/.cache (git-ignored)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import threading
import uuid

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SCV_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


def sh(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True)) + [REPO + "/src/version.h.in", REPO + "/CMakeLists.txt"]
        _hdr = sh(REPO, *[x for f in fs if os.path.exists(f) for x in (f, rd(f))])
    return _hdr


def gen_include():
    """A directory with version.h made from version.h.in."""
    d = os.path.join(CACHE, "gen-" + headers_hash())
    out = os.path.join(d, "version.h")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        cm = rd(REPO + "/CMakeLists.txt").decode()
        v = {}
        for n in ("MAJOR", "MINOR", "PATCH"):
            m = re.search(r"SCRAM_VERSION_%s\s+\"?(\d+)" % n, cm)
            v["SCRAM_VERSION_" + n] = m.group(1) if m else "0"
        v["SCRAM_VERSION"] = "%s.%s.%s" % tuple(v["SCRAM_VERSION_" + n] for n in ("MAJOR", "MINOR", "PATCH"))
        t = rd(REPO + "/src/version.h.in").decode()
        t = re.sub(r"@(\w+)@", lambda m: v.get(m.group(1), ""), t)
        tmp = out + ".tmp" + uuid.uuid4().hex
        with open(tmp, "w") as f:
            f.write(t)
        os.replace(tmp, out)
    return d


def flags():
    return ["-I" + gen_include(), "-I" + REPO + "/src", "-I" + REPO, "-isystem", "/usr/include/libxml2",
            "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", '-DPROJECT_SOURCE_DIR="%s"' % REPO, "-w",
            "-include", "boost/current_function.hpp",
            "-DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION", "-std=c++17"]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


_mu, _locks = threading.Lock(), {}


def cached(path, make):
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with _mu:
            lk = _locks.setdefault(path, threading.Lock())
        with lk:
            if not os.path.exists(path):
                tmp = "%s.tmp%s" % (path, uuid.uuid4().hex)
                make(tmp)
                os.replace(tmp, path)
    return path


def extractor():
    src = os.path.join(HERE, "extract.cc")

    def mk(tmp):
        r = run(["clang++", "-O0", "-std=c++17", "-fno-rtti", "-w", src, "-o", tmp, "-I/usr/lib/llvm-18/include",
                 "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
                 "-Wl,-rpath,/usr/lib/llvm-18/lib"])
        if r.returncode:
            raise BuildError("extractor: " + r.stdout[-2000:])
    return cached(os.path.join(CACHE, "extract-" + sh(rd(src))), mk)


def extract(src):
    """JSON of one TU; src relative to /repo/src, or an absolute file."""
    path = src if src.startswith("/") else os.path.join(REPO, "src", src)
    ex = extractor()

    def mk(tmp):
        r = run([ex, tmp, path, REPO + "/src:" + VERIF, "--"] + flags() +
                ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"])
        if r.returncode or not os.path.exists(tmp):
            raise BuildError("extraction of %s: %s" % (src, r.stdout[-2000:]))
    return cached(os.path.join(CACHE, "ast-%s.json" % sh(ex, path, rd(path), headers_hash())), mk)


def obj(path, opt="-O1", extra=()):
    inc = []
    if path.startswith(VERIF):
        inc = [rd(f) for f in sorted(glob.glob(VERIF + "/native/*.h"))]

    def mk(tmp):
        r = run(["clang++", opt, "-c", path, "-o", tmp] + flags() + list(extra))
        if r.returncode:
            raise BuildError("compilation of %s: %s" % (path, r.stdout[-3000:]))
    return cached(os.path.join(CACHE, "obj-%s.o" % sh(path, opt, rd(path), headers_hash(), *extra, *inc)), mk)


def core_sources(initializer=True, reporter=True):
    fs = sorted(glob.glob(REPO + "/src/*.cc") + glob.glob(REPO + "/src/*/*.cc"))
    skip = {"scram.cc"}
    if not initializer:
        skip.add("initializer.cc")
    return [f for f in fs if os.path.basename(f) not in skip]


def native(name, initializer=False):
    """The harness /verif/native/<name>.cc linked with the core."""
    srcs = core_sources(initializer) + [os.path.join(VERIF, "native", name + ".cc")]
    big = ("initializer.cc", name + ".cc", "preprocessor.cc", "reporter.cc")
    srcs.sort(key=lambda s: 0 if os.path.basename(s) in big else 1)
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: obj(s, "-O0" if s.endswith("initializer.cc") else "-O1"), srcs))

    def mk(tmp):
        r = run(["clang++", "-o", tmp] + objs + ["-lxml2", "-lboost_filesystem", "-lboost_system",
                                                 "-lboost_random", "-ldl", "-lpthread"])
        if r.returncode:
            raise BuildError("link of %s: %s" % (name, r.stdout[-3000:]))
    return cached(os.path.join(CACHE, "bin-%s-%s" % (name, sh(*objs))), mk)
