"""Builds genpybind-tool and the recorder from /repo's working tree (cached by content)."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import tempfile

from .paths import CACHE, JOBS, REPO, STUB

LLVM = "/usr/lib/llvm-18"
CXXFLAGS = ["-DLLVM_VERSION_MAJOR=18", "-isystem", LLVM + "/include", "-std=c++20",
            "-fno-exceptions", "-funwind-tables", "-O0", "-w"]
STUB_FLAGS = ["-std=c++17", "-O0", "-w", "-fno-access-control", "-fmax-errors=5"]


class BuildError(Exception):
    pass


def _digest(parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:32]


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _headers(root):
    out = []
    for base, _, names in sorted(os.walk(root)):
        for n in sorted(names):
            p = os.path.join(base, n)
            out.append(os.path.relpath(p, root))
            out.append(_read(p))
    return out


def _compile(cmd, out):
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(out), suffix=".tmp")
    os.close(fd)
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        os.unlink(tmp)
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-4000:])
    os.chmod(tmp, 0o755)
    os.replace(tmp, out)


def build_tool():
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    sources = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    headers = _headers(REPO + "/include")
    for h in glob.glob(REPO + "/src/**/*.h", recursive=True):
        headers += [h, _read(h)]
    common = _digest(headers + CXXFLAGS)

    def one(src):
        key = _digest([common, os.path.relpath(src, REPO), _read(src)])
        obj = os.path.join(CACHE, "obj", key + ".o")
        if not os.path.exists(obj):
            _compile(["g++", *CXXFLAGS, "-I" + REPO + "/include", "-I" + REPO + "/src", "-c", src], obj)
        return obj

    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, sources))
    tool = os.path.join(CACHE, "obj", "tool-" + _digest(objs))
    if not os.path.exists(tool):
        _compile(["g++", *objs, "-Wl,-rpath," + LLVM + "/lib", LLVM + "/lib/libclang-cpp.so.18.1",
                  LLVM + "/lib/libLLVM.so.1"], tool)
    _prune()
    return tool


def build_stub():
    """Returns (include flags, recorder object, precompiled header)."""
    os.makedirs(os.path.join(CACHE, "stub"), exist_ok=True)
    key = _digest(_headers(STUB) + _headers(REPO + "/public") + STUB_FLAGS)
    obj = os.path.join(CACHE, "stub", key + ".o")
    inc = ["-I" + STUB, "-I" + STUB + "/lib", "-I" + REPO + "/public"]
    if not os.path.exists(obj):
        _compile(["g++", *STUB_FLAGS, *inc, "-c", STUB + "/recorder.cpp"], obj)
    pchdir = os.path.join(CACHE, "stub", "pch-" + key)
    pch = os.path.join(pchdir, "pch.h")
    if not os.path.exists(pch + ".gch"):
        os.makedirs(pchdir, exist_ok=True)
        with open(pch, "w") as f:
            f.write("#include <genpybind/binding-helpers.h>\n#include <pybind11/pybind11.h>\n"
                    "#include <string>\n#include <memory>\n#include <vector>\n#include <ostream>\n")
        _compile(["g++", *STUB_FLAGS, *inc, "-x", "c++-header", pch], pch + ".gch")
    return inc, obj, pch


def _prune(limit=400):
    """Keep the cache small: remove the oldest objects."""
    d = os.path.join(CACHE, "obj")
    files = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    for _, f in files[:-limit]:
        try:
            os.unlink(os.path.join(d, f))
        except OSError:
            pass


if __name__ == "__main__":
    print(build_tool())
    print(build_stub())
