"""Runs the tool in scenarios of spec/Tool.tla and observes what it leaves behind."""
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess

from . import tlc
from .paths import JOBS, REPO, STUB

PRE = "#pragma once\n#include <genpybind/genpybind.h>\n"
GOOD = """namespace n GENPYBIND(visible) {
struct A { int f(int x) { return x; } int g() { return 1; } };
struct B : A { void h() {} enum class E { one, two }; };
enum F { three, four };
inline int free(A a, int b = 3) { return b; }
namespace m GENPYBIND(module) { struct C { struct D { void k() {} }; }; }
}
"""
HEADERS = {
    "none": [PRE + GOOD, PRE, "", PRE + GOOD.replace("namespace n ", "namespace other "),
             PRE + GOOD + 'GENPYBIND_MANUAL({ parent.attr("x") = 1; })\n'],
    "warning": [PRE + GOOD + "struct H { struct GENPYBIND(visible) I {}; };\n",
                PRE + GOOD + "struct J {}; struct GENPYBIND(hide_base(Nope)) K : J {};\n"],
    "compile": [PRE + GOOD + "int x = ;\n", PRE + GOOD + "#include <no/such/file.h>\n" + GOOD, PRE + GOOD + "#error no\n",
                "#include <no/such/file.h>\n" + PRE + GOOD, PRE + GOOD + 'static_assert(1 == 2, "no");\n',
                PRE + GOOD + "#pragma genpybind bogus\n", PRE + GOOD + "#pragma genpybind include\n",
                PRE + GOOD + '#pragma genpybind include "no/such/file.h"\n', PRE + GOOD + "}\n", PRE + GOOD + "struct X {\n",
                PRE + GOOD + "template <class T> struct Q { typename T::type x; }; using QI GENPYBIND(visible) = Q<int>;\n",
                PRE + GOOD + "template <class T> void f(T, int x = T::none) {} inline void g() { f(1); }\n",
                PRE + "struct GENPYBIND(visible) A { undeclared f(); void g(); };\n",
                PRE + "namespace n GENPYBIND(visible) { struct A { virtual void f() = 0; }; A a; }\n"],
    "early": [PRE + GOOD + "int GENPYBIND(bogus) f();\n", PRE + GOOD + "int GENPYBIND(visible(1)) f();\n",
              PRE + GOOD + "int GENPYBIND(visible true) f();\n", PRE + GOOD + "struct GENPYBIND(module) X {};\n",
              PRE + GOOD + "namespace n GENPYBIND(hidden) {}\n",
              PRE + GOOD + "using X GENPYBIND(expose_here) = n::A; using Y GENPYBIND(expose_here) = n::A;\n",
              PRE + "struct X { struct Y; using XX GENPYBIND(expose_here) = X; struct Y {}; }; int GENPYBIND(visible) f();\n",
              PRE + GOOD + "using X GENPYBIND(encourage, expose_here) = n::A;\n",
              PRE + GOOD + "int GENPYBIND(noconvert(y)) f(int x);\n", PRE + GOOD + "using I GENPYBIND(visible) = int;\n"],
    "late": [PRE + GOOD + "struct GENPYBIND(visible) P { void GENPYBIND(setter_for(x)) set(int); };\n",
             PRE + GOOD + "struct GENPYBIND(visible) P { int GENPYBIND(getter_for(x)) a(); int GENPYBIND(getter_for(x)) b(); };\n",
             "#include <pybind11/pybind11.h>\n" + PRE + GOOD + "void GENPYBIND(visible) f(pybind11::kwargs k, int x);\n",
             PRE + "struct Y {}; struct GENPYBIND(visible) X : Y { using Z GENPYBIND(expose_here) = Y; };\n"],
    "write": [PRE + GOOD, PRE + GOOD * 1 + "struct GENPYBIND(visible) L { void a(); void b(); void c(); };\n"],
}
HEADERS["usage"] = HEADERS["none"][:1]
HEADERS["input"] = HEADERS["none"][:1]


def limits(size, ignore):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if size is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN if ignore else signal.SIG_DFL)
    return f


def launch(env, args, size=None, ignore=True):
    env.stats["tool_runs"] += 1
    hung = subprocess.CompletedProcess(args, 124, "", "timeout")
    if env.hangs >= 6:
        return hung
    try:
        return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                              timeout=60, preexec_fn=limits(size, ignore) if size is not None else None)
    except subprocess.TimeoutExpired:
        env.hangs += 1
        return hung


FLAGS = ["-std=c++17", "-I" + STUB, "-I" + STUB + "/lib", "-I" + REPO + "/public"]


def prepare(d, outs):
    os.makedirs(d)
    paths = []
    for i, kind in enumerate(outs):
        p = os.path.join(d, "out%d.cpp" % i)
        if kind == "nodir":
            p = os.path.join(d, "missing%d" % i, "out.cpp")
        elif kind == "dir":
            os.mkdir(p)
        elif kind == "old":
            write(p, "old %d" % i)
        elif kind == "link":
            write(p + ".target", "old %d" % i)
            os.symlink(p + ".target", p)
        paths.append(p)
    return paths


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def read(path):
    try:
        with open(path, errors="replace") as f:
            return f.read()
    except OSError:
        return None


def run_scenario(env, sc, seed, text=None):
    """Returns (observation, description)."""
    rng = random.Random(seed)
    root = env.scratch("tool")
    try:
        hdr = os.path.join(root, "input.h")
        if text is None:
            text = rng.choice(HEADERS[sc["fault"]])
        write(hdr, text)
        n = len(sc["outs"])
        expected = [None] * n
        if sc["fault"] in ("none", "warning", "write"):
            ref = prepare(os.path.join(root, "ref"), ["new"] * n)
            launch(env, [env.tool, *sum((["-o", p] for p in ref), []), hdr, "--", *FLAGS])
            expected = [read(p) for p in ref]
        d = os.path.join(root, "out")
        paths = prepare(d, sc["outs"])
        options = (["--keep-output-files"] if sc["keep"] else []) + (["--xfail"] if sc["xfail"] else [])
        source, size, ignore = hdr, None, True
        extra = []
        if sc["fault"] == "usage":
            extra = rng.choice([["-o", "relative.cpp"], ["--no-such-option"], ["--dump-graph=bogus"], [hdr]])
        elif sc["fault"] == "input":
            source = os.path.join(root, "missing.h")
        elif sc["fault"] == "write":
            largest = max([len(x.encode()) for x in expected if x] or [1])
            size, ignore = rng.randrange(1, max(2, largest)), rng.random() < 0.6
        args = [*options, *sum((["-o", p] for p in paths), []), *extra, source]
        rng.shuffle(options)
        r = launch(env, [env.tool, *args, "--", *FLAGS], size, ignore)
        fs, known = [], set()
        bad = 0
        for i, (p, kind) in enumerate(zip(paths, sc["outs"])):
            known |= {p, p + ".target"} if kind == "link" else {p}
            if kind == "dir":
                fs.append("dir" if os.path.isdir(p) and not os.listdir(p) else "part")
                continue
            content = read(p)
            state = "absent" if content is None else "old" if content == "old %d" % i else \
                    "new" if expected[i] is not None and content == expected[i] else "part"
            fs.append(state)
            if kind == "link" and state != "new" and read(p + ".target") != "old %d" % i and not sc["keep"]:
                bad += 1
        for base, dirs, files in os.walk(d):
            bad += sum(1 for f in files + dirs if os.path.join(base, f) not in known)
        reported = bool(re.search(r"\berror:|LLVM ERROR", r.stderr)) or r.returncode < 0
        if sc["fault"] == "usage":
            reported = bool(r.stderr.strip())
        obs = {"fs": fs, "extra": bad, "err": reported, "code": r.returncode}
        return obs, {"scenario": sc, "header": text, "args": args, "limit": size, "stderr": r.stderr[-1500:]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def judge(pairs):
    """Is what was observed an end of a behaviour of Tool? Returns ([(ok, reason)], stats)."""
    import tempfile
    from .paths import CACHE
    d = tempfile.mkdtemp(prefix="tool-", dir=os.path.join(CACHE, "tmp"))
    try:
        path = os.path.join(d, "pairs")
        with open(path, "w") as f:
            for sc, obs in pairs:
                f.write(json.dumps({"sc": sc, "obs": obs}) + "\n")
        out = tlc.run("ToolTrace.tla", "ToolTrace.cfg", {"VF_PAIRS": path})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = [None] * len(pairs)
    for line in out.splitlines():
        line = tlc.unquote(line)
        if line.startswith("VF|"):
            _, i, verdict, why = line.split("|", 3)
            if verdict == "ok" or res[int(i) - 1] is None:
                res[int(i) - 1] = (verdict == "ok", why)
    return res, tlc.stats(out)


def scenarios(env):
    path = os.path.join(env.scratch("scenarios"), "all")
    out = tlc.run("ToolTrace.tla", "ToolGen.cfg", {"VF_OUT": path})
    with open(path) as f:
        return [json.loads(line) for line in f], tlc.stats(out)


def explore(c, chosen):
    """chosen: [(scenario, seed, header or None)]"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        seen = list(ex.map(lambda x: run_scenario(c.env, *x), chosen))
    verdicts, st = judge([(sc, o) for (sc, _, _), (o, _) in zip(chosen, seen)])
    c.model(*st)
    c.traces += len(chosen)
    for (sc, seed, text), (o, info), v in zip(chosen, seen, verdicts):
        c.case(json.dumps([sc, info["header"], info["limit"]]))
        c.note("fault_" + sc["fault"])
        if v[0] or len(c.violations) >= 3:
            continue
        o2, info2 = run_scenario(c.env, sc, seed, text)
        (ok, why), = judge([(sc, o2)])[0]
        if ok:
            c.note("unrepeatable")
            continue
        c.violation(why, {"observation": o2, **info2})
