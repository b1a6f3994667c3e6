"""Runs TLC on the modules in spec/."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .paths import CACHE, JOBS, SPEC

JAR = "/opt/veriftools/tla/tla2tools.jar"


class ModelError(Exception):
    pass


def tlc_cmd():
    exe = shutil.which("tlc")
    if exe:
        return [exe]
    raise ModelError("tlc not found")


def run(module, cfg, env=None, workers=JOBS, timeout=1500, extra=()):
    """Returns TLC's output; raises ModelError on anything but a clean run."""
    os.makedirs(os.path.join(CACHE, "tmp"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(CACHE, "tmp"))
    try:
        for f in os.listdir(SPEC):
            shutil.copy(os.path.join(SPEC, f), d)
        cmd = tlc_cmd() + ["-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
                           *extra, "-config", cfg, module]
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = "-Xss64m -Djava.io.tmpdir=" + d
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ModelError("TLC ran out of time")
        if r.returncode != 0:
            lemma = [line for line in r.stdout.splitlines() if "LEMMA|" in line][:1]
            raise ModelError("TLC failed (%d): %s\n%s" % (r.returncode, lemma, brief(r.stdout + r.stderr)))
        return r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def brief(out):
    i = out.find("Error:")
    return out[i:i + 600] if i >= 0 else out[-3000:]


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[1]), int(m[2])) if m else (0, 0)


def unquote(line):
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def validate(view, pairs, module="Trace.tla", cfg="Trace.cfg"):
    """pairs: (program json, observation); returns ([(verdict, reason)], stats)."""
    if not pairs:
        return [], (0, 0)
    d = tempfile.mkdtemp(prefix="obs-", dir=os.path.join(CACHE, "tmp"))
    try:
        for name, k in (("programs", 0), ("observations", 1)):
            with open(os.path.join(d, name), "w") as f:
                for pair in pairs:
                    f.write(json.dumps({key: val for key, val in pair[k].items() if key != "batch"}) + "\n")
        out = run(module, cfg, {"VF_PROGRAMS": os.path.join(d, "programs"),
                                "VF_OBSERVATIONS": os.path.join(d, "observations"), "VF_VIEW": view})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = [None] * len(pairs)
    for line in out.splitlines():
        line = unquote(line)
        if line.startswith("VF|"):
            _, i, verdict, why = line.split("|", 3)
            res[int(i) - 1] = (verdict, why)
    missing = [i for i, r in enumerate(res) if r is None]
    if missing:
        raise ModelError("no verdict for observations %s\n%s" % (missing[:10], out[-3000:]))
    return res, stats(out)
