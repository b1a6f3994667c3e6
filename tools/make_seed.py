"""Writes seeded/<id>/ from a description: python3 tools/make_seed.py FILE.py [id...]

FILE.py defines SEEDS: id -> dict(property, needs, breaks, edits=[(file, old, new)], demo=shell text,
files={name: text})."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = '''# Helpers for demo.sh: generate bindings with the tool in /repo/_build, build and import them.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d); trap 'rm -rf "$dir"' EXIT
py=/opt/vp/pyenv/bin/python
tool=/repo/_build/genpybind-tool
inc="-I/repo/public -I$here -I$dir -isystem /usr/include/python3.12"
generate() { # generate HEADER MODULE OUT...
  local h=$1 m=$2 o=(); shift 2
  for f in "$@"; do o+=(-o "$f"); done
  $tool --module-name="$m" "${o[@]}" "$h" -- -std=c++17 $inc
}
compile() { # compile MODULE FILE...
  local m=$1; shift
  g++ -std=c++17 -O0 -w -shared -fPIC $inc "$@" -o "$dir/$m$($py -c 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))')"
}
module() { # module HEADER MODULE: generate and compile
  generate "$1" "$2" "$dir/$2.cpp" && compile "$2" "$dir/$2.cpp"
}
python() { (cd "$dir" && PYTHONPATH="$dir" $py -c "$1"); }
'''


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    for name, s in seeds.items():
        if len(sys.argv) > 2 and name not in sys.argv[2:]:
            continue
        work = tempfile.mkdtemp()
        try:
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
            subprocess.run("git -C /repo archive HEAD | tar x -C " + work, shell=True, check=True)
            subprocess.run("git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=work, check=True)
            for f, old, new in s["edits"]:
                path = os.path.join(work, f)
                text = open(path).read()
                assert text.count(old) == 1, (name, f, text.count(old))
                open(path, "w").write(text.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True, check=True).stdout
        finally:
            shutil.rmtree(work)
        d = os.path.join(HERE, "seeded", name)
        os.makedirs(d, exist_ok=True)
        with open(d + "/patch.diff", "w") as f:
            f.write(diff)
        with open(d + "/common.sh", "w") as f:
            f.write(COMMON)
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nset -e\n. "$(dirname "$0")/common.sh"\n' + s["demo"].strip() + "\n")
        for fn, text in s.get("files", {}).items():
            with open(os.path.join(d, fn), "w") as f:
                f.write(text)
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        print(name)


main()
