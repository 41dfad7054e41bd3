"""Builds and confirms planted bugs: python tools/seed.py [--check] [ID ...]

Reads tools/bugs/*.py (each a list BUGS of dicts: id, property, needs, breaks, edits, demo), makes each change in
a scratch copy of /repo, confirms it (only original lines change, stable tests pass, the demo passes without and fails
with it) and writes seeded/<id>/. With --any changes of repaired lines are tried too, but not kept. With --check also runs the quick check of the property against the changed copy."""
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "a1329ef"
DEMO_SH = '''#!/bin/bash
# run in /repo: exit 0 when the property holds, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 HOME="$work" TMPDIR="$work"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" "$here/demo.py"
exit $?
'''


def sh(args, cwd=None, env=None, timeout=900):
    return subprocess.run(args, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def mine():
    out = sh(["git", "-C", "/repo", "log", "--format=%H", BASE + "..HEAD"]).stdout.split()
    return set(out)


def original_lines(path, own):
    out = sh(["git", "-C", "/repo", "blame", "-l", "-s", "--root", "HEAD", "--", path]).stdout.splitlines()
    return [line.split()[0].lstrip("^") not in own for line in out]


def removed_are_original(diff, own):
    """Whether the diff changes original lines, and none that the fixes added."""
    path, flags, n, removed = None, None, 0, 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            path = line[6:]
            flags = original_lines(path, own)
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1)) - 1
        elif line.startswith("-") and not line.startswith("---"):
            removed += 1
            if not flags[n]:
                return "changes line %d of %s, which a fix added" % (n + 1, path)
            n += 1
        elif line.startswith(" "):
            n += 1
    return None if removed else "changes no original line"


def build(bug, own, check):
    work = tempfile.mkdtemp(prefix="seed-%s-" % bug["id"])
    repo = os.path.join(work, "repo")
    notes = []
    try:
        sh(["git", "clone", "-q", "--shared", "/repo", repo])
        for path, old, new in bug["edits"]:
            full = os.path.join(repo, "src/opyenxes", path)
            with open(full, encoding="utf-8", newline="") as f:
                text = f.read()
            crlf = "\r\n" in text
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if text.count(old) != 1:
                return bug, "EDIT", "%s: old text found %d times" % (path, text.count(old))
            with open(full, "w", encoding="utf-8", newline="") as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True).stdout
        problem = removed_are_original(diff.decode("utf-8"), own)
        if problem and not ANY:
            return bug, "LINES", problem
        folder = os.path.join(work if problem else os.path.join(VERIF, "seeded"), bug["id"])
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, "patch.diff"), "wb") as f:
            f.write(diff)
        with open(os.path.join(folder, "demo.py"), "w", encoding="utf-8") as f:
            f.write(bug["demo"].lstrip("\n"))
        with open(os.path.join(folder, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        with open(os.path.join(folder, "meta.json"), "w", encoding="utf-8") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VERIF", "RV_"))}
        clean = sh(["bash", os.path.join(folder, "demo.sh")], cwd="/repo", env=env)
        if clean.returncode != 0:
            return bug, "DEMO-CLEAN", (clean.stdout + clean.stderr)[-1500:]
        broken = sh(["bash", os.path.join(folder, "demo.sh")], cwd=repo, env=env)
        if broken.returncode == 0:
            return bug, "DEMO-PATCHED", "passes with the change"
        notes.append((broken.stdout + broken.stderr).strip().splitlines()[-1][:120])
        env2 = dict(env, PYTHONPATH=os.path.join(repo, "src"), PYTHONDONTWRITEBYTECODE="1", HOME=work)
        tests = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", *STABLE], cwd=repo, env=env2)
        if tests.returncode != 0:
            return bug, "TESTS", tests.stdout[-800:]
        if check:
            env3 = dict(os.environ, RV_SRC=os.path.join(repo, "src"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            env3["RV_EVIDENCE"] = os.path.join(work, "evidence")
            out = sh([PY, "-m", "rv.run", bug["property"], "--tier", "quick"], cwd=VERIF, env=env3)
            caught = out.returncode == 1 and "VIOLATION property=%s " % bug["property"] in out.stdout
            return bug, "CAUGHT" if caught else "MISSED(%d)" % out.returncode, " | ".join(
                out.stdout.strip().splitlines())[:260]
        return bug, "OK", notes[-1]
    finally:
        shutil.rmtree(work, ignore_errors=True)


ANY = False
STABLE = ["--ignore=tests/data_in", "tests"]


def main(argv):
    global ANY
    ANY, check = "--any" in argv, "--check" in argv
    names = [a for a in argv if not a.startswith("--")]
    bugs = []
    for path in sorted(glob.glob(os.path.join(VERIF, "tools", "bugs", "*.py"))):
        bugs.extend(runpy.run_path(path)["BUGS"])
    assert len({b["id"] for b in bugs}) == len(bugs), "duplicate ids"
    if names:
        bugs = [b for b in bugs if any(b["id"].startswith(n) for n in names)]
    own = mine()
    with ThreadPoolExecutor(1 if check else 6) as pool:
        for bug, status, note in pool.map(lambda b: build(b, own, check), bugs):
            print("%-34s %-4s %-12s %s" % (bug["id"], bug["property"], status, note), flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
