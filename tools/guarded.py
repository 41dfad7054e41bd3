"""Survey of rare faults: python tools/guarded.py OUT.jsonl [--count 100] [--seed 1] [--scale 0.1] [--files a,b] [--jobs 8]

Like mutants.py, but every mutant is behind a condition on what the function was given (a long or blank value, another
letter case, the same value again, the n-th call ...). A survivor says whether its condition ever held while the checks ran."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import KILLERS, PY, SRC, Sites, guarded, reach  # noqa: E402

GUARD = '''
import os
_n, _last, _busy = 0, [], False
def g(cond):
    global _n, _busy
    if _busy:
        return False
    _busy = True
    _n += 1
    try:
        if cond(_n, _last):
            if not os.path.exists(FILE):
                open(FILE, "w").close()
            return True
        return False
    except Exception:
        return False
    finally:
        _busy = False
def seen(v, same):
    out = bool(_last) and same(_last[0], v)
    _last[:] = [v]
    return out
'''
CALLS = ["n >= 2", "n >= 20", "n % 7 == 3", "n == 12", "n % 2"]
DATA = ["not {v}", "len({v}) > 6", "len({v}) > 40", "len({v}) == 1", "str({v}) != str({v}).strip()", "not str({v}).isascii()",
        "str({v}).lower() != str({v})", "any(c in str({v}) for c in '<&>')", "isinstance({v}, bool)", "{v} < 0", "{v} != int({v})",
        "_rvs({v}, lambda a, b: a is b)", "_rvs({v}, lambda a, b: a == b)", "_rvs(type({v}), lambda a, b: a is not b)",
        "sum(map(ord, str({v}))) % 23 == 0", "' ' in str({v})", "len(set({v})) < len({v})", "len({v}.get_attributes()) > 3",
        "not {v}.get_attributes()", "any(a.get_attributes() for a in {v}.get_attributes().values())", "{v} is None"]


class Guarded(Sites):
    """Sites with the names that are known there."""

    def __init__(self, text):
        super().__init__(text)
        self.names, self.depth, self.found = [], 0, []

    def visit_FunctionDef(self, node):
        args = [a.arg for a in node.args.args]
        local = [n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        self.names.append(sorted(set(args + local)))
        for statement in node.body:
            self.visit(statement)
        self.names.pop()

    def add(self, node, new, what):
        if not self.names or what == "drop assignment" or isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.Break)):
            return
        if isinstance(node, ast.Return):
            node, new = node.value, "None"
        elif isinstance(node, ast.Expr):
            node, new = node.value, "None"
        a, b = self.span(node)
        self.found.append((node.lineno, a, b, new, what, self.names[-1]))

    def visit_JoinedStr(self, node):
        pass


def sites(path):
    with open(path, encoding="utf-8", newline="") as f:
        text = f.read().lstrip("\ufeff")
    v = Guarded(text)
    v.visit(ast.parse(text))
    return v.data, v.found


def try_one(job):
    rel, data, (line, a, b, new, what, _), cond, props, scale = job
    work = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(SRC, os.path.join(work, "src"), ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        path = os.path.join(work, "src", rel)
        hit = os.path.join(work, "hit")
        with open(os.path.join(work, "src", "rvguard.py"), "w") as f:
            f.write("FILE = %r\n" % hit + GUARD)
        old = data[a:b].decode()
        text = b"from rvguard import g as _rvg, seen as _rvs\n" + data[:a] + (
            "((%s) if _rvg(lambda n, last: %s) else (%s))" % (new, cond, old)).encode() + data[b:]
        with open(path, "wb") as f:
            f.write(text)
        record = {"file": rel, "line": line, "what": what, "old": old[:160], "new": new[:160], "cond": cond}
        try:
            compile(text, path, "exec")
        except SyntaxError:
            return dict(record, result="syntax")
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        tests = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests/data_in", "tests"],
                               cwd="/repo", env=dict(env, PYTHONPATH=os.path.join(work, "src"), PYTHONDONTWRITEBYTECODE="1",
                                                     HOME=work), capture_output=True, text=True, timeout=120)
        if tests.returncode != 0:
            return dict(record, result="tests")
        if os.path.exists(hit):
            os.remove(hit)
        env.update(RV_SRC=os.path.join(work, "src"), RV_EVIDENCE=os.path.join(work, "ev"), RV_SCALE=str(scale),
                   RV_WORKERS="1", TMPDIR=work, HOME=work)
        other = []
        for prop in sorted(props, key=lambda p: -KILLERS.get(rel, {}).get(p, 0)):
            code, out = guarded([PY, "-m", "rv.run", prop], env, 300)
            if code == 1 and "VIOLATION property=" + prop in out:
                counts = KILLERS.setdefault(rel, {})
                counts[prop] = counts.get(prop, 0) + 1
                return dict(record, result="killed", by=prop, other=other)
            if code != 0:
                other.append("%s:%s" % (prop, code))
        return dict(record, result="SURVIVED", held=os.path.exists(hit), props=props, other=other)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    options = dict(zip(argv[1::2], argv[2::2]))
    rng = random.Random(int(options.get("--seed", 1)))
    wanted = [w for w in options.get("--files", "").split(",") if w]
    table, pool = reach(), []
    for root, _, files in os.walk(os.path.join(SRC, "opyenxes")):
        for name in sorted(files):
            rel = os.path.relpath(os.path.join(root, name), SRC)
            if not name.endswith(".py") or "/log/" in rel or name in ("cli.py", "SingletonClassGenerator.py") or wanted and not any(w in rel for w in wanted):
                continue
            data, found = sites(os.path.join(SRC, rel))
            pool += [(rel, data, s, table.get((rel, str(s[0])), [])) for s in found]
    jobs = []
    while len(jobs) < int(options.get("--count", 100)):
        rel, data, s, props = rng.choice(pool)
        if props:
            names = [n for n in s[5] if not n.startswith("_")]
            cond = rng.choice(CALLS) if rng.random() < 0.2 or not names else rng.choice(DATA).format(v=rng.choice(names))
            jobs.append((rel, data, s, cond, props, float(options.get("--scale", 0.1))))
    print(len(jobs), "of", len(pool), flush=True)
    with ThreadPoolExecutor(int(options.get("--jobs", 8))) as threads, open(argv[0], "a") as f:
        for n, r in enumerate(threads.map(try_one, jobs)):
            f.write(json.dumps(r) + "\n")
            f.flush()
            if r["result"] == "SURVIVED" and r["held"]:
                print(n, r["file"], r["line"], r["what"], "|", r["old"].replace("\n", "~")[:90], "->", r["new"][:60], "| if", r["cond"], r["other"], flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
