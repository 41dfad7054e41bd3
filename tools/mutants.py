"""Mutation survey: which small changes of the library does no check notice?

python tools/mutants.py OUT.jsonl [--scale 0.05] [--files a,b] [--jobs 8]
Makes single-site mutants of a copy of /repo/src (never of /repo), runs against each the checks that reach the line
(one worker, a fraction of the quick cases) until one reports a violation, and appends the outcome to OUT.jsonl."""
import ast
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = "/repo/src"
PROPS = ["C%02d" % n for n in range(1, 27)]


class Sites(ast.NodeVisitor):
    """Collects (line, column span, replacement text, description) for a source text."""

    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode("utf-8")))
        self.data = text.encode("utf-8")
        self.out = []

    def span(self, node):
        a = self.starts[node.lineno - 1] + node.col_offset
        b = self.starts[node.end_lineno - 1] + node.end_col_offset
        return a, b

    def src(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode("utf-8")

    def add(self, node, new, what):
        a, b = self.span(node)
        self.out.append((node.lineno, a, b, new, what))

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            left, right = self.src(node.left), self.src(node.comparators[0])
            table = {ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">=", "<="], ast.GtE: [">"], ast.Eq: ["!="],
                     ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
            for op in table.get(type(node.ops[0]), []):
                self.add(node, "(%s %s %s)" % (left, op, right), "compare " + op)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = " or " if isinstance(node.op, ast.And) else " and "
        self.add(node, "(" + op.join(self.src(v) for v in node.values) + ")", "boolop" + op)
        for i in range(len(node.values)):
            rest = [v for j, v in enumerate(node.values) if j != i]
            old = " and " if isinstance(node.op, ast.And) else " or "
            self.add(node, "(" + old.join(self.src(v) for v in rest) + ")", "drop operand %d" % i)
        self.generic_visit(node)

    def visit_If(self, node):
        self.add(node.test, "(not (%s))" % self.src(node.test), "negate if")
        self.add(node.test, "True", "if True")
        self.add(node.test, "False", "if False")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        table = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}
        op = table.get(type(node.op))
        if op and not isinstance(node.left, ast.Constant) or op and not isinstance(getattr(node.left, "value", 0), str):
            self.add(node, "(%s %s %s)" % (self.src(node.left), op, self.src(node.right)), "binop " + op)
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            self.add(node, str(not v), "flip bool")
        elif isinstance(v, int):
            self.add(node, str(v + 1), "int + 1")
            if v != 0:
                self.add(node, str(v - 1), "int - 1")
        elif isinstance(v, str) and len(v) > 0:
            self.add(node, repr(v + "X"), "string + X")
            if v.lower() != v:
                self.add(node, repr(v.lower()), "string lower")
        elif v is None:
            pass

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            if not node.args and f.attr in ("clone", "copy", "lower", "strip", "upper", "values", "keys"):
                self.add(node, self.src(f.value), "drop ." + f.attr)
            if f.attr == "lower":
                self.add(node, self.src(f.value) + ".upper()", "upper")
            if f.attr == "index":
                self.add(node, self.src(node).replace(".index(", ".rindex(", 1), "rindex")
            if f.attr == "append":
                self.add(node, self.src(node).replace(".append(", ".insert(0, ", 1), "insert first")
        if len(node.args) >= 2:
            args = [self.src(a) for a in node.args]
            args[0], args[1] = args[1], args[0]
            if not node.keywords:
                self.add(node, "%s(%s)" % (self.src(f), ", ".join(args)), "swap args")
        if len(node.args) == 3:
            self.add(node, "%s(%s, None)" % (self.src(f), ", ".join(self.src(a) for a in node.args[:2])), "third arg None")
        self.generic_visit(node)

    def visit_Expr(self, node):
        if not (isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)):
            self.add(node, "pass", "drop statement")
            self.generic_visit(node)

    def visit_Assign(self, node):
        self.add(node, "pass", "drop assignment")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "drop assignment")
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.add(node, "return None", "return None")
        self.generic_visit(node)

    def visit_Delete(self, node):
        self.add(node, "pass", "drop del")

    def visit_Break(self, node):
        self.add(node, "continue", "continue")


def sites(path):
    with open(path, encoding="utf-8", newline="") as f:
        text = f.read()
    text = text.lstrip("\ufeff")
    v = Sites(text)
    v.visit(ast.parse(text))
    seen, out = set(), []
    for s in v.out:
        key = (s[1], s[2], s[3])
        if key not in seen and v.data[s[1]:s[2]].decode() != s[3]:
            seen.add(key)
            out.append(s)
    return v.data, out


def reach():
    """{(file, line): [properties]} from one short run of every check."""
    cache = "/tmp/mut/reach.json"
    if os.path.exists(cache):
        with open(cache) as f:
            return {tuple(k.rsplit(":", 1)): v for k, v in json.load(f).items()}
    table = {}
    for prop in PROPS:
        lines = "/tmp/mut/lines-" + prop
        if os.path.exists(lines):
            os.remove(lines)
        env = dict(os.environ, RV_LINES=lines, RV_SCALE="0.2", RV_EVIDENCE="/tmp/mut/ev")
        subprocess.run([PY, "-m", "rv.run", prop], cwd=VERIF, env=env, capture_output=True)
        with open(lines) as f:
            for line in f:
                table.setdefault(line.strip(), []).append(prop)
    with open(cache, "w") as f:
        json.dump(table, f)
    return {tuple(k.rsplit(":", 1)): v for k, v in table.items()}


KILLERS = {}


def guarded(args, env, seconds):
    """(exit code or None, stdout) of a command whose whole process group ends in time and within 4 GB."""
    child = subprocess.Popen(["prlimit", "--as=4000000000"] + args, cwd=VERIF, env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        out, _ = child.communicate(timeout=seconds)
        return child.returncode, out
    except subprocess.TimeoutExpired:
        return None, ""
    finally:
        try:
            os.killpg(child.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        child.wait()


def try_one(job):
    rel, data, (line, a, b, new, what), props, scale = job
    work = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(SRC, os.path.join(work, "src"), ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        path = os.path.join(work, "src", rel)
        with open(path, "wb") as f:
            f.write(data[:a] + new.encode("utf-8") + data[b:])
        record = {"file": rel, "line": line, "what": what, "old": data[a:b].decode()[:160], "new": new[:160]}
        try:
            compile(data[:a] + new.encode("utf-8") + data[b:], path, "exec")
        except SyntaxError:
            return dict(record, result="syntax")
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        tests = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests/data_in", "tests"],
                               cwd="/repo", env=dict(env, PYTHONPATH=os.path.join(work, "src"), PYTHONDONTWRITEBYTECODE="1",
                                                     HOME=work), capture_output=True, text=True, timeout=120)
        if tests.returncode != 0:
            return dict(record, result="tests")
        env.update(RV_SRC=os.path.join(work, "src"), RV_EVIDENCE=os.path.join(work, "ev"), RV_SCALE=str(scale),
                   RV_WORKERS="1", TMPDIR=work, HOME=work)
        other = []
        for prop in sorted(props, key=lambda p: -KILLERS.get(rel, {}).get(p, 0)):
            code, text = guarded([PY, "-m", "rv.run", prop], env, 300)
            if code == 1 and "VIOLATION property=" + prop in text:
                counts = KILLERS.setdefault(rel, {})
                counts[prop] = counts.get(prop, 0) + 1
                return dict(record, result="killed", by=prop, other=other)
            if code != 0:
                other.append("%s:%s" % (prop, code))
        return dict(record, result="SURVIVED", props=props, other=other)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    out = argv[0]
    options = dict(zip(argv[1::2], argv[2::2]))
    scale = float(options.get("--scale", 0.05))
    jobs = int(options.get("--jobs", 8))
    wanted = [w for w in options.get("--files", "").split(",") if w]
    done = set()
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                r = json.loads(line)
                done.add((r["file"], r["line"], r["what"], r["old"], r["new"]))
    table = reach()
    todo = []
    for root, _, files in os.walk(os.path.join(SRC, "opyenxes")):
        for name in sorted(files):
            rel = os.path.relpath(os.path.join(root, name), SRC)
            if not name.endswith(".py") or wanted and not any(w in rel for w in wanted):
                continue
            data, found = sites(os.path.join(SRC, rel))
            for s in found:
                props = table.get((rel, str(s[0])), [])
                if (rel, s[0], s[4], data[s[1]:s[2]].decode()[:160], s[3][:160]) in done:
                    continue
                todo.append((rel, data, s, props, scale))
    print(len(todo), "mutants", flush=True)
    with ThreadPoolExecutor(jobs) as pool, open(out, "a") as f:
        for n, record in enumerate(pool.map(try_one, todo)):
            f.write(json.dumps(record) + "\n")
            f.flush()
            if record["result"] == "SURVIVED":
                print(n, record["file"], record["line"], record["what"], "|", record["old"].replace("\n", "~")[:90], "->",
                      record["new"][:60], record["other"], flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
