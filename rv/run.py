"""Runs the check of one property: python -m rv.run PROP [--case N] [--seed S] [--tier T]

exit 0: held on everything explored; 1: VIOLATION; 2: inconclusive."""
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("RV_SRC", "/repo/src")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
STALL_SECONDS = 840


def environment(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k not in ("USERPROFILE",)}
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    env.update(PYTHONPATH=SRC + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONIOENCODING="utf-8", HOME=home,
               TMPDIR=scratch, LC_ALL="C.UTF-8", RV_SRC=SRC)
    for name in list(env):
        if name.lower().endswith("_proxy"):
            del env[name]
    return env


def source_stats():
    """Number of functions and of executable lines of the library, by compiling it."""
    functions, lines = set(), set()
    for root, _, files in os.walk(os.path.join(SRC, "opyenxes")):
        for f in files:
            if f.endswith(".py"):
                path = os.path.join(root, f)
                try:
                    with open(path, "rb") as data:
                        code = compile(data.read(), path, "exec")
                except SyntaxError:
                    continue
                stack = [code]
                while stack:
                    c = stack.pop()
                    lines.update((path, n) for _, _, n in c.co_lines() if n)
                    for const in c.co_consts:
                        if hasattr(const, "co_code"):
                            functions.add((path, const.co_qualname))
                            stack.append(const)
    return len(functions), len(lines)


def main(argv):
    prop = argv[0]
    options = dict(zip(argv[1::2], argv[2::2]))
    tier = options.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(options.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    only = options.get("--case")
    started = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="rv-%s-" % prop.lower())
    try:
        return run(prop, tier, seed, only, scratch, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def settings(prop):
    """Reads the constants of a property module without importing the library."""
    import ast
    with open(os.path.join(VERIF, "rv", "props", prop.lower() + ".py")) as f:
        tree = ast.parse(f.read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id.isupper():
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def run(prop, tier, seed, only, scratch, started):
    conf = settings(prop)
    count = max(1, int(conf["CASES"][tier] * float(os.environ.get("RV_SCALE", 1))))
    seconds = conf.get("SECONDS", {"quick": 150, "thorough": 780})[tier]
    workers = min(int(os.environ.get("RV_WORKERS") or conf.get("WORKERS", 8)), count)
    env = environment(scratch)
    env.update(conf.get("ENV", {}))
    jobs = []
    if only is not None:
        plan = [(int(only), 1, int(only) + 1)]
        if conf.get("STATEFUL"):     # the cases its worker ran before belong to the history
            plan = [(int(only) % workers, workers, int(only) + 1)]
    else:
        plan = [(w, workers, count) for w in range(workers)]
    for w, (first, step, n) in enumerate(plan):
        out = os.path.join(scratch, "out%d.json" % w)
        own = os.path.join(scratch, "w%d" % w)
        os.makedirs(own)
        log = open(os.path.join(scratch, "err%d.txt" % w), "wb")
        env["PYTHONHASHSEED"] = str((seed * 101 + first % workers * 7) % 4294967296)
        p = subprocess.Popen([PYTHON, "-m", "rv.worker", prop, tier, str(seed), str(first), str(step), str(n),
                              str(seconds), out, own], cwd=own, env=env, stdin=subprocess.DEVNULL,
                             stdout=None if os.environ.get("RV_SHOW") else log, stderr=log)
        jobs.append((w, p, out, log))
    deadline = started + max(STALL_SECONDS, seconds + 60)
    results, problems = [], []
    for w, p, out, log in jobs:
        try:
            p.wait(max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            problems.append("worker %d did not finish" % w)
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        else:
            with open(log.name, "rb") as f:
                tail = f.read()[-1500:].decode("utf-8", "replace")
            problems.append("worker %d ended with %s and no result: %s" % (w, p.returncode, tail))
    counters, seen, samples, functions, lines = Counter(), set(), [], set(), set()
    violations, done = [], 0
    for r in results:
        counters.update(r["counters"])
        seen.update(r["seen"])
        samples.extend(r["samples"])
        functions.update(r["functions"])
        lines.update(r["line_list"])
        done += r["done"]
        if r["violation"]:
            violations.append(r["violation"])
        if r["inconclusive"]:
            problems.append(r["inconclusive"])
    violations.sort(key=lambda v: (v["case"] is None, v["case"]))
    if not violations and only is None:
        for name in conf.get("REQUIRED", ()):
            if counters.get(name, 0) <= 0:
                problems.append("the monitor never observed: " + name)
        if len(seen) < conf.get("MIN_DISTINCT", 2):
            problems.append("only %d distinct cases observed" % len(seen))
    total_functions, total_lines = source_stats()
    wall = time.monotonic() - started
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": conf.get("LEVEL", "exploration"),
        "coverage": {
            "evaluations": done + (1 if violations else 0),
            "distinct_nontrivial": len(seen),
            "rule": conf["RULE"],
            "samples": sorted(samples)[:6] or ["none"],
            "observed": dict(sorted(counters.items())),
            "library_functions_reached": len(functions),
            "library_functions_total": total_functions,
            "library_lines_reached": len(lines),
            "library_lines_total": total_lines,
            "workers": len(plan),
        },
        "assumptions": conf.get("ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    if problems:
        evidence["coverage"]["inconclusive"] = problems[:5]
    store = os.environ.get("RV_EVIDENCE") or os.path.join(VERIF, "evidence")
    if only is None:
        os.makedirs(store, exist_ok=True)
        path = os.path.join(store, prop + ".json")
        with open(path + ".part", "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
        os.replace(path + ".part", path)
    print("%s %s seed=%d: %d cases, %d distinct, %d checks, %d/%d library lines, %.1f s" % (
        prop, tier, seed, done, len(seen), counters.get("checks", 0), len(lines), total_lines, wall))
    if os.environ.get("RV_COUNTERS"):
        for name, n in sorted(counters.items()):
            print("   %-50s %d" % (name, n))
    if os.environ.get("RV_LINES"):
        with open(os.environ["RV_LINES"], "a") as f:
            f.writelines(line + "\n" for line in sorted(lines))
    if violations:
        v = violations[0]
        folder = os.path.join(store, "replay")
        os.makedirs(folder, exist_ok=True)
        replay = os.path.join(folder, "%s-%s-%d-%s.txt" % (prop, tier, seed, v["case"]))
        command = "cd %s && %s -m rv.run %s --tier %s --seed %d --case %s" % (
            VERIF, PYTHON, prop, tier, seed, v["case"] if v["case"] is not None else 0)
        with open(replay, "w", encoding="utf-8", errors="backslashreplace") as f:
            f.write("%s violated in case %s (seed %d, %s)\nreplay: %s\n\n%s\n" % (
                prop, v["case"], seed, tier, command, v["message"]))
        print(v["message"].encode("ascii", "backslashreplace").decode()[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if problems:
        for problem in problems[:5]:
            print("INCONCLUSIVE: " + problem.encode("ascii", "backslashreplace").decode())
        return 2
    for line in known_findings(prop):
        print(line)
    return 0


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.startswith("KNOWN-FINDING: property=%s " % prop):
                    yield line.rstrip()


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main(sys.argv[1:]))
