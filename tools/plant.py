"""Write a planted bug to seeded/<id>/ after confirming it in a scratch copy of /repo.

    from plant import bug
    bug("b01", "C01", [(file, old, new)], needs, what_it_breaks, demo_source)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\n# cwd: the repository\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONPATH=cwd, OMP_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def bug(id, prop, edits, needs, breaks, demo):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        d = os.path.join(ROOT, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        clean = run(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
        problems = []
        if clean.returncode:
            problems.append("demo fails on clean tree:\n" + clean.stdout[-1500:])
        base = subprocess.check_output(["git", "rev-list", "--max-parents=0", "HEAD"],
                                       cwd=repo, text=True).strip()
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                problems.append("%s: %d matches of %r" % (f, s.count(old), old))
                continue
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=repo, text=True)
        for f in {e[0] for e in edits}:
            orig = subprocess.check_output(["git", "show", base + ":" + f], cwd=repo, text=True)
            lines = set(orig.splitlines())
            dd = subprocess.check_output(["git", "diff", "-U0", f], cwd=repo, text=True)
            rem = [l[1:] for l in dd.splitlines() if l.startswith("-") and not l.startswith("---")]
            if rem and not any(l in lines for l in rem):
                problems.append("removed lines are not original: %r" % rem)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        if not problems:
            t = run([PY, "-m", "pytest", "regain", "-q", "-p", "no:cacheprovider", "-x"], repo)
            if t.returncode:
                problems.append("tests fail:\n" + t.stdout[-1500:])
            b = run(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
            if b.returncode == 0:
                problems.append("demo passes with the bug: " + b.stdout[-500:])
        if problems:
            shutil.rmtree(d)
            print("REJECTED", id, "\n".join(problems))
        else:
            print("ok", id, prop, "|", b.stdout.strip().splitlines()[-1][:150])
    finally:
        shutil.rmtree(tmp)
