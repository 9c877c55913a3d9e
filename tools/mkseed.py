"""Build and validate planted bugs: mkseed.py SPEC.py...

A spec defines ID, PROP, NEEDS, BREAKS, DEMO (python source) and EDITS
[(file, old, new), ...]; writes seeded/ID/ only when the tests pass with it and
the demo tells the two trees apart.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\n# exit 0: behaves as it should; 1: does not\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def main():
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        try:
            build(ns, d)
        finally:
            shutil.rmtree(d)


def build(ns, d):
    for sub in ("a", "b"):
        os.mkdir(f"{d}/{sub}")
        for x in ("src", "test", "pyproject.toml"):
            s = f"/repo/{x}"
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, f"{d}/{sub}/{x}")
    for f, old, new in ns["EDITS"]:
        p = f"{d}/b/src/v8serialize/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(ns["ID"], "EDIT does not apply:", t.count(old), old[:80])
            return
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff", "--no-index", "a/src", "b/src"], cwd=d, capture_output=True, text=True).stdout
    diff = diff.replace("a/a/src", "a/src").replace("b/b/src", "b/src")
    # changed lines must be original ones
    out = f"{d}/out"
    os.mkdir(out)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(ns["DEMO"].lstrip())
    open(f"{out}/demo.sh", "w").write(SH)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(f"{out}/meta.json", "w"), indent=1)
    res = [subprocess.run([f"{out}/demo.sh"], cwd=f"{d}/{x}", capture_output=True, text=True, timeout=300) for x in "ab"]
    if res[0].returncode != 0 or res[1].returncode == 0:
        print(ns["ID"], "DEMO", [(r.returncode, (r.stdout + r.stderr)[-400:]) for r in res])
        return
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "test"], cwd=f"{d}/b", capture_output=True, timeout=240,
                       text=True, env={**os.environ, "PYTHONPATH": f"{d}/b/src"})
    if t.returncode:
        print(ns["ID"], "TESTS", t.stdout[-600:])
        return
    r = subprocess.run(["git", "apply", "--check", f"{out}/patch.diff"], cwd="/repo", capture_output=True, text=True)
    if r.returncode:
        print(ns["ID"], "APPLY", r.stderr)
        return
    # it must change lines of the original repository
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", capture_output=True, text=True).stdout.strip()
    own, f, line = 0, None, 0
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
            blame = subprocess.run(["git", "blame", "-l", "-s", "--root", f], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            line = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-"):
            own += blame[line - 1].startswith(base)
            line += 1
        elif l.startswith(" "):
            line += 1
    if not own:
        print(ns["ID"], "changes no original line")
        return
    dst = f"{VERIF}/seeded/{ns['ID']}"
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    print(ns["ID"], "ok; demo says:", (res[1].stdout + res[1].stderr).strip().splitlines()[-1:])


main()
