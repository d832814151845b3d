"""Developer aid: (re)create /verif/seeded/<id>/ from tools/plants/<id>.py and
confirm it in a scratch copy.

A plant file defines PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO.
usage: tools/py tools/plant.py ID... [--check] [--fast]
  --check  also run the property's quick check against the patched copy
  --fast   skip the test suite
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw), text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def one(pid, check, fast):
    ns = {}
    with open(os.path.join(HERE, "tools", "plants", pid + ".py")) as f:
        exec(f.read(), ns)
    tmp = tempfile.mkdtemp(prefix="plant-")
    cp = os.path.join(tmp, "repo")
    res = {}
    try:
        shutil.copytree("/repo", cp, symlinks=True,
                        ignore=shutil.ignore_patterns("__pycache__"))
        base = sh(["git", "blame", "-s", "--abbrev=12", "-l", "--root", "HEAD", "--",
                   ns["EDITS"][0][0]], cp).stdout
        for f, a, b in ns["EDITS"]:
            p = os.path.join(cp, f)
            s = open(p).read()
            assert s.count(a) == 1, (pid, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = sh(["git", "diff", "--no-color"], cp).stdout
        out = os.path.join(HERE, "seeded", pid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(
            "import os\nimport sys\nsys.path.insert(0, os.getcwd())\n"
            + ns["DEMO"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 '
                    'MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"],
                           what_it_breaks=ns["BREAKS"]), f, indent=1)
            f.write("\n")
        # lines removed must be original ones
        res["orig"] = original_lines(cp, diff)
        r = sh([os.path.join(out, "demo.sh")], "/repo")
        res["demo clean"] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:])
        r = sh([os.path.join(out, "demo.sh")], cp)
        res["demo patched"] = r.returncode
        res["says"] = r.stdout.strip().splitlines()[-1][:150] if r.stdout else ""
        if not fast:
            r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], cp)
            res["tests"] = r.stdout.strip().splitlines()[-1]
        if check:
            for c in ns.get("CHECKS", [ns["PROPERTY"]]):
                r = sh([os.path.join(HERE, "check"), c], HERE, DST_REPO=cp,
                       VERIF_SEED="1")
                v = [x for x in r.stdout.splitlines() if x.startswith("VIOL")]
                res["check " + c] = (r.returncode, v[:1],
                                     "" if v else r.stdout[-700:])
                i = [k for k, x in enumerate(r.stdout.splitlines())
                     if x.startswith("VIOL")]
                if i:
                    res["check " + c] += (r.stdout.splitlines()[i[0] - 1][:160],)
    finally:
        shutil.rmtree(tmp)
    ok = res["demo clean"] == 0 and res["demo patched"] != 0 and \
        res["orig"] and (fast or " passed" in res["tests"]
                         and "failed" not in res["tests"])
    print(pid, "OK" if ok else "*** BAD", json.dumps(res), flush=True)


def original_lines(cp, diff):
    """Does the patch remove/replace at least one line present in the base
    commit's version of that file?"""
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cp).stdout.strip()
    cur, hit, bad = None, 0, 0
    src = {}
    for ln in diff.splitlines():
        if ln.startswith("--- a/"):
            cur = ln[6:]
            src[cur] = set(sh(["git", "show", "%s:%s" % (base, cur)],
                              cp).stdout.splitlines())
        elif ln.startswith("-") and not ln.startswith("---"):
            if ln[1:] in src[cur]:
                hit += 1
            else:
                bad += 1
    return "%d original, %d not" % (hit, bad) if hit and not bad else \
        (("mixed %d/%d" % (hit, bad)) if hit else "")


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not ids:
        ids = sorted(f[:-3] for f in os.listdir(
            os.path.join(HERE, "tools", "plants")))
    for i in ids:
        one(i, "--check" in sys.argv, "--fast" in sys.argv)
