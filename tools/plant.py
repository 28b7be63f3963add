"""development aid: python3 tools/plant.py SPEC.py [ID...]

SPEC.py holds dicts BUG(id, prop, file, [(old, new)...], needs, breaks, demo).  For each one: make a scratch copy of
/repo, apply the edit, run the repository's tests, the demonstration with and without it, and the property's
quick check against the copy; write seeded/<id>/ when the bug is valid.
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="en_US.UTF-8")


def BUG(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


def stable(repo):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    d = tempfile.mkdtemp(prefix="plant.")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=%s/j.xml" % d, "tests"],
                   cwd=repo, env=dict(ENV, PYTHONPATH=repo + "/lib"), capture_output=True)
    subprocess.run(["python3", "/opt/vp/results.py", d + "/o.json", "junit:%s/j.xml" % d], capture_output=True)
    r = json.load(open(d + "/o.json"))
    shutil.rmtree(d)
    p = r.get("passed", r)
    return sorted(want - set(p))


def demo(repo, d):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, env=ENV, capture_output=True, timeout=300, text=True)


def one(b, check=True):
    w = tempfile.mkdtemp(prefix="plant.")
    try:
        repo = w + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        sd = w + "/demo"
        os.makedirs(sd)
        with open(sd + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\n# exit 0 when the property holds on this example\nexport PYTHONPATH="$PWD/lib" PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 LC_ALL=en_US.UTF-8\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(sd + "/demo.py", "w") as f:
            f.write(b["demo"].lstrip("\n"))
        r0 = demo(repo, sd)
        if r0.returncode:
            return b["id"], "INVALID demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-600:]
        files = b["file"] if isinstance(b["file"], list) else [b["file"]]
        for (old, new) in b["edits"]:
            hit = 0
            for fn in files:
                s = open(os.path.join(repo, fn), encoding="utf-8").read()
                if s.count(old) == 1:
                    hit += 1
                    open(os.path.join(repo, fn), "w", encoding="utf-8").write(s.replace(old, new))
            if hit != 1:
                return b["id"], "INVALID edit matches %d times: %s" % (hit, old)
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        # changed lines must be lines of the original repository
        mine = []
        for fn in files:
            bl = subprocess.run(["git", "blame", "-s", "HEAD", "--", fn], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
            for old, _ in b["edits"]:
                for ol in old.splitlines():
                    for l in bl:
                        if l.split(")", 1)[1][1:] == ol and not l.startswith("^"):
                            mine.append(ol)
        miss = stable(repo)
        if miss:
            return b["id"], "INVALID breaks tests " + " ".join(miss[:3])
        r1 = demo(repo, sd)
        if r1.returncode == 0:
            return b["id"], "INVALID demo passes with the bug"
        out = os.path.join(V, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(sd + "/" + n, out + "/" + n)
        os.chmod(out + "/demo.sh", 0o755)
        with open(out + "/meta.json", "w") as f:
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), f, indent=1)
            f.write("\n")
        note = " (touches lines of a fix commit: %r)" % mine[:2] if mine else ""
        if not check:
            return b["id"], "valid" + note
        c = subprocess.run([PY, "mc/run.py", b["prop"], "--tier", "quick", "--no-evidence"], cwd=V, env=dict(ENV, MC_REPO=repo), capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        return b["id"], ("caught " if c.returncode == 1 and v else "MISSED ") + b["prop"] + " rc=%d" % c.returncode + note
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    exec(open(sys.argv[1], encoding="utf-8").read())
    want = sys.argv[2:]
    for b in BUGS:
        if not want or b["id"] in want:
            print(*one(b), flush=True)
