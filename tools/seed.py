#!/usr/bin/env python3
"""Planted bugs (development only, no check uses this).
  seed.py verify [ID...]         each patch applies, builds, passes the stable tests; its demonstration tells the trees apart
  seed.py catch [-t] [ID...]     runs the check of its property (-a: all checks) on a copy of the tree with the patch
  seed.py quiet FILE.diff...     runs all checks on a copy of the tree with a behaviour preserving patch
Copies are bound over /repo and /verif in private mount namespaces."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def ns(repo, verif, cmd, timeout=900):
    b = "mount --bind %s /repo && " % repo + ("mount --bind %s /verif && " % verif if verif else "")
    try:
        return sh(["unshare", "-m", "bash", "-c", b + cmd], timeout=timeout, cwd="/")
    except subprocess.TimeoutExpired as e:
        class R:
            returncode, stdout, stderr = 124, (e.stdout or b"").decode(), "timeout"
        return R()


def copies(patch, verif=True):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh(["cp", "-a", "/repo", d + "/repo"])
    if verif:
        os.mkdir(d + "/verif")
        for n in os.listdir(V):
            if n not in ("seeded", ".git", "out"):
                sh(["cp", "-a", os.path.join(V, n), d + "/verif/"])
    if patch:
        p = sh(["git", "-C", d + "/repo", "apply", patch])
        if p.returncode:
            shutil.rmtree(d)
            raise SystemExit("%s does not apply: %s" % (patch, p.stderr))
    return d


def verify(i):
    d = copies(None, False)
    demo = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    try:
        for n in os.listdir(os.path.join(S, i)):
            if not re.search(r"\.(diff|patch)$|^meta.json$", n):
                shutil.copy(os.path.join(S, i, n), demo)
        res = []
        for patched in (0, 1):
            if patched:
                p = sh(["git", "-C", d + "/repo", "apply", os.path.join(S, i, "patch.diff")])
                if p.returncode:
                    return i, "DOES NOT APPLY " + p.stderr
            p = ns(d + "/repo", None, "cd /repo && bash /opt/vp/test.sh %s/o.json >%s/t.log 2>&1; bash /opt/vp/build.sh >%s/b.log 2>&1 && cd /repo && bash %s/demo.sh" % (d, d, d, demo), 400)
            o = json.load(open(d + "/o.json")) if os.path.exists(d + "/o.json") else {}
            res.append((p.returncode, json.dumps(o).count("tests/test"), json.dumps(o)[:300], (p.stdout + p.stderr)[-500:]))
        ok = res[0][0] == 0 and res[1][0] != 0 and res[0][2] == res[1][2]
        return i, ("ok" if ok else "BAD %s" % (res,))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)


def check(d, prop, tier):
    p = ns(d + "/repo", d + "/verif", "cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 checks/check.py %s %s" % (prop, tier), 3000)
    v = "VIOLATION property=%s" % prop in p.stdout
    lines = [l for l in p.stdout.splitlines() if "rejected" in l or l.startswith("  ")][:1]
    return p.returncode, v, (lines or [""])[0][:150] + ("" if p.returncode in (0, 1) else (p.stdout + p.stderr)[-600:])


def catch(ids, tier, everything):
    man = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]

    for i in ids:
        m = json.load(open(os.path.join(S, i, "meta.json")))
        d = copies(os.path.join(S, i, "patch.diff"))
        try:
            props = [m["property"]] if not everything else man
            for q in props:
                rc, v, l = check(d, q, tier)
                if q == m["property"] or v:
                    print("%-28s %s rc=%d %s %s" % (i, q, rc, "CAUGHT" if v and rc == 1 else "missed", l), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def quiet(files):
    man = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for f in files:
        d = copies(os.path.abspath(f))
        try:
            for q in man:
                rc, v, l = check(d, q, "quick")
                print("%-28s %s rc=%d %s" % (os.path.basename(f), q, rc, "" if rc == 0 else "ALARM " + l), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    ids = [x for x in a if not x.startswith("-")]
    if sys.argv[1] == "quiet":
        quiet(ids)
    else:
        ids = ids or sorted(os.listdir(S))
        if sys.argv[1] == "verify":
            with ThreadPoolExecutor(4) as ex:
                for i, r in ex.map(verify, ids):
                    print(i, r, flush=True)
        else:
            catch(ids, "thorough" if "-t" in a else "quick", "-a" in a)
