"""Where a build works: runs enumerated by spec/AkPlaceMC.tla (trees with links, names of the project and of the cache)
are executed by the real program; the verdict and all the files are compared with the specification."""
import json, os, re
import akv

SCRIPT = "run { exec { cp S{a.txt} out } consumes { a.txt } produces { out } }\n"


def runs(ctx, size, links):
    cfg = akv.cfg_text(ctx, "place%d%d.cfg" % (size, links), "SPECIFICATION MCSpec\nINVARIANTS Kept Inside Sources Script Refused\nCHECK_DEADLOCK FALSE\n"
                       "CONSTANTS\n Size = %d\n Links = %d\n" % (size, links))
    r = akv.tlc(ctx, "AkPlaceMC", cfg, workers=4, timeout=1500)
    if not r.ok:
        raise akv.CheckError("AkPlaceMC: %s" % r.out[-3000:])
    res = []
    for l in r.out.split("\n"):
        m = re.match(r'<<"RUN", (".*")>>$', l)
        if m:
            res.append(json.loads(json.loads(m.group(1))))
    if len(res) < 100:
        raise akv.CheckError("AkPlaceMC: %d runs" % len(res))
    res.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return res


def tree(top, cache):
    """Files under top; records of autark in the cache are left out."""
    res = {}
    for d, ds, fs in os.walk(top):
        rel = [] if d == top else os.path.relpath(d, top).split("/")
        for n in ds + fs:
            f = os.path.join(d, n)
            if rel == cache and n.startswith("."):
                continue
            if os.path.islink(f):
                res["/".join(rel + [n])] = "-> " + os.readlink(f)
            elif os.path.isdir(f):
                res["/".join(rel + [n])] = "folder"
            else:
                with open(f, "rb") as h:
                    res["/".join(rel + [n])] = h.read().decode("latin1")
    return res


def content(p):
    return SCRIPT if p[-1] == "Autark" else "text of " + "/".join(["p", "a.txt"] if p[-1] == "out" else p)


def nodes(top, fs):
    return {"/".join(p): "folder" if n["k"] == "d" else "-> " + "/".join([top] + n["to"]) if n["k"] == "l" else content(p) for p, n in fs}


def one(ctx, c):
    """Mismatch or None."""
    top = ctx.scratch("pl")
    for p, n in sorted(c["files"], key=lambda x: len(x[0])):
        f = os.path.join(top, *p)
        if n["k"] == "d":
            os.mkdir(f)
            os.chown(f, akv.UID, akv.UID)
        elif n["k"] == "l":
            os.symlink("/".join([top] + n["to"]), f)
            os.lchown(f, akv.UID, akv.UID)
        else:
            akv.put(f, content(p))
    h = "/".join(c["given"]["h"]["q"])
    if c["given"]["h"]["abs"]:
        h = top + "/" + h
    args = [ctx.autark, "-H", h] + (["-c"] if c["given"]["clean"] else []) + ["/".join([top] + c["given"]["dir"])]
    x = akv.run(ctx, args, top)
    res = "ok" if x.rc == 0 else "fail"
    want = "ok" if c["result"] == "ok" else "fail"
    got, exp = tree(top, c["cache"] if c["result"] == "ok" else None), nodes(top, c["after"])
    bad = None
    if x.rc not in (0, 1, 254):
        bad = "exit status %s" % x.rc
    elif res != want:
        bad = "run %s, expected %s" % (res, c["result"])
    elif got != exp:
        bad = "files %s" % [(k, "is", got.get(k), "expected", exp.get(k)) for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)][:4]
    if bad:
        bad += " (%s)" % " ".join(args[1:]).replace(top, "")
        bad += "\n" + x.out.decode("utf-8", "replace")[-300:]
    for f in [top]:
        akv.shutil.rmtree(f, ignore_errors=True)
    return bad


def check(ctx):
    cs = runs(ctx, 2, 1)
    ctx.notes["runs_enumerated"] = len(cs)
    lim = ctx.budget(1300, len(cs))
    r = ctx.rng("runs")
    if lim < len(cs):   # as many of every outcome
        by = {}
        for c in cs:
            by.setdefault((c["result"], c["given"]["clean"], c["given"]["h"]["abs"], len(c["after"]) > len(c["files"])), []).append(c)
        each = lim // len(by)
        cs = [c for k in sorted(by) for c in (by[k] if len(by[k]) <= each else r.sample(by[k], each))]
    if ctx.thorough:
        more = runs(ctx, 3, 1)
        cs += r.sample(more, min(len(more), 20000))
        more = runs(ctx, 2, 2)
        cs += r.sample(more, min(len(more), 30000))
    ctx.sample({"files": ["/".join(p) for p, n in cs[0]["files"]], "given": cs[0]["given"], "result": cs[0]["result"]})
    bad = ctx.pmap(lambda c: one(ctx, c), cs)
    ctx.traces += len([b for b in bad if not b])
    ctx.notes["runs_executed"] = len(cs)
    for n, (c, b) in enumerate([(c, b) for c, b in zip(cs, bad) if b][:6]):
        again = one(ctx, c)
        ctx.violation("place%d" % n, {"run": c, "observed": b, "again": again}, "place: " + b)
