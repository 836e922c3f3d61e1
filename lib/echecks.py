"""Checks of the build engine: exhaustive models (AkEngineMC) and random histories (AkEngineTrace)."""
import os
import engine, gen, models, place, proc

# property -> (models explored with depth, extra models with kills, profile of random histories, number of histories)
CC = dict(kinds={"run": 3, "cc": 6}, nrules=(2, 4), hdrs=0.4)
TABLE = {
    "C01": dict(deep=["chain", "units"], flat=list(models.MODELS), prof={}, n=150),
    "C02": dict(deep=["chain", "always"], flat=["gcc", "feach", "checks", "conf", "substs", "inst", "units"],
                prof=dict(edits=(0, 1), builds=(5, 10), tamper=0.1, badsrc=0.03, badopt=0.02, opts=0.15, always=0.1), n=130),
    "C03": dict(deep=["units"], flat=["chain", "gcc", "swap"],
                prof=dict(nrules=(5, 12), kinds={"run": 8, "fe": 2, "cc": 1, "conf": 1}, shuffle=1.0, sub=0.5, builds=(2, 5),
                          badsrc=0.04, guard=0.1), n=150),
    "C05": dict(deep=["chain"], flat=["gcc", "feach", "substs", "checks"],
                prof=dict(badsrc=0.35, badopt=0.3, garb=0.5, edits=(1, 2)), n=150),
    "C07": dict(deep=["gcc"], flat=["gcc"], prof=dict(CC, edits=(1, 2), builds=(5, 10)), n=130),
    "C09": dict(deep=["checks"], flat=["checks", "conf"],
                prof=dict(kinds={"run": 4, "conf": 2, "fe": 1, "check": 6}, nrules=(2, 5), guard=0.5, builds=(6, 12), badsrc=0.08), n=130),
    "C10": dict(deep=["substs"], flat=["substs"], prof=dict(kinds={"run": 6, "subst": 6, "check": 1}, nrules=(2, 5), opts=0.6, builds=(6, 12)), n=120),
    "C12": dict(deep=["conf"], flat=["conf"], prof=dict(kinds={"run": 2, "conf": 6, "check": 2}, nrules=(2, 5), opts=0.7, builds=(6, 12)), n=130),
    "C13": dict(deep=["feach", "derive"], flat=["feach", "derive"], prof=dict(kinds={"run": 3, "fe": 6}, nrules=(2, 4), opts=0.6, builds=(6, 12)), n=130),
    "C14": dict(deep=["inst"], flat=["inst"], prof=dict(kinds={"run": 4, "inst": 5, "cc": 1, "conf": 1}, inst_p=0.8, builds=(5, 10), nrules=(2, 6)), n=120),
}


def histories(ctx, n, key="h", **prof):
    return [gen.Gen(ctx.rng(key, i), **prof).history() for i in range(n)]


def engine_check(ctx):
    t = TABLE[ctx.prop]
    ctx.assumptions = ["commands are deterministic (the check's own tool and fake compiler)",
                       "files are not edited while a build runs",
                       "modification times differ in at least one millisecond between edits"]
    if ctx.thorough:
        models.check_models(ctx, t["flat"], 1)
        for m in t["deep"]:
            models.check_models(ctx, [m], 3 if m in ("always", "substs", "units") else 2, limit=4000)
    else:
        hs = models.histories(ctx, t["flat"], 1) + models.histories(ctx, t["deep"], 2, limit=150)
        rnd = histories(ctx, t["n"], **t["prof"])
        finish_random(ctx, rnd)
        engine.check_histories(ctx, hs + rnd, "history", batch=max(8, len(hs + rnd) // 16 + 1))
        extra(ctx)
        return
    k = 0
    while k < 40 and not ctx.violations:
        rnd = histories(ctx, 240, "t%d" % k, **t["prof"])
        finish_random(ctx, rnd)
        engine.check_histories(ctx, rnd, "history%d-" % k)
        k += 1
        if ctx.elapsed() > 1500:
            break
    extra(ctx)


def extra(ctx):
    """Large values, long chains of rules."""
    if ctx.prop == "C02":
        proc.pw(ctx)
        proc.large(ctx, ctx.budget(10, 150))
    if ctx.prop == "C03":
        hs = []
        for i in range(ctx.budget(6, 60)):
            n = ctx.rng("chn", i).choice([25, 40, 60, 70])
            hs += histories(ctx, 1, "chain%d" % i, chain=1.0, nrules=(n, n), kinds={"run": 14, "fe": 1}, builds=(2, 3), edits=(0, 1), badsrc=0.002,
                            badopt=0.0, sub=0.3, guard=0.0, rm=0.0, shuffle=0.7, vc=0.0, shadow=0.0)
        engine.check_histories(ctx, hs, "chain", batch=1)


def finish_random(ctx, hs):
    nb = sum(1 for h in hs for s in h["steps"] if s["op"] == "build")
    ctx.notes["random_histories"] = ctx.notes.get("random_histories", 0) + len(hs)
    ctx.notes["random_builds"] = ctx.notes.get("random_builds", 0) + nb
    for h in hs[:2]:
        ctx.sample({"scripts": h["projs"][0].scripts(), "steps": [s["op"] + ":" + str(s.get("p", s.get("o", ""))) for s in h["steps"]][:30]})


def c04(ctx):
    """Cycles, products of two rules, missing files."""
    prof = dict(prj=0, nrules=(2, 6), badsrc=0.02, badopt=0.02, guard=0.15, builds=(2, 6))
    for k in range(ctx.budget(1, 12)):
        hs = [gen.BadGraph(ctx.rng("bg%d" % k, i), **prof).history() for i in range(ctx.budget(300, 400))]
        hs += [gen.BadGraph(ctx.rng("bc%d" % k, i), **dict(prof, kinds={"run": 4, "cc": 2, "fe": 2, "conf": 1, "inst": 1}, sub=0.6)).history()
               for i in range(ctx.budget(150, 200))]
        finish_random(ctx, hs)
        ctx.notes["failed_builds"] = 0
        engine.check_histories(ctx, hs, "graph%d-" % k, batch=max(8, len(hs) // 16 + 1))
        ctx.notes["failed_builds"] += sum(1 for h in hs for s in h["steps"] if s["op"] == "build" and s.get("obs", {}).get("rc") == "fail")


CRASH_MODELS = {"chain": [1, 3, 5, 9], "gcc": [1, 4, 7, 9], "feach": [1, 5, 7], "conf": [1, 5, 8], "checks": [1, 4, 8], "substs": [1, 2], "inst": [1, 2, 4],
                "units": [1, 2]}


def crash_points(ctx, names, edits=2, jobs=1, hows=None):
    """Histories in which the build process dies at each of its calls changing files or starting processes,
    or these calls fail from this one on."""
    so = ctx.shim()
    work = []
    for n in names:
        m = models.MODELS[n]()
        es = CRASH_MODELS[n] if ctx.thorough else ctx.rng("crash", n).sample(CRASH_MODELS[n], min(edits, len(CRASH_MODELS[n])))
        for e in [0] + es:
            for fl in (0, 1) if not hows else (0,):
                h = [{"e": 0, "k": 0, "m": ""}] + ([{"e": e + 1, "k": 0, "m": ""}, {"e": 0, "k": 0, "m": ""}] if e else [])
                work.append((n, m, h, fl))

    def count(w):
        n, m, h, fl = w
        hist = m.history(h, jobs)
        cnt = os.path.join(ctx.tmp, "cnt-%s-%s-%d" % (n, "".join(str(x["e"]) for x in h), fl))
        open(cnt, "w").close()
        os.chmod(cnt, 0o666)
        bs = [s for s in hist["steps"] if s["op"] == "build"]
        bs[-1]["xenv"] = {"LD_PRELOAD": so, "AK_COUNT": cnt}
        engine.execute(ctx, hist)
        return sum(int(x) for x in open(cnt).read().split())
    res = []
    for w, total in zip(work, ctx.pmap(count, work)):
        n, m, h, fl = w
        ctx.notes["crash_points"] = ctx.notes.get("crash_points", 0) + total
        for k, how in [(k, how) for how in (hows or ["AK_KILL"]) for k in range(1, total + 1)]:
            hist = m.history(h + [{"e": 0, "k": 0, "m": ""}, {"e": 0, "k": 0, "m": ""}], jobs)
            bs = [s for s in hist["steps"] if s["op"] == "build"]
            bs[-3]["xenv"] = dict({"LD_PRELOAD": so, how.split()[0]: str(k)}, **({"AK_FLUSH": "1"} if fl else {}))
            if hows:
                bs[-3]["io"] = how
                if " " in how:
                    bs[-3]["xenv"]["AK_ONCE"] = "1"
            res.append(hist)
    return res


def c06(ctx):
    """The build process is killed at any point."""
    hs = models.histories(ctx, ["chain", "feach", "checks", "conf"] if not ctx.thorough else list(models.MODELS), 1 if not ctx.thorough else 1, 1, 1,
                          limit=None if ctx.thorough else 40)
    pts = crash_points(ctx, list(CRASH_MODELS), 1)
    lim = ctx.budget(500, 6000)
    if len(pts) > lim:
        pts = ctx.rng("pts").sample(pts, lim)
    rnd = histories(ctx, ctx.budget(60, 1500), crash=0.5, builds=(4, 8))
    rnd += histories(ctx, ctx.budget(60, 800), "ck", crash=0.5, builds=(4, 8), nrules=(1, 3), badsrc=0.25,
                     kinds={"run": 3, "conf": 1, "check": 6})
    finish_random(ctx, rnd)
    ctx.notes["crash_points_executed"] = len(pts)
    hs = hs + pts + rnd
    engine.check_histories(ctx, hs, "crash", batch=max(8, min(60, len(hs) // 16 + 1)))


def c24(ctx):
    """Files cannot be written or processes cannot be started from some point of a build on."""
    pts = crash_points(ctx, list(CRASH_MODELS), 1, hows=["AK_FULL", "AK_FULL once", "AK_NOPROC"])
    lim = ctx.budget(480, 12000)
    hs = ctx.rng("pts").sample(pts, lim) if len(pts) > lim else pts
    ctx.notes["fault_points"] = {"all": len(pts) // 3, "executed with one of 3 kinds of faults": len(hs)}
    rnd = histories(ctx, ctx.budget(45, 1500), builds=(4, 8))
    for i, h in enumerate(rnd):
        r = ctx.rng("f", i)
        for s in h["steps"]:
            if s["op"] == "build" and r.random() < 0.5:
                s["io"] = "random"
                s["xenv"] = {"LD_PRELOAD": ctx.shim(), r.choice(["AK_FULL", "AK_FULL", "AK_NOPROC"]): str(int(2 ** r.uniform(0, 7)))}
                if r.random() < 0.4:
                    s["xenv"]["AK_ONCE"] = "1"
    finish_random(ctx, rnd)
    hs += rnd
    engine.check_histories(ctx, hs, "fault", batch=max(8, min(60, len(hs) // 16 + 1)))


LAYS = [{"cache": c, "H": h, "start": s} for c, hs in (("in", ["", "rel", "abs", "dots"]), ("deep", ["rel", "abs", "dots"]), ("out", ["rel", "abs", "link", "dots"]))
        for h in hs for s in ("root", "dot", "up", "abs", "inst", "link")]


def relocate(hist, lay):
    """Paths of sources relative to the place of the cache."""
    cache = {"in": "/d/proj/autark-cache", "deep": "/d/proj/b-1/x.y", "out": "/d/outside"}[lay["cache"]]
    root = "/d/proj"
    for p in hist["projs"]:
        for r in p.rules:
            for m in r["imap"].values():
                if m["val"].startswith("../"):
                    f = os.path.join(root, m["in"][1][2:])
                    if lay.get("sub") and f.startswith(root + "/sub/"):
                        f = "/d/else/where" + f[len(root + "/sub"):]
                    m["val"] = os.path.relpath(f, os.path.join(cache, r["_unit"]))
    hist["lay"] = lay


def c21(ctx):
    """Places of the cache and of the project."""
    hs = []
    for k, lay in enumerate(LAYS * ctx.budget(3, 30)):
        if k % 3 == 0:
            lay = dict(lay, sub="link")
        h = gen.Gen(ctx.rng("place", k), inst_p=0.8, clean=0.15, opts=0.2).history()
        relocate(h, lay)
        r = ctx.rng("move", k)
        steps = []
        for s in h["steps"]:
            if s["op"] == "build" and lay["cache"] != "out" and r.random() < 0.2:
                steps.append({"op": "mv", "how": r.choice(["cp", "cp", "mv"])})
            steps.append(s)
        h["steps"] = steps
        hs.append(h)
    finish_random(ctx, hs)
    ctx.notes["layouts"] = len(LAYS)
    place.check(ctx)
    engine.check_histories(ctx, hs, "place", batch=max(8, min(60, len(hs) // 16 + 1)))


REGISTRY = {"C21": c21, "C24": c24, "C04": c04, "C06": c06}
REGISTRY.update({p: engine_check for p in TABLE})
