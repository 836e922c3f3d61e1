"""Parallel compilation: schedules enumerated with spec/AkJobsMC.tla are replayed on the real program, recorded
starts and exits of compilers are validated against spec/AkJobs.tla."""
import json, os, re, shutil, threading, time
import akv


class Proj:
    """Project with groups of sources; the objects of each are consumed by a command."""

    def __init__(self, ctx, n, req, units=False, cflags=""):
        self.ctx, self.n, self.req = ctx, n, req
        self.dir = ctx.scratch()
        self.root = os.path.join(self.dir, "p")
        self.log = os.path.join(self.dir, "log")
        self.gate = os.path.join(self.dir, "gate")
        os.mkdir(self.gate)
        os.chown(self.gate, akv.UID, akv.UID)
        os.mkdir(self.root)
        os.chown(self.root, akv.UID, akv.UID)
        self.v = 0
        a = []
        for x in range(1, len(n) + 1):
            srcs = [self.name((x, i)) for i in range(1, n[x - 1] + 1)]
            a.append("cc {\n  set { SRC%d\n    %s\n  }\n  '%s'\n  fcc\n  objects { OBJ%d }\n}\n" % (x, "\n    ".join(srcs), cflags, x))
            a.append("run {\n  exec { tl r%d %s -o R%d }\n  produces { R%d }\n  consumes { ${OBJ%d} }\n}\n" % (
                x, " ".join("-i " + s[:-1] + "o" for s in srcs), x, x, x) if n[x - 1] else "")
            for i in range(1, n[x - 1] + 1):
                self.edit((x, i))
        akv.put(os.path.join(self.root, "Autark"), "".join(a))

    @staticmethod
    def name(s):
        return "s%d_%d.c" % tuple(s)

    def edit(self, s, bad=False, ms=0):
        self.v += 1
        akv.put(os.path.join(self.root, self.name(s)), "%s%s v%d\n" % ("//sleep %d\n" % ms if ms else "", "bad" if bad else "ok", self.v))

    def events(self):
        if not os.path.exists(self.log):
            return []
        res, live = [], False
        for l in open(self.log).read().split("\n"):
            f = l.split("\x1f")
            if len(f) >= 4 and f[0] == "fcc":
                m = re.match(r"s(\d+)_(\d+)\.c$", f[1])
                e = {"e": f[3], "s": [int(m.group(1)), int(m.group(2))]}
                if f[3] == "E":
                    e["ok"] = f[5] == "0"
                res.append(e)
            elif f[0].startswith("r"):
                res.append({"e": "r" if len(f) > 1 else "R", "g": int(f[0][1:])})
        return res

    def build(self, sched=None, gated=False, timeout=60, noise=0):
        """One build; with a schedule [(source, kind)] compilers exit in this order."""
        if os.path.exists(self.log):
            os.unlink(self.log)
        time.sleep(0.004)
        env = {"TL_LOG": self.log, "TL_JLOG": "1"}
        if gated:
            env["TL_GATE"] = self.gate
        args = [self.ctx.autark] + (["-J" + self.req] if self.req != "" else [])
        box = []
        th = threading.Thread(target=lambda: box.append(akv.run(self.ctx, args, self.root, env, timeout=timeout)))
        th.start()
        marks = []   # (number of events, ) when the controller saw saturation
        for want, s, kind in sched or ():
            t0 = time.time()
            while th.is_alive():
                ev = self.events()
                live = [tuple(e["s"]) for e in ev if e["e"] == "S"]
                for e in ev:
                    if e["e"] == "E":
                        live.remove(tuple(e["s"]))
                if len(live) >= want or time.time() - t0 > 8:
                    break
                time.sleep(0.001)
            if not th.is_alive():
                break
            time.sleep(0.003)
            ev = self.events()
            marks.append(len(ev))
            live = [tuple(e["s"]) for e in ev if e["e"] == "S"]
            for e in ev:
                if e["e"] == "E":
                    live.remove(tuple(e["s"]))
            if not live:
                break
            if tuple(s) not in live:
                s = live[0]
            self.open(s, kind)
            t0 = time.time()
            while th.is_alive() and time.time() - t0 < 5 and not any(e["e"] == "E" and tuple(e["s"]) == tuple(s) for e in self.events()):
                time.sleep(0.001)
        # Whatever is left is let through
        while gated and th.is_alive():
            ev = self.events()
            live = [tuple(e["s"]) for e in ev if e["e"] == "S"]
            for e in ev:
                if e["e"] == "E":
                    live.remove(tuple(e["s"]))
            for s in live:
                self.open(s, "0")
            time.sleep(0.01)
        th.join()
        ev = self.events()
        for m in reversed(marks):
            ev.insert(m, {"e": "W"})
        r = box[0]
        res = "hang" if r.timeout else "ok" if r.rc == 0 else "fail" if r.rc > 0 else "signal"
        return ev + [{"e": "X", "res": res}], r.out.decode("utf-8", "replace")[-2000:]

    def open(self, s, kind):
        f = os.path.join(self.gate, self.name(s))
        if not os.path.exists(f):
            akv.put(f + ".t", kind)
            os.rename(f + ".t", f)
            t0 = time.time()
            while os.path.exists(f) and time.time() - t0 < 5:
                time.sleep(0.0005)

    def close(self):
        if not self.ctx.keep:
            shutil.rmtree(self.dir, ignore_errors=True)


def eff(req):
    return 4 if req == "" or int(req) <= 0 else min(16, int(req))


def replay(ctx, h, rng):
    """h: {"n", "req", "h": [{"ed", "rel"}]} -> trace"""
    p = Proj(ctx, h["n"], h["req"])
    tr = {"n": h["n"], "req": h["req"], "ev": []}
    out = []
    stale = {(x, i) for x in range(1, len(h["n"]) + 1) for i in range(1, h["n"][x - 1] + 1)}
    try:
        for b in h["h"]:
            time.sleep(0.004)
            for s in b["ed"]:
                p.edit(s)
                stale.add(tuple(s))
            sched, left = [], sorted(stale)
            running = 0
            for r in b["rel"]:
                s = tuple(r["s"])
                todo = len([x for x in left if x[0] == s[0]])
                sched.append((min(eff(h["req"]), todo), s, "0" if r["ok"] else rng.choice("1K")))
                if rng.random() < 0.1:
                    sched[-1] = sched[-1][:2] + (sched[-1][2] + "n",)
                left.remove(s)
                if r["ok"]:
                    stale.discard(s)
            ev, o = p.build(sched, True)
            tr["ev"] += [{"e": "B", "ed": [list(s) for s in b["ed"]]}] + ev
            out.append(o)
    finally:
        p.close()
    return tr, out


def free(ctx, rng):
    """Compilers which run freely."""
    n = [rng.choice([1, 2, 5, 17, 20, 40]) for _ in range(rng.choice([1, 1, 2]))]
    req = rng.choice(["", "0", "-1", "1", "2", "3", "4", "8", "15", "16", "17", "1000"])
    p = Proj(ctx, n, req)
    tr = {"n": n, "req": req, "ev": []}
    out = []
    srcs = [(x, i) for x in range(1, len(n) + 1) for i in range(1, n[x - 1] + 1)]
    try:
        for b in range(rng.randint(2, 5)):
            ed = []
            for s in srcs:
                if b == 0 or rng.random() < 0.25:
                    p.edit(s, rng.random() < 0.06, rng.choice([0, 0, 0, 1, 5]))
                    ed.append(list(s))
            ev, o = p.build()
            tr["ev"] += [{"e": "B", "ed": [] if b == 0 else ed}] + ev
            out.append(o)
    finally:
        p.close()
    return tr, out


def explore(ctx, name, configs, builds, edits, show, live=False):
    cf = "{%s}" % ", ".join('[n |-> <<%s>>, req |-> "%s"]' % (", ".join(map(str, n)), r) for n, r in configs)
    mod = "Jobs_" + name
    d = os.path.join(ctx.tmp, "spec-" + name)
    os.makedirs(d, exist_ok=True)
    for f in ("AkJobs.tla", "AkJobsMC.tla"):
        shutil.copy(os.path.join(akv.SPEC, f), d)
    with open(os.path.join(d, mod + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS AkJobsMC\nCfgs == %s\n====\n" % (mod, cf))
    cfg = akv.cfg_text(ctx, mod + ".cfg", "SPECIFICATION %s\nCONSTANTS Configs <- Cfgs MaxBuilds = %d MaxEdits = %d Print1 = %s\nCHECK_DEADLOCK FALSE\n%s%s" % (
        "FairSpec" if live else "MSpec", builds, edits, "TRUE" if show else "FALSE",
        "".join("INVARIANT %s\n" % i for i in ("Bound", "OneGroup", "Alone", "OncePerBuild", "AllAttempted", "NothingAfter", "Complete", "FailedStaysStale")),
        "PROPERTY BuildsEnd\n" if live else ""))
    r = akv.tlc(ctx, os.path.join(d, mod), cfg, workers=4, opts=["-coverage", "10"])
    if not r.ok:
        raise akv.CheckError("AkJobsMC %s: %s\n%s" % (name, r.violated, r.out[-4000:]))
    for k, v in r.cov.items():
        ctx.actions[k] = ctx.actions.get(k, 0) + v
    return [json.loads(json.loads(re.match(r'<<"SCHED",\s*(".*")\s*>>$', x, re.S).group(1))) for x in akv.printed(r.out, "SCHED")]


def validate(ctx, trs, batch=60):
    groups = [list(range(i, min(i + batch, len(trs)))) for i in range(0, len(trs), batch)]

    def one(g):
        f = os.path.join(ctx.tmp, "jt%d-%d.ndjson" % (g[0], time.time_ns()))
        with open(f, "w") as fh:
            for i in g:
                fh.write(json.dumps(trs[i]) + "\n")
        r = akv.tlc(ctx, "AkJobsTrace", akv.cfg_text(ctx, "jt.cfg", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"), {"TRACES": f})
        acc = set(int(x.split(",")[1].strip(" >")) for x in akv.printed(r.out, "ACCEPT"))
        at = {}
        for x in akv.printed(r.out, "AT"):
            a, b = [int(y.strip(" >")) for y in x.split(",")[1:3]]
            at[a] = max(at.get(a, 0), b)
        os.unlink(f)
        ctx.traces += len([n for n in range(len(g)) if n + 1 in acc])
        return [(i, at.get(n + 1, 0)) for n, i in enumerate(g) if n + 1 not in acc]
    return [x for b in ctx.pmap(one, groups) for x in b]


def report(ctx, label, trs, again):
    bad = validate(ctx, [t for t, o in trs])
    for i, at in bad[:5]:
        t2 = again(i)
        b2 = validate(ctx, [t2[0]])
        if not b2:
            t2 = again(i)
            b2 = validate(ctx, [t2[0]])
        if not b2:
            print("note: rejection of %s %d was not repeated" % (label, i))
            continue
        at = b2[0][1]
        ctx.violation("%s%d" % (label, i), {"trace": t2[0], "accepted_events": at, "output": t2[1]},
                      "%s %d (J=%s, sources %s): event %d is not allowed: %s" % (
                          label, i, t2[0]["req"], t2[0]["n"], at + 1, t2[0]["ev"][max(0, at - 4):at + 3]))


def c08(ctx):
    ctx.assumptions = ["compilers are the check's own stand-in, which waits for the schedule controller"]
    q = not ctx.thorough
    explore(ctx, "live", [([3], "2"), ([2, 1], "1")] if q else [([4], "2"), ([3, 2], "2"), ([3], "3")], 2, 1, False, True)
    hs = explore(ctx, "one", [([3], "2"), ([3], "1"), ([4], "3")] if q else [([4], "2"), ([4], "3"), ([5], "2")], 1, 0, True)
    hs2 = explore(ctx, "two", [([2, 1], "2"), ([3], "2")] if q else [([2, 2], "2"), ([3], "2"), ([3, 1], "2")], 2, 1, True)
    ctx.notes["schedules"] = len(hs) + len(hs2)
    r = ctx.rng("sched")
    lim = ctx.budget(160, 3000)
    pick = (hs if len(hs) <= lim else r.sample(hs, lim)) + (hs2 if len(hs2) <= lim else r.sample(hs2, lim))
    # Limits of -J: as many compilers as allowed run at once
    for req in ["", "0", "-1", "-5", "4", "5", "15", "16", "17", "40", "1000"]:
        n = 19
        order = list(range(1, n + 1))
        e = eff(req)
        rel, live, nxt = [], [], 1
        while len(rel) < n:
            while len(live) < e and nxt <= n:
                live.append(nxt)
                nxt += 1
            s = r.choice(live)
            live.remove(s)
            rel.append({"s": [1, s], "ok": r.random() < 0.9})
        pick.append({"n": [n], "req": req, "h": [{"ed": [], "rel": rel}, {"ed": [], "rel": [x for x in []]}]})
    ctx.notes["schedules_replayed"] = len(pick)
    trs = ctx.pmap(lambda ih: replay(ctx, ih[1], ctx.rng("r", ih[0])), list(enumerate(pick)))
    ctx.evals += len(trs)
    ctx.sample(trs[0][0])
    report(ctx, "schedule", trs, lambda i: replay(ctx, pick[i], ctx.rng("r", i)))
    m = ctx.budget(60, 1200)
    fr = ctx.pmap(lambda i: free(ctx, ctx.rng("f", i)), range(m))
    ctx.notes["free_runs"] = m
    report(ctx, "free", fr, lambda i: free(ctx, ctx.rng("f", i)))
    # Not a number of jobs
    p = Proj(ctx, [1], "")
    for bad in ("x", "3x", "4 5", "99999999999999999999"):
        p.req = bad
        ev, o = p.build()
        if ev != [{"e": "X", "res": "fail"}]:
            ctx.violation("badj", {"arg": bad, "events": ev, "output": o}, "-J%s: %s" % (bad, ev))
    p.close()


REGISTRY = {"C08": c08}
