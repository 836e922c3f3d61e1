"""Output of commands: behaviours of spec/AkProc.tla with data of real sizes are executed by real builds, recorded output and
captured values are judged by AkProcTrace."""
import json, os, re, shutil, subprocess, threading
import akv
from akv import UID

_lock = threading.Lock()
SIZES = [0, 1, 2, 5, 100, 1022, 1023, 1024, 1025, 2046, 2047, 4096, 8191, 20000, 65535, 65536, 65537, 70000, 140000, 300000]
KINDS = ["run", "run", "shell", "check", "value", "cached"]


def pw(ctx):
    with _lock:
        p = os.path.join(ctx.bin, "pw")
        if not os.path.exists(p):
            r = subprocess.run(["gcc", "-O1", "-w", "-o", p, os.path.join(akv.VERIF, "lib", "pw.c")], capture_output=True, text=True)
            if r.returncode:
                raise akv.CheckError("cannot build pw: %s" % r.stderr[-2000:])


def data(r, n, value):
    """n bytes without marks; values have no bytes which values cannot have."""
    a = [b"abcdefgh", b"x y\tz", b"line\n", b"%s%n%d", b"\r\n", b"\xff\xc5\x99", b"  \n\n", b"\"'\\{}$@", b"pw "]
    if not value:
        a += [b"\0", b"a\0b", b"\0\0\0\n"]
    k = r.choice(a)
    t = b""
    if r.random() < 0.4:
        t = (k * (n // len(k) + 1))[:n]
    else:
        cs = [c for c in range(3 if value else 0, 256) if c not in (30, 31)]
        q, m = [], 0
        while m < n:
            q.append(r.choice(a) if r.random() < 0.7 else bytes([r.choice(cs)]) * r.choice([1, 1, 3, 1000]) if m < 3000 else (r.choice(q) * 50)[:5000])
            m += len(q[-1])
        t = b"".join(q)[:n]
    return t


class Proc:
    """prog: list of (kind, steps)."""

    def __init__(self, prog, r):
        # Checks are executed before anything else
        self.prog = [x for x in prog if x[0] == "check"] + [x for x in prog if x[0] != "check"]
        self.r = r

    def fill(self):
        r = self.r
        for k, q in self.prog:
            v = k in ("value", "cached")
            for x in q:
                if x["op"] == "w":
                    x["b"] = data(r, x["n"] if "n" in x else r.choice(SIZES), v and x["s"] == 1)
                    x["piece"] = r.choice([1 << 20, 1 << 20, 4096, 1024, 1023, 700])
            # Marks of the start, and of the end where it is known
            q[:0] = [{"op": "w", "s": 1, "b": b"\x1e", "piece": 9}, {"op": "w", "s": 2, "b": b"\x1e", "piece": 9}]
            out, op = [], {1, 2}
            for i, x in enumerate(q):
                if x["op"] == "c" and x["s"] in op:
                    op.discard(x["s"])
                    if x["s"] == 2 or not v:
                        out.append({"op": "w", "s": x["s"], "b": b"\x1f", "piece": 9})
                elif x["op"] in ("x", "k"):
                    break
                out.append(x)
            out += [{"op": "w", "s": s, "b": b"\x1f", "piece": 9} for s in sorted(op) if s == 2 or not v]
            out += [x for x in q if x["op"] in ("x", "k")][:1]
            q[:] = out
        return self

    def execute(self, ctx):
        d = ctx.scratch("o")
        root, dat = os.path.join(d, "p"), os.path.join(d, "d")
        os.makedirs(root)
        os.chown(root, UID, UID)
        sc, n = [], 0
        i = 0
        for i, (k, q) in enumerate(self.prog):
            i += 1
            f = os.path.join(dat, "p%d" % i)
            st = ""
            for x in q:
                if x["op"] == "w":
                    n += 1
                    g = os.path.join(dat, "b%d" % n)
                    os.makedirs(dat, exist_ok=True)
                    with open(g, "wb") as fh:
                        fh.write(x["b"])
                    st += "w %d %s %d\n" % (x["s"], g, x["piece"])
                elif x["op"] == "c":
                    st += "c %d\n" % x["s"]
                elif x["op"] == "x":
                    st += "x %d\n" % x["n"]
                elif x["op"] == "s":
                    st += "s %d\n" % x["ms"]
                else:
                    st += x["op"] + "\n"
            akv.put(f, st)
            if k == "run":
                if sc and sc[-1].endswith("/*run*/") and self.r.random() < 0.4:
                    sc[-1] = sc[-1].replace("} }/*run*/", "} exec { pw %s } }/*run*/" % f)
                else:
                    sc.append("run { exec { pw %s } }/*run*/" % f)
            elif k == "shell":
                sc.append("run { shell { pw %s } }" % f)
            elif k == "check":
                akv.put(os.path.join(root, ".autark/k%d.sh" % i), "#!/bin/sh\n%spw %s\n" % (self.r.choice(["", "exec "]), f), 0o755)
                sc.append("check { k%d.sh }" % i)
            else:
                akv.put(os.path.join(root, "v%d.in" % i), "@V%d@" % i)
                sc.append("set { V%d %s{ pw %s } }\nconfigure { v%d.in }" % (i, "@@" if k == "cached" else "@", f, i))
        akv.put(os.path.join(root, "Autark"), "\n".join(sc).replace("/*run*/", "") + "\n")
        self.recs = []
        prods = [os.path.join(root, "autark-cache", "v%d" % (i + 1)) for i in range(len(self.prog))]
        for again in (False, True) if self.prog and all(k == "cached" for k, q in self.prog) else (False,):
            t0 = [os.stat(p).st_mtime_ns if os.path.exists(p) else 0 for p in prods]
            r = akv.run(ctx, [ctx.autark], root, {}, timeout=60, merge=False)
            t1 = [os.stat(p).st_mtime_ns if os.path.exists(p) else 0 for p in prods]
            o, e = (x.decode("latin-1") for x in r.out)
            self.rc, self.hang, self.err = r.rc, r.timeout, e[-3000:]
            so = [x[:-300] + re.sub(r"(/bin/sh -c )?pw /\S{1,200}/p\d+\n$", "", x[-300:]) for x in o.split("\x1e")[1:]]
            so = [x[:x.rindex("\x1f") + 1] if "\x1f" in x else x for x in so]
            se = [x[:x.rindex("\x1f") + 1] if "\x1f" in x else x for x in e.split("\x1e")[1:]]
            out = [["\x1e" + so[i] if i < len(so) else "", "\x1e" + se[i] if i < len(se) else ""] for i in range(max(len(so), len(se)))]
            vals = {}
            for i, (k, q) in enumerate(self.prog):
                p = os.path.join(root, "autark-cache", "v%d" % (i + 1))
                if k in ("value", "cached") and r.rc == 0:
                    vals[str(i + 1)] = open(p, "rb").read().decode("latin-1") if os.path.exists(p) else "no file"
            if r.rc == 254 and not again and any(x["op"] in ("x", "k") for k, q in self.prog for x in q):
                pass
            self.recs.append({"prog": self.steps(), "out": out, "ok": r.rc == 0, "vals": vals, "again": again, "work": t0 != t1})
            if r.rc:
                break
        shutil.rmtree(d, ignore_errors=True)
        return self

    def steps(self):
        res = []
        for k, q in self.prog:
            s = []
            for x in q:
                y = {"op": x["op"]}
                if x["op"] in "wc":
                    y["s"] = x["s"]
                if x["op"] == "w":
                    y["d"] = x["b"].decode("latin-1")
                if x["op"] == "x":
                    y["n"] = x["n"]
                s.append(y)
            res.append({"k": "value" if k in ("value", "cached") else "run", "q": s})
        return res

    def show(self):
        def cut(t):
            return t if len(t) < 60 else "%s...%s (%d)" % (t[:25], t[-25:], len(t))
        return {"commands": [[k, [dict({a: v for a, v in x.items() if a != "b"}, **({"size": len(x["b"]), "d": cut(x["b"].decode("latin-1"))} if "b" in x else {}))
                                  for x in q]] for k, q in self.prog],
                "recorded": [{"out": [[cut(a), cut(b)] for a, b in x["out"]], "ok": x["ok"], "again": x["again"]} for x in self.recs],
                "rc": self.rc, "stderr": cut(self.err)}


def judge(ctx, cs, batch=40):
    items = [(i, x) for i, c in enumerate(cs) for x in c.recs]
    groups = [items[i:i + batch] for i in range(0, len(items), batch)]

    def one(g):
        f = os.path.join(ctx.tmp, "pr%d_%d.ndjson" % (id(cs), g[0][0]))
        with open(f, "w") as fh:
            for i, x in g:
                fh.write(json.dumps(x) + "\n")
        r = akv.tlc(ctx, "AkProcTrace", "AkProcTrace.cfg", {"CASES": f}, timeout=800)
        os.unlink(f)
        if not r.ok:
            raise akv.CheckError("AkProcTrace: %s" % r.out[-3000:])
        bad = []
        for x in akv.printed(r.out, "BAD"):
            m = re.match(r'<<\s*"BAD",\s*(\d+),\s*(".*")\s*>>$', x, re.S)
            bad.append((g[int(m.group(1)) - 1][0], m.group(2)))
        return bad
    return sorted({i: w for b in ctx.pmap(one, groups) for i, w in b}.items())


def check_cases(ctx, cs, label):
    ctx.pmap(lambda c: c.fill().execute(ctx), cs)
    ctx.evals += len(cs)
    ctx.traces += sum(len(c.recs) for c in cs)
    for c in cs[:2]:
        ctx.sample(c.show())
    bad = judge(ctx, cs) + [(i, "hangs") for i, c in enumerate(cs) if c.hang]
    k = 0
    for i, w in bad:
        if k < 5:
            # Busy machines are not violations
            cs[i].execute(ctx)
            if not cs[i].hang and not judge(ctx, [cs[i]]):
                continue
            k += 1
            ctx.violation("%s%d" % (label, i), cs[i].show(), "%s: %s\n  %s" % (label, w, json.dumps(cs[i].show())[:1500]))
    ctx.notes[label + "_commands"] = sum(len(c.prog) for c in cs)


def model(ctx, size, cmds, cap, chunk):
    cfg = akv.cfg_text(ctx, "proc%d%d%d%d.cfg" % (size, cmds, cap, chunk),
                       "SPECIFICATION PSpec\nCONSTANTS Size = %d Cmds = %d Cap = %d Chunk = %d\n"
                       "INVARIANTS Out Kept Complete Ordered Stuck\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (size, cmds, cap, chunk))
    r = akv.tlc(ctx, "AkProcMC", cfg, workers=8, timeout=800, mem="8g", opts=["-coverage", "10"])
    if not r.ok:
        raise akv.CheckError("AkProcMC: %s\n%s" % (r.violated, r.out[-4000:]))
    for k, v in r.cov.items():
        ctx.actions[k] = ctx.actions.get(k, 0) + v
    ps = sorted(set(json.loads(re.match(r'<<\s*"PROG",\s*(".*")\s*>>$', x, re.S).group(1)) for x in akv.printed(r.out, "PROG")))
    return [json.loads(p) for p in ps]


def scaled(p, r):
    """A behaviour of the model with real data."""
    a, b = r.choice(SIZES), r.choice(SIZES)
    q = []
    for c in p:
        st = []
        for x in c["q"]:
            if r.random() < 0.2:
                st.append({"op": "s", "ms": r.choice([0, 1, 5, 20])})
            y = dict(x)
            if x["op"] == "w":
                y["n"] = a if len(x["d"]) == 1 else b
                del y["d"]
            st.append(y)
        q.append((r.choice(KINDS), st))
    return Proc(q, r)


def randoms(r):
    q = []
    for _ in range(r.randint(1, 4)):
        st, f = [], False
        for _ in range(r.randint(0, 8)):
            x = r.random()
            if x < 0.6:
                st.append({"op": "w", "s": r.choice([1, 1, 2]), "n": r.choice(SIZES) if r.random() < 0.6 else r.randint(0, 3000)})
            elif x < 0.75:
                st.append({"op": "s", "ms": r.choice([0, 1, 5, 20])})
            elif x < 0.85:
                st.append({"op": "c", "s": r.choice([1, 2])})
            elif not f:
                f = True
                st.append({"op": "f"})
        if r.random() < 0.15:
            st.append(r.choice([{"op": "x", "n": r.choice([0, 1, 127, 255])}, {"op": "k"}]))
        q.append((r.choice(KINDS), st))
    return Proc(q, r)


def cached(r):
    """Large cached values are used again."""
    return Proc([("cached", [{"op": "w", "s": 1, "n": r.choice(SIZES + [262143, 262144, 1048575, 1048576, 1500000])}]) for _ in range(r.randint(1, 2))], r)


def slow(r, i):
    """Commands which say nothing for seconds: before, between and after pieces of output, or when a process is left behind."""
    st = [{"op": "w", "s": r.choice([1, 1, 2]), "n": r.choice([1, 100, 4096, 70000])} for _ in range(r.randint(1, 3))]
    for _ in range(1 if i % 4 else 2):
        st.insert(r.randint(0, len(st)), {"op": "s", "ms": 11000 if i % 8 == 7 else r.choice([1100, 2300, 3500, 5500])})
    if r.random() < 0.4:
        st.insert(r.randint(0, len(st)), {"op": "f"})
    elif r.random() < 0.4:
        st.insert(r.randint(0, len(st)), {"op": "c", "s": r.choice([1, 2])})
    st.append({"op": "w", "s": r.choice([1, 1, 2]), "n": r.choice([1, 5, 2000])})
    return Proc([(r.choice(KINDS), st), (r.choice(KINDS), [{"op": "w", "s": 1, "n": 3}])], r)


def large(ctx, n):
    check_cases(ctx, [cached(ctx.rng("lc", i)) for i in range(n)], "large")


def c22(ctx):
    ctx.assumptions = ["captured values have no NUL bytes", "a process left behind by a command goes on when the command is over"]
    pw(ctx)
    ps = model(ctx, 3, 1, 2, 2) + (model(ctx, 4, 1, 2, 3) + model(ctx, 3, 2, 3, 1) if ctx.thorough else model(ctx, 2, 2, 2, 1))
    ctx.notes["behaviours_enumerated"] = len(ps)
    n = ctx.budget(450, 6000)
    if len(ps) > n:
        ps = ctx.rng("ps").sample(ps, n)
    check_cases(ctx, [scaled(p, ctx.rng("sc", i)) for i, p in enumerate(ps)], "model")
    check_cases(ctx, [randoms(ctx.rng("r", i)) for i in range(ctx.budget(150, 3000))], "random")
    check_cases(ctx, [cached(ctx.rng("c", i)) for i in range(ctx.budget(16, 200))], "cached")
    check_cases(ctx, [slow(ctx.rng("sl", i), i) for i in range(ctx.budget(16, 160))], "slow")


TECH = "TLA+ specification of processes, pipes and the reader (AkProc): TLC checks all interleavings of short commands (nothing lost, ends, order), prints them for replay with real data sizes; recorded output is judged by the specification"
REGISTRY = {"C22": c22}
