"""The command line: lines enumerated by spec/AkCliMC.tla are given to the real program; output and all the files
are compared with the specification. Patterns of `autark glob`: enumerated by spec/AkGlobMC.tla with their results."""
import json, os, re, shutil
import akv

SCRIPT = """option { A First option }
include { sub/Autark }
if { defined { A }
  echo { A ^{[ ${A} ]} }
}
if { defined { B }
  echo { B ^{[ ${B} ]} }
}
if { defined { INSTALL_X }
  echo { INSTALL_X ^{[ ${INSTALL_X} ]} }
}
%s
if { defined { INSTALL_ENABLED }
  echo { INSTALL_ENABLED ^{[ ${INSTALL_ENABLED} ]} }
}
run { exec { cp S{f.txt} out } produces { out } consumes { f.txt } }
run-on-install { exec { cp S{f.txt} inst } }
install { ${INSTALL_BIN_DIR} f.txt }
""" % "\n".join("echo { %s ^{[ ${%s} ]} }" % (n, n) for n in
                ("INSTALL_PREFIX", "INSTALL_BIN_DIR", "INSTALL_LIB_DIR", "INSTALL_DATA_DIR", "INSTALL_INCLUDE_DIR", "INSTALL_MAN_DIR", "INSTALL_PKGCONFIG_DIR"))
SUB = "option { B Second one }\n"
LIST = b"\nA: First option\nB: Second one\n"
NONE = "(none)"


def emitted(r, tag):
    res = []
    for l in r.out.split("\n"):
        m = re.match(r'<<"%s", (".*")>>$' % tag, l)
        if m:
            res.append(json.loads(json.loads(m.group(1))))
    res.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return res


def cli_lines(ctx, size, part, parts):
    cfg = akv.cfg_text(ctx, "cli%d_%d.cfg" % (size, part), "SPECIFICATION MCSpec\nINVARIANTS TypeOK Asked Defs Inside\nPROPERTIES Later\nCHECK_DEADLOCK FALSE\n"
                       "CONSTANTS\n Size = %d\n Part = %d\n Parts = %d\n" % (size, part, parts))
    r = akv.tlc(ctx, "AkCliMC", cfg, workers=4, timeout=800)
    if not r.ok:
        raise akv.CheckError("AkCliMC: %s" % r.out[-3000:])
    return emitted(r, "CLI")


def tree(top):
    """All files, without records of autark."""
    res = {}
    for d, ds, fs in os.walk(top):
        for n in fs:
            f = os.path.join(d, n)
            if n.startswith(".") and n != ".hid":
                continue
            with open(f, "rb") as h:
                res[os.path.relpath(f, top)] = h.read().decode("latin1")
    return res


def workspace(ctx):
    top = ctx.scratch("cli")
    for w in ("W", "W/proj"):
        for n, t in (("Autark", SCRIPT), ("sub/Autark", SUB), ("f.txt", "text of %s\n" % w), (".hid", "")) + tuple((c + "/old", "old") for c in ("autark-cache", "cc", "c/d")):
            akv.put(os.path.join(top, w, n), t)
    akv.put(os.path.join(top, "h", "x"), "home")
    return top


def one(ctx, c):
    """Mismatch or None."""
    top = workspace(ctx)
    before = tree(top)
    x = akv.run(ctx, [ctx.autark] + c["args"], os.path.join(top, "W"), {"HOME": os.path.join(top, "h")}, merge=False)
    after = tree(top)
    out, err = x.out
    shutil.rmtree(top, ignore_errors=True)
    res = c["res"]
    exp = dict(before)
    bad = []
    real = lambda p: re.sub("^/T/", "", p)
    if x.timeout or x.rc not in (0, 1, 254):
        bad.append("exit status %s" % x.rc)
    if res == "usage":
        if b"sage" not in out + err:
            bad.append("no help was printed")
    elif res in ("wrong", "fatal"):
        if x.rc == 0:
            bad.append("exit status 0, a failure is expected")
    elif x.rc != 0:
        bad.append("exit status %s, expected %s" % (x.rc, res))
    elif res == "version":
        if not out.strip():
            bad.append("no version was printed")
    elif res == "list":
        if LIST not in (out + err).replace(b"INFO    ", b""):
            bad.append("options are not listed")
        if c["clean"]:   # The cache may be cleaned as well
            k = real(c["cache"]) + "/"
            exp = {f: t for f, t in exp.items() if not f.startswith(k)}
            after = {f: t for f, t in after.items() if not f.startswith(k)}
    elif res == "glob":
        want = "".join(n + "\n" for n in c["globbed"])
        if out.decode("latin1") != want:
            bad.append("glob printed %r, expected %r" % (out, want))
    elif res == "build":
        k = real(c["cache"])
        if c["clean"]:
            exp = {f: t for f, t in exp.items() if not f.startswith(k + "/")}
        text = before[real(c["root"]) + "/f.txt"]
        exp[k + "/out"] = text
        if c["install"]:
            exp[k + "/inst"] = text
            exp[os.path.normpath(real(c["prefix"]) + "/" + c["dirs"]["INSTALL_BIN_DIR"]) + "/f.txt"] = text
        got = dict(m.groups() for m in re.finditer(r"echo: (\w+) \[(.*)\]\n", (out + err).decode("latin1")))
        want = {n: v for n, v in c["dirs"].items() if v != NONE}
        want["INSTALL_PREFIX"] = c["prefix"]
        want.update({n: c[n] for n in "ABX" if c[n] != NONE})
        if "X" in want:
            want["INSTALL_X"] = want.pop("X")
        if c["install"]:
            want["INSTALL_ENABLED"] = "1"
        got = {n: re.sub("^" + top, "/T", v) for n, v in got.items()}
        if c["dirs"]["INSTALL_LIB_DIR"] == NONE:
            if not got.pop("INSTALL_LIB_DIR", ""):
                bad.append("no INSTALL_LIB_DIR")
        if got != want:
            bad.append("values %s" % [(n, "is", got.get(n), "expected", want.get(n)) for n in sorted(set(got) | set(want)) if got.get(n) != want.get(n)])
    if after != exp:
        bad.append("files %s" % [(f, "is", after.get(f), "expected", exp.get(f)) for f in sorted(set(after) | set(exp)) if after.get(f) != exp.get(f)][:4])
    if not bad:
        return None
    return "%s (%s)\n%s" % ("; ".join(bad), " ".join(c["args"]), (out + err).decode("utf-8", "replace")[-300:])


def c26(ctx):
    ctx.assumptions = ["long names of options are given in full", "one folder of sources at most, options before commands", "HOME is set"]
    cs = [c for c in cli_lines(ctx, 2, 0, 1) if c["decided"]]
    r = ctx.rng("cli")
    n = len(cs)
    if ctx.thorough:
        for p in range(4):
            m = [c for c in cli_lines(ctx, 3, p, 4) if c["decided"] and len(c["args"]) > 2]
            n += len(m)
            cs += r.sample(m, min(len(m), 9000))
    else:
        m = [c for c in cli_lines(ctx, 3, r.randrange(12), 12) if c["decided"] and len(c["args"]) > 2]
        n += len(m)
        # most lines are wrong ones: fewer of them
        by = {}
        for c in cs + m:
            by.setdefault((c["res"], len(c["args"]), c.get("install"), c.get("clean")), []).append(c)
        cs = [c for k in sorted(by, key=str) for c in (by[k] if len(by[k]) <= 70 else r.sample(by[k], 70))]
    ctx.notes["lines_enumerated"] = n
    ctx.notes["lines_executed"] = len(cs)
    ctx.sample({"line": cs[len(cs) // 2]})
    bad = ctx.pmap(lambda c: one(ctx, c), cs)
    ctx.traces += len([b for b in bad if not b])
    for i, (c, b) in enumerate([(c, b) for c, b in zip(cs, bad) if b][:6]):
        ctx.violation("cli%d" % i, {"run": c, "observed": b, "again": one(ctx, c)}, "command line: " + b)


# ---------------------------------------------------------------- glob

FILES = ["a", "b", "ab", "ba", ".a", "a.b", "-", "c-]", "d/a", "d/b.a", "d/.b", "ac/b", "ac/a", "ac/d/a", "B", "[", "z"]


def patterns(ctx, size):
    cfg = akv.cfg_text(ctx, "glob%d.cfg" % size, "SPECIFICATION GSpec\nINVARIANTS Sorting Hidden Wider\nCHECK_DEADLOCK FALSE\nCONSTANT Size = %d\n" % size)
    r = akv.tlc(ctx, "AkGlobMC", cfg, workers=8, timeout=1500)
    if not r.ok:
        raise akv.CheckError("AkGlobMC: %s" % r.out[-3000:])
    res = {}
    for g in emitted(r, "GLOB"):
        if not (g["p"].startswith("-") and len(g["p"]) > 1):
            res[g["p"]] = g
    return [res[p] for p in sorted(res)]


def glob(ctx, d, key, gs):
    """The output of autark and the expected one."""
    args = {"r": ["glob"], "q": ["-C", "ac", "glob"], "Q": ["--dir=" + d + "/ac", "glob"]}[key]
    x = akv.run(ctx, [ctx.autark] + args + [g["p"] for g in gs], d, merge=False)
    return x.rc, x.out[0].decode("latin1"), "".join(n + "\n" for g in gs for n in g[key.lower()])


def c25(ctx):
    ctx.assumptions = ["names of files and patterns are ASCII", "the locale is C", "classes are lists and ranges of characters"]
    gs = patterns(ctx, ctx.budget(3, 4))
    r = ctx.rng("glob")
    d = ctx.scratch("g")
    for f in FILES:
        akv.put(os.path.join(d, f), f)
    os.mkdir(d + "/e")
    shutil.rmtree(d + "/e")
    jobs = []
    for key in "rq":
        q = list(gs)
        r.shuffle(q)
        i = 0
        while i < len(q):
            k = r.choice([1, 1, 2, 3, 10, 40])
            jobs.append((key if key == "r" else r.choice("qQ"), q[i:i + k]))
            i += k
    jobs += [(k, []) for k in "rqQ"]
    star = [g for g in gs if g["p"] == "*"]
    ctx.notes["patterns"] = len(gs)
    ctx.notes["runs"] = len(jobs)
    ctx.sample({"pattern": gs[len(gs) // 2]["p"], "files": gs[len(gs) // 2]["r"]})

    def chk(j):
        rc, out, want = glob(ctx, d, j[0], j[1])
        if not j[1]:
            want = "".join(n + "\n" for n in star[0][j[0].lower()])
        if rc != 0 or out != want:
            return "glob %s: status %s, printed %r, expected %r" % (" ".join(g["p"] for g in j[1]), rc, out[:300], want[:300])
    for n, (j, b) in enumerate([(j, b) for j, b in zip(jobs, ctx.pmap(chk, jobs)) if b][:6]):
        small = [g for g in j[1] if (lambda x: x[0] != 0 or x[1] != x[2])(glob(ctx, d, j[0], [g]))][:3]
        ctx.violation("glob%d" % n, {"files": FILES, "at": j[0], "patterns": [g["p"] for g in (small or j[1])], "observed": b}, b)
    ctx.traces += len(jobs)


REGISTRY = {"C25": c25, "C26": c26}
