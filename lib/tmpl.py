"""Templates: small ones are enumerated by spec/AkTemplateMC.tla with their results, others are random and get their
results from spec/AkTemplateTrace.tla. All are expanded by real builds and compared byte for byte."""
import json, os, re, shutil
import akv

MODES = [0o644, 0o755, 0o600, 0o444, 0o640, 0o555]
ENV1 = {"A": ["v@A@w"], "L": ["a", "b \"c"], "E": [""]}
ENV2 = {"A": ["w"], "U": ["u"], "AA": ["1"], "A A": ["sp"]}


def filler(n, k):
    """Text without blanks, quotes and @ of n bytes."""
    s = "".join("%d/%d;" % (k, i) for i in range(0, n // 4 + 1))
    return ("#" + s)[:n]


def expand(q, words):
    return b"".join((words[p] if p in words else p).encode("utf-8", "surrogateescape") for p in q)


class Tpl:
    """pieces, results with two environments"""

    def __init__(self, tpl, outs=None, envs=(ENV1, ENV2), words=None):
        self.tpl, self.outs, self.envs, self.words = tpl, outs, envs, words or {}

    def text(self):
        return expand(self.tpl, self.words)


def qt(s):
    return "'%s'" % s.replace("\\", "\\\\") if re.search(r"[\s{}\"]", s) or not s else s


def project(ctx, ts, r):
    """Builds a project of templates which share environments; yields mismatches."""
    d = ctx.scratch("t")
    root = os.path.join(d, "p")
    os.mkdir(root)
    os.chown(root, akv.UID, akv.UID)
    envs, words = ts[0].envs, ts[0].words
    names = []
    body = ""
    opts = []
    w = lambda x: words.get(x, x)
    for n, e in enumerate(envs):
        lists = {k: v for k, v in e.items() if len(v) > 1}
        for k, v in lists.items():
            body += "if { eq { ${WHICH} %d } set { %s %s } }\n" % (n, w(k), " ".join("'%s'" % w(x) for x in v))
        opts.append(["-DWHICH=%d" % n] + ["-D%s=%s" % (w(k), w(v[0])) for k, v in e.items() if len(v) == 1])
    i = 0
    while i < len(ts):
        grp = []
        for t in ts[i:i + r.choice([1, 1, 1, 5, 20])]:
            n = r.choice(["t%d.txt.in", "t%d.in", "d/t%d.h.in", "t%d.in.in", "t%d.cfg", "t %d.txt.in"]) % i
            grp.append(n)
            names.append(n)
            akv.put(os.path.join(root, n), t.text(), r.choice(MODES))
            i += 1
        body += "configure { %s }\n" % " ".join(qt(x) for x in grp)
    akv.put(os.path.join(root, "Autark"), body)
    src = snap(root, skip="autark-cache")
    bad = []
    last = None
    for b, n in enumerate([0, 0, 1, 1, 0]):
        x = akv.run(ctx, [ctx.autark] + opts[n], root)
        if x.rc != 0:
            bad.append((0, "exit status %d in build %d: %s" % (x.rc, b, x.out.decode("utf-8", "replace")[-400:])))
            break
        cur = snap(os.path.join(root, "autark-cache"))
        if b in (1, 3) and cur != last:
            bad.append((0, "rewritten by build %d without changes: %s" % (b, [k for k in cur if cur[k] != last.get(k)][:5])))
        last = cur
        for k, (t, nm) in enumerate(zip(ts, names)):
            out = os.path.join(root, "autark-cache", nm[:-3] if nm.endswith(".in") else nm)
            want = expand(t.outs[n], t.words)
            try:
                with open(out, "rb") as f:
                    got = f.read()
            except OSError as e:
                bad.append((k, "build %d: %s" % (b, e)))
                continue
            if got != want:
                p = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                bad.append((k, "build %d (%s): %d bytes instead of %d, differ at %d: %r instead of %r" % (
                    b, nm, len(got), len(want), p, got[max(0, p - 20):p + 40], want[max(0, p - 20):p + 40])))
            elif os.stat(out).st_mode != os.stat(os.path.join(root, nm)).st_mode:
                bad.append((k, "build %d (%s): mode of the template is not preserved" % (b, nm)))
        if bad:
            break
    if not bad and snap(root, skip="autark-cache") != src:
        bad.append((0, "templates were changed"))
    shutil.rmtree(d, ignore_errors=True)
    return bad


def snap(root, skip=None):
    res = {}
    for d, dn, fn in os.walk(root):
        if skip in dn and d == root:
            dn.remove(skip)
        for f in fn:
            if f.startswith("."):
                continue
            p = os.path.join(d, f)
            s = os.lstat(p)
            res[os.path.relpath(p, root)] = (s.st_mtime_ns, s.st_ino, s.st_size, s.st_mode)
    return res


def replay(ctx, ts, label, size=90):
    groups = [(i, ts[i:i + size]) for i in range(0, len(ts), size)]

    def one(g):
        try:
            return g, project(ctx, g[1], ctx.rng("tpl", label, g[0]))
        except UnicodeError as e:
            raise akv.CheckError(str(e))
    k = 0
    for (i, g), bad in ctx.pmap(one, groups):
        ctx.traces += len(g) - len({b[0] for b in bad})
        for n, msg in bad[:2]:
            # Alone once more
            again = project(ctx, [g[n]], ctx.rng("tpl", label, "again")) if len(g) > 1 else None
            k += 1
            if k <= 6:
                ctx.violation("%s%d" % (label, i + n), {"template": g[n].tpl, "words": {x: len(y) for x, y in g[n].words.items()},
                              "envs": g[n].envs, "expected": g[n].outs, "observed": msg, "alone": again}, "%s: %r: %s" % (label, g[n].tpl[:40], msg))
    ctx.evals += len(ts)


def enumerated(ctx, size, mode):
    cfg = akv.cfg_text(ctx, "tpl%d%s.cfg" % (size, mode), "SPECIFICATION MCSpec\nINVARIANTS Lines Verbatim Pairs Only\nCHECK_DEADLOCK FALSE\n"
                       "CONSTANTS\n Size = %d\n Mode = \"%s\"\n" % (size, mode))
    r = akv.tlc(ctx, "AkTemplateMC", cfg, workers=4, timeout=1500)
    if not r.ok:
        raise akv.CheckError("AkTemplateMC: %s" % r.out[-3000:])
    res = []
    for l in r.out.split("\n"):
        m = re.match(r'<<"TPL", (".*")>>$', l)
        if m:
            t, a, b = json.loads(json.loads(m.group(1)))
            if t:
                res.append(Tpl(t, (a, b)))
    if len(res) * 2 + (mode == "free") < r.distinct - 2:
        raise akv.CheckError("AkTemplateMC: %d templates of %d states" % (len(res), r.distinct))
    return res


# ---------------------------------------------------------------- random templates

SIZES = [1, 2, 100, 1022, 1023, 1024, 4094, 4095, 4096, 8191, 16383, 16384, 16385, 40000, 70000]


def env_of(r, words):
    e = {}
    vals = ["", "1", "0", "v", "a b", "x=y", "@A@", "@", "\"", "q\"r", "\\", "\\n", "%s%d", "${A}", "&", "'", "tab\tx", "//autarkdef A", "l1\nl2", "$A"]
    for n in ["A", "B", "C", "AB", "a.b", "x-y", "A A", "L", "M"]:
        if r.random() < 0.6:
            if n in "LM":
                e[n] = [r.choice(["p", "q r", "s\"", "@B@", "-I/x"]) for _ in range(r.randint(2, 4))]
            else:
                e[n] = [r.choice(vals) if r.random() < 0.9 else r.choice([w for w in words])]
    return e


def batch(r, n):
    """Random templates sharing environments."""
    words = {"#w%d" % i: filler(r.choice(SIZES), i) for i in range(4)}
    words["#u"] = "žluť"
    words["#c"] = "C\x7f\x1b"
    words["#p"] = "%s%n"
    envs = (env_of(r, words), env_of(r, words))
    names = ["A", "B", "C", "AB", "a.b", "x-y", "L", "M", "U", "NOPE"]
    ts = []
    for _ in range(n):
        q = []
        for _ in range(r.randint(0, 6)):
            x = r.random()
            if x < 0.3:
                q += ["//autarkdef"] + [" "] * r.choice([1, 1, 1, 2, 0]) + r.choice([[], [r.choice(["\t", " "])]])
                q += [r.choice(names)] + r.choice([[], [" ", "\"", "x", "\""], ["\t", "\""], [" ", "1"], [" ", "0", "x", " ", "y"], [" ", "x"], [" ", " ", "9"], [" ", "@", "A", "@"], [" "]])
                if r.random() < 0.2:
                    q += [r.choice(list(words))]
            else:
                for _ in range(r.randint(0, 6)):
                    y = r.random()
                    if y < 0.45:
                        q += ["@", r.choice(names), "@"]
                    elif y < 0.6:
                        q += [r.choice(["@", " ", "\t", "\"", "x", "//autarkdef", "{", "\\", "'", "#", "$", "1"])]
                    elif y < 0.8:
                        q += [r.choice(list(words))]
                    else:
                        q += [r.choice(names)]
            q += r.choice([["\n"], ["\n"], ["\n"], ["\r", "\n"], ["\n", "\n"], []])
        ts.append(Tpl(q, None, envs, words))
    return ts


def results(ctx, ts):
    """Results of templates by the specification."""
    f = os.path.join(ctx.tmp, "tp%d.ndjson" % id(ts))
    cs = []
    with open(f, "w") as fh:
        for t in ts:
            for e in t.envs:
                fh.write(json.dumps({"tpl": t.tpl, "vs": e}) + "\n")
    r = akv.tlc(ctx, "AkTemplateTrace", "AkTemplateTrace.cfg", {"CASES": f})
    os.unlink(f)
    if not r.ok:
        raise akv.CheckError("AkTemplateTrace: %s" % r.out[-3000:])
    outs = {}
    for x in akv.printed(r.out, "OUT"):
        m = re.match(r'<<\s*"OUT",\s*(\d+),\s*(".*")\s*>>$', x, re.S)
        outs[int(m.group(1)) - 1] = json.loads(json.loads(m.group(2)))
    for i, t in enumerate(ts):
        t.outs = (outs[2 * i], outs[2 * i + 1])


def c11(ctx):
    ctx.assumptions = ["templates are texts without NUL bytes", "lines of templates are separated by newlines"]
    n = ctx.budget(4, 5)
    ts = enumerated(ctx, n, "free") + enumerated(ctx, n, "dir")
    ctx.notes["templates_enumerated"] = len(ts)
    ctx.sample({"template": ts[len(ts) // 2].tpl, "result": ts[len(ts) // 2].outs[0]})
    replay(ctx, ts, "small")
    k, nb = ctx.budget(24, 600), 40
    bs = [batch(ctx.rng("rt", i), nb) for i in range(k)]
    for i in range(0, k, 8):
        ctx.pmap(lambda b: results(ctx, b), bs[i:i + 8])
    ctx.sample({"template": bs[0][0].tpl, "envs": bs[0][0].envs})
    flat = [t for b in bs for t in b]
    ctx.notes["templates_random"] = len(flat)
    replay(ctx, flat, "random", nb)


TECH = "TLA+ specification of template expansion (AkTemplate): TLC enumerates short templates with expected results, random ones get theirs from the specification; real builds are compared byte for byte"
REGISTRY = {"C11": c11}
