"""Language of Autark scripts: random projects are built by the real program; printed messages and executed commands
are validated against spec/AkLang.tla, which starts from the same texts."""
import json, os, re, shutil, threading, time
import akv
from akv import UID

_lock = threading.Lock()


def av(ctx):
    """Test commands av, pv, pf."""
    with _lock:
        p = os.path.join(ctx.bin, "av")
        if not os.path.exists(p):
            import subprocess
            r = subprocess.run(["gcc", "-O1", "-w", "-o", p, os.path.join(akv.VERIF, "lib", "av.c")], capture_output=True, text=True)
            if r.returncode:
                raise akv.CheckError("cannot build av: %s" % r.stderr[-2000:])
            for n in ("pv", "pf"):
                shutil.copy(p, os.path.join(ctx.bin, n))


def events(data):
    """Events from the combined log of messages and commands."""
    ev = []
    cur = None
    for l in data.decode("utf-8", "surrogateescape").split("\n"):
        if l.startswith("\x1eX\x1f"):
            f = l[3:].split("\x1f")
            cwd = f[0]
            ev.append(["X", cwd] + [x.replace("\x1d", "\n") for x in f[1:]])
            cur = None
        elif re.match(r"(INFO|WARN|FATAL|ERROR|VERBOSE) ", l):
            m = re.match(r"INFO    \S+:\d+\s+(?:(?:\.\.)?!?echo|init|setup|build): (.*)$", l, re.S)
            if m:
                cur = ["I", m.group(1)]
                ev.append(cur)
            else:
                cur = None
        elif cur is not None:
            cur[1] += "\n" + l
    for e in ev:
        for i in range(1, len(e)):
            e[i] = e[i].replace("\x01", "\f")
    return ev


class Case:
    def __init__(self, files, opts=(), os_=None, libs=()):
        self.files, self.opts, self.os, self.libs = files, list(opts), dict(os_ or {}), list(libs)

    def execute(self, ctx, timeout=20):
        d = ctx.scratch("l")
        # Paths above of the root directory are also seen
        root, home = os.path.join(d, TOP), os.path.join(d, "h")
        self.top = d
        for x in (root, home):
            os.makedirs(x)
            os.chown(x, UID, UID)
        for p, t in self.files.items():
            akv.put(os.path.join(root, p), t, 0o755 if p.endswith(".sh") else 0o644)
        # Directories and files which are not programs do not hide programs
        for k, x in enumerate(sorted({os.path.dirname(os.path.join(root, p)) for p in self.files})):
            for y, t in (("av", k), ("pv", k + 1)):
                y = os.path.join(x, y)
                if not os.path.exists(y):
                    if (t + len(self.files["Autark"])) % 3 == 0:
                        os.makedirs(y)
                    elif (t + len(self.files["Autark"])) % 3 == 1:
                        akv.put(y, "#!/bin/sh\nexit 3\n", 0o644)
        for l in self.libs:
            akv.put(l.replace("~", os.path.join(home, ".local"), 1) if l[0] == "~" else os.path.join(root, l), "lib")
        log = os.path.join(d, "log")
        open(log, "w").close()
        os.chown(log, UID, UID)
        e = dict(self.os)
        e.update({"AV_OUT": log, "HOME": home})
        args = [ctx.autark] + ["-D%s=%s" % (k, v) if v is not None else "-D%s" % k for k, v in self.opts]
        args += getattr(self, "args", [])
        with open(log, "ab") as f:
            r = akv.run(ctx, args, root, e, timeout=timeout, stderr=f)
            for t in getattr(self, "edits", []):
                if r.timeout or r.rc not in (0, 254):
                    break
                akv.put(os.path.join(root, t), self.files[t] + "\n")
                r = akv.run(ctx, args, root, e, timeout=timeout, stderr=f)
        with open(log, "rb") as f:
            data = f.read()
        self.raw = data
        self.rc = r.rc
        self.out = r.out
        self.hang = r.timeout
        self.root, self.home = root, home
        self.ev = events(data)
        shutil.rmtree(d, ignore_errors=True)
        return self

    def data(self):
        osv = dict(self.os)
        return {"root": self.root, "files": self.files, "opts": [[k, v if v is not None else ""] for k, v in self.opts], "os": osv,
                "libs": [l.replace("~", self.home + "/.local", 1) if l[0] == "~" else self.root + "/" + l for l in self.libs], "home": self.home, "ev": self.ev, "ok": self.rc == 0}

    def show(self):
        d = self.data()
        d["log"] = self.raw.decode("utf-8", "replace")[-4000:]
        d["rc"] = self.rc
        return d


def validate(ctx, cases, batch=150, cover=False):
    """Returns [(index, what the specification says)]."""
    groups = [list(range(i, min(i + batch, len(cases)))) for i in range(0, len(cases), batch)]

    def one(g):
        f = os.path.join(ctx.tmp, "lc%d_%d.ndjson" % (id(cases), g[0]))
        with open(f, "w") as fh:
            for i in g:
                fh.write(json.dumps(cases[i].data()) + "\n")
        r = akv.tlc(ctx, "AkLangTrace", "AkLangTrace.cfg", {"CASES": f}, timeout=800, opts=["-coverage", "1"] if cover else [])
        os.unlink(f)
        bad = []
        for x in akv.printed(r.out, "BAD"):
            m = re.match(r'<<\s*"BAD",\s*(\d+),\s*(".*")\s*>>$', x, re.S)
            bad.append((g[int(m.group(1)) - 1], m.group(2)))
        if not r.ok:
            raise akv.CheckError("TLC: rc %d\n%s" % (r.rc, r.out[-4000:]))
        for k, v in (r.cov if cover else {}).items():
            ctx.actions[k] = ctx.actions.get(k, 0) + v
        return bad, len(g)
    res = []
    for bad, n in ctx.pmap(one, groups):
        seen = set()
        for i, x in bad:
            if i not in seen:
                seen.add(i)
                res.append((i, x))
        ctx.traces += n - len(seen)
    return sorted(res)


INVS = "Out Reprinted Shaken Tidy NoEarlyRun Quiet Chains AllBuilt"
TOP = "1/2/3/4/5/6/p"


def programs(ctx, fam, size, invs=""):
    """All programs of a family with their behaviours."""
    cfg = akv.cfg_text(ctx, "lm_%s_%s.cfg" % (fam, size), 'SPECIFICATION MSpec\nCONSTANTS Fam = "%s" Size = %s Emits = TRUE\n'
                       'INVARIANTS %s %s\nCHECK_DEADLOCK FALSE\n' % (fam, size, INVS, invs))
    r = akv.tlc(ctx, "AkLangMC", cfg, workers=8, timeout=850 if not ctx.thorough else 7200, mem="8g")
    if not r.ok:
        raise akv.CheckError("AkLangMC %s %s: %s\n%s" % (fam, size, r.violated, r.out[-6000:]))
    res = []
    for l in r.out.split("\n"):
        if l.startswith('<<"CASE", '):
            res.append(json.loads(json.loads(l[10:-2])))
    ctx.notes["programs_" + fam + str(size)] = len(res)
    return res


def replay(ctx, progs, label):
    """Behaviours of the specification are replayed on the real program."""
    def one(p):
        c = Case(p["files"] if isinstance(p["files"], dict) else {}, [tuple(o) for o in p["opts"]], {}).execute(ctx)
        want = [[x.replace("/T/", c.top + "/") for x in e] for e in p["ev"]]
        return c, c.rc == (0 if p["ok"] else 254) and c.ev == want and not c.hang, want
    rs = ctx.pmap(one, progs)
    ctx.evals += len(progs)
    ctx.traces += len(progs)
    n = 0
    for p, (c, ok, want) in zip(progs, rs):
        if not ok and n < 5:
            c, ok, want = one(p)
            if ok:
                print("note: mismatch of %s was not repeated" % label)
                continue
            n += 1
            d = c.show()
            d["expected"] = want
            d["expected_ok"] = p["ok"]
            ctx.violation("%s-%d" % (label, n), d, "%s: %s\n  expected %s %s\n  real %s rc %s" % (
                label, json.dumps(p["files"])[:800], p["ok"], json.dumps(want)[:600], json.dumps(c.ev)[:600], c.rc))
    if progs:
        ctx.sample({"program": progs[len(progs) // 2]})


def check_cases(ctx, cases, label="case", batch=150):
    ctx.pmap(lambda c: c.execute(ctx), cases)
    ctx.evals += len(cases)
    bad = validate(ctx, cases, batch)
    # All statuses but 0 and 254 are crashes
    bad = dict(bad)
    for i, c in enumerate(cases):
        if c.hang or c.rc not in (0, 254):
            bad.setdefault(i, "exit status %s, %s" % (c.rc, "killed after timeout" if c.hang else ""))
    for i in sorted(bad)[:6]:
        c = minimize(ctx, cases[i]) if getattr(cases[i], "trees", None) and ctx.elapsed() < 240 else cases[i]
        c.execute(ctx)
        again = validate(ctx, [c])
        if not again and not c.hang and c.rc in (0, 254):
            print("note: mismatch of %s %d was not repeated" % (label, i))
            continue
        d = c.show()
        d["spec"] = again[0][1] if again else bad[i]
        ctx.violation("%s%d" % (label, i), d, "%s %d: spec %s\n  real %s rc %s" % (label, i, d["spec"][:500], json.dumps(c.ev)[:500], c.rc))
    return bad


# ---------------------------------------------------------------- random scripts

SAFE = ["a", "b", "c1", "x", "yy", "0", "1", "f.c", "d/e.o", "-I.", "-DX=1", "main"]
ODD = ["", "a b", " a", "it's", 'say "x"', "#c", "{", "}", "\\", "a\\b", "\t", "x\ny", "..", "..a", "!a", "$x", "&&", "^", "%", "@", "=", ",", "a;b",
       "*", "else", "~", "'q'", "a#b", "é"][:-1]


def word(w, r=None):
    """Text of a plain value."""
    def esc(s):
        return "".join({"{": "\\{", "}": "\\}", "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c) for c in s)
    opts = []
    if w and " " not in w and w[0] not in "'\"#":
        opts += [esc(w)] * 4
    if "'" not in w:
        opts.append("'%s'" % w)
    if '"' not in w:
        opts.append('"%s"' % w)
    if not opts:
        opts = [esc(w.replace("'", "").replace(" ", "_"))]
    return r.choice(opts) if r else opts[0]


class LangGen:
    """Random scripts. Trees are ("v", text) or ("r", name, [children])."""

    def __init__(self, r, **prof):
        self.r = r
        self.p = dict(depth=3, rules=9, odd=0.15, lists=0.3, cond=1.0, macros=0.5, units=0.4, run=1.0, echo=1.6, let=0.35, paths=0.3, proc=0.15,
                      foreach=0.25, env=0.25, meta=0.15, insrc=0.2, fail=0.06, spread=0.5, shell=0.25, err=0.04, noise=0.25, lib=0.1, bag=0.05)
        self.p.update(prof)
        self.sets = ["A", "B", "C", "D"]
        self.lets = ["L", "M1", "N"]
        self.opts_ = ["O1", "O2", "O3"]
        self.envs = ["E1", "E2"]
        self.safe = ["F", "G"]
        self.macros = []       # (name, number of args)
        self.fe = None
        self.inmacro = 0
        self.inproc = 0
        self.margs = 0

    def ch(self, p):
        return self.r.random() < p

    def v(self, s):
        return ("v", s)

    def lit(self):
        return self.v(self.r.choice(ODD) if self.ch(self.p["odd"]) else self.r.choice(SAFE))

    def anyvar(self):
        r = self.r
        k = r.random()
        if self.fe and k < 0.35:
            return self.fe
        if k < 0.55:
            return r.choice(self.sets)
        if k < 0.72:
            return r.choice(self.lets)
        if k < 0.84:
            return r.choice(self.opts_)
        if k < 0.93:
            return r.choice(self.envs)
        return r.choice(self.safe + ["UNDEF", "META_NAME", "META_VERSION", "LV", "LIB", "UNIT_DIR", "AUTARK_ROOT_DIR", "UNIT_CACHE_DIR"])

    def var(self, d=0):
        c = [self.v(self.anyvar())]
        if self.ch(0.25):
            c.append(self.value(d - 1) if self.ch(0.6) else self.lit())
        return ("r", "$", c)

    def value(self, d, inset=False, nolist=False):
        """An expression."""
        r, p = self.r, self.p
        if d <= 0 or self.ch(0.3):
            if self.inmacro and self.ch(0.5):
                return self.placeholder()
            return self.lit() if self.ch(0.55) else self.var(0)
        k = r.random()
        if k < 0.42:
            x = self.var(d)
        elif k < 0.56:
            x = ("r", "^", [self.value(d - 1, nolist=True) for _ in range(r.randint(1, 3))])
        elif k < 0.56 + 0.25 * p["paths"]:
            x = self.path(d)
        elif k < 0.64 + 0.2 * p["proc"] and not (self.inproc and self.fe):
            self.inproc += 1
            x = ("r", r.choice(["@", "@", "@@"]), [self.v("pf" if self.ch(p["fail"] * 0.3) else "pv")] + [self.value(d - 1) for _ in range(r.randint(1, 3))])
            self.inproc -= 1
        elif k < 0.75:
            x = ("r", "set", [self.v("_")] + self.values(d - 1, inset=True))
        elif k < 0.80 and p["lib"]:
            x = ("r", "library", [self.v("LIB"), self.v(r.choice(["libzz1.a", "libzz2.a", "libnone.a"]))])
        else:
            return self.lit()
        if inset and self.ch(p["spread"]):
            x = ("r", ".." + x[1], x[2])
        return x

    def path(self, d):
        r = self.r
        if self.ch(0.5):
            return ("r", "%", [self.value(d - 1) if self.ch(0.4) else self.v(r.choice(["main.o", "d.x/f", "../q", "a.b.c", "noext", "./x.c", "d/e.f/g.h"]))]
                    + ([self.v(r.choice([".c", ".o", "", "_x"]))] if self.ch(0.5) else []))
        return ("r", r.choice(["S", "C", "SS", "CC"]), [self.v(r.choice(["a", "b/c", "..", "./x", "../y/", "/abs/z", "", "q//w", "..x", "x..", "...", ".x/..y", "a/../../b", "a/."])) if self.ch(0.7) else self.value(d - 1)
                                                       for _ in range(r.randint(0, 3))])

    def values(self, d, lo=0, hi=3, inset=False):
        res = []
        for _ in range(self.r.randint(lo, hi)):
            k = self.r.random()
            if k < 0.12 * self.p["cond"] and d > 0:
                res += self.cond_block(d, lambda dd: self.values(dd, 0, 2, inset))
            elif k < 0.2 and self.macros and d > 0 and self.ch(self.p["macros"]):
                m = self.r.choice(self.macros)
                if m[2] == "v":
                    res.append(self.call(m, d))
                else:
                    res.append(self.value(d, inset))
            elif k < 0.24 and d > 0 and self.ch(self.p["insrc"]):
                res.append(("r", "in-sources", self.values(d - 1, 1, 2, inset)))
            else:
                res.append(self.value(d, inset))
        return res

    def placeholder(self):
        if self.ch(0.3):
            return ("r", "&", [])
        return ("r", "&", [self.v(str(self.r.randint(1, max(1, self.margs))))])

    def cond(self, d):
        r = self.r
        k = r.random()
        neg = "!" if self.ch(0.3) else ""
        if k < 0.3 or d <= 0:
            x = self.var(0)
            return ("r", neg + x[1], x[2])
        if k < 0.45:
            return ("r", neg + "eq", [self.value(d - 1), self.value(d - 1)][:r.choice([2, 2, 2, 2, 2, 1, 0])])
        if k < 0.53:
            return ("r", neg + "prefix", [self.value(d - 1), self.value(d - 1)])
        if k < 0.61:
            return ("r", neg + "contains", [self.value(d - 1), self.value(d - 1)])
        if k < 0.75:
            return ("r", neg + "defined", [self.v(self.anyvar()) for _ in range(r.randint(1, 3))])
        if k < 0.85:
            return ("r", neg + "or", [self.cond(d - 1) for _ in range(r.randint(0, 3))])
        if k < 0.95:
            return ("r", neg + "and", [self.cond(d - 1) for _ in range(r.randint(0, 3))])
        if k < 0.97:
            return self.lit()
        x = self.value(d)
        return x if x[0] == "v" else ("r", neg + x[1].lstrip("."), x[2])

    def cond_block(self, d, gen):
        res = [("r", "if", [self.cond(min(d, 2))] + gen(d - 1))]
        if self.ch(0.5):
            res.append(("r", "else", gen(d - 1)))
        return res

    def call(self, m, d):
        n = m[1]
        if self.ch(0.06):
            n -= 1
        elif self.ch(0.1):
            n += 1
        return ("r", "call", [self.v(m[0])] + [self.value(d - 1) for _ in range(max(0, n))])

    def rules(self, n, d):
        res = []
        for _ in range(n):
            res += self.rule(d)
        return res

    def rule(self, d):
        r, p = self.r, self.p
        ks = [("set", 2.2), ("let", 2.2 * p["let"]), ("env", p["env"]), ("echo", 2 * p["echo"]), ("run", p["run"]), ("if", p["cond"] * (d > 0)),
              ("macro", p["macros"] * (d > 1 and not self.inmacro)), ("call", 1.5 * p["macros"] * bool(self.macros)), ("meta", p["meta"]),
              ("foreach", p["foreach"] * (not self.fe)), ("insrc", p["insrc"] * (d > 0)), ("error", p["err"]), ("option", 0.05), ("bag", p["bag"] * (d > 0)),
              ("include", p["units"] * (d > 0) * (not self.inmacro)), ("library", p["lib"])]
        t = sum(w for _, w in ks)
        x = r.random() * t
        for k, w in ks:
            x -= w
            if x < 0:
                break
        return getattr(self, "r_" + k)(d)

    def name(self, n):
        if self.p["units"] and self.ch(0.15):
            return ("r", self.r.choice(["parent", "root"]), [self.v(n)])
        return self.v(n)

    def r_set(self, d):
        if self.ch(0.15):
            return [("r", "set", [self.name(self.r.choice(self.safe))] + [self.v(self.r.choice(SAFE)) for _ in range(self.r.randint(0, 3))])]
        n = self.r.choice(self.sets + (["E1"] if self.ch(0.3) else []) + (["O1"] if self.ch(0.3) else []))
        vs = self.values(d, 0, 4, True)
        if self.ch(0.3):
            x = ("r", "..$" if self.ch(0.7) else "$", [self.v(n)])
            vs.insert(self.r.randint(0, len(vs)), x)
        return [("r", "set", [self.name(n)] + vs)]

    def r_let(self, d):
        return [("r", "let", [self.name(self.r.choice(self.lets))] + self.values(d, 0, 4, True))]

    def r_env(self, d):
        return [("r", "env", [self.v(self.r.choice(["E3", "E1"]))] + self.values(d, 0, 3, True))]

    def r_echo(self, d):
        if self.ch(0.25):
            phs = self.r.sample(["init", "setup", "build"], self.r.randint(1, 3))
            return [("r", "echo", [("r", ph, self.values(d, 0, 3)) for ph in phs])]
        return [("r", "echo", self.values(d, 0, 4))]

    def r_run(self, d):
        r, p = self.r, self.p
        c = []
        for _ in range(r.randint(1, 2)):
            if self.ch(p["shell"]):
                w = []
                for i in range(r.randint(1, 3)):
                    if i:
                        w.append(self.v("&&"))
                    w.append(self.v("av"))
                    w += [self.v(r.choice(SAFE)) if self.ch(0.6) else ("r", "$", [self.v(r.choice(self.safe))]) for _ in range(r.randint(0, 3))]
                c.append(("r", "shell", w))
            else:
                c.append(("r", "exec", [self.v("pf" if self.ch(self.p["fail"]) else "nocmd" if self.ch(self.p["fail"] * 0.3) else "av")] + self.values(d, 0, 5)))
        if self.ch(0.15):
            c.insert(r.randint(0, len(c)), self.v("always"))
        return [("r", "run", c)]

    def r_if(self, d):
        return self.cond_block(d, lambda dd: self.rules(self.r.randint(0, 3), dd))

    def r_macro(self, d):
        n = self.r.randint(0, 3)
        kind = self.r.choice("vr")
        nm = "MC%d" % len(self.macros)
        self.inmacro, self.margs = 1, n
        body = (self.values(2, 0, 4) if kind == "v" else self.rules(self.r.randint(0, 3), d - 1))
        if n and self.ch(0.6):
            for _ in range(self.r.randint(1, 3)):
                x = self.placeholder()
                body.insert(self.r.randint(0, len(body)), x if kind == "v" else ("r", "echo", [self.v("arg"), x]))
        self.inmacro = 0
        if not n:
            body = strip_args(body)
        if self.ch(0.012):   # recursion which ends or not
            body.append(("r", "if", [("r", "!defined", [self.v("REC")]), ("r", "set", [self.v("REC"), self.v("1")]) if self.ch(0.6) else self.v("x"),
                                     ("r", "call", [self.v(nm)] + [self.v("z")] * n)]))
        self.macros.append((nm, n, kind))
        return [("r", "macro", [self.v(nm)] + body)]

    def r_call(self, d):
        ms = [m for m in self.macros if m[2] == "r"]
        return [self.call(self.r.choice(ms), d)] if ms else self.r_echo(d)

    def r_meta(self, d):
        r = self.r
        c = []
        for _ in range(r.randint(1, 3)):
            if self.ch(0.3):
                c.append(("r", "let", [self.v("LV")] + self.values(1, 1, 3)))
            else:
                c.append(("r", r.choice(["name", "version", "x-y"]), [self.v(self.r.choice(SAFE)) for _ in range(r.randint(0, 3))]))
        return [("r", "meta", c)]

    def r_foreach(self, d):
        lst = ("r", "set", [self.v("_")] + self.values(1, 0, 4, True)) if self.ch(0.6) else self.var(1)
        self.fe = "FV"
        body = []
        for _ in range(self.r.randint(1, 2)):
            body += self.r_run(d) if self.ch(0.85) else self.r_echo(d)
        self.fe = None
        return [("r", "foreach", [self.v("FV") if self.ch(0.95) else ("r", "$", [self.v("UNDEF"), self.v("FV")]), lst] + body)]

    def r_insrc(self, d):
        return [("r", "in-sources", self.rules(self.r.randint(0, 2), d - 1))]

    def r_error(self, d):
        return [("r", "error", self.values(1, 0, 3))]

    def r_option(self, d):
        return [("r", "option", [self.v("O1"), self.v("text"), self.v("more")])]

    def r_bag(self, d):
        return [("r", "group", self.rules(self.r.randint(0, 2), d - 1))]

    def r_include(self, d):
        if len(self.files) >= 3:
            return self.r_set(d)
        n = len(self.files)
        pre = self.cur
        rel = self.r.choice(["inc%d.ak" % n, "sub%d/Autark" % n, "sub%d/in/x.ak" % n])
        me = os.path.normpath(os.path.join(pre, rel))
        self.files[me] = None
        ms, self.macros = self.macros, []
        self.cur = os.path.dirname(me)
        self.trees[me] = self.rules(self.r.randint(1, 5), d - 1)
        self.files[me] = self.render(self.trees[me])
        self.cur = pre
        self.macros = ms
        if self.ch(0.02):
            del self.files[me]
        return [("r", "include", [self.v(rel)] if self.ch(0.8) else [("r", "^", [self.v(rel)])])]

    def r_library(self, d):
        return [("r", "library", [self.name("LIB")] + [self.v(self.r.choice(["libzz1.a", "libzz2.a", "libnone.a"])) for _ in range(self.r.randint(1, 2))])]

    # ---- text
    def gap(self, nl=0.3):
        r = self.r
        k = r.random()
        if k > self.p["noise"]:
            return " " if r.random() > nl else "\n"
        return r.choice(["  ", "\t", "\n\n", "\n  ", " \n", "\r\n", "\n# comment { 'x\n", "\n  #\n\t", " \t "])

    def render1(self, x):
        if x[0] == "v":
            return word(x[1], self.r)
        s = "".join({"{": "\\{", "}": "\\}", "\\": "\\\\"}.get(c, c) for c in x[1])
        s += self.r.choice(["{", "{", " {", "\n{"]) if self.ch(self.p["noise"]) else " {"
        for i, c in enumerate(x[2]):
            s += (self.r.choice(["", " "]) if i == 0 else self.gap()) + self.render1(c)
        return s + (self.gap() if self.ch(0.5) else "") + "}"

    def render(self, rules):
        return self.gap() + "".join(self.render1(x) + (self.gap(0.9) if self.ch(0.95) else "") for x in rules)

    def libs(self):
        ds = {"autark-cache"} | {os.path.join("autark-cache", os.path.dirname(f)) for f in self.files if os.path.dirname(f)}
        at = ["~/lib", "~/lib64"] + [d + x for d in sorted(ds) for x in ("/lib", "/lib64")]
        return [d + "/" + l for l in ("libzz1.a", "libzz2.a") for d in at if self.ch(0.5 if d == "~/lib" else 0.15)]

    def case(self):
        r = self.r
        self.files = {"Autark": None}
        self.trees = {}
        self.cur = ""
        rs = self.rules(r.randint(2, self.p["rules"]), self.p["depth"])
        if not any(x[1] in ("echo", "run") for x in rs):
            rs += self.r_echo(2)
        self.trees["Autark"] = rs
        self.files["Autark"] = self.render(rs)
        opts = [(o, r.choice(["v", "0", "1", "", None, "a b", "x=y"])) for o in self.opts_ if self.ch(0.4)]
        e = {k: r.choice(["ev", "0", "", "p q"]) for k in self.envs if self.ch(0.5)}
        c = Case(self.files, opts, e, self.libs() if self.p["lib"] else [])
        c.trees = self.trees
        return c


class WildGen(LangGen):
    """Scripts with all rules, and with any values at any places of them."""

    FILES = ["main.c", "d/f.c", "t.in", "d/u.h.in", "x.txt", "nofile", "gen.c", "out.txt"]

    def files_(self, lo=0, hi=3):
        res = []
        for _ in range(self.r.randint(lo, hi)):
            res.append(self.v(self.r.choice(self.FILES)) if self.ch(0.6) else self.value(2, self.ch(0.3)))
        return res

    def part(self, name, gen):
        return [("r", name, gen())] if self.ch(0.75) else []

    def mix(self, ps):
        self.r.shuffle(ps)
        if self.ch(0.1):
            ps.append(self.value(1))
        if self.ch(0.08):
            ps.append(self.rule(0)[0])
        if self.ch(0.1) and ps:
            ps.append(self.r.choice(ps))
        return ps

    def rule(self, d):
        r = self.r
        if self.ch(0.5):
            return super().rule(d)
        k = r.randint(0, 11)
        if k <= 1:
            return [("r", r.choice(["cc", "cxx"]), self.mix(self.files_(0, 1) + ([("r", "set", [self.v("_")] + self.files_())] if self.ch(0.5) else [])
                     + self.part("objects", lambda: [self.v(r.choice(["OBJ", "A", ""]))] if self.ch(0.8) else self.values(1))
                     + self.part("consumes", self.files_) + ([("r", "cc", self.values(1, 0, 2))] if self.ch(0.3) else []) + self.values(1, 0, 2)))]
        if k <= 3:
            return [("r", r.choice(["run", "run", "run-on-install"]), self.mix(self.part("produces", self.files_) + self.part("consumes", self.files_)
                     + self.part("exec", lambda: [self.v("av")] + self.values(2)) + self.part("shell", lambda: [self.v("av")] + self.values(2))))]
        if k == 4:
            return [("r", "configure", self.mix(self.files_(0, 4)))]
        if k <= 6:
            return [("r", "check", self.mix([("r", r.choice(["c.sh", "d.sh", "no.sh"]), self.values(1)) if self.ch(0.7) else self.v(r.choice(["c.sh", "no.sh"]))
                                             for _ in range(r.randint(0, 2))]))]
        if k == 7:
            return [("r", "install", self.mix([self.value(2)] + self.files_()))]
        if k == 8:
            return [("r", "find", self.values(1))] if self.ch(0.5) else [("r", "library", self.values(2, 0, 3))]
        if k == 9 and not self.fe:
            self.fe = "FV"
            b = [self.v("FV"), self.value(2)] + self.rule(d) + self.rules(r.randint(0, 1), d)
            self.fe = None
            return [("r", "foreach", b if self.ch(0.9) else b[r.randint(0, 2):])]
        if k == 10:
            names = ["set", "let", "env", "run", "macro", "call", "if", "include", "foreach", "meta", "option", "echo", "check", "library", "configure", "install", "cc",
                     "in-sources", "else", "error", "find", "exec", "$", "@", "@@", "%", "^", "S", "CC", "&", "parent", "root"]
            return [("r", r.choice(["", "", "..", "!"]) + r.choice(names), self.values(2, 0, 3) if self.ch(0.8) else self.rules(r.randint(0, 2), d - 1))]
        return [("r", "meta", [("r", r.choice(["name", "version", "maintainer"]), self.values(2, 0, 3)) for _ in range(r.randint(0, 3))])]

    def case(self):
        c = super().case()
        c.files.update({"main.c": "int main() { return 0; }\n", "d/f.c": "#include <x.h>\n", "t.in": "@A@ @B@ x\n//autarkdef A\n//autarkdef L 1\n",
                        "d/u.h.in": "a@b @UNDEF@ @\n", "x.txt": "x", ".autark/c.sh": "#!/bin/sh\nautark set A=1 \"B=$1\"\nautark dep main.c\nautark env E1\n",
                        ".autark/d.sh": "#!/bin/sh\nautark set \"$@\"\n"})
        c.os["CC"] = self.r.choice(["av", "av", "", "av x", "nocmd"])
        c.trees = None
        c.edits = self.r.choice([[], ["main.c"], ["t.in"], ["x.txt", "Autark"]])
        c.args = self.r.choice([[], [], ["-I"], ["-J2"], ["-l"], ["-Rinst"], ["-H", "cc"], ["-V"], ["-c"]])
        return c


PIECES = ["{", "}", "{", "}", " ", "\n", "\t", "'", '"', "\\", "#", "$", "..", "!", "&", "^", "@", "%", "\\n", "\\{", "\r", "x", "\n#", " {", "} ", "{}", "''", "else ",
          "if {", "set {A ", "_", "\x7f", "\xe9", "&{1}"]


def mutate(c, r):
    """Damages texts of scripts."""
    for f in list(c.files):
        t = c.files[f]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            i, j = sorted((r.randint(0, len(t)), r.randint(0, len(t))))
            k = r.random()
            if k < 0.35:
                t = t[:i] + t[i + 1:]
            elif k < 0.7:
                t = t[:i] + r.choice(PIECES) + t[i:]
            elif k < 0.8:
                t = t[:i] + r.choice(PIECES) + t[i + 1:]
            elif k < 0.88:
                j = min(j, i + r.randint(1, 12))
                t = t[:i] + t[j:]
            elif k < 0.94:
                j = min(j, i + 20)
                t = t[:j] + t[i:j] + t[j:]
            elif k < 0.97:
                t = t[:i]
            else:
                a, b = t[:i], t[i:]
                t = b + a
        if r.random() < 0.15:   # sizes of buffers of the parser
            n = 1024
            while n < len(t.encode()):
                n *= 2
            n += r.choice([-1, 0, 0, 0, 1]) - len(t.encode())
            t = r.choice(["\n" * n + t, t + " " * n, "#" * max(0, n - 1) + "\n" + t])
        c.files[f] = t
    c.trees = None
    return c


def plain(x):
    """Plain text of a tree."""
    if x[0] == "v":
        return word(x[1])
    return "".join({"{": "\\{", "}": "\\}", "\\": "\\\\"}.get(c, c) for c in x[1]) + " {" + "".join(" " + plain(c) for c in x[2]) + " }"


def smaller(ts):
    """Lists of trees with one of nodes removed or replaced by its children."""
    for i, x in enumerate(ts):
        yield ts[:i] + ts[i + 1:]
        if x[0] == "r":
            if x[2] and x[2][0][0] == "r":
                yield ts[:i] + x[2] + ts[i + 1:]
            for y in smaller(x[2]):
                yield ts[:i] + [("r", x[1], y)] + ts[i + 1:]


def minimize(ctx, c, limit=60):
    """The smallest case with a mismatch which was found by removing nodes of scripts."""
    if not getattr(c, "trees", None):
        return c

    def mk(trees, opts, os_):
        k = Case({f: "\n".join(plain(x) for x in t) for f, t in trees.items()}, opts, os_, c.libs)
        k.trees = trees
        return k

    def fails(cs):
        ctx.pmap(lambda k: k.execute(ctx), cs)
        bad = {i for i, _ in validate(ctx, cs, batch=40)} | {i for i, k in enumerate(cs) if k.hang or k.rc not in (0, 254)}
        return [cs[i] for i in sorted(bad)]
    end = time.time() + 40
    best = mk(c.trees, c.opts, c.os)
    if not fails([best]):
        return c
    for _ in range(limit):
        if time.time() > end:
            break
        cand = []
        for f, t in best.trees.items():
            if f != "Autark":
                cand.append(mk({k: v for k, v in best.trees.items() if k != f}, best.opts, best.os))
            for y in smaller(t):
                cand.append(mk({**best.trees, f: y}, best.opts, best.os))
        for i in range(len(best.opts)):
            cand.append(mk(best.trees, best.opts[:i] + best.opts[i + 1:], best.os))
        cand.sort(key=lambda k: sum(len(x) for x in k.files.values()))
        ok = []
        for i in range(0, len(cand), 320):
            ok = fails(cand[i:i + 320])
            if ok:
                break
        if not ok:
            break
        best = ok[0]
    return best


def strip_args(b):
    return [("r", x[1], strip_args(x[2])) if x[0] == "r" else x for x in b if not (x[0] == "r" and x[1] == "&")]


# ---------------------------------------------------------------- checks

def randoms(ctx, n, label, mut=False, **prof):
    cs = []
    for i in range(n):
        r = ctx.rng(label, i)
        p = dict(prof)
        if r.random() < 0.4:
            p["depth"] = r.choice([1, 2, 4])
            p["rules"] = r.choice([3, 6, 12])
        if mut:
            p["shell"] = 0
        c = LangGen(r, **p).case()
        cs.append(mutate(c, r) if mut else c)
    check_cases(ctx, cs, label)
    if cs:
        ctx.sample({"random": cs[0].files})


def pick(ctx, ps, n, label):
    return ps if len(ps) <= n else ctx.rng("pick", label).sample(ps, n)


def lang_check(fams, rnd, prof, assume=()):
    """fams: (family, quick size or 0, thorough size or 0, invariants); rnd: numbers of random projects."""
    def f(ctx):
        ctx.assumptions = ["commands in scripts are the check's own programs which log their arguments"] + list(assume)
        av(ctx)
        for fam, q, t, invs in fams:
            n = t if ctx.thorough else q
            if n:
                replay(ctx, pick(ctx, programs(ctx, fam, n, invs), ctx.budget(2600, 60000), fam), fam)
        randoms(ctx, ctx.budget(rnd[0], rnd[1]), "random", **prof)
        scaled(ctx, ctx.budget(10 if ctx.prop == "C18" else 16, 240))
    return f


def s_calls(r, big):
    """Deep but finite recursion, then more calls; many calls; many arguments."""
    k = r.choice([0, 0, 1, 2, 3, 4])
    if k == 0:
        d = r.choice([90, 125, 126, 127, 128, 129] if big else [3, 20, 64, 65, 70])
        m = r.choice([1, 70, 70, 130])
        return ('macro { M if { !contains { &{1} %s } call { M ^{ x &{1} } } else { echo { b } } } }\n' % ("x" * d)
                + "call { M y }\n" + ("call { M %s }\n" % ("x" * d)) * m + "echo { end }\n")
    if k == 1:
        k = r.choice(["", "_"])
        n = r.choice([30, 60] if not k else [127, 128, 129] if not big else [200, 300])
        return "macro { M set { V%s ^{ ${V} &{2} } } }\n" % k + \
            "".join("call { M a%d b }\n" % i for i in range(n)) + "echo { ${V} ${V_} }\n"
    if k == 2:
        n = r.choice([10, 31, 32, 62, 63, 64, 65])
        ps = list(range(1, n + 1))
        r.shuffle(ps)
        a = " ".join("a%d" % i if r.random() < 0.7 else "${X}" for i in range(n))
        body = " ".join("&{%d}" % i for i in ps) if r.random() < 0.5 else " ".join("&" for _ in ps)
        return "set { X x }\nmacro { M echo { %s } %s }\ncall { M %s }\n" % (body, "run { exec { av &{%d} } }" % n, a)
    if k == 3:
        n = r.choice([100, 200] if big else [10, 30, 50])
        return "".join("macro { M%d call { M%d ^{ &{1} %d } } }\n" % (i, i + 1, i) for i in range(n)) + "macro { M%d echo { &{1} } }\ncall { M0 z }\n" % n
    n = r.choice([5, 40, 80])
    o, c = r.choice([("if { 1 ", "}"), ("in-sources { ", "}"), ("if { 0 } else { ", "}")])
    return "macro { M %s echo { &{1} } run { exec { av &{2} } } %s }\n" % (o * n, c * n) + "call { M a b }\ncall { M c d }\n"


def s_lists(r, big):
    n = r.choice([600, 1500] if big else [50, 127, 129, 255, 256, 257])
    w = ["e%d" % i if r.random() < 0.9 else "'a %d'" % i for i in range(n)]
    if r.random() < 0.3:
        w[r.randrange(n)] = "z" * r.choice([4095, 4096, 5000, 20000] if big else [1022, 1023, 1024, 2100])
    k = r.randint(0, 3)
    l = "set { L %s }\n" % " ".join(w)
    if k == 0:
        return l + "run { exec { av ${L} } }\necho { ${L} }\n"
    if k == 1:
        return l + "foreach { I ${L} run { exec { av ${I} } } }\n" if n < 300 else l + "set { K ${L} x ${L} }\necho { ${K} }\n"
    if k == 2:
        return "set { S '%s' }\nset { L ..{ ${S} } }\nrun { exec { av ${L} } }\n".replace("..{ ${S} }", "..${S}") % " ".join(x.strip("'") for x in w)
    return l + "echo { ^{ a ${L} } }\nset { K b ^{ c ${L} } }\nrun { exec { av ${K} } }\n".replace("^{ c ${L} }", "${L}").replace("^{ a ${L} }", "${L} !")


def s_conds(r, big):
    n = r.choice([60, 150] if big else [10, 40])
    c = r.choice(["1", "0", "''", "${X}", "defined { X }", "eq { a a }"])
    for i in range(n):
        k = r.random()
        c = "%s { %s }" % (r.choice(["!and", "and", "or", "!or"]), c) if k < 0.5 else "and { 1 %s }" % c if k < 0.75 else "or { 0 %s }" % c
    s = "set { X x }\nif { %s echo { yes } } else { echo { no } }\n" % c
    m = r.choice([30, 100] if big else [5, 30])
    s += "".join("if { eq { ${Y} %d } echo { %d } } else { " % (i, i) for i in range(m)) + "echo { last }" + " }" * m + "\n"
    return "set { Y %d }\n" % r.randint(0, m) + s


def s_vars(r, big):
    n = r.choice([127, 128, 300] if big else [15, 40, 60])
    k = r.randint(0, 2)
    if k == 0:    # A chain of definitions
        q = ["set { V%d ^{ ${V%d} %s } }\n" % (i, i + 1, r.choice("abc")) for i in range(n)]
        if r.random() < 0.5:
            r.shuffle(q)
        return "".join(q) + "set { V%d end }\necho { ${V0} }\nrun { exec { av ${V0} } }\n" % n
    if k == 1:    # Many definitions of many names
        ns = ["%s%d" % (r.choice(["A", "B", "LONG_" * (30 if big else 3)]), i) for i in range(n)]
        q = ["set { %s v%d }\n" % (r.choice(ns), i) for i in range(2 * n)]
        return "".join(q) + "".join("echo { ${%s} }\n" % x for x in r.sample(ns, min(20, n))) + "env { %s x }\n" % ns[0]
    v = "".join(r.choice(["a", "bb ", "c", "\t"]) for _ in range(r.choice([4096, 9000, 30000] if big else [300, 1023, 1030])))
    return "set { V '%s' }\nset { W ^{ ${V} + ${V} } }\necho { ${V} ${W} }\nrun { exec { av ${V} ${W} } }\n" % v


def s_units(r, big):
    """Deep units."""
    n = r.choice([3, 10, 25])
    fs, d = {}, ""
    for i in range(n):
        f = d + "Autark"
        q = ["set { V%d ^{ ${V%d} %d } }" % (i, i - 1, i), "echo { S{ a } SS{ b } CC{ c } ${V%d} }" % i, "run { exec { av %d ${V0} ${V%d} } }" % (i, max(i - 3, 0))]
        r.shuffle(q)
        nm = r.choice(["d", "e%d" % i, "x" * r.choice([1, 20])])
        if i < n - 1:
            q.insert(r.randint(0, len(q)), "include { %s/Autark }" % nm)
        fs[f] = "\n".join(q) + "\n"
        d += nm + "/"
    return fs


SCALED = {"C15": [s_vars, s_units], "C16": [s_lists], "C17": [s_conds], "C18": [s_calls], "C20": [s_units], "C23": [s_units, s_lists]}


def scaled(ctx, n):
    """Numbers and sizes far from those of other cases."""
    cs = []
    for i in range(n):
        r = ctx.rng("scaled", i)
        f = r.choice(SCALED[ctx.prop])(r, ctx.thorough and i % 4 == 0)
        cs.append(Case(f if isinstance(f, dict) else {"Autark": f}))
    cs.sort(key=lambda c: -sum(map(len, c.files.values())))
    check_cases(ctx, cs[0::8] + cs[1::8] + cs[2::8] + cs[3::8] + cs[4::8] + cs[5::8] + cs[6::8] + cs[7::8], "scaled", max(1, n // 8))
    ctx.notes["scaled_projects"] = n


def wild(ctx, n):
    """Only the status of the program is judged."""
    cs = [WildGen(ctx.rng("wild", i), shell=0.05, noise=0.05, rules=6).case() for i in range(n)]
    ctx.pmap(lambda c: c.execute(ctx), cs)
    ctx.evals += n
    k = 0
    for i, c in enumerate(cs):
        if (c.hang or c.rc not in (0, 254)) and k < 6:
            c.execute(ctx)
            if c.hang or c.rc not in (0, 254):
                k += 1
                ctx.violation("wild%d" % i, c.show(), "wild %d: exit status %s %s\n  %s\n  %s" % (
                    i, c.rc, "killed after timeout" if c.hang else "", c.files["Autark"][:600], c.raw.decode("utf-8", "replace")[-700:]))
    ctx.notes["wild_ok"] = sum(c.rc == 0 for c in cs)


def c19(ctx):
    ctx.assumptions = ["the program is built with AddressSanitizer and UndefinedBehaviorSanitizer"]
    av(ctx)
    ctx.build_san()
    ps = programs(ctx, "texts", ctx.budget(3, 5))
    replay(ctx, pick(ctx, ps, ctx.budget(2600, 70000), "texts"), "texts")
    randoms(ctx, ctx.budget(900, 20000), "damaged", mut=True, rules=5)
    randoms(ctx, ctx.budget(300, 6000), "noisy", noise=0.8, odd=0.5)
    wild(ctx, ctx.budget(700, 30000))


REGISTRY = {
    "C15": lang_check([("vars", 2, 3, ""), ("scopes", 2, 4, "")], (900, 20000),
                      dict(lists=0.2, cond=0.3, macros=0.2, units=1.2, let=1.3, env=0.8, run=0.5, foreach=0.1, meta=0.4, lib=0.3)),
    "C16": lang_check([("lists", 2, 3, ""), ("each", 1, 3, ""), ("spread", 3, 5, "")], (1200, 20000),
                      dict(spread=0.7, odd=0.3, cond=0.3, macros=0.1, units=0.1, run=3.0, foreach=0.8, proc=0.3)),
    "C17": lang_check([("cond", 1, 2, "Residual"), ("cond", 0, 3, "")], (900, 20000), dict(cond=3.0, macros=0.3, units=0.3, depth=4)),
    "C18": lang_check([("macro", 2, 3, "Residual"), ("mvalues", 2, 3, "Residual")], (800, 20000), dict(macros=3.0, cond=0.6, units=0.2, depth=4, insrc=0.5)),
    "C20": lang_check([("paths", 2, 3, ""), ("segs", 5, 7, "")], (900, 20000), dict(paths=2.5, units=1.0, run=2.0, macros=0.2, cond=0.3)),
    "C23": lang_check([("cwd", 1, 2, "")], (700, 20000), dict(run=3.0, insrc=1.5, units=1.2, proc=0.8, macros=1.0, foreach=0.6, cond=0.6)),
    "C19": c19,
}
