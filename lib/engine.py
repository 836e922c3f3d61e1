"""Random projects and build histories: executed by the real program and validated against spec/AkEngine.tla."""
import hashlib, json, os, shutil, stat, time
import akv

CONSTS = {}

# ------------------------------------------------------------------ rules (see header of AkEngine.tla)

def rule(id, k, **kw):
    r = {"id": id, "uid": id, "k": k, "g": [], "args": [], "scr": ["S:Autark"], "cons": [], "outs": [], "ins": [],
         "items": [], "imap": {"-": {"in": ["", ""], "out": "", "val": ""}}, "hmap": {"-": ["", ""]},
         "vc": [], "always": False, "cached": False, "garb": False, "cc": {"t": "l", "v": ""}, "fcons": False, "script": "",
         "_unit": "", "_style": 0, "_der": [], "_bybase": False, "_target": "", "_vars": {}}
    r.update(kw)
    return r


def pub(r):
    d = {k: v for k, v in r.items() if not k.startswith("_")}
    d["imap"] = {k: dict({"der": []}, **v) for k, v in r["imap"].items()}
    return d


def same(p):
    return [p, p]


class Project:
    """rules in script order; rules of the unit `sub' are contiguous."""

    def __init__(self, rules, subs=()):
        self.rules = rules
        self.finish()

    def finish(self):
        for r in self.rules:
            r["scr"] = ["S:Autark"] if not r["_unit"] else ["S:%s/Autark" % r["_unit"], "S:Autark"]

    def data(self):
        return {"rules": [pub(r) for r in self.rules]}

    # ---- rendering
    def ref(self, r, p, cons=False):
        """Reference to a file (S:x or C:x) from a rule of unit r."""
        kind, rel = p.split(":", 1)
        return "%s{%s}" % (kind, rel)

    def consref(self, r, pair):
        u = r["_unit"]
        a, b = pair
        if a == b:
            return self.ref(r, a)
        rel = a[2:]
        if u:
            assert rel.startswith(u + "/"), (u, pair)
            rel = rel[len(u) + 1:]
        return rel

    def inref(self, r, p):
        u = r["_unit"]
        kind, rel = p.split(":", 1)
        if kind == "C" and r["_style"] % 2 == 0:
            if not u:
                return rel
            if rel.startswith(u + "/"):
                return rel[len(u) + 1:]
        return "%s{%s}" % (kind, rel)

    def prodref(self, r, p):
        rel = p[2:]
        u = r["_unit"]
        return rel[len(u) + 1:] if u else rel

    def part(self, r, p, pre, n):
        """Text of an argument; `pre' collects directives placed before the rule."""
        t, v = p["t"], p["v"]
        st = (r["_style"] + n) % 5
        if t == "l":
            return quote(v)
        if t == "i":
            return "${ITEM}"
        if t in ("j", "jp"):
            x = "^{${ITEM} ${%s}}" % v if t == "j" else "^{${%s} ${ITEM}}" % v
            return x if st else "set { _ %s }" % x
        if t == "s":
            s = r["_subst"][v]
            tool, args = self.tool(s, 1 + len(r["id"]))
            return "%s{ %s %s -p -- %s }" % ("@@" if s["cached"] else "@", tool, s["id"], " ".join(self.part(s, q, pre, 90 + i) for i, q in enumerate(args)))
        if t == "w":
            return "set { _ ..${%s} }" % v
        if r["k"] == "subst":
            return "${%s}" % v
        if st == 0:
            return "set { _ ${%s} }" % v
        if st == 1:
            nm = "X_%s_%d" % (r["id"], n)
            pre.append("set { %s ${%s} }" % (nm, v))
            return "${%s}" % nm
        if st == 2:
            nm = "Y_%s_%d" % (r["id"], n)
            pre.append("let { %s ${%s} }" % (nm, v))
            return "${%s}" % nm
        return "${%s}" % v

    def tool(self, r, n=0):
        """The command; its name may have the first argument."""
        a = r["args"][:1]
        if a and a[0]["t"] == "v" and a[0]["v"] in "VWAB" and (r["_style"] // 3 + n) % 4 == 0:
            return "^{tl_ ${%s}}" % a[0]["v"], r["args"][1:]
        return "tl", r["args"]

    def parts(self, r, q, pre):
        return " ".join(self.part(r, p, pre, i) for i, p in enumerate(q))

    def listexpr(self, r, q, pre, f):
        """A list value made of parts; f maps literal items."""
        out = []
        for p in q:
            out.append(f(p["v"]) if p["t"] == "l" else "..${%s}" % p["v"] if p["t"] == "w" else "${%s}" % p["v"])
        if r["_style"] % 3 == 0:
            nm = "LS_%s" % r["id"]
            pre.append("set { %s %s }" % (nm, " ".join(out)))
            return "${%s}" % nm
        return "set { _ %s }" % " ".join(out)

    def names(self, r, q, pre, tag, place=True):
        """Names of files as they are, or as a list, or as a variable with a list."""
        x = (r["_style"] // 5 + sum(map(ord, tag))) % 7
        if not q or x > 2:
            return " ".join(q)
        if x == 0:
            return "set { _ %s }" % " ".join(q)
        if x == 1 and place:
            pre.append("%s { %s_%s %s }" % ("let" if r["_style"] % 2 else "set", tag, r["id"], " ".join(q)))
            return "${%s_%s}" % (tag, r["id"])
        return " ".join(q[:1] + ["set { _ %s }" % " ".join(q[1:])] if q[1:] else q)

    def text(self, r):
        pre = []
        k = r["k"]
        cons = self.names(r, [self.consref(r, c) for c in r["cons"]], pre, "CN")
        for n, c in enumerate(r["vc"]):
            x = ["..${%s}" % c["v"], "set { _ ..${%s} }" % c["v"], "${VC%s_%d}" % (r["id"], n)][(r["_style"] + n) % 3]
            if x[0] == ".":
                x = "set { _ %s }" % x
            elif x[0] == "$":
                pre.append("set { %s ..${%s} }" % (x[2:-1], c["v"]))
            cons = (cons + " " + x).strip()
        vcons = cons
        cons = "  consumes { %s }\n" % cons if cons else ""
        if k == "run":
            tool, args = self.tool(r)
            a = [tool, r["id"]]
            for c in r["ins"]:
                a += ["-i", self.inref(r, c[0])] if c[0] == c[1] else ["-n", self.consref(r, c), self.ref(r, c[1])]
            for o in r["outs"]:
                a += ["-o", self.prodref(r, o)]
            if r["garb"]:
                a.append("-g")
            a.append("--")
            args = self.parts(r, args, pre)
            b = "exec { %s %s }" % (" ".join(a), args)
            if r["_style"] % 7 == 3 and all(p["t"] == "l" and p["v"].isalnum() for p in r["args"]):
                b = "shell { %s %s }" % (" ".join(a), args)
            body = "run {\n  %s\n%s" % (b, cons)
            if r["outs"]:
                body += "  produces { %s }\n" % self.names(r, [self.prodref(r, o) for o in r["outs"]], pre, "PN")
            if r["always"]:
                body += "  always\n"
            body += "}"
        elif k == "fe":
            lst = self.listexpr(r, r["items"], pre, lambda v: v)
            tool, args = self.tool(r)
            a = [tool, r["id"]]
            if r["fcons"]:
                a += ["-i", "${ITEM}"]
            for d in r["_der"]:
                a += d[1]
            for c in r["ins"]:
                a += ["-i", self.inref(r, c[0])]
            if r["fcons"]:
                a += ["-B", ".o" + r["id"]]
            elif r["_bybase"]:
                a += ["-o", "%%{${ITEM} .o%s}" % r["id"]]
            else:
                a += ["-o", "^{${ITEM} .o%s}" % r["id"]]
            if r["garb"]:
                a.append("-g")
            a.append("--")
            args = self.parts(r, args, pre)
            dep = (["${ITEM}"] if r["fcons"] else []) + [d[0] for d in r["_der"]]
            cl = [vcons] if vcons else []
            cl = " ".join(cl + dep if r["_style"] % 2 else dep + cl if r["_style"] % 3 else dep[:1] + cl + dep[1:])
            body = "foreach {\n  ITEM\n  %s\n  run {\n    exec { %s %s }\n%s    produces { %s }\n%s  }\n}" % (
                lst, " ".join(a), args, "    consumes { %s }\n" % cl if cl else "",
                self.names(r, ["%%{${ITEM} .o%s}" % r["id"] if r["fcons"] or r["_bybase"] else "^{${ITEM} .o%s}" % r["id"]], pre, "PN", False),
                "    always\n" if r["always"] else "")
        elif k == "cc":
            u = r["_unit"]

            def src(v):
                p = r["imap"][v]["in"][0]
                if p.startswith("S:"):
                    return p[2 + (len(u) + 1 if u else 0):]
                return self.ref(r, p)
            lst = self.listexpr(r, r["items"], pre, src)
            flags = "set { _ %s }" % self.parts(r, r["args"], pre) if r["args"] else "${NOFLAGS}"
            if r["cc"]["t"] == "l":
                cc = r["cc"]["v"]
            elif r["cc"]["v"] == "CC":
                cc = ""
            else:
                cc = "${%s}" % r["cc"]["v"]
            body = "cc {\n  %s\n  %s\n  %s\n%s  objects { OBJS_%s }\n}" % (lst, flags, cc, cons, r["id"])
        elif k == "conf":
            u = r["_unit"]

            def src(v):
                p = r["imap"][v]["in"][0]
                if p.startswith("S:"):
                    return p[2 + (len(u) + 1 if u else 0):]
                return self.ref(r, p)
            if any(p["t"] != "l" for p in r["items"]):
                body = "configure { %s }" % self.listexpr(r, r["items"], pre, src)
            else:
                body = "configure { %s }" % self.names(r, [src(p["v"]) for p in r["items"]], pre, "TN")
        elif k == "check":
            body = "check { %s { %s } }" % (os.path.basename(r["script"]), self.parts(r, r["args"], pre)) if r["args"] \
                else "check { %s }" % os.path.basename(r["script"])
        elif k == "inst":
            body = "install { %s %s }" % (r["_target"], self.names(r, [self.consref(r, c) for c in r["cons"]], pre, "CN"))
        elif k == "subst":
            return ""
        for n, g in enumerate(reversed(r["g"])):
            st = (r["_style"] + n) % 3
            if g["pos"]:
                body = "if { ${%s}\n%s\n}" % (g["v"], body) if st else "if { and { ${%s} ${%s} }\n%s\n}" % (g["v"], g["v"], body)
            else:
                body = "if { ${%s} echo { off } }\nelse {\n%s\n}" % (g["v"], body)
        x = "".join(x + "\n" for x in pre) + body + "\n"
        if r["_style"] % 11 == 4:
            x = "macro { MR_%s\n%s}\ncall { MR_%s }\n" % (r["id"], x, r["id"])
        elif r["_style"] % 11 == 7:
            x = "macro { MR_%s\nif { eq { &{1} a }\n%s}\n}\ncall { MR_%s b }\ncall { MR_%s a }\n" % (r["id"], x, r["id"], r["id"])
        return x

    def scripts(self):
        """Script files of the project: path -> text"""
        res = {}
        root, sub, done = [], {}, set()
        for r in self.rules:
            u = r["_unit"]
            t = self.text(r)
            if not u:
                root.append(t)
            else:
                if u not in done:
                    done.add(u)
                    root.append("include { %s/Autark }\n" % u)
                    sub[u] = []
                sub[u].append(t)
        res["S:Autark"] = "# project\n" + "".join(root)
        for u, q in sub.items():
            res["S:%s/Autark" % u] = "# unit\n" + "".join(q)
        return res


def quote(v):
    if v == "" or any(c in v for c in " \t{}$\"'"):
        return "'%s'" % v
    return v


# ------------------------------------------------------------------ contents of files

def txt(s):
    return {"txt": s, "inc": [], "par": [{"t": "l", "v": s}], "sc": []}


def src(s, inc):
    return {"txt": s, "inc": list(inc), "par": [], "sc": []}


def tpl(par):
    return {"txt": "tpl", "inc": [], "par": par, "sc": []}


def scr(fail=False, sets=(), envs=(), files=(), always=False, late=False):
    """late: a failing script fails after its variables were set."""
    return {"txt": "sc", "inc": [], "par": [],
            "sc": [{"fail": fail, "sets": list(sets), "envs": list(envs), "files": list(files), "always": always, "_late": late}]}


class Sandbox:
    """A project folder in which a history is executed."""

    def __init__(self, ctx, lay=None):
        """lay: cache: where the cache is, H: how it is named; start: how the program is started."""
        self.ctx = ctx
        self.dir = ctx.scratch()
        self.lay = dict({"cache": "in", "H": "", "start": "root"}, **(lay or {}))
        self.inst = os.path.join(self.dir, "inst")
        self.log = os.path.join(self.dir, "log")
        self.env = {}
        self.moves = self.vers = 0
        self.place("proj")
        self.mkdir(self.root)
        if self.lay["H"] == "link":
            self.mkdir(self.cache)
            self.link(self.cache, os.path.join(self.root, "lnk"))
        if self.lay["start"] == "link":
            self.link(self.root, os.path.join(self.dir, "lroot"))
        if self.lay.get("sub") == "link":   # sources of the unit are elsewhere
            self.mkdir(os.path.join(self.dir, "else", "where"))
            self.link(os.path.join(self.dir, "else", "where"), os.path.join(self.root, "sub"))

    def mkdir(self, d):
        os.makedirs(d)
        os.chown(d, akv.UID, akv.UID)

    def link(self, to, name):
        os.symlink(to, name)
        os.lchown(name, akv.UID, akv.UID)

    def place(self, name):
        self.root = os.path.join(self.dir, name)
        c = self.lay["cache"]
        self.cache = {"in": os.path.join(self.root, "autark-cache"), "deep": os.path.join(self.root, "b-1", "x.y"),
                      "out": os.path.join(self.dir, "outside")}[c]
        h = self.lay["H"]
        self.hopt = [] if not h else ["-H", {"rel": os.path.relpath(self.cache, self.root), "abs": self.cache, "link": "lnk",
                                             "dots": "./zz/../" + os.path.relpath(self.cache, self.root) + "/."}[h]]

    def move(self, how):
        """The project is moved or copied to another place, together with the cache inside of it."""
        old = self.root
        self.moves += 1
        self.place("proj%d" % self.moves)
        if how == "cp":
            shutil.copytree(old, self.root, symlinks=True)
            for d, dn, fn in os.walk(old):
                for x in [""] + dn + fn:
                    a = os.path.join(d, x)
                    b = os.path.join(self.root, os.path.relpath(a, old))
                    st = os.lstat(a)
                    os.lchown(b, st.st_uid, st.st_gid)
                    os.utime(b, ns=(st.st_atime_ns, st.st_mtime_ns), follow_symlinks=False)
        else:
            os.rename(old, self.root)
        if self.lay["start"] == "link":
            os.unlink(os.path.join(self.dir, "lroot"))
            self.link(self.root, os.path.join(self.dir, "lroot"))

    def close(self):
        if not self.ctx.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, p):
        k, rel = p.split(":", 1)
        return os.path.join({"S": self.root, "C": self.cache, "I": self.inst}[k], rel)

    def shpath(self, p):
        k, rel = p.split(":", 1)
        return {"S": "$AUTARK_ROOT_DIR/", "C": "$AUTARK_CACHE_DIR/"}[k] + rel

    def render(self, p, c, prj):
        if c["sc"]:
            s = c["sc"][0]
            rid = [r for r in prj.rules if r["script"] == p][0]["id"]
            b = "#!/bin/sh\ntl %s -E -- \"$@\" || exit 1\n" % rid
            for f in s["files"]:
                b += 'autark dep "%s"\n' % self.shpath(f)
            for e in s["envs"]:
                b += "autark env %s\n" % e
            if s["always"]:
                b += "autark dep -\n"
            if s["fail"] and not s["_late"]:
                b += "exit 1\n"
            for x in s["sets"]:
                v = ""
                for q in x["p"]:
                    if q["t"] == "l":
                        v += q["v"]
                    elif q["t"] == "e":
                        v += "${%s}" % q["v"]
                    elif q["t"] == "a":
                        v += "${%d}" % q["n"]
                    else:
                        v += "$(cat %s 2>/dev/null)" % self.shpath(q["v"])
                a = 'autark set "%s=%s"\n' % (x["v"], v)
                b += a if not x["ce"] else 'if [ "$%s" = "%s" ]; then %s; fi\n' % (x["ce"], x["cv"], a.strip())
            b += "tl -K || exit 1\n"
            return b + "exit %d\n" % (1 if s["fail"] else 0), 0o755
        if c["txt"] == "tpl":
            b = ""
            for q in c["par"]:
                b += {"l": "%s", "v": "@%s@", "d": "//autarkdef %s\n", "dq": "//autarkdef %s \"x\"\n", "dn": "//autarkdef %s 1\n"}[q["t"]] % q["v"]
            return b, 0o644
        if c["inc"]:
            return "".join('#include "%s"\n' % h for h in c["inc"]) + c["txt"], 0o644
        return c["txt"], 0o644

    def snapshot(self):
        res = {}
        for base, k in ((self.cache, "C"), (self.inst, "I")):
            for d, dn, fn in os.walk(base):
                dn[:] = [x for x in dn if not x.startswith(".")]
                for f in fn:
                    if f.startswith(".") or f.endswith(".tmp"):
                        continue
                    full = os.path.join(d, f)
                    rel = os.path.relpath(full, base)
                    if k == "C" and f.endswith(".d"):
                        continue
                    st = os.lstat(full)
                    with open(full, errors="surrogateescape") as fh:
                        res["%s:%s" % (k, rel)] = (st.st_ctime_ns, st.st_ino, fh.read())
        return res

    def sources(self):
        """Digest of everything but the cache and installed files."""
        h = {}
        up = os.path.dirname(self.cache)   # created with the cache
        for d, dn, fn in os.walk(self.dir):
            dn[:] = [x for x in dn if os.path.join(d, x) not in (self.cache, self.inst)]
            for x in dn:
                if os.path.join(d, x) != up or up == self.root:
                    h[os.path.join(d, x) + "/"] = os.path.islink(os.path.join(d, x))
            for f in fn:
                full = os.path.join(d, f)
                if full != self.log:
                    st = os.lstat(full)
                    h[full] = (st.st_mtime_ns, st.st_size, st.st_mode)
        return h

    def build(self, st):
        """Executes a build step and returns observations."""
        time.sleep(0.012)
        before = self.snapshot()
        srcs = self.sources()
        if os.path.exists(self.log):
            os.unlink(self.log)
        start = self.lay["start"]
        cwd, where = {"root": (self.root, []), "dot": (self.root, ["."]), "up": (self.dir, [os.path.basename(self.root)]),
                      "abs": ("/", [self.root]), "inst": (self.inst, ["../" + os.path.basename(self.root) + "/"]),
                      "link": (self.dir, ["lroot"])}[start]
        args = [self.ctx.autark, "-J", str(st.get("jobs", 4))] + self.hopt
        for k, v in sorted(st["o"].items()):
            args.append("-D%s=%s" % (k, v))
        if st["clean"]:
            args.append("-c")
        if st["inst"]:
            args += ["-R", self.inst]
        env = dict(self.env)
        env["TL_LOG"] = self.log
        if st.get("kill"):
            env["TL_KILL"] = st["kill"]
        if st.get("xenv"):
            env.update(st["xenv"])
        if (st["inst"] or cwd == self.inst) and not os.path.isdir(self.inst):
            self.mkdir(self.inst)
        r = akv.run(self.ctx, args + where, cwd, env)
        after = self.snapshot()
        ev = []
        if os.path.exists(self.log):
            with open(self.log, errors="surrogateescape") as f:
                for l in f.read().split("\n"):
                    if l:
                        ev.append(l.split("\x1f"))
        rc = "ok" if r.rc == 0 else "crash" if r.rc == -9 and not r.timeout else "fail" if r.rc > 0 else "signal%d" % r.rc
        if r.timeout:
            rc = "hang"
            self.ctx.hangs += 1
        obs = {"rc": rc, "ev": ev,
               "prod": {p: x[2] for p, x in after.items()},
               "rw": sorted(p for p, x in after.items() if p not in before or before[p][:2] != x[:2])}
        if self.sources() != srcs:
            obs["rc"] = "sources-changed"
        return obs, r.out.decode("utf-8", "replace")


def execute(ctx, hist, want_log=False):
    """Runs a history; fills observations. hist: {"projs": [Project], "steps": [...]}"""
    sb = Sandbox(ctx, hist.get("lay"))
    logs = []
    try:
        cur = hist["projs"][0]
        for v in {str(x) for st in hist["steps"] for x in list(st.get("o", {}).values() if st["op"] == "build" else []) + [st.get("v")]} | {"", "None"}:
            try:
                if "/" not in v and len(v) < 200:
                    os.symlink("tl", os.path.join(ctx.bin, "tl_" + v))
            except FileExistsError:
                pass
        for st in hist["steps"]:
            op = st["op"]
            if op == "prj":
                cur = hist["projs"][st["n"] - 1]
                time.sleep(0.012)
            elif op == "w":
                p = sb.path(st["p"])
                if st["p"].endswith("Autark") and not st["c"].get("_t") is None:
                    b, mode = st["c"]["_t"], 0o644
                else:
                    b, mode = sb.render(st["p"], st["c"], cur)
                time.sleep(0.001)
                if st.get("safe") and not os.path.isdir(os.path.dirname(p)):
                    raise akv.CheckError("no dir for %s" % p)
                if st.get("ln"):   # The path is a link to a new or to an old file
                    sb.vers += 1
                    v = os.path.join(sb.dir, "vers", "%d" % sb.vers)
                    akv.put(v, b, mode)
                    if st["ln"] == "old":
                        os.utime(v, (1e9, 1e9 + sb.vers % 3))
                    if os.path.lexists(p):
                        os.unlink(p)
                    akv.put(p, "")
                    os.unlink(p)
                    sb.link(v, p)
                    os.chown(os.path.dirname(v), akv.UID, akv.UID)
                else:
                    if os.path.islink(p):
                        os.unlink(p)
                    akv.put(p, b, mode)
            elif op == "tamper":
                st["did"] = os.path.isfile(sb.path(st["p"]))
                if st["did"]:
                    akv.put(sb.path(st["p"]), sb.render(st["p"], st["c"], cur)[0])
            elif op == "rm":
                try:
                    os.unlink(sb.path(st["p"]))
                except FileNotFoundError:
                    pass
            elif op == "mv":
                sb.move(st["how"])
            elif op == "env":
                sb.env[st["p"]] = st["v"]
            elif op == "unenv":
                sb.env.pop(st["p"], None)
            elif op == "build":
                st["obs"], out = sb.build(st)
                logs.append(out)
                if st["obs"]["rc"] == "hang":
                    hist["steps"] = hist["steps"][:hist["steps"].index(st) + 1]
                    break
    finally:
        sb.close()
    return logs


def strip(o):
    if isinstance(o, dict):
        return {k: strip(v) for k, v in o.items() if not k.startswith("_")}
    if isinstance(o, list):
        return [strip(x) for x in o]
    return o


def to_json(hist):
    steps = []
    for s in hist["steps"]:
        d = strip(s)
        if d["op"] == "tamper":
            if not d["did"]:
                continue
            d = {"op": "w", "p": d["p"], "c": d["c"]}
        for k in ("jobs", "kill", "safe", "xenv"):
            d.pop(k, None)
        if d["op"] == "build":
            d["io"] = bool(d.get("io"))
        steps.append(d)
    return json.dumps({"projs": [p.data() for p in hist["projs"]], "steps": steps})


def validate(ctx, hists, batch=24, cfg="AkEngineTrace.cfg", module="AkEngineTrace", cover=False, timeout=800):
    """Validates executed histories; returns list of (index, tlc messages) of rejected ones."""
    groups = [list(range(i, min(i + batch, len(hists)))) for i in range(0, len(hists), batch)]

    def one(g):
        f = os.path.join(ctx.tmp, "tr%s.ndjson" % hashlib.md5(("%s%s" % (g, time.time())).encode()).hexdigest()[:12])
        with open(f, "w") as fh:
            for i in g:
                fh.write(to_json(hists[i]) + "\n")
        opts = ["-coverage", "1"] if cover else []
        r = akv.tlc(ctx, module, cfg, {"TRACES": f}, opts=opts, timeout=timeout)
        acc = set(int(x.split(",")[1].strip(" >")) for x in akv.printed(r.out, "ACCEPT"))
        bad = []
        for n, i in enumerate(g):
            if n + 1 not in acc:
                msgs = [x for tag in ("MISMATCH", "UNSOUND") for x in akv.printed(r.out, tag) if x.split(",")[1].strip() == str(n + 1)]
                ats = [x for x in akv.printed(r.out, "AT") if x.split(",")[1].strip(" >") == str(n + 1)]
                bad.append((i, {"msgs": msgs[-8:], "last": ats[-1:], "violated": r.violated, "tail": r.out[-3000:] if r.violated else ""}))
        if not r.ok and not bad:
            raise akv.CheckError("TLC: rc %d without rejected traces\n%s" % (r.rc, r.out[-3000:]))
        cov = r.cov if cover else {}
        os.unlink(f)
        return bad, len(g) - len(bad), cov
    res = []
    for bad, ok, cov in ctx.pmap(one, groups):
        res += bad
        ctx.traces += ok
        for k, v in cov.items():
            ctx.actions[k] = ctx.actions.get(k, 0) + v
    return res


def describe(hist, logs=None):
    return {"scripts": [p.scripts() for p in hist["projs"]], "projs": [p.data() for p in hist["projs"]],
            "steps": hist["steps"], "lay": hist.get("lay"), "output": logs}


def check_histories(ctx, hists, label="history", batch=24):
    """Executes, validates, confirms rejected ones by executing them again."""
    def ex(h):
        if ctx.hangs < 5:   # enough to report a violation
            return execute(ctx, h)
    logs = ctx.pmap(ex, hists)
    if ctx.hangs >= 5:
        hists = [h for h in hists if all("obs" in s for s in h["steps"] if s["op"] == "build")]
    bad = validate(ctx, hists, batch)
    ctx.evals += len(hists)
    for i, info in sorted(bad, key=lambda x: x[0])[:6]:
        h = hists[i]
        lg = execute(ctx, h)  # once more
        again = validate(ctx, [h], 1)
        if not again:
            h2 = execute(ctx, h)
            if not validate(ctx, [h], 1):
                print("note: rejection of %s %d was not repeated" % (label, i))
                continue
        d = describe(h, lg)
        d["tlc"] = again[0][1] if again else info
        ctx.violation("%s%d" % (label, i), d, "rejected %s %d: %s %s" % (label, i, (again[0][1] if again else info)["last"], (again[0][1] if again else info)["msgs"][-3:]))
    return bad
