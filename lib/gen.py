"""Generators of random projects and histories for the build engine."""
import copy
from engine import Project, rule, same, txt, src, tpl, scr

DEFAULT = dict(
    nrules=(2, 6), kinds={"run": 6, "fe": 2, "cc": 2, "conf": 1, "check": 1, "inst": 1, "subst": 1},
    sub=0.35, guard=0.25, always=0.06, garb=0.25, builds=(4, 9), edits=(0, 2), crash=0.0, badsrc=0.12, badopt=0.1, links=0.1,
    tamper=0.12, rm=0.05, clean=0.05, prj=0.08, rmprod=0.06, opts=0.3, jobs=(1, 2, 4, 16), sub_fail=True, back=0.2,
    shuffle=0.5, hdrs=0.1, vc=0.12, shadow=0.1, joined=0.3, inst_p=0.7, unres=0.03, chain=0.0)

BOOLS = ["", "0", "1", "yes"]
WORDS = ["x", "y", "zz", "a b"]


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.ver = 0
        self.kill_n = 0

    def chance(self, p):
        return self.r.random() < p

    def pick(self, q):
        return self.r.choice(list(q))

    def fresh(self, tag):
        self.ver += 1
        return "%s%d" % (tag, self.ver)

    # ---- project
    def project(self):
        r, p = self.r, self.p
        self.sub = "sub" if self.chance(p["sub"]) else ""
        self.shadows = []    # sources which have the same names as products
        self.srcs = {}       # path -> kind (t: text, c: C source, h: header, tpl, sc)
        self.content = {}    # path -> generated content
        self.opts = {}
        self.vars = {"A": BOOLS, "B": BOOLS, "V": WORDS, "W": WORDS, "L": ["p1", "p1 p2", "p2 p3 p1", "p3"]}
        self.checkvars = {"": [], "sub": []}
        self.hdrs = {}
        self.env = {}
        n = r.randint(*p["nrules"])
        kinds = list(p["kinds"])
        weights = [p["kinds"][k] for k in kinds]
        rules, self.prods = [], []   # prods: (path, unit, rule)
        self.idn = 0
        checks = []
        if "check" in p["kinds"] and p["kinds"]["check"]:
            for _ in range(r.choice([0, 1, 1, 2]) if p["kinds"]["check"] < 3 else r.choice([1, 2, 3])):
                checks.append(self.mk_check(self.unit()))
        self.substs = []
        while len(rules) < n:
            k = r.choices(kinds, weights)[0]
            u = self.unit()
            if k in ("check", "subst"):
                k = "run"
            self.pending = []
            rl = getattr(self, "mk_" + k)(u)
            if rl:
                rules += self.pending + [rl]
        if self.chance(p["shuffle"]):
            r.shuffle(rules)
        root = [x for x in rules if not x["_unit"]]
        sub = [x for x in rules if x["_unit"]]
        csub = [c for c in checks if c["_unit"]]
        croot = [c for c in checks if not c["_unit"]]
        pos = r.randint(0, len(root))
        order = croot + root[:pos] + csub + sub + root[pos:]
        self.prj = Project(order + self.substs)
        self.prj.rules = order + self.substs
        self.prj.finish()
        return self.prj

    def unit(self):
        return self.sub if self.sub and self.chance(0.45) else ""

    def nid(self, p):
        self.idn += 1
        return "%s%d" % (p, self.idn)

    def pfx(self, u):
        return u + "/" if u else ""

    def source(self, u, kind, name=None):
        """Path of a source file of the kind, new or existing."""
        old = [x for x, k in self.srcs.items() if k == kind and (x[2:].startswith("sub/") == bool(u))]
        if old and self.chance(0.5):
            return self.pick(old)
        ext = {"t": ".txt", "c": ".c", "h": ".h", "tpl": ".in", "it": ".it"}[kind]
        s = "S:%s%s%d%s" % (self.pfx(u), kind, len(self.srcs), ext)
        self.srcs[s] = kind
        return s

    def pair(self, u, path):
        """How a rule of unit u consumes a path."""
        k, rel = path.split(":", 1)
        if u and not rel.startswith(u + "/"):
            return same(path)
        if not u and rel.startswith("sub/"):
            return ["C:" + rel, "S:" + rel] if self.chance(0.5) else same(path)
        return ["C:" + rel, "S:" + rel] if self.chance(0.7) else same(path)

    def inputs(self, u, lo=0, hi=3):
        if self.prods and self.chance(self.p["chain"]):   # Long chains of rules
            return [self.prods[-1][0]] + ([self.source(u, "t")] if self.chance(0.3) else [])
        res = []
        for _ in range(self.r.randint(lo, hi)):
            if self.prods and self.chance(0.6):
                res.append(self.pick(self.prods)[0])
            else:
                res.append(self.source(u, "t"))
        return list(dict.fromkeys(res))

    def arg(self, u, wide=False):
        vs = ["V", "W", "A"] + self.checkvars[""] + (self.checkvars["sub"] if u else [])
        x = self.r.random()
        if x < 0.35:
            return {"t": "l", "v": self.pick(["k1", "k2", "lit"])}
        if x < 0.9 or not wide:
            return {"t": "v", "v": self.pick(vs)}
        return {"t": "w", "v": "L"}

    def item_arg(self, u):
        if not self.chance(self.p["joined"]):
            return {"t": "i", "v": ""}
        return {"t": self.pick(["j", "j", "jp"]), "v": self.pick(["V", "W", "A"] + self.checkvars[""] + (self.checkvars["sub"] if u else []))}

    def args(self, u, lo=0, hi=2, r=None):
        q = [self.arg(u) for _ in range(self.r.randint(lo, hi))]
        if r is not None and self.p["kinds"].get("subst") and self.chance(0.12 * self.p["kinds"]["subst"]):
            s = rule(self.nid("s"), "subst", cached=self.chance(0.5), args=[a for a in [self.arg(u)] if a["t"] != "w"], _unit=u)
            s["_style"] = self.r.randint(0, 1154)
            self.substs.append(s)
            r.setdefault("_subst", {})[s["id"]] = s
            q.insert(self.r.randint(0, len(q)), {"t": "s", "v": s["id"]})
        return q

    def var_cons(self, u, r):
        """Consumed files whose names are given by a variable."""
        if not self.chance(self.p["vc"]):
            return
        taken = [c[0][2:] for c in r["cons"]] + [c["in"][0][2:] for c in r["imap"].values()] + [c["in"][1][2:] for c in r["imap"].values()]
        taken += [c[0][2:] for m in r["imap"].values() for c in m.get("der", [])]
        paths = [x for x in self.inputs(u, 1, 3) if x[2:].startswith("sub/") == bool(u) and x[2:] not in taken]
        m = {x[2 + len(self.pfx(u)):]: ["C:" + x[2:], "S:" + x[2:]] for x in paths}
        if m:
            v, names = "VC_" + r["id"], sorted(m)
            self.vars[v] = list(dict.fromkeys(["", names[0], " ".join(names), names[-1]]))
            r["vc"].append({"v": v, "m": m})

    def guards(self, u):
        q = []
        while self.chance(self.p["guard"]) and len(q) < 2:
            vs = ["A", "B"] + self.checkvars[""] + (self.checkvars["sub"] if u else [])
            q.append({"v": self.pick(vs), "pos": self.chance(0.6)})
        return q

    def common(self, r, u):
        r["g"] = self.guards(u)
        r["_style"] = self.r.randint(0, 1154)
        r["garb"] = self.chance(self.p["garb"])
        r["always"] = self.chance(self.p["always"]) if r["k"] in ("run", "fe") else False
        return r

    def mk_run(self, u):
        i = self.nid("r")
        outs = ["C:%so_%s%s" % (self.pfx(u), i, "abc"[n]) for n in range(self.r.choice([0, 1, 1, 1, 1, 2, 2]))]
        r = rule(i, "run", _unit=u)
        ins = self.inputs(u)
        r["cons"] = [self.pair(u, x) for x in ins]
        if self.chance(0.15):   # consumed but not read
            r["cons"] += [self.pair(u, x) for x in self.inputs(u, 0, 1) if x not in ins]
        # A product may be given by name: a source file of that name is used when there is no such product
        r["ins"] = [c if c[0] != c[1] and "S:" + x[2:] in self.shadows else same(x) for x, c in zip(ins, r["cons"])]
        r["outs"] = outs
        self.var_cons(u, r)
        self.common(r, u)
        if outs and self.chance(self.p["shadow"]):
            if not r["g"] and self.chance(0.7):
                r["g"] = [{"v": self.pick("AB"), "pos": self.chance(0.6)}]
            self.shadows.append("S:" + outs[0][2:])
            self.srcs[self.shadows[-1]] = "t"
        r["args"] = self.args(u, r=r)
        if not outs and self.chance(0.5):
            r["args"].append({"t": "l", "v": "noout"})
        for o in outs:
            self.prods.append((o, u, r))
        return r

    def mk_fe(self, u):
        if self.chance(0.35):
            r = self.mk_fe2(u)
            if r:
                return r
        i = self.nid("f")
        r = rule(i, "fe", _unit=u, fcons=self.chance(0.65))
        self.common(r, u)
        if r["fcons"]:
            own = [x for x in self.prods if x[1] == u and x[0].count("/") == len(u and "1") and x[0].rsplit(".", 1)[-1] != "o" and "S:" + x[0][2:] not in self.shadows]
            paths = [self.source(u, "it") for _ in range(self.r.randint(1, 3))]
            if own and self.chance(0.4):
                paths.append(self.pick(own)[0])
            byname = {}
            for x in paths:
                byname.setdefault(x[2:].rsplit(".", 1)[0], x)
            paths = list(byname.values())
            lits = [x[2:][len(self.pfx(u)):] for x in paths]
            r["imap"] = {}
            up = "../" * (2 if u else 1) + self.pfx(u)
            for x, it in zip(paths, lits):
                base = it.rsplit(".", 1)[0]
                r["imap"][it] = {"in": ["C:" + x[2:], "S:" + x[2:]], "out": "C:%s%s.o%s" % (self.pfx(u), base, i),
                                 "val": it if x[0] == "C" else up + it}
            r["items"] = [{"t": "l", "v": v} for v in lits]
            if self.chance(0.35) and all(x[0] == "S" for x in paths):
                # Last items come from a variable
                extra = [self.source(u, "it") for _ in range(2)]
                extra = [x for x in dict.fromkeys(extra) if x[2:].rsplit(".", 1)[0] not in byname]
                names = [x[2:][len(self.pfx(u)):] for x in extra]
                if names:
                    var = "L_" + i
                    self.vars[var] = list(dict.fromkeys(["", names[0], " ".join(names), names[-1]]))
                    for x, it in zip(extra, names):
                        r["imap"][it] = {"in": ["C:" + x[2:], "S:" + x[2:]], "out": "C:%s%s.o%s" % (self.pfx(u), it.rsplit(".", 1)[0], i), "val": up + it}
                    r["items"].append({"t": "w", "v": var})
        else:
            names = ["p1", "p2", "p3", "q1", "q2"]
            r["imap"] = {n: {"in": ["", ""], "out": "C:%s%s.o%s" % (self.pfx(u), n, i), "val": n} for n in names}
            r["items"] = [{"t": "l", "v": n} for n in self.r.sample(["q1", "q2"], self.r.randint(1, 2))]
            if self.chance(0.6):
                r["items"].append({"t": "w", "v": "L"})
        ins = self.inputs(u, 0, 2)
        taken = [c["in"][0] for c in r["imap"].values()] + [c["in"][1] for c in r["imap"].values()]
        ins = [x for x in ins if x not in taken and "S:" + x[2:] not in self.shadows]
        r["cons"] = [self.pair(u, x) for x in ins]
        r["ins"] = [same(x) for x in ins]
        r["args"] = self.args(u, 0, 2)
        r["args"].insert(self.r.randint(0, len(r["args"])), self.item_arg(u))
        self.var_cons(u, r)
        for lit in [p["v"] for p in r["items"] if p["t"] == "l"]:
            self.prods.append((r["imap"][lit]["out"], u, r))
        return r

    def mk_fe2(self, u):
        """foreach over items of other one: consumes its products, sources named after items."""
        prev = [x for x in {y[2]["id"]: y[2] for y in self.prods if y[1] == u and y[2]["k"] == "fe"}.values() if not x["g"]]
        if not prev:
            return None
        f = self.pick(prev)
        i = self.nid("f")
        r = rule(i, "fe", _unit=u, fcons=f["fcons"] and self.chance(0.4), _bybase=f["fcons"] or f["_bybase"])
        self.common(r, u)
        byprod, bysrc = self.chance(0.7), self.chance(0.5)
        if r["fcons"]:
            bysrc = False
        elif not byprod and not bysrc:
            byprod = True
        r["items"] = copy.deepcopy(f["items"])
        r["imap"] = {}
        cat = "%%{${ITEM} %s}" if r["_bybase"] else "^{${ITEM} %s}"
        if byprod:
            r["_der"].append((cat % (".o" + f["id"]), ["-b", ".o" + f["id"]] if r["fcons"] else ["-i", cat % (".o" + f["id"])]))
        if bysrc:
            c = cat % (".q" + i)
            r["_der"].append((c, ["-i", "^{S{%s} / %s}" % (u, c)]))
        for x, m in f["imap"].items():
            base = x.rsplit("/", 1)[-1].rsplit(".", 1)[0] if r["_bybase"] else x
            der = []
            if byprod:
                der.append(["C:" + m["out"][2:], "S:" + m["out"][2:]])
            if bysrc:
                s = "%s%s.q%s" % (self.pfx(u), base, i)
                self.srcs["S:" + s] = "t"
                der.append(["C:" + s, "S:" + s])
            r["imap"][x] = {"in": m["in"], "out": "C:%s%s.o%s" % (self.pfx(u), base, i), "val": m["val"] if r["fcons"] else x, "der": der}
        ins = self.inputs(u, 0, 1)
        taken = [c[k] for m in r["imap"].values() for c in [m["in"]] + m["der"] for k in (0, 1)]
        ins = [x for x in ins if x not in taken and "S:" + x[2:] not in self.shadows]
        r["cons"] = [self.pair(u, x) for x in ins]
        r["ins"] = [same(x) for x in ins]
        r["args"] = self.args(u, 0, 1)
        r["args"].insert(self.r.randint(0, len(r["args"])), self.item_arg(u))
        self.var_cons(u, r)
        for lit in [p["v"] for p in r["items"] if p["t"] == "l"]:
            self.prods.append((r["imap"][lit]["out"], u, r))
        return r

    def mk_cc(self, u):
        i = self.nid("c")
        r = rule(i, "cc", _unit=u)
        self.common(r, u)
        if u not in self.hdrs:
            self.hdrs[u] = ["h%d.h" % k for k in range(3)] if not self.chance(self.p["hdrs"]) else [
                "h%d%s.h" % (k, self.pick(["", "_of_a_module", "_with_a_rather_long_name_" + "x" * self.r.randint(0, 60)]))
                for k in range(self.r.randint(8, 30))]
        hs = ["S:%s%s" % (self.pfx(u), h) for h in self.hdrs[u]]
        for h in hs:
            self.srcs.setdefault(h, "h")
        gens = [x for x in self.prods if x[1] == u and x[2]["k"] == "run" and "S:" + x[0][2:] not in self.shadows]
        gh = [g[0] for g in self.r.sample(gens, min(len(gens), self.r.choice([0, 0, 1, 2])))]
        r["hmap"] = {h[2 + len(self.pfx(u)):]: same(h) for h in hs}
        r["_gh"] = []
        for g in gh:
            r["hmap"][g[2 + len(self.pfx(u)):]] = same(g)
            r["cons"].append(self.pair(u, g))
            r["_gh"].append(g[2 + len(self.pfx(u)):])
        r["cons"] += [self.pair(u, x) for x in self.inputs(u, 0, 1) if x not in gh]
        r["imap"] = {}
        srcs = ["S:%s%s_%d.c" % (self.pfx(u), i, k) for k in range(self.r.randint(1, 4))]
        for k, s in enumerate(srcs):
            nm = "n%d" % k
            self.srcs[s] = "c"
            r["imap"][nm] = {"in": same(s), "out": "C:" + s[2:-1] + "o", "val": s.rsplit("/", 1)[-1].split(":")[-1]}
            r["items"].append({"t": "l", "v": nm})
        if self.chance(0.35):
            # Generated source
            g = rule(self.nid("r"), "run", _unit=u)
            o = "C:%sg_%s.c" % (self.pfx(u), g["id"])
            ins = self.inputs(u, 0, 2)
            g["cons"] = [self.pair(u, x) for x in ins]
            g["ins"] = [same(x) for x in ins]
            g["outs"] = [o]
            self.common(g, u)
            g["g"] = []
            g["args"] = self.args(u, 0, 1)
            nm = "ng"
            r["imap"][nm] = {"in": same(o), "out": o[:-1] + "o", "val": o.rsplit("/", 1)[-1].split(":")[-1]}
            r["items"].append({"t": "l", "v": nm})
            self.pending.append(g)
        for it in r["items"]:
            self.prods.append((r["imap"][it["v"]]["out"], u, r))
        self.var_cons(u, r)
        r["args"] = [a for a in self.args(u, 0, 2)]
        for a in r["args"]:
            if a["t"] == "l":
                a["v"] = "-D" + a["v"]
        r["cc"] = self.pick([{"t": "l", "v": "fcc"}, {"t": "l", "v": "fcc"}, {"t": "v", "v": "CC"}, {"t": "v", "v": "XCC"}])
        if r["cc"]["v"] == "CC":
            self.vars["CC"] = ["fcc", "fccb"]
        if r["cc"]["v"] == "XCC":
            self.vars["XCC"] = ["fcc", "fccb"]
        return r

    def mk_conf(self, u):
        i = self.nid("g")
        r = rule(i, "conf", _unit=u)
        self.common(r, u)
        r["imap"] = {}
        gens = [x for x in self.prods if x[1] == u and x[2]["k"] == "run"]
        for k in range(self.r.randint(1, 3)):
            s = "S:%s%s_%d.txt.in" % (self.pfx(u), i, k)
            self.srcs[s] = "tpl"
            nm = "t%d" % k
            r["imap"][nm] = {"in": same(s), "out": "C:" + s[2:-3], "val": nm}
            r["items"].append({"t": "l", "v": nm})
            self.prods.append((r["imap"][nm]["out"], u, r))
        if self.chance(0.3):    # templates whose names are given by a variable
            names = []
            for k in range(self.r.randint(1, 2)):
                s = "S:%s%s_w%d%s" % (self.pfx(u), i, k, self.pick([".in", ".txt.in", ".w"]))
                self.srcs[s] = "tpl"
                names.append(s[2 + len(self.pfx(u)):])
                r["imap"][names[-1]] = {"in": same(s), "out": "C:" + (s[2:-3] if s.endswith(".in") else s[2:]), "val": names[-1]}
            var = "LT_" + i
            self.vars[var] = list(dict.fromkeys(["", names[0], " ".join(names), names[-1]]))
            r["items"].append({"t": "w", "v": var})
        return r

    def mk_check(self, u):
        i = self.nid("k")
        s = "S:%s.autark/%s.sh" % (self.pfx(u), i)
        r = rule(i, "check", script=s, _unit=u)
        self.srcs[s] = "sc"
        r["_style"] = self.r.randint(0, 1154)
        vs = ["K%s" % i] + (["M%s" % i] if self.chance(0.5) else [])
        r["_vs"] = vs
        r["args"] = [{"t": "v", "v": self.pick(["V", "W", "A"] + self.checkvars[""])} for _ in range(self.r.randint(0, 2))]
        r["_files"] = [self.source("", "t") for _ in range(self.r.randint(0, 2))]
        if self.chance(0.2):
            r["g"] = self.guards("")
        self.checkvars[u] += vs
        return r

    def mk_inst(self, u):
        i = self.nid("i")
        r = rule(i, "inst", _unit=u, _target="dst_%s" % i)
        self.common(r, u)
        ins = self.inputs(u, 1, 3)
        r["cons"] = [self.pair(u, x) for x in ins]
        r["outs"] = ["I:dst_%s/%s" % (i, x.rsplit("/", 1)[-1].split(":")[-1]) for x in ins]
        if len(set(r["outs"])) != len(r["outs"]):
            return None
        return r

    # ---- contents
    def make(self, path, bad=False, keep_inc=True):
        k = self.srcs[path]
        tag = path[2:].replace("/", "_").rsplit(".", 1)[0]
        if k in ("t", "it"):
            return txt(self.fresh("bad" if bad else tag + "v"))
        if k in ("c", "h"):
            old = self.content.get(path)
            if old is not None and keep_inc and self.chance(0.6):
                inc = old["inc"]
            else:
                hs = self.hdrs["sub" if path[2:].startswith("sub/") else ""]
                n = len(hs)
                if k == "h":
                    hs = [h for h in hs if self.chance(0.9 / n)]
                else:
                    hs = self.r.sample(hs, self.r.choice([0, 1, 1, 2, 2] if n == 3 else [0, 2, n // 2, n, n]))
                    for r in self.prj.rules:
                        if r["k"] == "cc" and any(m["in"][0] == path for m in r["imap"].values()):
                            hs += [g for g in r["_gh"] if self.chance(0.6)]
                inc = hs
            return src(self.fresh("bad" if bad else tag + "v"), inc)
        if k == "tpl":
            q = []
            vs = ["V", "W", "A", "E1", "NOPE"]
            for r in self.prj.rules:
                if r["k"] == "check" and (not r["_unit"] or path[2:].startswith("sub/")):
                    vs += r["_vs"]
            for _ in range(self.r.randint(0, 4)):
                x = self.r.random()
                v = self.pick(vs)
                if x < 0.2:
                    q.append({"t": "d", "v": v})
                elif x < 0.3:
                    q.append({"t": "dq", "v": v})
                elif x < 0.4:
                    q.append({"t": "dn", "v": v})
                else:
                    q.append({"t": "l", "v": self.pick(["a ", "", "text="])})
                    for _ in range(self.r.randint(1, 2)):
                        q.append({"t": "v", "v": self.pick(vs)})
                        q.append({"t": "l", "v": self.pick(["", " ", "-"])})
                    q.append({"t": "l", "v": "\n"})
            q.append({"t": "l", "v": self.fresh("end")})
            return tpl([x for x in q if x["t"] != "l" or x["v"] != ""])
        r = [x for x in self.prj.rules if x["script"] == path][0]
        envs, files, sets = [], [], []
        for v in r["_vs"]:
            if self.chance(0.1):
                continue
            p = []
            for _ in range(self.r.randint(1, 2)):
                x = self.r.random()
                if x < 0.4:
                    p.append({"t": "l", "v": self.pick(["", "0", "1", "on", self.fresh("c")]), "n": 0})
                elif x < 0.6:
                    e = self.pick(["E1", "E2"])
                    envs.append(e)
                    p.append({"t": "e", "v": e, "n": 0})
                elif x < 0.8 and r["args"]:
                    p.append({"t": "a", "v": "", "n": self.r.randint(1, 2)})
                elif r["_files"]:
                    f = self.pick(r["_files"])
                    files.append(f)
                    p.append({"t": "f", "v": f, "n": 0})
                else:
                    p.append({"t": "l", "v": "dflt", "n": 0})
            ce = cv = ""
            if self.chance(0.3):
                ce, cv = self.pick(["E1", "E2"]), self.pick(["1", "two"])
                envs.append(ce)
            sets.append({"v": v, "p": p, "ce": ce, "cv": cv})
        if self.chance(0.2) and r["_files"]:
            files.append(self.pick(r["_files"]))
        return scr(fail=bad, sets=sets, envs=sorted(set(envs)), files=list(dict.fromkeys(files)), always=self.chance(0.08),
                   late=self.chance(0.5))

    # ---- history
    def history(self, script=None):
        r, p = self.r, self.p
        self.project()
        self.hist = {"projs": [self.prj], "steps": []}
        self.hist_contents = {}
        st = self.hist["steps"]
        self.write_scripts(st)
        for s in sorted(self.srcs):
            if self.srcs[s] != "x":
                self.put(st, s, bad=self.chance(p["badsrc"] * 0.3))
        for e in ("E1", "E2"):
            if self.chance(0.5):
                self.setenv(st, e)
        for e in ("CC", "XCC"):
            if e in self.vars:
                st.append({"op": "env", "p": e, "v": "fcc"})
        nb = r.randint(*p["builds"])
        for b in range(nb):
            if b:
                for _ in range(r.randint(*p["edits"])):
                    self.edit(st)
            if self.chance(p["opts"]) or not b:
                self.new_opts()
            k = None
            if p["crash"] and self.chance(p["crash"]):
                k = "%d:%s" % (r.randint(1, 6), self.pick("ba"))
            st.append({"op": "build", "o": dict(self.opts), "clean": self.chance(p["clean"]) if b else False,
                       "inst": self.chance(p["inst_p"]), "jobs": self.pick(p["jobs"]), "kill": k})
            inst = st[-1]["inst"]
            if k:
                while self.chance(0.4):
                    self.edit(st)
            if k or self.chance(0.25):
                st.append({"op": "build", "o": dict(self.opts), "clean": False, "inst": inst, "jobs": self.pick(p["jobs"]), "kill": None})
        return self.hist

    def write_scripts(self, st, only=None):
        for s, t in self.prj.scripts().items():
            if only is None or s in only:
                st.append({"op": "w", "p": s, "c": dict(txt("script"), _t=t)})

    def put(self, st, s, bad=False, back=False):
        p = self.p
        c = self.make(s, bad)
        self.content.setdefault(s, None)
        self.content[s] = c
        self.hist_contents.setdefault(s, []).append(c)
        st.append({"op": "w", "p": s, "c": c})
        if self.chance(p["links"]):
            st[-1]["ln"] = self.pick(["old", "new"])

    def setenv(self, st, e):
        st.append({"op": "env", "p": e, "v": self.pick(["", "1", "two", "e3"])})

    def new_opts(self):
        o = {}
        for v, vals in self.vars.items():
            if v in ("CC", "XCC"):
                if self.chance(0.2):
                    o[v] = self.pick(vals)
                continue
            if v == "L":
                if self.chance(0.8):
                    o[v] = self.pick(vals)
                continue
            if self.chance(0.6):
                o[v] = self.pick(vals)
        if self.chance(self.p["badopt"]):
            o[self.pick(["V", "W"])] = "bad"
        if self.opts and self.chance(0.6):   # change just one of options
            k = self.pick(sorted(set(o) | set(self.opts)))
            n = dict(self.opts)
            if k in o:
                n[k] = o[k]
            else:
                n.pop(k, None)
            o = n
        self.opts = o

    def edit(self, st):
        r, p = self.r, self.p
        x = r.random()
        srcs = [s for s, k in self.srcs.items()]
        if x < p["tamper"]:
            outs = [o for o, u, rr in self.prods]
            if outs:
                o = self.pick(outs)
                if self.chance(0.5):
                    st.append({"op": "rm", "p": o})
                    return
                st.append({"op": "tamper", "p": o, "c": txt(self.fresh("tampered"))})
                return
        x = r.random()
        if x < p["prj"]:
            return self.mutate(st)
        if x < p["prj"] + p["rm"] and srcs:
            s = self.pick(srcs)
            if self.srcs[s] not in ("sc",):
                st.append({"op": "rm", "p": s})
                return
        if x < p["prj"] + p["rm"] + 0.1:
            if self.chance(0.3):
                st.append({"op": "unenv", "p": self.pick(["E1", "E2"])})
            else:
                self.setenv(st, self.pick(["E1", "E2"]))
            return
        if x < p["prj"] + p["rm"] + 0.2 and ("CC" in self.vars or "XCC" in self.vars):
            st.append({"op": "env", "p": self.pick([v for v in ("CC", "XCC") if v in self.vars]), "v": self.pick(["fcc", "fccb"])})
            return
        if srcs:
            s = self.pick(srcs)
            if self.chance(p["back"]) and self.hist_contents.get(s):
                st.append({"op": "w", "p": s, "c": self.pick(self.hist_contents[s])})
            else:
                self.put(st, s, bad=self.chance(p["badsrc"]))

    def mutate(self, st):
        """Changes scripts of the project."""
        old = self.prj
        rules = copy.deepcopy(old.rules)
        # _subst links must refer to copied rules
        byid = {x["id"]: x for x in rules}
        for x in rules:
            if "_subst" in x:
                x["_subst"] = {k: byid[k] for k in x["_subst"]}
        units = set()
        for _ in range(self.r.randint(1, 2)):
            cand = [x for x in rules if x["k"] in ("run", "fe", "cc", "conf", "inst")]
            if not cand:
                break
            x = self.pick(cand)
            units.add(x["_unit"])
            y = self.r.random()
            if y < 0.35 and x["k"] in ("run", "fe", "cc"):
                q = self.args(x["_unit"], 0, 2)
                if x["k"] == "cc":
                    for a in q:
                        if a["t"] == "l":
                            a["v"] = "-D" + a["v"]
                keep = [a for a in x["args"] if a["t"] in ("i", "j", "jp", "s")]
                x["args"] = q + keep
                x["_style"] = self.r.randint(0, 1154)
            elif y < 0.55 and x["k"] == "run":
                ins = [c for c in x["ins"] if self.chance(0.6)]
                x["ins"] = ins
            elif y < 0.7:
                x["g"] = self.guards(x["_unit"])
            elif y < 0.85:
                x["_style"] = self.r.randint(0, 1154)
            elif len(cand) > 2 and x["k"] != "cc" and "_subst" not in x and not any(x["id"] == k for k in ()):
                rules.remove(x)
            else:
                # Move to other place
                same_unit = [k for k, z in enumerate(rules) if z["_unit"] == x["_unit"] and z["k"] not in ("check", "subst")]
                k = self.pick(same_unit)
                rules.remove(x)
                rules.insert(min(k, len(rules)), x)
        prj = Project(rules)
        # Rules of the unit must be contiguous
        seq = [x["_unit"] for x in rules if x["k"] != "subst"]
        runs = [u for n, u in enumerate(seq) if n == 0 or seq[n - 1] != u]
        if runs.count("sub") > 1 or (seq and [x for n, x in enumerate(rules) if x["k"] == "check" and any(
                z["k"] not in ("check",) and z["_unit"] == x["_unit"] for z in rules[:n])]):
            return
        a, b = old.scripts(), prj.scripts()
        if a == b:
            return
        if "MR_" in a["S:Autark"] and a["S:Autark"] == b["S:Autark"]:
            return    # Rules made by calls are numbered after those of included scripts
        self.prj = prj
        self.hist["projs"].append(prj)
        st.append({"op": "prj", "n": len(self.hist["projs"])})
        self.write_scripts(st, [s for s in b if a.get(s) != b[s]])


class BadGraph(Gen):
    """Projects with cycles, products of several rules and missing files, possibly behind conditions."""

    def project(self):
        prj = Gen.project(self)
        r = self.r
        runs = [x for x in prj.rules if x["k"] == "run"]
        if not runs:
            return prj
        for _ in range(r.choice([1, 1, 2])):
            y = r.random()
            a = self.pick(runs)
            guarded = self.chance(0.5)
            if y < 0.4:      # a cycle (if b depends on a)
                dep = self.dependents(prj, a)
                b = self.pick(dep)
                o = [p for p, u, x in self.prods if x is b]
                if o:
                    pr = self.pair(a["_unit"], self.pick(o))
                    if all(c[0] != pr[0] for c in a["cons"]):
                        a["cons"].append(pr)
                        if guarded:
                            self.pick([a, b])["g"] = [{"v": self.pick(["A", "B"]), "pos": self.chance(0.5)}]
            elif y < 0.7:    # a product of two rules
                own = [p for p, u, x in self.prods if u == a["_unit"] and x is not a and x["k"] in ("run", "cc", "conf", "fe")]
                if own:
                    o = self.pick(own)
                    b = [x for p, u, x in self.prods if p == o][0]
                    if o not in a["outs"] and all(c[0] != o for c in a["cons"]):
                        a["outs"].append(o)
                        if guarded:
                            a["g"] = [{"v": "A", "pos": True}]
                            if self.chance(0.6):
                                b["g"] = [{"v": "A", "pos": False}]
            else:            # a missing file
                rel = "%smiss%d.txt" % (self.pfx(a["_unit"]), r.randint(0, 1))
                a["cons"].insert(r.randint(0, len(a["cons"])), ["C:" + rel, "S:" + rel])
                if self.chance(0.7):
                    self.srcs["S:" + rel] = "t"
                    self.late.append("S:" + rel)
                if guarded:
                    a["g"] = [{"v": self.pick(["A", "B"]), "pos": self.chance(0.5)}]
        prj.finish()
        return prj

    def dependents(self, prj, a):
        """Rules which consume products of a (transitively), a included."""
        res = [a]
        for _ in prj.rules:
            for x in prj.rules:
                if x["k"] in ("run", "fe", "cc") and x not in res:
                    outs = [p for p, u, y in self.prods if any(y is z for z in res)]
                    if any(c[0] in outs for c in x["cons"]):
                        res.append(x)
        return res

    def history(self, script=None):
        self.late = []
        h = Gen.history(self)
        # Missing files appear later
        if self.late:
            q, seen = [], set()
            for s in h["steps"]:
                if s["op"] == "w" and s["p"] in self.late and s["p"] not in seen:
                    seen.add(s["p"])
                    if self.chance(0.7):
                        continue
                q.append(s)
            h["steps"] = q
        return h
