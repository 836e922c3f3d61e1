"""Small projects explored exhaustively with spec/AkEngineMC.tla and replayed on the real program."""
import json, os, re
import akv, engine
from engine import Project, rule, same, txt, src, tpl, scr


def L(v):
    return {"t": "l", "v": v}


def V(v):
    return {"t": "v", "v": v}


def W(v):
    return {"t": "w", "v": v}


def w(p, c):
    return {"op": "w", "p": p, "c": c}


def rm(p):
    return {"op": "rm", "p": p}


def env(n, v):
    return {"op": "env", "p": n, "v": v}


def unenv(n):
    return {"op": "unenv", "p": n}


def opt(n, v):
    return {"op": "opt", "p": n, "v": v}


def unopt(n):
    return {"op": "unopt", "p": n}


def C(p):
    return ["C:" + p, "S:" + p]


def run(i, cons, outs, args=(), unit="", **kw):
    kw.setdefault("ins", [same(x[0]) if not kw.pop("_rdsrc", 0) else x for x in cons])
    return rule(i, "run", cons=cons, outs=["C:" + o for o in outs], args=list(args), _unit=unit, **kw)


def rd(q):
    """Inputs read by the command from the place where they are."""
    return q


class Model:
    def __init__(self, projs, init, edits, inst=False):
        self.projs = projs
        self.init = init
        self.edits = edits
        self.inst = inst

    def scripts(self, n, only=None):
        return [dict(w(s, dict(txt("script"), _t=t))) for s, t in self.projs[n].scripts().items()
                if only is None or s in only]

    def start(self):
        return self.scripts(0) + self.init

    def data(self):
        return {"projs": [p.data() for p in self.projs], "init": engine.strip(self.start()),
                "edits": engine.strip(self.edits), "inst": self.inst}

    def switch(self, a, b):
        """Edit which replaces project a with b."""
        x, y = self.projs[a].scripts(), self.projs[b].scripts()
        return [{"op": "prj", "n": b + 1}] + self.scripts(b, [s for s in y if x.get(s) != y[s]])

    def history(self, h, jobs=4):
        """Steps of a history printed by the model."""
        st = [dict(x) for x in self.start() if x["op"] != "opt"]
        o = {x["p"]: x["v"] for x in self.start() if x["op"] == "opt"}
        for x in h:
            if x["e"] == 0:
                st.append({"op": "build", "o": dict(o), "clean": False, "inst": self.inst, "jobs": jobs,
                           "kill": "%d:%s" % (x["k"], x["m"]) if x["k"] else None})
            else:
                for y in self.edits[x["e"] - 1]:
                    if y["op"] == "opt":
                        o[y["p"]] = y["v"]
                    elif y["op"] == "unopt":
                        o.pop(y["p"], None)
                    elif y["op"] == "w" and y["p"].startswith("C:"):
                        st.append(dict(y, op="tamper"))
                    else:
                        st.append(dict(y))
        return {"projs": self.projs, "steps": st}


INVS = ["Fresh", "Once", "Ordered", "Recorded", "NoWork", "Persist", "Complete"]


def explore(ctx, name, model, depth, kill=0, jobs=1, workers=8, timeout=800):
    """All histories of the model; invariants are checked on the way."""
    f = os.path.join(ctx.tmp, "model-%s.json" % name)
    with open(f, "w") as fh:
        fh.write(json.dumps(model.data()) + "\n")
    cfg = akv.cfg_text(ctx, "mc-%s.cfg" % name, "SPECIFICATION MSpec\nCONSTANTS Jobs = %d Depth = %d MaxKill = %d\nCHECK_DEADLOCK %s\n%s" % (
        jobs, depth, kill, "FALSE" if kill else "TRUE", "".join("INVARIANT %s\n" % i for i in INVS)))
    r = akv.tlc(ctx, "AkEngineMC", cfg, {"MODEL": f}, workers=workers, timeout=timeout, opts=["-coverage", "10"])
    if not r.ok:
        raise akv.CheckError("model %s: %s\n%s" % (name, r.violated, r.out[-8000:]))
    for k, v in r.cov.items():
        ctx.actions[k] = ctx.actions.get(k, 0) + v
    hs = sorted(set(json.loads(re.match(r'<<"HIST",\s*(".*")\s*>>$', x, re.S).group(1)) for x in akv.printed(r.out, "HIST")))
    return [json.loads(x) for x in hs]


# ------------------------------------------------------------------ projects

def chain():
    """Source -> two commands, the first with two products, an always changing argument and a header-like extra file."""
    p = Project([
        rule("r1", "run", cons=[C("a.txt")], ins=[same("S:a.txt")], outs=["C:o1", "C:o1b"], args=[V("V")]),
        rule("r2", "run", cons=[C("o1"), C("b.txt")], ins=[same("C:o1"), same("S:b.txt")], outs=["C:o2"], garb=True, args=[L("k")]),
        rule("r3", "run", cons=[C("o2")], ins=[same("C:o2")], outs=["C:o3"], g=[{"v": "A", "pos": True}]),
    ])
    p2 = Project([
        rule("r2", "run", cons=[C("o1"), C("b.txt")], ins=[same("C:o1"), same("S:b.txt")], outs=["C:o2"], garb=True, args=[L("k2")]),
        rule("r1", "run", cons=[C("a.txt")], ins=[same("S:a.txt")], outs=["C:o1", "C:o1b"], args=[V("V")]),
        rule("r3", "run", cons=[C("o2")], ins=[same("C:o2")], outs=["C:o3"], g=[{"v": "A", "pos": True}]),
    ])
    m = Model([p, p2], [w("S:a.txt", txt("a0")), w("S:b.txt", txt("b0")), opt("V", "x"), opt("A", "1")], [])
    m.edits = [
        [], [w("S:a.txt", txt("a1"))], [w("S:a.txt", txt("bad"))], [w("S:b.txt", txt("b1"))], [w("S:b.txt", txt("bad"))],
        [opt("V", "y")], [opt("V", "bad")], [opt("A", "0")], [opt("A", "1")], [rm("C:o1")], [w("C:o1", txt("zz"))],
        [rm("C:o1b")], [rm("S:b.txt")], [w("C:o3", txt("zz"))]]
    return m


def swap():
    """Scripts are replaced."""
    a = [rule("r1", "run", cons=[C("a.txt")], ins=[same("S:a.txt")], outs=["C:o1"], args=[L("p")]),
         rule("r2", "run", cons=[C("o1")], ins=[same("C:o1")], outs=["C:o2"], args=[V("V")])]
    b = [rule("r2", "run", cons=[C("o1")], ins=[same("C:o1")], outs=["C:o2"], args=[V("V")]),
         rule("r1", "run", cons=[C("a.txt")], ins=[same("S:a.txt")], outs=["C:o1"], args=[L("q")])]
    c = [rule("r0", "run", cons=[], outs=["C:o0"], args=[L("n")]),
         rule("r1", "run", cons=[C("a.txt"), C("o0")], ins=[same("S:a.txt"), same("C:o0")], outs=["C:o1"], args=[L("p")]),
         rule("r2", "run", cons=[C("o1")], ins=[same("C:o1")], outs=["C:o2"], args=[V("V")])]
    d = [rule("r1", "run", cons=[C("a.txt")], ins=[same("S:a.txt")], outs=["C:o1"], args=[L("p")])]
    m = Model([Project(x) for x in (a, b, c, d)], [w("S:a.txt", txt("a0")), opt("V", "x")], [])
    full = lambda k: [{"op": "prj", "n": k + 1}] + m.scripts(k)
    m.edits = [[], full(0), full(1), full(2), full(3), [w("S:a.txt", txt("a1"))], [opt("V", "y")], [w("S:a.txt", txt("bad"))]]
    return m


def units():
    """Two units, rules consume products of each other."""
    p = Project([
        rule("r1", "run", cons=[C("sub/o2")], ins=[same("C:sub/o2")], outs=["C:o1"], args=[V("V")]),
        rule("r2", "run", _unit="sub", cons=[C("sub/a.txt"), same("C:o0")], ins=[same("S:sub/a.txt"), same("C:o0")], outs=["C:sub/o2"], args=[V("W")]),
        rule("r3", "run", _unit="sub", cons=[C("sub/o2")], ins=[same("C:sub/o2")], outs=["C:sub/o3"]),
        rule("r0", "run", cons=[C("b.txt")], ins=[same("S:b.txt")], outs=["C:o0"]),
    ])
    m = Model([p], [w("S:sub/a.txt", txt("a0")), w("S:b.txt", txt("b0")), opt("V", "x"), opt("W", "w")], [])
    m.edits = [[], [w("S:sub/a.txt", txt("a1"))], [w("S:b.txt", txt("b1"))], [w("S:b.txt", txt("bad"))], [opt("V", "y")],
               [opt("W", "y")], [rm("C:sub/o2")], [rm("C:o0")], [w("C:sub/o2", txt("t"))], [unopt("W")]]
    return m


def gcc():
    """Compiled sources, one of them and one header generated."""
    hm = {"h0.h": same("S:h0.h"), "h1.h": same("S:h1.h"), "gen.h": same("C:gen.h")}
    p = Project([
        rule("c1", "cc", cons=[C("gen.h")], args=[W("F")], cc={"t": "v", "v": "CC"}, hmap=hm, items=[L("n0"), L("n1"), L("n2")],
             imap={"n0": {"in": same("S:s0.c"), "out": "C:s0.o", "val": "s0.c"},
                   "n1": {"in": same("S:s1.c"), "out": "C:s1.o", "val": "s1.c"},
                   "n2": {"in": same("C:g.c"), "out": "C:g.o", "val": "g.c"}}),
        rule("r1", "run", cons=[C("h.txt")], ins=[same("S:h.txt")], outs=["C:gen.h"]),
        rule("r2", "run", cons=[C("g.txt")], ins=[same("S:g.txt")], outs=["C:g.c"]),
        rule("r3", "run", cons=[C("s0.o"), C("s1.o"), C("g.o")], ins=[same("C:s0.o"), same("C:s1.o"), same("C:g.o")], outs=["C:prog"]),
    ])
    m = Model([p], [w("S:s0.c", src("s0", ["h0.h"])), w("S:s1.c", src("s1", ["gen.h"])), w("S:h0.h", src("h0", ["h1.h"])),
                    w("S:h1.h", src("h1", [])), w("S:h.txt", txt("gh")), w("S:g.txt", txt("gs")), opt("F", "-O1"), env("CC", "fcc")], [])
    m.edits = [[], [w("S:s0.c", src("s0x", ["h0.h"]))], [w("S:s0.c", src("bad", []))], [w("S:s1.c", src("s1y", ["gen.h", "h1.h"]))],
               [w("S:h1.h", src("h1x", []))], [w("S:h1.h", src("bad", []))], [w("S:h0.h", src("h0n", []))],
               [w("S:h.txt", txt("gh2"))], [w("S:g.txt", txt("gs2"))], [opt("F", "-O2 -g")], [env("CC", "fccb")],
               [rm("C:s0.o")], [rm("C:gen.h")], [rm("S:h1.h")], [w("S:g.txt", txt("bad"))]]
    return m


def feach():
    """foreach over a list which changes."""
    p = Project([
        rule("r1", "run", cons=[C("a.of1")], ins=[same("C:a.of1")], outs=["C:o1"]),
        rule("f1", "fe", fcons=True, cons=[C("x.txt")], ins=[same("S:x.txt")], items=[L("a.it"), W("L")], args=[{"t": "i", "v": ""}, V("V")],
             imap={"%s.it" % n: {"in": ["C:%s.it" % n, "S:%s.it" % n], "out": "C:%s.of1" % n, "val": "../%s.it" % n} for n in "abc"}),
    ])
    m = Model([p], [w("S:%s.it" % n, txt(n + "0")) for n in "abc"] + [w("S:x.txt", txt("x0")), opt("L", "b.it"), opt("V", "v")], [])
    m.edits = [[], [w("S:a.it", txt("a1"))], [w("S:b.it", txt("b1"))], [w("S:b.it", txt("bad"))], [w("S:x.txt", txt("x1"))],
               [opt("L", "b.it c.it")], [opt("L", "c.it b.it")], [opt("L", "c.it")], [opt("V", "w")], [rm("C:a.of1")], [rm("C:b.of1")],
               [unopt("L")], [w("C:b.of1", txt("zz"))]]
    return m


def derive():
    """foreach whose items consume products of other foreach and sources named after items."""
    its = [L("a"), W("L")]
    p = Project([
        rule("f2", "fe", items=its, args=[{"t": "i", "v": ""}], cons=[C("x.txt")], ins=[same("S:x.txt")],
             _der=[("^{${ITEM} .of1}", ["-i", "^{${ITEM} .of1}"]), ("^{${ITEM} .q}", ["-i", "^{S{} / ${ITEM} .q}"])],
             imap={n: {"in": ["", ""], "out": "C:%s.of2" % n, "val": n, "der": [C("%s.of1" % n), C("%s.q" % n)]} for n in "abc"}),
        rule("f1", "fe", items=its, args=[{"t": "i", "v": ""}, V("V")],
             imap={n: {"in": ["", ""], "out": "C:%s.of1" % n, "val": n} for n in "abc"}),
        rule("r1", "run", cons=[C("a.of2")], ins=[same("C:a.of2")], outs=["C:o1"]),
    ])
    m = Model([p], [w("S:%s.q" % n, txt(n + "0")) for n in "abc"] + [w("S:x.txt", txt("x0")), opt("L", "b"), opt("V", "v")], [])
    m.edits = [[], [w("S:a.q", txt("a1"))], [w("S:b.q", txt("b1"))], [w("S:b.q", txt("bad"))], [w("S:x.txt", txt("x1"))],
               [opt("L", "b c")], [opt("L", "c b")], [opt("V", "w")], [rm("C:a.of1")], [rm("C:b.of2")], [rm("S:b.q")],
               [unopt("L")], [w("C:b.of1", txt("zz"))]]
    return m


def checks():
    """A check script whose variables select rules and are used as arguments."""
    s0 = scr(sets=[{"v": "K", "p": [{"t": "e", "v": "E1", "n": 0}], "ce": "", "cv": ""},
                   {"v": "M", "p": [{"t": "l", "v": "m", "n": 0}, {"t": "a", "v": "", "n": 1}, {"t": "f", "v": "S:f.txt", "n": 0}], "ce": "", "cv": ""}],
             envs=["E1"], files=["S:f.txt"])
    s1 = scr(sets=[{"v": "K", "p": [{"t": "l", "v": "1", "n": 0}], "ce": "E2", "cv": "on"}], envs=["E2"], files=[])
    p = Project([
        rule("k1", "check", script="S:.autark/k1.sh", args=[V("V")]),
        rule("r1", "run", outs=["C:o1"], args=[V("K")], g=[{"v": "K", "pos": True}]),
        rule("r2", "run", outs=["C:o2"], args=[V("M")]),
        rule("r3", "run", outs=["C:o3"], g=[{"v": "K", "pos": False}]),
    ])
    m = Model([p], [w("S:.autark/k1.sh", s0), w("S:f.txt", txt("f0")), env("E1", "1"), opt("V", "v")], [])
    m.edits = [[], [w("S:.autark/k1.sh", s1)], [w("S:.autark/k1.sh", s0)], [w("S:.autark/k1.sh", dict(s0, sc=[dict(s0["sc"][0], fail=True, _late=True)]))],
               [env("E1", "0")], [env("E1", "2")], [unenv("E1")], [env("E2", "on")], [w("S:f.txt", txt("f1"))], [opt("V", "y")], [rm("S:f.txt")]]
    return m


def conf():
    """Templates and variables."""
    p = Project([
        rule("k1", "check", script="S:.autark/k1.sh"),
        rule("r1", "run", cons=[C("t0.txt")], ins=[same("C:t0.txt")], outs=["C:o1"]),
        rule("g1", "conf", items=[L("t0"), L("t1")],
             imap={"t%d" % n: {"in": same("S:t%d.txt.in" % n), "out": "C:t%d.txt" % n, "val": "t%d" % n} for n in (0, 1)}),
        rule("r2", "run", cons=[C("t1.txt")], ins=[same("C:t1.txt")], outs=["C:o2"]),
    ])
    s = scr(sets=[{"v": "K", "p": [{"t": "e", "v": "E1", "n": 0}], "ce": "", "cv": ""}], envs=["E1"])
    v = lambda n: {"t": "v", "v": n}
    m = Model([p], [w("S:.autark/k1.sh", s), w("S:t0.txt.in", tpl([L("x="), v("V"), L("\n"), {"t": "d", "v": "K"}])),
                    w("S:t1.txt.in", tpl([v("W"), L("-"), v("K"), L("\n"), {"t": "dn", "v": "NO"}, {"t": "dq", "v": "V"}])),
                    env("E1", "one"), opt("V", "v"), opt("W", "w")], [])
    m.edits = [[], [opt("V", "y")], [opt("W", "y")], [unopt("W")], [opt("W", "")], [env("E1", "")], [env("E1", "2")], [opt("NO", "0")],
               [w("S:t0.txt.in", tpl([L("y="), v("W"), L("\n")]))], [rm("C:t1.txt")], [w("C:t0.txt", txt("q"))]]
    return m


def substs():
    p = Project([
        rule("r1", "run", outs=["C:o1"], args=[{"t": "s", "v": "s1"}], _subst={}),
        rule("r2", "run", cons=[C("o1")], ins=[same("C:o1")], outs=["C:o2"], args=[{"t": "s", "v": "s2"}, L("x")], _subst={}),
        rule("s1", "subst", cached=True, args=[V("V")]),
        rule("s2", "subst", cached=False, args=[V("W")]),
    ])
    p.rules[0]["_subst"] = {"s1": p.rules[2]}
    p.rules[1]["_subst"] = {"s2": p.rules[3]}
    m = Model([p], [opt("V", "v"), opt("W", "w")], [])
    m.edits = [[], [opt("V", "y")], [opt("W", "y")], [opt("V", "bad")], [opt("W", "bad")], [unopt("V")], [opt("V", "v")], [rm("C:o1")]]
    return m


def inst():
    p = Project([
        rule("i1", "inst", cons=[C("o1"), C("b.txt")], outs=["I:dst/o1", "I:dst/b.txt"], _target="dst"),
        rule("r1", "run", cons=[C("a.txt")], ins=[same("S:a.txt")], outs=["C:o1"], args=[V("V")]),
        rule("i2", "inst", cons=[C("o1")], outs=["I:two/o1"], _target="two", g=[{"v": "A", "pos": True}]),
    ])
    m = Model([p], [w("S:a.txt", txt("a0")), w("S:b.txt", txt("b0")), opt("V", "v"), opt("A", "1")], [], inst=True)
    m.edits = [[], [w("S:a.txt", txt("a1"))], [w("S:b.txt", txt("b1"))], [opt("V", "y")], [opt("A", "0")], [w("I:dst/o1", txt("q"))],
               [rm("I:dst/b.txt")], [rm("S:b.txt")], [opt("V", "bad")], [rm("C:o1")]]
    return m


def always():
    p = Project([
        rule("r1", "run", cons=[C("a.txt")], ins=[same("S:a.txt")], outs=["C:o1"], always=True, args=[V("V")]),
        rule("r2", "run", cons=[C("a.txt")], ins=[same("S:a.txt")], outs=["C:o2"]),
    ])
    m = Model([p], [w("S:a.txt", txt("a0")), opt("V", "v")], [])
    m.edits = [[], [w("S:a.txt", txt("a1"))], [w("S:a.txt", txt("bad"))], [opt("V", "y")], [rm("C:o2")], [rm("C:o1")]]
    return m


MODELS = {"chain": chain, "swap": swap, "units": units, "gcc": gcc, "feach": feach, "derive": derive, "checks": checks, "conf": conf,
          "substs": substs, "inst": inst, "always": always}


def histories(ctx, names, depth, kill=0, kdepth=1, limit=None):
    """Histories of the models (or a sample of `limit' of each)."""
    total = 0
    allh = []

    def one(n):
        m = MODELS[n]()
        hs = explore(ctx, n, m, depth, workers=2 if len(names) > 1 else 8)
        if kill:
            hs += [x for x in explore(ctx, n + "-kill", m, kdepth, kill, workers=2) if any(y["k"] for y in x)]
        return n, m, hs
    for n, m, hs in ctx.pmap(one, names, 4):
        total += len(hs)
        if limit and len(hs) > limit:
            hs = ctx.rng("model", n).sample(hs, limit)
        allh += [m.history(x) for x in hs]
    ctx.notes["model_histories"] = ctx.notes.get("model_histories", 0) + total
    ctx.notes["model_histories_replayed"] = ctx.notes.get("model_histories_replayed", 0) + len(allh)
    return allh


def check_models(ctx, names, depth, kill=0, kdepth=1, limit=None):
    """Explores models, replays all their histories and validates them."""
    allh = histories(ctx, names, depth, kill, kdepth, limit)
    return engine.check_histories(ctx, allh, "model-", batch=max(8, min(60, len(allh) // 8 + 1)))
