"""Common machinery of the checks: builds the program from /repo, runs it in scratch folders as an
unprivileged user, runs TLC, writes evidence and reports violations."""
import atexit, ctypes, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("AUTARK_REPO", "/repo")
UID = 65534
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself failed (not the property)."""


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.jobs = 8
        self.tmp = tempfile.mkdtemp(prefix="akv-%s-" % prop, dir="/tmp")
        os.chmod(self.tmp, 0o755)
        self.keep = bool(os.environ.get("AKV_KEEP"))
        atexit.register(self.cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *a: sys.exit(2))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.actions = {}
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self._n = 0
        self.hangs = 0
        self.replay_dir = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0

    def rng(self, *key):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, "/".join(map(str, key))))

    def cleanup(self):
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- build
    def build(self):
        self.bin = os.path.join(self.tmp, "bin")
        os.makedirs(self.bin, exist_ok=True)
        d = os.path.join(self.tmp, "ak")
        p = subprocess.run([os.path.join(VERIF, "lib", "mkautark.sh"), d], capture_output=True, text=True)
        if p.returncode:
            raise CheckError("cannot build autark: %s" % p.stderr[-2000:])
        shutil.copy(os.path.join(d, "autark"), os.path.join(self.bin, "autark"))
        tl = os.path.join(self.bin, "tl")
        p = subprocess.run(["gcc", "-O1", "-w", "-o", tl, os.path.join(VERIF, "lib", "tl.c")], capture_output=True, text=True)
        if p.returncode:
            raise CheckError("cannot build tl: %s" % p.stderr[-2000:])
        for n in ("fcc", "fccb", "fccx"):
            shutil.copy(tl, os.path.join(self.bin, n))
        self.autark = os.path.join(self.bin, "autark")
        return self

    def build_san(self):
        """Build which reports errors of memory; it is used in place of the usual one."""
        d = os.path.join(self.tmp, "aks")
        p = subprocess.run([os.path.join(VERIF, "lib", "mkautark.sh"), d, "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
                           capture_output=True, text=True)
        if p.returncode:
            raise CheckError("cannot build autark with sanitizers: %s" % p.stderr[-2000:])
        shutil.copy(os.path.join(d, "autark"), os.path.join(self.bin, "autark-san"))
        self.autark = os.path.join(self.bin, "autark-san")
        self.san = True
        return self

    def shim(self):
        """Library which kills the build process at a chosen point."""
        so = os.path.join(self.bin, "ks.so")
        if not os.path.exists(so):
            p = subprocess.run(["gcc", "-O1", "-w", "-U_FORTIFY_SOURCE", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "lib", "ks.c"), "-ldl"],
                               capture_output=True, text=True)
            if p.returncode:
                raise CheckError("cannot build ks.so: %s" % p.stderr[-2000:])
        return so

    def scratch(self, name=None):
        self._n += 1
        d = os.path.join(self.tmp, "w", "%s%d" % (name or "p", self._n))
        os.makedirs(d)
        os.chmod(os.path.dirname(d), 0o755)
        os.chown(d, UID, UID)
        return d

    def pmap(self, f, items, workers=None):
        with ThreadPoolExecutor(workers or self.jobs) as ex:
            return list(ex.map(f, items))

    # ---- verdict
    def violation(self, name, data, msg=""):
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, "%s.json" % re.sub(r"[^A-Za-z0-9_.-]", "_", name))
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        self.violations.append(path)
        if msg:
            print("  " + msg[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self, **cov):
        c = {"states": self.states, "transitions": self.transitions,
             "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        if self.level == "fault_enumeration" or self.level == "exploration":
            c.update({"evaluations": self.evals, "distinct_nontrivial": self.evals})
        if self.actions:
            c["actions"] = self.actions
        c.update(self.notes)
        c.update(cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": c, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d states, %d transitions, %d traces validated, %d violations, %.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def main(fn, prop, **kw):
    """Runs a check: exit 0 held, 1 violated, 2 error of the check."""
    try:
        ctx = Ctx(prop, **kw)
        ctx.build()
        rc = fn(ctx)
        rc = ctx.finish() if rc is None else rc
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR property=%s %s" % (prop, e))
        rc = 1 if "ctx" in locals() and ctx.violations else 2
    sys.exit(rc)


# ---------------------------------------------------------------- running programs

# Orphaned grandchildren become children of this process and can be reaped
ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
# Executed programs cannot exhaust the memory
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def wait_group(pgid, timeout=20):
    """Waits until all processes of the group are gone."""
    t = time.time()
    while True:
        try:   # orphans are ours (see SUBREAPER)
            while os.waitpid(-pgid, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        try:
            os.killpg(pgid, 0)
        except (ProcessLookupError, PermissionError):
            return
        if time.time() - t > timeout:
            try:
                os.killpg(pgid, signal.SIGKILL)
            except ProcessLookupError:
                return
            timeout += 5
        time.sleep(0.002)


class Run:
    __slots__ = ("rc", "out", "timeout")


def run(ctx, args, cwd, env=None, timeout=20, stdin=None, argv0=None, merge=True, extra=None, stderr=None):
    """Runs a command as an unprivileged user in its own session. rc is -9 if it was killed."""
    e = {"PATH": ctx.bin + ":/usr/bin:/bin", "HOME": cwd, "LC_ALL": "C"}
    if env:
        e.update(env)
    if getattr(ctx, "san", False):
        e.update({"ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "exitcode=99"})
        args = ["/bin/sh", "-c", "ulimit -S -v unlimited; exec \"$@\"", "sh"] + list(args)
    r = Run()
    r.timeout = False
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(args, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                             stdout=fo, stderr=stderr if stderr is not None else fo if merge else fe, user=UID, group=UID, extra_groups=[],
                             umask=0o022, start_new_session=True)
        try:
            p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        r.rc = p.returncode
        wait_group(p.pid)
        fo.seek(0)
        r.out = fo.read()
        if not merge:
            fe.seek(0)
            r.out = (r.out, fe.read())
    return r


def put(path, text, mode=0o644):
    """Writes a file owned by the unprivileged user."""
    d = os.path.dirname(path)
    made = []
    while not os.path.isdir(d):
        made.append(d)
        d = os.path.dirname(d)
    for d in reversed(made):
        os.mkdir(d)
        os.chown(d, UID, UID)
    b = text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape")
    with open(path, "wb") as f:
        f.write(b)
    os.chmod(path, mode)
    os.chown(path, UID, UID)


# ---------------------------------------------------------------- TLC

class Tlc:
    pass


def tlc(ctx, module, cfg, env=None, workers=1, opts=(), timeout=600, mem="3g", simulate=None, jvm=()):
    """Runs TLC on spec/<module>.tla. Returns parsed results; raises CheckError if TLC itself failed."""
    ctx._n += 1
    md = os.path.join(ctx.tmp, "tlc%d" % ctx._n)
    os.makedirs(md)
    e = dict(os.environ)
    e.update(env or {})
    if not os.path.isabs(cfg):
        cfg = os.path.join(SPEC, cfg)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + mem, "-Xss64m", "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 or timeout > 300 else 4),
           "-Djava.io.tmpdir=" + md, *jvm, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-config", cfg, *opts]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    t0 = time.time()
    cmd = ["/bin/sh", "-c", "ulimit -S -v unlimited; exec \"$@\"", "sh"] + cmd
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timeout: %s" % module)
    r = Tlc()
    r.rc = p.returncode
    r.out = p.stdout + p.stderr
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    ms = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if ms:
        r.gen, r.distinct = [int(x.replace(",", "")) for x in ms[-1]]
    else:
        m = re.search(r"Generated ([\d,]+) states|The number of states generated: ([\d,]+)", r.out)
        r.gen = int((m.group(1) or m.group(2)).replace(",", "")) if m else 0
        r.distinct = r.gen
    r.cov = coverage(r.out)
    if "-coverage" in opts:
        r.out = "\n".join(x for x in r.out.split("\n") if not re.match(r"^ *\|*line |^<\w+ line", x))
    r.violated = re.findall(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated", r.out)
    r.ok = p.returncode == 0
    if p.returncode not in (0, 10, 11, 12, 13):
        tail = "\n".join([x for x in r.out.splitlines() if not re.match(r"Parsing|Semantic", x)][-60:])
        raise CheckError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, tail[-6000:]))
    shutil.rmtree(md, ignore_errors=True)
    r.wall = time.time() - t0
    if os.environ.get("AKV_TIMES"):
        print("tlc %s %.1fs %d states %s" % (module, r.wall, r.distinct, env))
    ctx.states += r.distinct
    ctx.transitions += r.gen
    return r


def printed(out, tag):
    """Tuples <<"TAG", ...>> printed by the specification (may be wrapped over lines)."""
    res = []
    i = 0
    while True:
        i = out.find('<<"%s"' % tag, i)
        if i < 0:
            i2 = out.find('<< "%s"' % tag)
            return res
        j = i
        depth = 0
        instr = False
        while j < len(out):
            c = out[j]
            if instr:
                if c == "\\":
                    j += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif out.startswith("<<", j):
                depth += 1
                j += 1
            elif out.startswith(">>", j):
                depth -= 1
                j += 1
                if depth == 0:
                    break
            j += 1
        res.append(out[i:j + 1])
        i = j + 1


def coverage(out):
    """Counts of taken actions reported by -coverage."""
    res = {}
    for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: ([\d]+):([\d]+)", out, re.M):
        res[m.group(1)] = max(res.get(m.group(1), 0), int(m.group(4)))
    return res


def cfg_text(ctx, name, text):
    p = os.path.join(ctx.tmp, name)
    with open(p, "w") as f:
        f.write(text)
    return p
