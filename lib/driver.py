"""Machinery shared by all checks: runs TLC, builds and runs the conformance
harnesses against /repo's working tree, writes evidence."""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NCPU = max(2, min(8, os.cpu_count() or 2))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "540"))


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class InfraError(Exception):
    pass


class Settled(Exception):
    """A confirmed violation of the property being checked: nothing more has to be run."""


class Ctx:
    """State of one check run: scratch directory, counters, divergences."""

    def __init__(self, prop):
        self.prop = prop
        self.scratch = tempfile.mkdtemp(prefix="nestl-verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.fired = 0
        self.events = 0
        self.samples = []
        self.runs = []
        self.models = []
        self.divs = []          # dicts: comp, variant, tag, op, fault, case, detail, cmd
        self.n = 0
        self.lock = threading.Lock()
        self.mine = lambda d: False     # does this divergence violate the property being checked?
        self.skipped = 0
        self.stop = False               # a job has found a violation: jobs not started yet are skipped

    def tmp(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, "%03d-%s" % (self.n, name))

    def count(self, **kw):
        with self.lock:
            for k, v in kw.items():
                setattr(self, k, getattr(self, k) + v)

    def late(self):
        """True when the run should not start anything new (quick tier only: it has to answer in time on a slow machine)."""
        if self.stop or (not THOROUGH and time.time() - T0 > BUDGET):
            self.skipped += 1
            return True
        return False

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# ------------------------------------------------------------------ TLC
# exit codes of TLC: 10 assumption, 11 deadlock, 12 safety, 13 liveness, 75/76 an expression could not be evaluated
FAILED_CHECK = (10, 11, 12, 13, 75, 76)


def run_tlc(ctx, module, cfg, workers=NCPU, timeout=600, extra=(), env=None, want_fail=False, javaopts="-Xmx6g -XX:+UseParallelGC"):
    """cfg: text of the configuration. Returns (ok, output, distinct, generated)."""
    last = None
    for attempt in range(2):
        cfgf = ctx.tmp(module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        md = ctx.tmp("md")
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = javaopts + " -Djava.io.tmpdir=" + ctx.scratch
        if env:
            e.update(env)
        cmd = ["tlc", "-workers", str(workers), "-metadir", md, "-config", cfgf, "-noGenerateSpecTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        out = ctx.tmp(module + ".out")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=SPEC)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        shutil.rmtree(md, ignore_errors=True)
        text = open(out, errors="replace").read()
        gen = dist = 0
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", text):
            gen, dist = int(m.group(1)), int(m.group(2))
        if not gen:
            m = re.search(r"The number of states generated: (\d+)", text)     # -simulate
            if m:
                gen = int(m.group(1))
        if rc == 0:
            return True, text, dist, gen
        last = (False, text, dist, gen, rc)
        if want_fail and rc in FAILED_CHECK:
            if attempt == 1:
                return False, text, dist, gen
    if want_fail and last[4] in FAILED_CHECK:
        return False, last[1], last[2], last[3]
    lines = [l for l in last[1].splitlines() if not l.startswith('"@@')]
    raise InfraError("TLC failed on %s (rc=%s):\n%s" % (module, last[4], "\n".join(lines[-40:])))


def model(ctx, name, module, cfg, **kw):
    """Exhaustive model check which has to succeed (the specification's own invariants)."""
    ok, text, dist, gen = run_tlc(ctx, module, cfg, **kw)
    ctx.count(states=dist, transitions=gen)
    ctx.models.append({"model": name, "module": module, "states": dist, "transitions": gen})
    log("model %s: %d states, %d transitions" % (name, dist, gen))
    return text


def emitted(text):
    for line in text.splitlines():
        if line.startswith('"@@'):
            yield json.loads(json.loads(line)[2:])


def cs(q):
    return ",".join(str(v) for v in q)


ERR = {"none": "none", "alloc": "bad_alloc", "elem": "elem", "size": "bad_alloc"}


def orgs(o):
    """origins: one sequence per container, [-1] where they are not specified"""
    if o is None:
        return "*"
    return ";".join("*" if list(q) == [-1] else cs(q) for q in o)


def _rows(arg):
    line, fmt = arg
    r = json.loads(json.loads(line)[2:])
    out = []
    for e in r["ops"]:
        o = e["o"]
        head = "O\t%s\t%s\t%s\t%s\t%d\n" % (o["n"], o["c"], cs(o["x"]), cs(o["s"]), 1 if e.get("p") else 0)
        out.append(head + "".join(sorted("R\t%s\t%s\t%s\t%s\t%s\n" % (x["f"], x.get("err", ERR.get(x["f"], x["f"])), fmt(x["st"]), cs(x["ret"]), orgs(x.get("org"))) for x in e["r"])))
    out.sort()
    return fmt(r["s"]), "".join(out)


def write_table(path, text, fmt):
    """text: output of TLC with lines {s, ops:[{o:{n,c,x,s}, r:[{f,st,ret(,org)}]}]}. Returns the number of states."""
    lines = [l for l in text.splitlines() if l.startswith('"@@')]
    with concurrent.futures.ProcessPoolExecutor(NCPU) as ex:
        seen = dict(ex.map(_rows, ((l, fmt) for l in lines), chunksize=max(1, len(lines) // (NCPU * 8))))
    with open(path, "w") as f:
        for st in sorted(seen):
            f.write("S\t%s\n" % st)
            f.write(seen[st])
    return len(seen)


# ------------------------------------------------------------------ harness
BASE = ["g++", "-std=gnu++11", "-w", "-g1", "-I", REPO, "-I", HARNESS]
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:print_legend=0",
            "UBSAN_OPTIONS": "halt_on_error=1:exitcode=78"}


class Variant:
    def __init__(self, name, flags):
        self.name = name
        self.flags = flags


ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-O1", "-fno-omit-frame-pointer"]


def std_variants(extra=()):
    v = [
        Variant("exc-throwing", ["-DELEM_KIND=1"] + ASAN),
        Variant("exc-twophase-usererr", ["-DELEM_KIND=2", "-DCUSTOM_ERR=1", "-DELEM_ALIGN=64"] + ASAN),
        Variant("exc-throwing-usererr", ["-DELEM_KIND=1", "-DCUSTOM_ERR=1"] + ASAN),
        Variant("noexc-twophase", ["-DELEM_KIND=2", "-fno-exceptions"] + ASAN),
        Variant("exc-trivial", ["-DELEM_KIND=4"] + ASAN),
        Variant("noexc-twophase-nomove-ndebug", ["-DELEM_KIND=3", "-fno-exceptions", "-DNDEBUG", "-O2"]),
    ]
    return v


def compile_one(ctx, src, variant, defs=()):
    exe = ctx.tmp(os.path.splitext(src)[0] + "-" + variant.name)
    cmd = BASE + variant.flags + list(defs) + [os.path.join(HARNESS, src), "-o", exe]
    p = None
    for attempt in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=400)
        if p.returncode == 0:
            return exe, None
    # a broken tool chain is not a finding about nestl
    t = ctx.tmp("probe.cpp")
    with open(t, "w") as f:
        f.write("#include <vector>\nint main(){ std::vector<int> v; v.push_back(1); return v[0]-1; }\n")
    q = subprocess.run(BASE + variant.flags + [t, "-o", t + ".exe"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if q.returncode != 0:
        raise InfraError("compiler does not work: " + q.stdout[-2000:])
    errs = [l for l in p.stdout.splitlines() if "error" in l] or p.stdout.splitlines()
    return None, " ; ".join(errs[:4])[:1500] + "  [" + " ".join(cmd) + "]"


def compile_all(ctx, comp, jobs):
    """jobs: list of (src, Variant, defs). Returns {(src, variant.name, defs): exe}."""
    res = {}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(compile_one, ctx, s, v, d): (s, v, d) for (s, v, d) in jobs}
        for f in concurrent.futures.as_completed(futs):
            s, v, d = futs[f]
            exe, err = f.result()
            if exe:
                res[(s, v.name, tuple(d))] = exe
            else:
                add_div(ctx, comp, v.name, "compile", "compile", "none", "harness %s does not compile against the library" % s, err, "")
    return res


def add_div(ctx, comp, variant, tag, op, fault, case, detail, cmd):
    ctx.divs.append(dict(comp=comp, variant=variant, tag=tag, op=op, fault=fault, case=case, detail=detail, cmd=cmd))


def run_once(ctx, exe, args, timeout):
    ctxf = ctx.tmp("ctx")
    out = ctx.tmp("out")
    env = dict(os.environ)
    env.update(ASAN_ENV)
    cmd = [exe] + args + ["ctx=" + ctxf]
    with open(out, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=ctx.scratch, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -999
    text = open(out, errors="replace").read()
    c = ""
    if os.path.exists(ctxf):
        with open(ctxf, "rb") as f:
            c = f.read().split(b"\0", 1)[0].decode(errors="replace")
        os.unlink(ctxf)
    os.unlink(out)
    return rc, text, c


def run_harness(ctx, comp, exe, variant, args, timeout=300, label="", resume=True, crash_tag="crash"):
    """Runs one harness process; after a crash resumes behind the crashing case (at most 6 times)."""
    found = []
    frm = None
    hangs = 0
    for attempt in range(7):
        a = list(args) + (["from=%d" % frm] if frm is not None else [])
        rc, text, c = run_once(ctx, exe, a, timeout)
        cmdtxt = os.path.basename(exe) + " " + " ".join(a)
        done = False
        for line in text.splitlines():
            if line.startswith("DIV\t"):
                p = (line.split("\t") + [""] * 6)[:6]
                found.append(dict(comp=comp, variant=variant, tag=p[1], op=p[2], fault=p[3], case=p[4], detail=p[5], cmd=cmdtxt))
            elif line.startswith("STATS\t"):
                done = True
                kv = dict(x.split("=") for x in line.split("\t")[1:])
                ctx.count(replayed=int(kv.get("cases", 0)), fired=int(kv.get("fired", 0)))
            elif line.startswith("SAMPLE\t") and len(ctx.samples) < 12:
                ctx.samples.append(variant + ": " + line.split("\t", 1)[1][:700])
        if done:
            break
        p = (c.split("\t", 3) + [""] * 4)[:4]
        if rc == 3 or (rc == 127 and not c):
            raise InfraError("harness %s failed (rc=%s): %s" % (exe, rc, text[-1500:]))
        tail = [l for l in text.splitlines() if not l.startswith(("DIV\t", "SAMPLE\t"))]
        key = [l for l in tail if "ERROR" in l or "runtime error" in l or "Assertion" in l or "SUMMARY" in l]
        hang = rc in (-999, -signal.SIGXCPU, -signal.SIGKILL, -signal.SIGPROF)
        if not c and not hang:
            raise InfraError("harness %s died before its first case (rc=%s): %s" % (exe, rc, text[-1500:]))
        found.append(dict(comp=comp, variant=variant, tag="hang" if hang else crash_tag, op=p[1], fault=p[2], case=p[3],
                          detail=("rc=%s " % rc) + " ; ".join((key or tail[-5:]))[:900], cmd=cmdtxt))
        hangs += hang
        if not resume or (hang and rc != -signal.SIGPROF) or hangs > 1 or ctx.late():
            break
        try:
            frm = int(p[0]) + 1
        except ValueError:
            break
    return found


def confirm(ctx, redo, rerun, workers):
    """redo: [(job, divergences)]. A divergence counts when a second run of the job diverges too (a broken tree may
    corrupt memory differently each time, so any divergence confirms). Ends the check once its property is settled."""
    ctx.stop = False
    mine = [(j, d) for j, d in redo if any(ctx.mine(x) for x in d)][:2 * workers]
    other = [(j, d) for j, d in redo if not any(ctx.mine(x) for x in d)][:workers]
    rep, fir, ev = ctx.replayed, ctx.fired, ctx.events
    for part in (mine, other):
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            again = list(ex.map(rerun, [j for j, _ in part]))
        for (job, d), d2 in zip(part, again):
            if d2:
                ctx.divs.extend(d)
            else:
                for x in d[:5]:
                    log("not reproduced:", x["tag"], x["op"], x["case"][:200])
        ctx.replayed, ctx.fired, ctx.events = rep, fir, ev
        if any(ctx.mine(x) for x in ctx.divs):
            raise Settled()


def run_many(ctx, comp, jobs, timeout=300):
    """jobs: list of (exe, variantname, args, resume)."""
    def one(job):
        e, v, a, r = job
        return run_harness(ctx, comp, e, v, a, timeout, "", r)
    def first(job):
        if ctx.late():
            return []
        d = one(job)
        if any(ctx.mine(x) for x in d):
            ctx.stop = True
        return d
    ctx.stop = False
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(first, jobs))
    confirm(ctx, [(j, d) for j, d in zip(jobs, results) if d], one, NCPU)


# ------------------------------------------------------------------ trace validation
def check_trace(ctx, module, cfgtext, trace, timeout=600, trace2=None):
    ok, text, dist, gen = run_tlc(ctx, module, cfgtext, workers=1, timeout=timeout, env={"TRACE": trace, "TRACE2": trace2 or trace}, want_fail=True, javaopts="-Xmx3g -Xss64m")
    idx = 0
    for m in re.finditer(r"@@STUCK (\d+)", text):
        idx = int(m.group(1))
    why = "trace"
    for m in re.finditer(r'@@WHY ([a-z-]+)', text):
        why = m.group(1)
    if not ok and not idx and "behavior up to this point" in text:
        # the event makes no sense to the specification at all (e.g. a position outside of the sequence)
        idx, why = len(re.findall(r"^State \d+:", text, re.M)), "contents"
    if not ok and not idx:
        raise InfraError("trace specification %s failed without a stuck event:\n%s" % (module, text[-3000:]))
    return ok, idx, why, dist, gen


def record_and_validate(ctx, comp, jobs, module, cfgtext, timeout=600):
    """jobs: list of (exe, variantname, args[, module, cfgtext]). Records a trace with the harness and
    checks it against the trace specification, which names the clause a rejected event violates."""
    def one(job):
        exe, v, args = job[:3]
        mod, ctext = job[3:] or (module, cfgtext)
        tf = ctx.tmp("trace.ndjson")
        divs = run_harness(ctx, comp, exe, v, args + ["trace=" + tf], timeout, "", False)
        res = list(divs)
        if not any(d["tag"] in ("crash", "hang") for d in divs):
            n, bad = 0, None
            with open(tf) as f:
                for line in f:
                    n += 1
                    try:
                        json.loads(line)
                    except ValueError:
                        bad = line
            if bad is not None:
                res.append(dict(comp=comp, variant=v, tag="contents", op="trace", fault="none", case="malformed trace event: " + bad[:500],
                                detail="the recorded state cannot be expressed", cmd=os.path.basename(exe) + " " + " ".join(args)))
                os.unlink(tf)
                return res
            ok, idx, why, dist, gen = check_trace(ctx, mod, ctext, tf, timeout)
            if not ok:
                ev, prev = {}, []
                with open(tf) as f:
                    for i, line in enumerate(f, 1):
                        if i == idx:
                            ev = json.loads(line)
                            break
                        prev = (prev + [line.strip()])[-3:]
                res.append(dict(comp=comp, variant=v, tag=why, op=ev.get("n", "?"), fault=ev.get("f", "none"),
                                case="trace event %d of [%s]: %s; preceded by %s" % (idx, " ".join(args), json.dumps(ev)[:1200], " ".join(prev)[:1500]),
                                detail="the recorded call is not a step specification %s allows (%s)" % (mod, why), cmd=os.path.basename(exe) + " " + " ".join(args)))
            else:
                ctx.count(events=n)
                ctx.models.append({"trace": comp + "/" + v + " " + " ".join(args), "module": mod, "events": n})
            ctx.count(states=dist, transitions=gen)
        if os.path.exists(tf):
            os.unlink(tf)
        return res
    def first(job):
        if ctx.late():
            return []
        d = one(job)
        if any(ctx.mine(x) for x in d):
            ctx.stop = True
        return d
    ctx.stop = False
    with concurrent.futures.ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
        results = list(ex.map(first, jobs))
    confirm(ctx, [(j, d) for j, d in zip(jobs, results) if d], one, max(1, NCPU // 2))
