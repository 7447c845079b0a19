"""Running the tools: TLC as generator, model checker and trace validator, the
compiler, and the drivers built from /repo's working tree."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import norm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VM_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JOBS = 8
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Infra(Exception):
    """the machinery itself could not run"""

class Ctx:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vmcheck.")
        self.states = 0; self.transitions = 0; self.notes = []
        self.n = 0
        for f in os.listdir(SPEC):
            shutil.copy(os.path.join(SPEC, f), self.dir)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def tmp(self, name):
        self.n += 1
        return os.path.join(self.dir, "%d.%s" % (self.n, name))

def tlc(ctx, module, cfg, env=None, args=(), mem="2g", timeout=850, fast=True):
    md = ctx.tmp("md")
    e = dict(os.environ); e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC" if fast else "-XX:+UseParallelGC",
           "-cp", JARS, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *args, module]
    if fast:
        cmd.insert(1, "-XX:TieredStopAtLevel=1")
    try:
        p = subprocess.run(cmd, cwd=ctx.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        if isinstance(out, bytes): out = out.decode(errors="replace")
        rc = 124
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out, re.M)
    if m:
        ctx.transitions += int(m[-1][0].replace(",", "")); ctx.states += int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"The number of states generated: (\d[\d,]*)", out)
        if m:
            g = int(m[-1].replace(",", "")); ctx.transitions += g; ctx.states += g
    return rc, out

def gen(ctx, kind, count, seed=1, depth=4, skip=0, module="Gen"):
    """calls chosen by the specification of the environment, one line each"""
    jobs = max(1, min(JOBS, count // 250))
    per = (count + jobs - 1) // jobs
    def one(j):
        c = min(per, count - j * per)
        if c <= 0: return []
        env = {"GEN_KIND": kind, "GEN_COUNT": str(c), "GEN_SKIP": str(skip + j * per), "GEN_DEPTH": str(depth)}
        rc, out = tlc(ctx, module + ".tla", module + ".cfg", env,
                      ["-workers", "1", "-deadlock", "-simulate", "num=1", "-depth", str(c + 5), "-seed", str(seed * 1000 + j)])
        ls = re.findall(r'^"GEN (.*)"$', out, re.M)
        if len(ls) != c:
            raise Infra("generator %s: %d of %d\n%s" % (kind, len(ls), c, out[-1500:]))
        return [x.replace('\\"', '"').replace("\\\\", "\\") for x in ls]
    with ThreadPoolExecutor(JOBS) as ex:
        return [l for ls in ex.map(one, range(jobs)) for l in ls]

class BuildError(Exception):
    pass

def build(ctx, src, flags=(), cxx="g++", name=None):
    exe = ctx.tmp(name or "drv")
    if not os.path.isabs(src): src = os.path.join(HARN, src)
    p = subprocess.run([cxx, "-w", "-std=gnu++14", "-O0", "-g0", "-I" + REPO, "-I" + HARN, *flags, src, "-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    if p.returncode != 0:
        raise BuildError("\n".join([l for l in p.stdout.splitlines() if "error" in l][:8]) or p.stdout[-800:])
    return exe

def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, 256 << 20))

def drive(ctx, exe, lines, args=(), env=None, memlimit=3 << 30, wall=60):
    """one observation per line; a line that kills the driver is an observation too"""
    e = dict(os.environ); e.update(env or {})
    def lim():
        _limits()
        if memlimit:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    def chunk(job):
        base, ls = job
        res, i, crashes = [], 0, 0
        while i < len(ls):
            if crashes >= 4:                 # enough is known; do not spend the time
                break
            try:
                p = subprocess.run([exe, *args], input="\n".join(ls[i:]) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", preexec_fn=lim, env=e, timeout=wall + 20)
                rc, so, se = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as x:
                rc, so, se = -14, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), ""
            if rc in (90, 91, 92):
                raise Infra("driver: " + se[-300:])
            got = [l for l in so.split("\n") if l.startswith("{") and l.endswith("}")]
            got = got[:len(ls) - i]
            for k, g in enumerate(got):
                ev = json.loads(g); ev["n"] = base + i + k; res.append(ev)
            i += len(got)
            if i < len(ls):
                crashes += 1
                if rc < 0:
                    try: why = signal.Signals(-rc).name
                    except ValueError: why = "signal %d" % -rc
                else: why = "exit %d" % rc
                msg = next((l for l in se.splitlines() if "ERROR" in l or "Assert" in l or "runtime error" in l), "")[:160]
                bad = "driver died: " + why + (" " + msg if msg else "")
                if why == "SIGALRM" or rc == -14: bad = "does not terminate"
                res.append({"n": base + i, "op": ls[i].split()[0], "bad": bad})
                i += 1
        return res
    step = max(1, (len(lines) + JOBS * 2 - 1) // (JOBS * 2))
    jobs = [(b, lines[b:b + step]) for b in range(0, len(lines), step)]
    with ThreadPoolExecutor(JOBS) as ex:
        return [ev for r in ex.map(chunk, jobs) for ev in r]

def validate(ctx, prop, events, module="Trace", timeout=800):
    """[(event, complaints)] for the events the specification rejects"""
    if not events: return []
    byn = {ev["n"]: ev for ev in events}
    jobs = min(JOBS, max(1, len(events) // 40))
    # deal them out: neighbours cost about the same
    parts = [events[j::jobs] for j in range(jobs)]
    def one(part):
        f = ctx.tmp("trace.ndjson")
        with open(f, "w") as o:
            for ev in part: o.write(json.dumps(ev, separators=(",", ":")) + "\n")
        rc, out = tlc(ctx, module + ".tla", module + ".cfg", {"TRACE_PROP": prop, "TRACE_FILE": f}, ["-workers", "1"], timeout=timeout)
        os.unlink(f)
        rej = [(int(n), v.replace('\\"', '"')) for n, v in re.findall(r'^"REJECT (\d+) (.*)"$', out, re.M)]
        if rc != 0 or "No error has been found" not in out:
            raise Infra("trace validation of %s: rc=%d\n%s" % (prop, rc, out[-2500:]))
        return rej
    with ThreadPoolExecutor(JOBS) as ex:
        rej = [r for rs in ex.map(one, parts) for r in rs]
    return [(byn[n], v) for n, v in sorted(rej)]
