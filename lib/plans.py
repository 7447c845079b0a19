"""Per property: what is generated, executed and validated."""
import json, os, re, random
from concurrent.futures import ThreadPoolExecutor
import vm, norm, ct, ws

class Run:
    def __init__(self, ctx, pid, thorough, seed):
        self.ctx, self.pid, self.thorough, self.seed = ctx, pid, thorough, seed
        self.rejects, self.samples, self.extra, self.assumptions = [], [], {}, []
        self.traces = 0; self.partial = False; self.replay_lines = None
        self.exe = {}; self.design = []
    def q(self, quick, thorough):
        return thorough if self.thorough else quick
    def reject(self, rec, why):
        self.rejects.append({"line": rec.get("line"), "op": rec.get("op"), "why": why})
    def build(self, src, flags=(), cxx="g++"):
        key = (src, tuple(flags), cxx)
        if key not in self.exe: self.exe[key] = vm.build(self.ctx, src, flags, cxx)
        return self.exe[key]
    def count(self, what, k=1):
        self.extra[what] = self.extra.get(what, 0) + k
    def check(self, lines, events, module="Trace", prop=None):
        """validate the observations and note the rejected ones"""
        for ev in events: self.count("calls_" + ev["op"])
        rej = vm.validate(self.ctx, prop or self.pid, events, module)
        self.traces += len(events)
        for ev, why in rej:
            self.reject({"line": lines[ev["n"]], "op": ev["op"]}, why)
        rnd = random.Random(7)
        self.samples += rnd.sample(lines, min(4, len(lines)))

def split_y(ev):
    ev["yx"] = [y[1:] for y in ev["y"] if y.startswith("!")]
    ev["y"] = [y for y in ev["y"] if not y.startswith("!")]

def split_tree(t):
    if "y" in t: split_y(t)
    for k in ("a", "b"):
        if isinstance(t.get(k), dict): split_tree(t[k])

LATEX = [("sint", r"\\int_\{\\Omega_\{(\d+)\}\}"), ("int", r"\\int_\{"), ("d", r"\\:\s*\\mathrm\{d\}"), ("omega", r"\\Omega(?![a-zA-Z_])"),
         ("left(", r"\\left\s*\("), ("right)", r"\\right\s*\)"), ("left|", r"\\left\s*\|"), ("right|", r"\\right\s*\|"),
         ("fun", r"\\(exp|sin|cos|tan|ln|log)(?![a-zA-Z])"), ("frac", r"\\frac(?![a-zA-Z])"), ("sqrt", r"\\sqrt(?![a-zA-Z])"),
         ("nabla", r"\\nabla(?![a-zA-Z])"), ("partial", r"\\partial(?![a-zA-Z])"), ("cdot", r"\\cdot(?![a-zA-Z])"),
         ("name", r"[xuv]_\{\d+\}"), ("num", r"-?(?=[\d.])\d*\.?\d*(?:[eE][-+]?\d+)?"), ("sym", r"[-+(){}\[\];=]")]
LATEX = [(k, re.compile(r)) for k, r in LATEX]

def latex_tokens(s, names):
    """split a LaTeX text into its symbols; customized names come first"""
    out, p = [], 0
    names = sorted(set(names), key=len, reverse=True)
    def tok(t, s="", i=0, n=None): out.append({"t": t, "s": s, "i": i, "n": n or {"k": "n"}})
    while p < len(s):
        if s[p].isspace(): p += 1; continue
        nm = next((x for x in names if s.startswith(x, p) and not (x[-1].isalpha() and s[p+len(x):p+len(x)+1].isalpha())), None)
        if nm is not None:
            tok("name", nm); p += len(nm); continue
        for k, r in LATEX:
            m = r.match(s, p)
            if m and m.end() > p:
                if k == "sint": tok(k, i=int(m.group(1)))
                elif k == "fun": tok(k, m.group(1))
                elif k == "num": tok(k, n={"k": "c", "t": "d", "h": float(m.group(0)).hex()})
                elif k == "sym": tok(m.group(0))
                elif k == "name": tok(k, m.group(0))
                else: tok(k)
                p = m.end(); break
        else:
            tok("?"); p += 1
    return out

def prepare(ev):
    """representation changes only (see norm.py)"""
    if ev["bad"]: return ev
    op = ev["op"]
    if op == "eval":
        ev["T"] = norm.facts(ev["e2"], norm.facts(ev["e"], {"_": [""]}))
        split_tree(ev["e"]); split_tree(ev["e2"])
        norm.norm(ev, False)
        return ev
    if op == "const":
        u = ev["u"]
        ev["ux"] = u[1:] if u.startswith("!") else ""
        split_y(ev)
    if op in ("quad", "quad3"):
        split_y(ev)
        text = json.dumps(ev)
        # numbers of eight and more digits round: only what a rule is asked is compared there
        rounds = any(len(repr(abs(float.fromhex(h)))) > 8 for h in re.findall(r'"h": "(-?0x[^"]*)"', text))
        ev["y"] = [norm.num(y, '"o": "/"' in text) for y in ev["y"]]
        if rounds:
            for y in ev["y"]: y["w"] = norm.OPAQUE
    if op == "latex":
        names = [c["s"] for c in ev["c"]]
        ev["ot"] = [latex_tokens(t, names) for t in ev["o"]]
        for k, t in (("o2t", "o2"), ("part", "par"), ("eqt", "eq"), ("ivt", "iv")):
            ev[k] = latex_tokens(ev[t], names)
    if op == "latexh":
        known = [set(), set(), set()]           # names a translator may use
        for c in ev["h"]:
            if c["c"] == "c": known[c["t"]].add(c["s"])
            elif c["c"] in ("k", "a"): known[c["t"]] = set(known[c["y"]])
            elif c["c"] == "n": known[c["t"]] = set()
            elif c["c"] == "p": c["ts"] = latex_tokens(c["s"], known[c["t"]])
    if op in ("trav", "mani"):
        ev["set"] = ["all"] if "all" in ev["set"] else list(ev["set"])
    # products of several transcendental numbers arise in derivatives: name only
    # those the field treats faithfully
    open_ = norm.stats["opaque"]
    norm.norm(ev, True, op in ("diff", "vec", "coord") or '"k": "w"' in json.dumps(ev))
    if op in ("simp", "diff") and norm.stats["opaque"] > open_:
        d = ev["d"].get("i") if op == "diff" and ev["d"]["k"] == "v" else None
        ev["e"]["q"] = norm.real(ev["e"])
        if d is not None: ev["e"]["qd"] = norm.real(ev["e"], d)
        for r in ev["r"] + ev.get("s", []):
            if r["t"]["k"] != "n": r["t"]["q"] = norm.real(r["t"])
    return ev

CT_OPS = ("ctevx", "op", "fn", "df", "mk", "mki", "mks")
def is_ct(line): return line.startswith("ct") or line.split()[0] in CT_OPS

def calls(run, gens, module, ct_):
    """the calls to make: generated ones and fixed ones, or those to replay"""
    if run.replay_lines: return [r["line"] for r in run.replay_lines if is_ct(r["line"]) == ct_]
    with ThreadPoolExecutor(4) as ex:
        lines = [l for ls in ex.map(lambda g: vm.gen(run.ctx, g[0], g[1], run.seed, g[2], g[3], module=module), gens) for l in ls]
    return list(dict.fromkeys(lines + [l for l in fixed(run.pid) if is_ct(l) == ct_]))

def core(run, gens, flags=()):
    exe = run.build("core.cpp", flags)
    lines = calls(run, gens, "Gen", False)
    evs = vm.drive(run.ctx, exe, lines)
    run.check(lines, [prepare(e) for e in evs])
    run.extra["opaque_constants"] = norm.stats["opaque"]
    run.extra["constants"] = norm.stats["consts"]

def fixed(pid):
    """calls that are always made (regressions found earlier)"""
    f = os.path.join(vm.VERIF, "corpus", pid + ".txt")
    return [l.strip() for l in open(f) if l.strip() and l[0] != "#"] if os.path.exists(f) else []

# the laws of the specification itself, model checked alongside: module,
# configuration, parameters of the quick and of the thorough exploration
def laws(l, q, t): return ("Laws", "Laws", {"LAW": l, "MAX_SIZE": q}, {"LAW": l, "MAX_SIZE": t})
RULES = ("Rules", "Rules", {"MAX_SIZE": "4", "RICH": "0"}, {"MAX_SIZE": "7", "RICH": "0"})
RULES2 = ("Rules", "Rules", {"MAX_SIZE": "3", "RICH": "1"}, {"MAX_SIZE": "5", "RICH": "1"})
FIELD = ("FieldLaws", "FieldLaws", {"SPAN": "16"}, {"SPAN": "491"})
EVAL = ("Evaluate", "Evaluate", {"MAX_SIZE": "4"}, {"MAX_SIZE": "6"})
CTR = ("CtRules", "CtRules", {"MAX_SIZE": "5"}, {"MAX_SIZE": "7"})
READ = ("Readers", "Readers", {}, {})
READ2 = ("Readers", "ReadersBig", None, {})
# these two must fail: what keeps its answers gives wrong ones
READX = [("Readers", c, {"FAILS": i}, {"FAILS": i}) for c, i in (("ReadersMemo", "AnswersAlone"), ("ReadersLocked", "AnswersAlone"), ("ReadersRace", "NoConflict"))]
OWN = ("Ownership", "Ownership", {}, {})
OWN2 = ("Ownership", "OwnershipBig", None, {})
DESIGN = {"C01": [EVAL], "C02": [FIELD], "C03": [RULES, RULES2], "C04": [RULES, RULES2], "C05": [laws("diff", "3", "4"), FIELD],
          "C06": [laws("diff", "3", "4")], "C07": [laws("subst", "3", "4")], "C08": [OWN, OWN2], "C09": [OWN, OWN2],
          "C10": [laws("struct", "3", "5")], "C11": [laws("struct", "3", "5")], "C12": [EVAL], "C13": [laws("struct", "3", "5")],
          "C14": [laws("quad", "4", "6")], "C15": [laws("vec", "5", "9")], "C16": [laws("latex", "3", "4")], "C17": [laws("struct", "3", "5")],
          "C18": [laws("subint", "3", "5")], "C19": [laws("coord", "3", "5")], "C20": [CTR], "C21": [CTR, FIELD], "C22": [CTR],
          "C23": [laws("subst", "3", "4")], "C24": [CTR, laws("diff", "3", "4")], "C25": [CTR], "C26": [CTR], "C27": [CTR], "C28": [laws("print", "3", "5")], "C29": [READ, READ2] + READX}
def design(run):
    """model check the specification's own laws; a failure is an error of the specification"""
    for module, cfg, q, t in DESIGN.get(run.pid, []):
        env = t if run.thorough else q
        if env is None: continue
        rc, out = vm.tlc(run.ctx, module + ".tla", cfg + ".cfg", env, ["-workers", "4" if run.thorough else "2"], timeout=800)
        if "FAILS" in env:
            if "Invariant %s is violated" % env["FAILS"] not in out: raise vm.Infra("design check %s: %s holds\n%s" % (cfg, env["FAILS"], out[-1500:]))
            run.design.append({"module": module, "config": cfg, "violated_as_expected": env["FAILS"]}); continue
        if rc != 0 or "No error has been found" not in out:
            raise vm.Infra("design check %s %s: rc=%d\n%s" % (module, env, rc, out[-2500:]))
        m = re.findall(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct", out, re.M)
        run.design.append({"module": module, "config": cfg, "parameters": env, "distinct_states": int(m[-1][1].replace(",", ""))})

PLANS = {}
NOTES = {}
def plan(*pids):
    def deco(f):
        for p in pids: PLANS[p] = f
        return f
    return deco

@plan("C03", "C04")
def p_simp(run):
    core(run, [("tallsimp", run.q(160, 800), 4, 0), ("idsimp", 168, 4, 0), ("nearsimp", 384, 4, 0), ("nsimp", 384, 4, 0), ("simp", run.q(2700, 2704), 4, 0), ("simp", run.q(4000, 12000), 5, 2704), ("xsimp", run.q(625, 3000), 4, 0), ("dsimp", run.q(500, 3000), 4, 0)])

@plan("C05")
def p_diff(run):
    core(run, [("talldiff", run.q(60, 400), 4, 0), ("hugediffv", run.q(36, 360), 4, 0), ("iddiffv", 84, 4, 0), ("neardiff", 384, 4, 0), ("ndiff", 384, 4, 0), ("diffv", 405, 4, 0), ("diffv", run.q(3600, 12000), 4, 405), ("xdiff", run.q(216, 1500), 4, 0), ("ddiff", run.q(270, 2000), 4, 0)])
    ctcore(run, [("dfs", run.q(176, 1100), 3, 0)], "GenOps")

@plan("C06")
def p_difff(run):
    core(run, [("hugedifff", run.q(60, 600), 4, 0), ("iddifff", 84, 4, 0), ("difff", 102, 4, 0), ("difff", run.q(4500, 12000), 4, 102), ("xdifff", run.q(300, 1500), 4, 0)])

@plan("C01")
def p_eval(run):
    core(run, [("bigeval", run.q(120, 900), 3, 0), ("talleval", run.q(80, 400), 4, 0), ("neval", 384, 4, 0), ("eval", 1377, 4, 0), ("eval", run.q(6000, 20000), 4, 1377), ("xeval", run.q(500, 2500), 4, 0), ("deval", run.q(500, 3000), 4, 0)])

@plan("C12")
def p_evalx(run):
    core(run, [("bigevalx", run.q(120, 900), 3, 0), ("evalx", run.q(7000, 20000), 3, 0), ("xevalx", run.q(500, 2500), 3, 0)])
    ctcore(run, [("ctevx", run.q(400, 2000), 3, 0)])

@plan("C07")
def p_subst(run):
    core(run, [("tallsubst", run.q(80, 400), 4, 0), ("biglist", run.q(160, 1200), 4, 0), ("hugesub", run.q(120, 1200), 4, 0), ("idsubst", 168, 4, 0), ("nearsubst", 384, 4, 0), ("nsubst", 384, 4, 0), ("subst", 1664, 4, 0), ("subst", run.q(3000, 15000), 4, 1664), ("lsubst", run.q(625, 2500), 4, 0), ("xsubst", run.q(375, 2000), 4, 0), ("dsubst", run.q(500, 3000), 4, 0)])

@plan("C10")
def p_eq(run):
    core(run, [("eqtype", 192, 3, 0), ("talleq", run.q(80, 400), 3, 0), ("bigveceq", run.q(80, 400), 3, 0), ("hugeeq", run.q(120, 1200), 4, 0), ("ideq", 756, 3, 0), ("veq", 196, 3, 0), ("neq", 384, 3, 0), ("eq", 2601, 3, 0), ("eq", run.q(7500, 30000), 3, 2601), ("hieq", run.q(500, 3000), 3, 0), ("xeq", run.q(500, 3000), 3, 0)])

@plan("C17")
def p_str(run):
    core(run, [("tallstr", run.q(80, 400), 3, 0), ("bigvecstr", run.q(80, 400), 3, 0), ("hugestr", run.q(120, 1200), 4, 0), ("idstr", 756, 3, 0), ("vstr", 196, 3, 0), ("str", 2601, 3, 0), ("str", run.q(7500, 30000), 3, 2601), ("histr", run.q(500, 3000), 3, 0), ("xstr", run.q(500, 3000), 3, 0)])

@plan("C28")
def p_print(run):
    core(run, [("tallprint", run.q(60, 300), 3, 0), ("print", 2601, 3, 0), ("print", run.q(3500, 12000), 3, 2601)])
    ctcore(run, [("ctprint", run.q(600, 4000), 3, 0)])

@plan("C11")
def p_const(run):
    core(run, [("tallconst", run.q(80, 400), 4, 0), ("nearconst", 384, 4, 0), ("nconst", 384, 4, 0), ("const", run.q(9000, 30000), 4, 0), ("xconst", run.q(500, 3000), 4, 0), ("dconst", run.q(500, 3000), 4, 0)])

@plan("C13")
def p_trav(run):
    core(run, [("talltrav", run.q(80, 400), 4, 0), ("trav", run.q(9000, 30000), 4, 0), ("xtrav", run.q(500, 3000), 4, 0), ("dtrav", run.q(500, 3000), 4, 0)])

@plan("C14")
def p_quad(run):
    core(run, [("quad", run.q(5500, 20000), 3, 0), ("xquad", run.q(250, 1500), 3, 0), ("dquad", run.q(375, 2000), 3, 0)])

@plan("C15")
def p_vec(run):
    core(run, [("bigvec", run.q(60, 300), 2, 0), ("bigvecsub", run.q(60, 300), 2, 0), ("vec", run.q(3000, 8000), 2, 0), ("vecsub", run.q(2500, 6000), 2, 0), ("lsubst", run.q(325, 1300), 4, 0), ("xvec", run.q(250, 1000), 2, 0)])

@plan("C19")
def p_coord(run):
    core(run, [("coord", run.q(2600, 8000), 3, 0), ("xcoord", run.q(200, 1000), 3, 0)])

@plan("C18")
def p_build(run):
    core(run, [("subint", run.q(2500, 6000), 3, 0), ("xsubint", run.q(200, 1000), 3, 0)])
    ctcore(run, [("mks2", 420, 3, 0), ("mks2", run.q(200, 2400), 3, 420)], "GenOps")

@plan("C16")
def p_latex(run):
    core(run, [("talllatex", run.q(40, 300), 4, 0), ("manylatex", run.q(400, 3000), 3, 0), ("idlatex", 378, 3, 0), ("hilatex", run.q(500, 2000), 3, 0), ("latex", run.q(4500, 12000), 4, 0), ("latexh", run.q(750, 4000), 3, 0), ("xlatex", run.q(375, 1500), 3, 0), ("dlatex", run.q(250, 1500), 3, 0)])


def ctcore(run, gens, module="GenCt"):
    lines = calls(run, gens, module, True)
    run.check(lines, ct.drive(run.ctx, lines))

@plan("C20")
def p_ctbuild(run):
    ctcore(run, [("ctleaf", 16, 3, 0), ("ctbigbuild", run.q(96, 96), 3, 0), ("ctbuild2", run.q(480, 1764), 3, 0), ("ctbuild", run.q(280, 2000), 3, 0), ("ctbuild3", run.q(256, 1024), 3, 0), ("ctxbuild", run.q(84, 600), 3, 0)])
    ctcore(run, [("merge", run.q(448, 1600), 3, 0), ("merge2", run.q(560, 2240), 3, 0)], "GenOps")
@plan("C21")
def p_ctsimp(run):
    ctcore(run, [("ctsimp", run.q(1764, 1764), 3, 0), ("ctsimp", run.q(800, 6000), 3, 1764), ("ctsimp2", run.q(512, 1024), 3, 0), ("ctxsimp", run.q(160, 1000), 3, 0)])
@plan("C22")
def p_ctexp(run):
    ctcore(run, [("ctexp", run.q(1400, 6000), 4, 0), ("ctexp2", 1551, 3, 0), ("ctxexp", run.q(160, 1000), 3, 0)])
@plan("C23")
def p_ctsub(run):
    ctcore(run, [("ctsub", run.q(1600, 6000), 3, 0), ("ctsub2", run.q(512, 2048), 3, 0), ("ctxsub", run.q(160, 1000), 3, 0)])
@plan("C24")
def p_ctdiff(run):
    ctcore(run, [("ctdiff", 1764, 3, 0), ("ctdiff", run.q(1000, 6000), 3, 1764), ("ctdiff2", run.q(512, 2048), 3, 0), ("ctxdiff", run.q(160, 1000), 3, 0)])
@plan("C25")
def p_ctint(run):
    ctcore(run, [("ctint", 1323, 3, 0), ("ctint", run.q(600, 4000), 3, 1323), ("ctpow", run.q(200, 800), 3, 0), ("ctint2", run.q(500, 3000), 3, 0), ("ctxint", run.q(120, 600), 3, 0)])
@plan("C26")
def p_ctcoef(run):
    ctcore(run, [("ctcoef", run.q(1000, 4000), 3, 0), ("ctdrop", run.q(600, 3000), 3, 0), ("ctpcoef2", run.q(352, 2112), 3, 0), ("ctdrop2", run.q(352, 2112), 3, 0), ("ctxcoef", run.q(160, 800), 3, 0), ("ctpcoef", run.q(440, 3000), 3, 0), ("ctxpcoef", run.q(120, 600), 3, 0), ("ctxdrop", run.q(120, 600), 3, 0)])
@plan("C27")
def p_ctrt(run):
    ctcore(run, [("ctbig", run.q(104, 200), 3, 0), ("ctrt2", run.q(900, 1764), 3, 0), ("ctrt", run.q(600, 3000), 3, 0), ("ctrtid", 108, 3, 0), ("ctrt3", run.q(340, 1024), 3, 0), ("ctxrt", run.q(120, 600), 3, 0)])

@plan("C02")
def p_ops(run):
    exe = run.build("ops.cpp")
    lines = calls(run, [("rops", run.q(2352, 20384), 3, 0)], "GenOps", False)
    evs = vm.drive(run.ctx, exe, lines)
    for ev in evs:
        if not ev["bad"]: ev["e"] = {"k": "b", "o": ev["o"], "a": ev["a"][0], "b": ev["a"][1]}; ev["p"], ev["yx"] = [], []
    run.check(lines, [e if e["bad"] else norm.norm(e, True) for e in evs])
    ctcore(run, [("merge", run.q(640, 1600), 3, 0), ("ops", 1024, 3, 0), ("ops", run.q(280, 6000), 3, 1024), ("fns", run.q(310, 2220), 3, 0)], "GenOps")

def wscore(run, exe, lines, env=None, memlimit=3 << 30):
    run.check(lines, ws.drive(run, exe, lines, env, memlimit), "WsTrace")
    for k, r in enumerate(run.rejects):
        r["line"] = ws.upto(r["line"], r["why"])
        if k < 3 and "step" not in r["why"] and "terminate" not in r["why"]: r["line"] = ws.shrink(run, exe, r["line"], env, memlimit)

@plan("C08")
def p_ws(run):
    exe = run.build("ws.cpp")
    lines = [r["line"] for r in run.replay_lines] if run.replay_lines else fixed("C08") + ws.gen(run, run.q(1000, 9000), 40)
    wscore(run, exe, lines)

@plan("C09")
def p_leak(run):
    exe = run.build("ws.cpp", ["-DWS_ASAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-O1"])
    lines = [r["line"] for r in run.replay_lines] if run.replay_lines else fixed("C09") + ws.gen(run, run.q(600, 6000), 40)
    wscore(run, exe, lines, {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=0"}, None)

def threads(run, lines):
    """the same scenarios twice: the threads together under a race detector, and every request alone"""
    with ThreadPoolExecutor(2) as ex:
        slow = ex.submit(run.build, "core.cpp", ("-fsanitize=thread", "-g1", "-pthread"))
        plain = run.build("core.cpp", ("-pthread",))
        exe = slow.result()
    quiet = {"TSAN_OPTIONS": "exitcode=0:log_path=/dev/null:halt_on_error=0"}
    probe = vm.drive(run.ctx, exe, ["thr v 0 | simp @0 | simp @0"], ["together"], quiet, None)
    run.extra["race_detector"] = not probe[0]["bad"]
    if probe[0]["bad"]: exe = plain             # the detector cannot run here; the answers are compared all the same
    evs = vm.drive(run.ctx, exe, lines, ["together"], quiet, None)
    one = {ev["n"]: ev for ev in vm.drive(run.ctx, plain, lines, ["alone"])}
    for ev in evs:
        ev["op"] = "thr"
        if ev["bad"]: continue
        o = one.get(ev["n"])
        if o is None: ev["bad"] = "not asked alone"; continue
        if o["bad"]: ev["bad"] = "alone: " + o["bad"]; continue
        ev["alone"] = o["a"]
        ev["q"] = [[" ".join(q.split()) for q in t.split(";")] for t in lines[ev["n"]].split("|")[1:]]
        for t in ev["q"]:
            for q in t: run.count("requests_" + q.split()[0])
        run.count("threads", len(ev["q"]))
    return evs

@plan("C29")
def p_threads(run):
    lines = [r["line"] for r in run.replay_lines] if run.replay_lines else vm.gen(run.ctx, "thr", run.q(2400, 16000), run.seed, 3, 0, "GenThr")
    run.check(lines, threads(run, lines))
