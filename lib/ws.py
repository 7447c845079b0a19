"""Histories of a client's workspace: the lines chosen by GenWs are executed by
ws.cpp and the recorded states validated by WsTrace."""
import os, re
from concurrent.futures import ThreadPoolExecutor
import vm, norm, ct

class Rd(ct.Rd):
    def tree(self):
        if self.t[self.p] == "w":
            self.p += 1
            return {"k": "w", "e": [self.tree() for _ in range(self.num())]}
        return super().tree()

# the meaning of the words of a command: x y z w objects, o operator, k number, t formula
FORM = {"clr": "x", "cp": "xy", "cc": "xy", "ptr": "xy", "num": "xd", "ct": "xm", "op": "xoyz", "opn": "xoyd", "nop": "xoyd",
        "fn": "xoy", "child": "xyk", "diff": "xyz", "simp": "xy", "isimp": "x", "subst": "xyzw", "subint": "xkyzw", "get": "xyk",
        "put": "xky", "vin": "xk", "push": "xy", "pop": "x", "erase": "xk", "vop": "xoyz", "mk": "xyz", "int": "xyzw", "sint": "xky",
        "swap": "xy", "mani": "xy", "coord": "xky", "subv": "xyzw", "subd": "xydw", "subl": "xyzYZw", "raws": "xyzw", "rdiff": "xyz", "coordq": "xky", "probe": "", "show": "x", "eval": "xk", "equal": "xy", "ask": "x", "tex": "x", "trav": "xk", "quad": "xk"}
L3 = {"k": "c", "t": "l", "n": "3", "h": "0x1.8p+1"}
def b(o, x, y): return {"k": "b", "o": o, "a": x, "b": y}
def v(i): return {"k": "v", "i": i}
# the compile-time expressions of the driver
MENU = [lambda: dict(L3), lambda: v(1), lambda: b("+", v(0), v(1)), lambda: b("*", b("-", v(0), v(1)), dict(L3)),
        lambda: b("/", v(0), b("+", v(1), dict(L3)))]
def dbl(s): return {"k": "c", "t": "d", "h": norm._h(float(s))}

def command(text):
    r = Rd(text.split()); c = r.tok()
    q = {"c": c, "x": "", "y": "", "z": "", "w": "", "o": "", "Y": "", "Z": "", "k": 0, "t": []}
    if c == "set":
        q["x"] = r.tok()
        while r.p < len(r.t): q["t"].append(r.tree())
    elif c == "duo":
        q["x"] = r.tok(); q["k"] = r.num()
        while r.p < len(r.t): q["t"].append(r.tree())
    else:
        for f in FORM[c]:
            if f in "xyzwoYZ": q[f] = r.tok()
            elif f == "k": q["k"] = r.num()
            elif f == "d": q["t"] = [dbl(r.tok())]
            elif f == "m": q["t"] = [MENU[r.num()]()]
        if c == "int": q["z"], q["w"] = q["z"], q["w"]
        if c == "mani": q["t"] = [dbl("1")]
    return q

def gen(run, count, steps):
    """count histories of the given length"""
    jobs = min(vm.JOBS, count)
    per = (count + jobs - 1) // jobs
    def one(j):
        env = {"GEN_KIND": "ws", "GEN_COUNT": str(per), "GEN_SKIP": "0", "GEN_DEPTH": "3", "GEN_STEPS": str(steps)}
        rc, out = vm.tlc(run.ctx, "GenWs.tla", "GenWs.cfg", env, ["-workers", "1", "-deadlock", "-simulate", "num=1",
                         "-depth", str(per * (steps + 1) + 5), "-seed", str(run.seed * 1000 + j)])
        h = {}
        for n, c in re.findall(r'^"GEN (\d+) (.*)"$', out, re.M): h.setdefault(int(n), []).append(c)
        if len(h) != per or any(len(x) != steps for x in h.values()):
            raise vm.Infra("generator ws: %d of %d\n%s" % (len(h), per, out[-1500:]))
        return [";".join(h[k]) for k in sorted(h)]
    with ThreadPoolExecutor(vm.JOBS) as ex:
        ls = [l for ls in ex.map(one, range(jobs)) for l in ls][:count]
        return [("probe;" if k % 3 == 0 else "") + l for k, l in enumerate(ls)]

def drive(run, exe, lines, env=None, memlimit=3 << 30):
    from plans import split_tree
    evs = vm.drive(run.ctx, exe, lines, env=env, memlimit=memlimit)
    for ev in evs:
        ev["op"] = "ws"
        if ev["bad"]: ev["ev"] = []; ev["left"] = 0
        for s in ev["ev"]:
            s["q"] = command(s.pop("c"))
            for l in s["l"]:
                run.count("evaluations")
                l["T"] = norm.facts(l["e"], {"_": [""]})
                split_tree(l["e"])
                norm.norm(l["e"], False, True)
        for s in ev["ev"]:
            if s["x"] == "skip": run.count("skipped_commands")
            elif s["x"]: run.count("exceptions")
            run.count("cmd_" + s["q"]["c"])
        norm.norm(ev, True, True)
    return evs

def shrink(run, exe, line, env, memlimit, budget=60):
    """a shorter history that still leaves memory behind or kills the driver"""
    def fails(cs):
        ev = vm.drive(run.ctx, exe, [";".join(cs)], env=env, memlimit=memlimit)[0]
        return bool(ev["bad"]) or ev["left"] != 0
    cs = line.split(";")
    if not fails(cs): return line
    size = max(1, len(cs) // 2)
    while size >= 1 and budget > 0:
        i = len(cs)
        while i > 0 and budget > 0:
            j = max(0, i - size)
            cand = cs[:j] + cs[i:]
            if cand:
                budget -= 1
                if fails(cand): cs = cand
            i = j
        size //= 2
    return ";".join(cs)

def upto(line, why):
    """a history up to the first step that is rejected"""
    ks = [int(k) for k in re.findall(r"step (\d+):", why)]
    return ";".join(line.split(";")[:min(ks)]) if ks else line
