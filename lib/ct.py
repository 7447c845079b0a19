"""Compile-time calls: the lines chosen by GenCt become C++ functions, compiled
against the working tree; a call that does not compile is an observation too."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vm, norm

OPN = {"+": "op_plus", "-": "op_minus", "*": "op_mult", "/": "op_div"}

class Rd:
    def __init__(self, toks): self.t, self.p = toks, 0
    def tok(self):
        self.p += 1; return self.t[self.p - 1]
    def num(self): return int(self.tok())
    def tree(self):
        k = self.tok()
        if k == "c":
            t = self.tok()
            if t in ("d", "g"): return {"k": "c", "t": t, "h": norm._h(float(self.tok()))}
            n = self.num()
            return {"k": "c", "t": t, "h": norm._h(float(n)), "n": str(n)}
        if k == "v": return {"k": "v", "i": self.num()}
        if k == "f":
            i = self.num(); return {"k": "f", "i": i, "g": self.num()}
        if k == "b":
            o = self.tok(); a = self.tree(); return {"k": "b", "o": o, "a": a, "b": self.tree()}
        if k == "u":
            o = self.tok(); p = []; x = []
            if o in ("pd", "sint"): p = [self.num()]
            if o == "int": x = [self.tree(), self.tree()]; p = [self.num()]
            return {"k": "u", "o": o, "p": p, "x": x, "a": self.tree()}
        raise vm.Infra("compile-time tree: " + " ".join(self.t))

def unparse(t):
    if t["k"] == "c": return "c %s %s" % (t["t"], t["n"] if t["t"] in ("l", "i") else repr(float.fromhex(t["h"])))
    if t["k"] == "v": return "v %d" % t["i"]
    if t["k"] == "f": return "f %d %d" % (t["i"], t["g"])
    if t["k"] == "b": return "b %s %s %s" % (t["o"], unparse(t["a"]), unparse(t["b"]))
    return "u %s %s" % (t["o"], " ".join([unparse(x) for x in t["x"]] + [str(p) for p in t["p"]] + [unparse(t["a"])]))

def leaf(t):
    if t["k"] == "c": return "ct_constant<%sL>" % t["n"]
    if t["k"] == "v": return "ct_variable<%d>" % t["i"]
    return "ct_function_symbol<%s<%d> >" % ("test_tag" if t["g"] else "unknown_tag", t["i"])
def typ(t):
    """the type written by hand"""
    if t["k"] != "b": return leaf(t)
    return "ct_binary_expr<%s, %s<Num>, %s >" % (typ(t["a"]), OPN[t["o"]], typ(t["b"]))
def ops(t):
    """written with the overloaded operators"""
    if t["k"] != "b": return leaf(t) + "()"
    return "(%s %s %s)" % (ops(t["a"]), t["o"], ops(t["b"]))
def far(t, k):
    if t["k"] == "v": return dict(t, i=t["i"] + k)
    return dict(t, a=far(t["a"], k), b=far(t["b"], k)) if t["k"] == "b" else t
def vars_(t, s):
    if t["k"] == "v": s.add(t["i"])
    elif t["k"] == "b": vars_(t["a"], s); vars_(t["b"], s)
    return s

RT = {"cd": "rt_constant<double>", "cl": "rt_constant<long>", "ci": "rt_constant<int>", "cf": "rt_constant<float>", "v": "rt_variable<I>", "f": "rt_function_symbol<I>",
      "u": "rt_unary_expr<I>", "b": "rt_binary_expr<I>"}
def hybrid(t, c):
    """(type, initializer) of a compile-time expression whose leftmost leaf is a run time constant"""
    if t["k"] == "c":
        v = float.fromhex(t["h"])
        return c, "%s(%s)" % (c, int(v) if "long" in c or "int" in c else repr(v))
    ty, init = hybrid(t["a"], c)
    ty = "ct_binary_expr<%s, %s<Num>, %s >" % (ty, OPN[t["o"]], typ(t["b"]))
    return ty, "%s(%s, %s())" % (ty, init, typ(t["b"]))

def operand(r, name):
    """(declaration, tree) of an operand of the kind named in the line"""
    k = r.tok(); p = r.p; t = r.tree(); text = " ".join(r.t[p:r.p])
    if k == "d": d = "double %s = %s;" % (name, text.split()[-1])
    elif k in ("i", "l"): d = "%s %s = %s;" % ({"i": "int", "l": "long"}[k], name, t["n"])
    elif k == "s": d = "float %s = %s;" % (name, text.split()[-1])
    elif k == "e": d = 'rt_expr<I> %s(ctx::as("%s"));' % (name, text)
    elif k in ("ci", "cf"): d = "%s %s(%s);" % (RT[k], name, text.split()[-1])
    elif k in RT: d = 'std::unique_ptr<I> %s_(ctx::as("%s")); %s %s(dynamic_cast<%s const &>(*%s_));' % (name, text, RT[k], name, RT[k], name)
    elif k in ("hd", "hl", "hi", "hf"):
        ty, init = hybrid(t, {"hd": "rt_constant<double>", "hl": "rt_constant<long>", "hi": "rt_constant<int>", "hf": "rt_constant<float>"}[k])
        d = "%s %s = %s;" % (ty, name, init)
    else: d = "%s %s; (void)%s;" % (typ(t), name, name)
    return d, t

def arith(t):
    return t["k"] in "cv" or (t["k"] == "b" and arith(t["a"]) and arith(t["b"]))

def case(line, n):
    """(C++ body, event fields)"""
    r = Rd(line.split()); op = r.tok(); ev = {"op": op}
    def trees(*ws): return " ".join('o.tree("%s", ctx::dumpt<%s >());' % w if not w[1].startswith("=") else 'o.tree("%s", ctx::dump(%s));' % (w[0], w[1][1:]) for w in ws)
    if op in ("ctsimp", "ctexp"):
        ev["e"] = r.tree()
        f = "simplify" if op == "ctsimp" else "expand"
        b = "typedef %s T; typedef result_of::%s<T>::type S; " % (typ(ev["e"]), f)
        b += trees(("meta", "S"), ("again", "result_of::%s<S>::type" % f), ("fn", "=viennamath::%s(T())" % f))
    elif op == "ctsub":
        ev["s"], ev["q"], ev["e"] = r.tree(), r.tree(), r.tree()
        b = "typedef %s T; typedef %s S; typedef %s R; " % (typ(ev["e"]), typ(ev["s"]), typ(ev["q"]))
        b += trees(("meta", "result_of::substitute<S, R, T>::type"), ("fn", "=viennamath::substitute(S(), R(), T())"))
    elif op == "ctdiff":
        ev["d"] = {"k": "v", "i": r.num()}; ev["e"] = r.tree()
        b = "typedef %s T; typedef %s V; " % (typ(ev["e"]), typ(ev["d"]))
        b += trees(("meta", "result_of::diff<T, V>::result_type"), ("fn", "=viennamath::diff(T(), V())"))
    elif op == "ctint":
        ev["lo"], ev["hi"] = r.tree(), r.tree(); ev["d"] = {"k": "v", "i": r.num()}; ev["e"] = r.tree()
        b = "typedef %s T; typedef %s V; typedef %s L; typedef %s U; " % (typ(ev["e"]), typ(ev["d"]), typ(ev["lo"]), typ(ev["hi"]))
        b += trees(("meta", "result_of::integrate<L, U, T, V>::type"), ("fn", "=viennamath::integrate(ct_interval<L, U>(), T(), V())"))
    elif op in ("ctcoef", "ctdrop"):
        ev["d"], ev["e"] = r.tree(), r.tree()
        b = "typedef %s T; typedef %s F; " % (typ(ev["e"]), typ(ev["d"]))
        if op == "ctcoef":
            b += trees(("coef", "result_of::coefficient<F, T>::type"), ("coef fn", "=viennamath::coefficient(F(), T())"))
        b += " " + trees(("rest", "result_of::drop_dependent_terms<F, T>::type"), ("rest fn", "=viennamath::drop_dependent_terms(F(), T())"))
    elif op in ("ctbuild", "ctrt"):
        p = [r.num(), r.num(), r.num()]; ev["p"] = p; ev["e"] = r.tree()
        b = "std::vector<double> p(3); " + " ".join("p[%d] = %d;" % (i, x) for i, x in enumerate(p)) + " "
        only0 = vars_(ev["e"], set()) <= {0}
        if op == "ctbuild":
            b += "auto e = %s; typedef decltype(e) T; " % ops(ev["e"])
            b += "double d0 = %d, d1 = %d, d2 = %d; ct_constant<%dL> q0; ct_constant<%dL> q1; ct_constant<%dL> q2; " % tuple(p + p)
            b += "typedef ct_vector_3<ct_constant<%dL>, ct_constant<%dL>, ct_constant<%dL> > CV; CV cv(q0, q1, q2); " % tuple(p)
            # which components are compile-time constants, varying from call to call
            mask = sum(ord(c) for c in line) % 7
            comp = lambda k, m: "ct_constant<%dL>" % p[k] if m >> k & 1 else "double"
            part = lambda k, m: "q%d" % k if m >> k & 1 else "d%d" % k
            b += "ct_vector_3<double, double, double> rv(d0, d1, d2); "
            if mask == 3: b += "rt_constant<> k2(d2); ct_vector_3<ct_constant<%dL>, ct_constant<%dL>, rt_constant<> > mv(q0, q1, k2); " % (p[0], p[1])
            else: b += "ct_vector_3<%s> mv(%s); " % (", ".join(comp(k, mask) for k in range(3)), ", ".join(part(k, mask) for k in range(3)))
            b += trees(("built", "T"), ("compile time", "result_of::eval<T, CV>::type"))
            kept = mask in (1, 4)   # (now and then: each way costs compile time)
            if kept: b += "ct_vector_3<double, double, double> kv(ctx::kept(d0, d1, d2)); ctx::clobber(); "
            for w, x in [("eval vector", "viennamath::eval(e, p)"), ("call vector", "e(p)"), ("eval numbers", "viennamath::eval(e, rv)"),
                         ("call numbers", "e(rv)"),  ("eval mixed", "viennamath::eval(e, mv)"), ("call mixed", "e(mv)"), ("eval constants", "viennamath::eval(e, cv)"),
                         ("call constants", "e(cv)")] + \
                        ([("eval number", "viennamath::eval(e, d0)"), ("call number", "e(d0)"),
                          ("eval constant", "viennamath::eval(e, q0)"), ("call constant", "e(q0)"),
                          ("eval runtime constant", "viennamath::eval(e, rt_constant<>(d0))"), ("call runtime constant", "e(rt_constant<>(d0))")] if only0 else []) + \
                        ([("eval kept", "viennamath::eval(e, kv)")] if kept else []):
                b += ' ctx::num(o, "%s", [&]{ return double(%s); });' % (w, x)
            if mask in (2, 6):   # the same formula in the last variables of a long point
                fn = (8, 17, 33, 65, 129, 257)[sum(ord(c) for c in line) // 7 % 6]
                b += " { std::vector<double> fp(%d, 77.0); fp[%d] = d0; fp[%d] = d1; fp[%d] = d2; auto fe = %s;" % (fn, fn - 3, fn - 2, fn - 1, ops(far(ev["e"], fn - 3)))
                b += ' ctx::num(o, "eval far", [&]{ return double(viennamath::eval(fe, fp)); }); ctx::num(o, "call far", [&]{ return double(fe(fp)); }); }'
            if only0:
                b += " " + trees(("compile time number", "result_of::eval<T, ct_constant<%dL> >::type" % p[0]))
                b += " { typedef ct_vector_1<ct_constant<%dL> > C1; C1 c1(q0); ct_vector_1<double> r1(d0); %s%s" % (p[0], "ct_vector_1<double> k1(ctx::kept(d0)); ctx::clobber(); ctx::num(o, \"eval 1 kept\", [&]{ return double(viennamath::eval(e, k1)); });" if kept else "", trees(("compile time 1", "result_of::eval<T, C1>::type")))
                b += ' ctx::num(o, "eval 1", [&]{ return double(viennamath::eval(e, c1)); }); ctx::num(o, "eval 1 number", [&]{ return double(viennamath::eval(e, r1)); }); }' 
            if vars_(ev["e"], set()) <= {0, 1}:
                b += " { typedef ct_vector_2<ct_constant<%dL>, ct_constant<%dL> > C2; C2 c2(q0, q1); ct_vector_2<double, double> r2(d0, d1); %s%s" % (p[0], p[1], "ct_vector_2<double, double> k2(ctx::kept(d0, d1)); ctx::clobber();" if kept else "", trees(("compile time 2", "result_of::eval<T, C2>::type")))
                b += " ct_vector_2<ct_constant<%dL>, double> m2(q0, d1); ct_vector_2<double, ct_constant<%dL> > n2(d0, q1);" % (p[0], p[1])
                b += "".join(' ctx::num(o, "%s", [&]{ return double(viennamath::eval(e, %s)); });' % q for q in [("eval 2", "c2"), ("eval 2 numbers", "r2"), ("eval 2 mixed", "m2"), ("eval 2 mixed back", "n2")] + ([("eval 2 kept", "k2")] if kept else [])) + " }"
        else:
            b += "typedef %s T; T t; " % typ(ev["e"])
            b += "rt_expr<> a(t); rt_expr<> c; c = t; rt_variable<> x9(9); rt_expr<> d = x9 * x9; d = t; "
            b += 'o.tree("constructed", vmt::dump(a)); o.tree("assigned", vmt::dump(c)); o.tree("reassigned", vmt::dump(d)); '
            near = vars_(ev["e"], set()) <= {0, 1, 2}   # (the point has three entries)
            if near: b += 'ctx::num(o, "eval", [&]{ return double(viennamath::eval(a, p)); });'
            if ev["e"]["k"] == "b":
                b += " rt_binary_expr<> f(t); rt_binary_expr<> g; g = t; rt_binary_expr<> h = rt_binary_expr<>(x9 * x9); h = t; "
                b += 'o.tree("binary", vmt::dump(&f)); o.tree("binary assigned", vmt::dump(&g)); o.tree("binary reassigned", vmt::dump(&h)); '
                if near: b += 'ctx::num(o, "eval binary", [&]{ return double(viennamath::eval(f, p)); });'
            elif ev["e"]["k"] == "c":
                b += ' rt_constant<double> f(t); rt_constant<long> g(t); o.tree("constant", vmt::dump(&f)); o.tree("long constant", vmt::dump(&g)); rt_unary_expr<> u(t); o.tree("unary", vmt::dump(&u));'
    elif op == "ctprint":
        kind = r.tok(); b = ""
        for k in "ab":
            ev[k] = [r.tree() for _ in range(r.num())]
            ts = [typ(t) for t in ev[k]]
            ty = {"e": "%s", "q": "ct_equation<%s, %s >", "i": "ct_interval<%s, %s >", "w": "ct_vector_%d<%%s >" % len(ts)}[kind]
            ty = ty % (", ".join(ts) if kind == "w" else tuple(ts))
            init = "(%s)" % ", ".join("%s()" % t for t in ts) if kind == "w" else ""
            if kind == "w":
                b += " ".join("%s %s%d; (void)%s%d;" % (t, k, j, k, j) for j, t in enumerate(ts)) + " "
                init = "(%s)" % ", ".join("%s%d" % (k, j) for j in range(len(ts)))
            b += 'typedef %s T%s; T%s x%s%s; ctx::print(o, "t%s", x%s); std::string p%s; ' % (ty, k, k, k, init, k, k, k)
            if kind != "e": b += " ".join("ctx::printp(p%s, %s());" % (k, t) for t in ts)
            b += ' o.more += ",\\"p%s\\":[" + p%s + "]"; ' % (k, k)
    elif op == "ctevx":
        ev["e"] = r.tree()
        b = "auto e = %s; double d0 = 2; " % ops(ev["e"]) + 'o.tree("built", ctx::dumpt<decltype(e) >()); ' 
        for m in range(4):
            b += 'std::vector<double> p%d(%d, 2.0); ctx::num(o, "call %d", [&]{ return double(e(p%d)); }); ctx::num(o, "eval %d", [&]{ return double(viennamath::eval(e, p%d)); }); ' % (m, m, m, m, m, m)
        b += 'ctx::num(o, "call 1 number", [&]{ return double(e(d0)); }); ' if ev["e"]["k"] != "c" else ""
        if ev["e"]["k"] == "v": b += ('ctx::num(o, "call 1 constant", [&]{ ct_constant<2> q; return double(e(q)); }); ' if ev["e"]["i"] == 0 else "") + 'ctx::num(o, "call 1 runtime constant", [&]{ rt_constant<double> q(2); return double(e(q)); }); '
        if ev["e"]["k"] == "b": b += 'ctx::num(o, "eval 1 number", [&]{ return double(viennamath::eval(e, d0)); }); ctx::num(o, "eval 1 constant", [&]{ return double(viennamath::eval(e, rt_constant<double>(d0))); }); '
    elif op in ("op", "fn", "df"):
        o = r.tok() if op != "df" else ""
        da, ta = operand(r, "a")
        if op != "fn": db, tb = operand(r, "b")
        b = da + " "
        if op == "op":
            ev["e"] = {"k": "b", "o": o, "a": ta, "b": tb}; ev["a"] = [ta, tb]
            b += db + " auto r = a %s b; " % o
        elif op == "fn":
            ev["a"] = [ta]
            un = lambda o, x: {"k": "u", "o": o, "p": [], "x": [], "a": x}
            ev["e"] = un("div", un("grad", ta)) if o == "laplace" else un(o, ta)
            b += "using namespace viennamath; auto r = viennamath::%s(a); " % o if o != "id" else "rt_unary_expr<I> r(a); "
        else:
            ev["e"] = ta; ev["d"] = tb; ev["a"] = [ta, tb]
            b += db + " auto r = viennamath::diff(a, b); "
        b += 'o.tree("result", ctx::any(r)); o.tree("copy", ctx::any(decltype(r)(r))); '
        if op == "op":
            b += 'o.tree("wrapped", ctx::any(rt_expr<I>(r))); '
        b += 'o.tree("operand", ctx::any(a)); ' + ('o.tree("operand", ctx::any(b)); ' if op != "fn" else "")
        ev["p"] = [2, 3, 5]
        if op == "op" and arith(ev["e"]):
            b += 'std::vector<double> p(3); p[0] = 2; p[1] = 3; p[2] = 5; ctx::num(o, "eval", [&]{ return double(viennamath::eval(r, p)); }); '
    elif op == "mk":
        f = {"eq": "equation", "iv": "interval"}[r.tok()]
        da, ta = operand(r, "a"); db, tb = operand(r, "b")
        ev["a"] = [ta, tb]
        b = '%s %s auto r = viennamath::make_%s(a, b); ctx::parts(o, r); ' % (da, db, f)
        b += 'o.tree("0 argument", ctx::any(a)); o.tree("1 argument", ctx::any(b)); '
    elif op == "mki":
        de, te = operand(r, "e"); dv, tv = operand(r, "v"); lo, hi = r.tree(), r.tree()
        ev["e"] = {"k": "u", "o": "int", "p": [tv["i"]], "x": [lo, hi], "a": te}; ev["a"] = [te]
        text = " ".join(r.t)
        b = '%s %s rt_interval<I> iv(rt_expr<I>(ctx::as("%s")), rt_expr<I>(ctx::as("%s"))); ' % (de, dv, unparse(lo), unparse(hi))
        b += 'rt_expr<I> r = viennamath::integral(iv, e, v); o.tree("integral", ctx::any(r)); o.tree("0 integrand", ctx::any(e)); '
        b += 'typedef op_rt_integral<I> OI; rt_unary_expr<I> s(rt_expr<I>(e).get()->clone(), new op_unary<OI, I>(OI(iv, v))); o.tree("integral", ctx::any(s)); '
    elif op == "mks":
        de, te = operand(r, "e"); n_ = r.num()
        ev["e"] = {"k": "u", "o": "sint", "p": [n_], "x": [], "a": te}; ev["a"] = [te]
        b = '%s rt_symbolic_interval<I> iv(%d); rt_expr<I> r = viennamath::integral(iv, e); o.tree("integral", ctx::any(r)); o.tree("0 integrand", ctx::any(e)); ' % (de, n_)
    else:
        raise vm.Infra("unknown compile-time call " + line)
    return 'static void c%d() { ctx::Out o("%s", %d); %s o.end(); }' % (n, op, n, b), ev

def drive(ctx, lines, per=48):
    """events of all lines, in order"""
    cases = [case(l, i) for i, l in enumerate(lines)]
    res = {}
    def one(ns):
        todo, rounds, out = list(ns), 0, {}
        src, exe = ctx.tmp("t.cpp"), ctx.tmp("t")
        while todo:
            with open(src, "w") as f:
                f.write('#include "ct.hpp"\nusing namespace viennamath; using ctx::Num; using ctx::I;\n')
                for n in todo: f.write(cases[n][0] + "\n")
                f.write("int main() { " + " ".join("c%d();" % n for n in todo) + " }\n")
            p = subprocess.run(["g++", "-w", "-std=gnu++14", "-O0", "-fmax-errors=0", "-ftemplate-depth=900", "-I" + vm.REPO, "-I" + vm.HARN, src, "-o", exe],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
            if p.returncode == 0: break
            # which of the calls is it?
            bad = {}
            why = "?"
            for l in p.stdout.splitlines():
                m = re.match(re.escape(src) + r":(\d+):", l)
                e = re.search(r"error: (.*)", l)
                if m and 3 <= int(m.group(1)) <= 2 + len(todo): bad.setdefault(todo[int(m.group(1)) - 3], "")
                if e:
                    for k in bad:
                        if not bad[k]: bad[k] = e.group(1)[:140]
            rounds += 1
            if not bad or rounds > 6:
                if "internal compiler error" in p.stdout or "Killed" in p.stdout: raise vm.Infra("compiler: " + p.stdout[-500:])
                if len(todo) == 1 or rounds > 6:
                    for n in todo: out[n] = {"bad": "does not compile"}
                    return out
                bad = {n: "" for n in todo[:len(todo) // 2]} if False else bad
                if not bad:
                    for n in todo: out[n] = {"bad": "does not compile"}
                    return out
            for k, m in bad.items(): out[k] = {"bad": "does not compile"}; out[k]["msg"] = m
            todo = [n for n in todo if n not in bad]
        os.unlink(src)
        if todo:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
            import json
            for l in p.stdout.splitlines():
                if l.startswith("{"):
                    ev = json.loads(l); out[ev["n"]] = dict({"bad": "", "r": ev["r"], "y": ev["y"]}, **ev.get("more", {}))
            left = [n for n in todo if n not in out]
            if left:
                out[left[0]] = {"bad": "program died: %d" % p.returncode}
                for n in left[1:]: out[n] = {"bad": "program died before: %d" % p.returncode}
            os.unlink(exe)
        return out
    parts = [list(range(b, min(b + per, len(lines)))) for b in range(0, len(lines), per)]
    with ThreadPoolExecutor(vm.JOBS) as ex:
        for o in ex.map(one, parts): res.update(o)
    evs = []
    for i, l in enumerate(lines):
        ev = dict(cases[i][1]); ev["n"] = i; ev.update(res[i]); ev.pop("msg", None)
        if not ev["bad"]:
            if ev["op"] == "ctevx": ev["z"] = [{"m": int(y["w"].split()[1]), "x": y["x"], "w": y["w"]} for y in ev["y"]]
            ev["yx"] = [y["w"] for y in ev["y"] if y["x"]]
            ev["y"] = [dict(norm.num(y["h"], True), w2=y["w"]) for y in ev["y"] if not y["x"]]
        evs.append(norm.norm(ev, True, ev["op"] == "df"))
    return evs
