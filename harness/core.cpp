// Executes one operation of the library per input line and reports, as one
// line of JSON, what the real code returned for every overload that accepts
// the arguments.  Each line is independent of the others.
#include "vm_tree.hpp"
#include "print.hpp"
#include <unistd.h>
#include <pthread.h>
#include <sys/wait.h>
#include <atomic>
#include <map>
using namespace vmt;
typedef rt_expr<I> E;
#include "evalways.hpp"

struct Results
{
  std::string s; bool first;
  Results() : first(true) {}
  void item(char const * w, std::string const & x, std::string const & t, std::string const & extra = "")
  { s += (first ? "" : ","); first = false; s += std::string("{\"w\":\"") + w + "\",\"x\":" + quote(x) + ",\"t\":" + t + extra + "}"; }
};
#define TREE(R, W, EXPR) do { std::string t_, x_; try { t_ = dump(EXPR); } catch (...) { x_ = exc_name(); t_ = "{\"k\":\"n\"}"; } (R).item(W, x_, t_); } while (0)

static thread_local std::string gtext; // message of the exception in flight
// ---------------------------------------------------------------- simplify
static void op_simp(Reader & rd, std::ostream & out)
{
  E const & e = rd.expr();
  std::string before = dump(e);
  bool c0 = e.get()->can_simplify();
  Results r;
  TREE(r, "expr", viennamath::simplify(e));
  if (rt_unary_expr<I> const * u = dynamic_cast<rt_unary_expr<I> const *>(e.get())) TREE(r, "unary", viennamath::simplify(*u));
  if (rt_binary_expr<I> const * b = dynamic_cast<rt_binary_expr<I> const *>(e.get())) TREE(r, "binary", viennamath::simplify(*b));
  { E c(e); std::string x; try { viennamath::inplace_simplify(c); } catch (...) { x = exc_name(); } r.item("inplace", x, dump(c)); }
  Results s;
  TREE(s, "step", E(e.get()->simplify()));
  E f; int c1 = -1;
  try { f = viennamath::simplify(e); c1 = f.get()->can_simplify(); TREE(r, "again", viennamath::simplify(f)); } catch (...) {}
  out << ",\"e\":" << before << ",\"after\":" << dump(e) << ",\"c0\":" << c0 << ",\"c1\":" << c1 << ",\"r\":[" << r.s << "],\"s\":[" << s.s << "]";
}

// ---------------------------------------------------------------- diff
template <typename T> void diff_fs(Results & r, char const * w, T const & t, function_symbol const & f) { TREE(r, w, viennamath::diff(t, f)); }
template <typename T> void diff_var(Results & r, char const * w, char const * wc, T const & t, long id)
{
  rt_variable<I> x(id);
  TREE(r, w, viennamath::diff(t, x));
  if (id == 0) TREE(r, wc, viennamath::diff(t, ct_variable<0>()));
  if (id == 1) TREE(r, wc, viennamath::diff(t, ct_variable<1>()));
  if (id == 2) TREE(r, wc, viennamath::diff(t, ct_variable<2>()));
  if (id == 3) TREE(r, wc, viennamath::diff(t, ct_variable<3>()));
}
static void op_diff(Reader & rd, std::ostream & out)
{
  std::string kind = rd.tok(); id_type id = rd.ident(); long tag = rd.integer();
  E const & e = rd.expr();
  std::string before = dump(e);
  rt_unary_expr<I> const * u = dynamic_cast<rt_unary_expr<I> const *>(e.get());
  rt_binary_expr<I> const * b = dynamic_cast<rt_binary_expr<I> const *>(e.get());
  rt_function_symbol<I> const * s = dynamic_cast<rt_function_symbol<I> const *>(e.get());
  Results r; std::string d;
  if (kind == "v")
  {
    rt_variable<I> x(id); d = dump(&x);
    diff_var(r, "expr", "expr_ct", e, id);
    if (u) diff_var(r, "unary", "unary_ct", *u, id);
    if (b) diff_var(r, "binary", "binary_ct", *b, id);
    if (s)
    {
      TREE(r, "fs", viennamath::diff(*s, x));
      if (id == 0) TREE(r, "fs_ct", viennamath::diff(*s, ct_variable<0>()));
      if (id == 1) TREE(r, "fs_ct", viennamath::diff(*s, ct_variable<1>()));
      if (id == 2) TREE(r, "fs_ct", viennamath::diff(*s, ct_variable<2>()));
    }
    TREE(r, "itf", E(e.get()->diff(&x)));
    if (s == NULL) { E c(e); TREE(r, "inplace", (c = viennamath::diff(c, x), c)); }
  }
  else
  {
    function_symbol f = rd.fs(id, tag); d = dump(&f);
    diff_fs(r, "expr", e, f);
    if (u) diff_fs(r, "unary", *u, f);
    if (b) diff_fs(r, "binary", *b, f);
    if (s) TREE(r, "fs", viennamath::diff(*s, f));
    TREE(r, "itf", E(e.get()->diff(&f)));
  }
  out << ",\"d\":" << d << ",\"e\":" << before << ",\"after\":" << dump(e) << ",\"r\":[" << r.s << "]";
}

// ---------------------------------------------------------------- substitute
static void op_subst(Reader & rd, std::ostream & out)
{
  long n = rd.integer();
  std::vector<E> ss, rr;
  for (long i = 0; i < n; ++i) { ss.push_back(rd.expr()); rr.push_back(rd.expr()); }
  E const & e = rd.expr();
  std::string in = dump(e), sj, rj;
  for (long i = 0; i < n; ++i) { sj += (i ? "," : "") + dump(ss[i]); rj += (i ? "," : "") + dump(rr[i]); }
  Results raw, r;
  TREE(r, "list", viennamath::substitute(ss, rr, e));
  { std::vector<I const *> sp, rp; for (long i = 0; i < n; ++i) { sp.push_back(ss[i].get()); rp.push_back(rr[i].get()); }
    TREE(raw, "itf_list", E(e.get()->substitute(sp, rp))); }
  if (n == 1)
  {
    E const & s = ss[0]; E const & p = rr[0];
    TREE(raw, "itf", E(e.get()->substitute(s.get(), p.get())));
    TREE(r, "expr", viennamath::substitute(s, p, e));
    rt_constant<double> const * pc = dynamic_cast<rt_constant<double> const *>(p.get());
    rt_variable<I> const * pv = dynamic_cast<rt_variable<I> const *>(p.get());
    rt_binary_expr<I> const * pb = dynamic_cast<rt_binary_expr<I> const *>(p.get());
    rt_unary_expr<I> const * pu = dynamic_cast<rt_unary_expr<I> const *>(p.get());
    function_symbol const * pf = dynamic_cast<function_symbol const *>(p.get());
    rt_variable<I> const * sv = dynamic_cast<rt_variable<I> const *>(s.get());
    function_symbol const * sf = dynamic_cast<function_symbol const *>(s.get());
    rt_unary_expr<I> const * su = dynamic_cast<rt_unary_expr<I> const *>(s.get());
    rt_binary_expr<I> const * sb = dynamic_cast<rt_binary_expr<I> const *>(s.get());
    if (sv)
    {
      if (pc) { TREE(r, "var_double", viennamath::substitute(*sv, static_cast<double>(*pc), e)); TREE(r, "var_const", viennamath::substitute(*sv, *pc, e)); }
      if (pv) TREE(r, "var_var", viennamath::substitute(*sv, *pv, e));
      if (pb) TREE(r, "var_bin", viennamath::substitute(*sv, *pb, e));
      if (pu) TREE(r, "var_un", viennamath::substitute(*sv, *pu, e));
      if (pf) TREE(r, "var_fs", viennamath::substitute(*sv, *pf, e));
      rt_binary_expr<I> const * eb = dynamic_cast<rt_binary_expr<I> const *>(e.get());
      rt_unary_expr<I> const * eu = dynamic_cast<rt_unary_expr<I> const *>(e.get());
#define BY(p, n) if (p) { if (eb) TREE(r, "var_" n "_bin", viennamath::substitute(*sv, *p, *eb)); if (eu) TREE(r, "var_" n "_un", viennamath::substitute(*sv, *p, *eu)); }
      BY(pv, "var") BY(pc, "const") BY(pb, "bin") BY(pu, "un") BY(pf, "fs")
      TREE(r, "var_expr", viennamath::substitute(*sv, p, e));
    }
    if (sf)
    {
      if (pc) TREE(r, "fs_double", viennamath::substitute(*sf, static_cast<double>(*pc), e));
      TREE(r, "fs_expr", viennamath::substitute(*sf, p, e));
    }
    if (su)
    {
      TREE(r, "un_expr", viennamath::substitute(*su, p, e));
      if (pv) TREE(r, "un_var", viennamath::substitute(*su, *pv, e));
      if (pb) TREE(r, "un_bin", viennamath::substitute(*su, *pb, e));
      if (pc) TREE(r, "un_const", viennamath::substitute(*su, *pc, e));
      if (pu) TREE(r, "un_un", viennamath::substitute(*su, *pu, e));
      if (pf) TREE(r, "un_fs", viennamath::substitute(*su, *pf, e));
    }
    if (sb)
    {
      if (pv) TREE(r, "bin_var", viennamath::substitute(*sb, *pv, e));
      if (pc) TREE(r, "bin_const", viennamath::substitute(*sb, *pc, e));
      if (pu) TREE(r, "bin_un", viennamath::substitute(*sb, *pu, e));
      if (pb) TREE(r, "bin_bin", viennamath::substitute(*sb, *pb, e));
      if (pf) TREE(r, "bin_fs", viennamath::substitute(*sb, *pf, e));
      TREE(r, "bin_expr", viennamath::substitute(*sb, p, e));
    }
  }
  std::string sa, ra;
  for (long i = 0; i < n; ++i) { sa += (i ? "," : "") + dump(ss[i]); ra += (i ? "," : "") + dump(rr[i]); }
  out << ",\"ss\":[" << sj << "],\"rr\":[" << rj << "],\"e\":" << in << ",\"after\":" << dump(e)
      << ",\"ssa\":[" << sa << "],\"rra\":[" << ra << "],\"raw\":[" << raw.s << "],\"r\":[" << r.s << "]";
}

// ---------------------------------------------------------------- equality, constants, strings
static void op_eq(Reader & rd, std::ostream & out)
{
  E const & a = rd.expr(), & b = rd.expr();
  E ac(a), bc(b); E a2; a2 = a;
  I const * pa = a.get(); I const * pb = b.get();
  out << ",\"a\":" << dump(a) << ",\"b\":" << dump(b)
      << ",\"dab\":" << pa->deep_equal(pb) << ",\"dba\":" << pb->deep_equal(pa)
      << ",\"daa\":" << pa->deep_equal(pa) << ",\"dac\":" << pa->deep_equal(ac.get()) << ",\"dca\":" << a2.get()->deep_equal(pa)
      << ",\"dcb\":" << ac.get()->deep_equal(bc.get())
      << ",\"sab\":" << pa->shallow_equal(pb) << ",\"sba\":" << pb->shallow_equal(pa)
      << ",\"saa\":" << pa->shallow_equal(ac.get());
}
static void op_str(Reader & rd, std::ostream & out)
{
  E const & a = rd.expr(), & b = rd.expr();
  std::ostringstream oa; oa << a;
  out << ",\"a\":" << dump(a) << ",\"b\":" << dump(b) << ",\"sa\":" << quote(a.get()->deep_str()) << ",\"sb\":" << quote(b.get()->deep_str())
      << ",\"oa\":" << quote(oa.str()) << ",\"ca\":" << quote(E(a).get()->deep_str());
}
// ---------------------------------------------------------------- printing
static void printed_node(std::ostream & out, const char * k, I const * p)
{
  if (rt_constant<double> const * c = dynamic_cast<rt_constant<double> const *>(p)) pr::printed(out, k, *c);
  else if (rt_constant<long> const * c = dynamic_cast<rt_constant<long> const *>(p)) pr::printed(out, k, *c);
  else if (rt_variable<I> const * c = dynamic_cast<rt_variable<I> const *>(p)) pr::printed(out, k, *c);
  else if (rt_function_symbol<I> const * c = dynamic_cast<rt_function_symbol<I> const *>(p)) pr::printed(out, k, *c);
  else if (rt_unary_expr<I> const * c = dynamic_cast<rt_unary_expr<I> const *>(p)) pr::printed(out, k, *c);
  else if (rt_binary_expr<I> const * c = dynamic_cast<rt_binary_expr<I> const *>(p)) pr::printed(out, k, *c);
  else pr::printed(out, k, dynamic_cast<rt_vector_expr<I> const &>(*p));
}
static void op_print(Reader & rd, std::ostream & out)
{
  std::string kind = rd.tok();
  out << ",\"kind\":" << quote(kind);
  for (int j = 0; j < 2; ++j)
  {
    const char * k = j ? "tb" : "ta"; std::vector<E> x;
    long id = 0;
    if (kind == "s") id = rd.integer();
    else for (long n = rd.integer(); n > 0; --n) x.push_back(rd.expr());
    if (kind == "s") pr::printed(out, k, rt_symbolic_interval<I>(id));
    else if (kind == "q") pr::printed(out, k, rt_equation<I>(x[0], x[1]));
    else if (kind == "i") pr::printed(out, k, rt_interval<I>(x[0], x[1]));
    else if (kind == "n") printed_node(out, k, x[0].get());
    else if (kind == "w") { rt_vector_expr<I> v(x.size()); for (std::size_t i = 0; i < x.size(); ++i) v[i] = x[i]; pr::printed(out, k, v); }
    else pr::printed(out, k, x[0]);
    out << ",\"" << (j ? "b" : "a") << "\":[";
    for (std::size_t i = 0; i < x.size(); ++i) out << (i ? "," : "") << dump(x[i]);
    if (kind == "s") out << dump(E(rt_variable<I>(id)));
    out << "],\"" << (j ? "pb" : "pa") << "\":[";
    if (kind != "e" && kind != "n") for (std::size_t i = 0; i < x.size(); ++i) out << (i ? "," : "") << pr::tokens(pr::shown(x[i]));
    out << "]";
  }
}
static void op_const(Reader & rd, std::ostream & out)
{
  E const & a = rd.expr();
  std::string u; try { u = val(a.get()->unwrap()); } catch (...) { u = "!" + exc_name(); }
  std::vector<double> p1(1, 0.625), p2(4); p2[0] = -2.5; p2[1] = 3; p2[2] = 0.5; p2[3] = 7;
  Strs y;
  VAL(y, a(p1)); VAL(y, a(p2)); VAL(y, a.get()->eval(0.0)); VAL(y, a.get()->eval(-3.25)); VAL(y, a(p2));
  out << ",\"a\":" << dump(a) << ",\"c\":" << a.get()->is_constant() << ",\"u\":" << quote(u) << ",\"y\":" << strs(y);
}
static void op_eval(Reader & rd, std::ostream & out)
{
  long n = rd.integer(); std::vector<double> p;
  for (long i = 0; i < n; ++i) p.push_back(rd.real());
  E const & e = rd.expr();
  std::string before = dump(e);
  out << ",\"p\":["; for (long i = 0; i < n; ++i) out << (i ? "," : "") << quote(hex(p[i])); out << "]";
  out << ",\"e\":" << dump_eval(e.get(), p);
  // the same object elsewhere: another value of the last variable
  std::vector<double> p2(p); if (n) p2.back() += 1;
  out << ",\"p2\":["; for (long i = 0; i < n; ++i) out << (i ? "," : "") << quote(hex(p2[i])); out << "]";
  out << ",\"e2\":" << dump_eval(e.get(), p2) << ",\"before\":" << before << ",\"after\":" << dump(e);
}

// ---------------------------------------------------------------- traversal, manipulation
// the functors are driven by the set of binary operators / node kinds given on the line
static bool in_set(I const * e, std::string const & set)
{
  std::string d = dump(e);
  if (set.find("all") != std::string::npos) return true;
  std::string key;
  if (rt_binary_expr<I> const * b = dynamic_cast<rt_binary_expr<I> const *>(e))
    key = is<OPlus>(b->op()) ? "+" : is<OMinus>(b->op()) ? "-" : is<OMult>(b->op()) ? "*" : "/";
  else key = d.compare(0, 8, "{\"k\":\"u\"") == 0 ? "u" : d.substr(6, 1);
  return set.find(key) != std::string::npos;
}
// which kinds of node the castable callback takes e for
template <typename T> struct Took { T const ** p; void operator()(T const & x) const { *p = &x; } };
template <typename T> void takes(I const * e, char k, std::string & s)
{
  T const * got = NULL; Took<T> f; f.p = &got;
  bool r = callback_if_castable<T>::apply(e, f);
  if (r || got) s += std::string(s.empty() ? "" : ",") + "\"" + k + (r && static_cast<I const *>(got) == e ? "" : "?") + "\"";
}
static std::string taken(I const * e)
{
  std::string s;
  takes<rt_constant<double> >(e, 'c', s); takes<rt_constant<long> >(e, 'c', s); takes<rt_constant<int> >(e, 'c', s); takes<rt_constant<float> >(e, 'c', s); takes<rt_variable<I> >(e, 'v', s); takes<rt_unary_expr<I> >(e, 'u', s);
  takes<rt_binary_expr<I> >(e, 'b', s); takes<rt_vector_expr<I> >(e, 'w', s); takes<rt_function_symbol<I> >(e, 'f', s);
  return "[" + s + "]";
}
struct Trav : rt_traversal_interface<I>
{
  std::string set; Strs * log; std::vector<I const *> * ptrs; Strs * cast;
  Trav(std::string const & s, Strs * l, std::vector<I const *> * p, Strs * c) : set(s), log(l), ptrs(p), cast(c) {}
  void operator()(I const * e) const { log->push_back(dump(e)); ptrs->push_back(e); cast->push_back(taken(e)); }
  bool step_into(I const * e) const { return in_set(e, set); }
};
struct Mani : rt_manipulation_interface<I>
{
  std::string set; Strs * log;
  Mani(std::string const & s, Strs * l) : set(s), log(l) {}
  // a node in the set becomes f(7) of another kind that tells what was replaced
  I * operator()(I const * e) const
  {
    log->push_back(dump(e));
    if (!in_set(e, set)) return e->clone();
    return new rt_unary_expr<I>(e->clone(), new OPd(op_partial_deriv<double>(9)));
  }
  bool modifies(I const * e) const { return in_set(e, set); }
};
static std::string join(Strs const & l) { std::string s; for (std::size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + l[i]; return s; }
static void op_trav(Reader & rd, std::ostream & out)
{
  std::string set = rd.tok(); E const & e = rd.expr(); std::string in = dump(e);
  Strs l, cast; std::vector<I const *> ptrs;
  { rt_traversal_wrapper<I> w(new Trav(set, &l, &ptrs, &cast)); e.get()->recursive_traversal(w); }
  // the nodes themselves, not copies
  int distinct = 1;
  for (std::size_t i = 0; i < ptrs.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (ptrs[i] == ptrs[j]) distinct = 0;
  out << ",\"set\":" << quote(set) << ",\"e\":" << in << ",\"l\":[" << join(l) << "],\"cast\":[" << join(cast) << "],\"distinct\":" << distinct << ",\"after\":" << dump(e);
}
static void op_mani(Reader & rd, std::ostream & out)
{
  std::string set = rd.tok(); E const & e = rd.expr(); std::string in = dump(e);
  Strs l; std::string t;
  { rt_manipulation_wrapper<I> w(new Mani(set, &l)); E r(e.get()->recursive_manipulation(w)); t = dump(r); }
  out << ",\"set\":" << quote(set) << ",\"e\":" << in << ",\"t\":" << t << ",\"l\":[" << join(l) << "],\"after\":" << dump(e);
}

// ---------------------------------------------------------------- LaTeX
static void op_latex(Reader & rd, std::ostream & out)
{
  // k customizations: v id text | f id tag text
  long k = rd.integer();
  latex_translator tr; std::string cj;
  for (long i = 0; i < k; ++i)
  {
    std::string w = rd.tok(); long id = rd.integer(); long tag = 0;
    if (w == "f") tag = rd.integer();
    std::string text = rd.tok();
    if (w == "v") { rt_variable<I> x(id); tr.customize(x, text); cj += (i ? "," : "") + ("{\"n\":" + dump(&x) + ",\"s\":" + quote(text) + "}"); }
    else { function_symbol f = rd.fs(id, tag); tr.customize(f, text); cj += (i ? "," : "") + ("{\"n\":" + dump(&f) + ",\"s\":" + quote(text) + "}"); }
  }
  E const & e = rd.expr();
  Strs o;
  put(o, tr(e)); put(o, tr(e));
  if (rt_unary_expr<I> const * u = dynamic_cast<rt_unary_expr<I> const *>(e.get())) put(o, tr(*u));
  if (rt_binary_expr<I> const * b = dynamic_cast<rt_binary_expr<I> const *>(e.get())) put(o, tr(*b));
  if (rt_variable<I> const * v = dynamic_cast<rt_variable<I> const *>(e.get())) put(o, tr(*v));
  if (function_symbol const * f = dynamic_cast<function_symbol const *>(e.get())) { put(o, tr(*f)); latex_translator const & ct = tr; put(o, ct(*f)); }
  if (rt_constant<double> const * c = dynamic_cast<rt_constant<double> const *>(e.get())) put(o, tr(*c));
  if (rt_constant<long> const * c = dynamic_cast<rt_constant<long> const *>(e.get())) put(o, tr(*c));
  E const & e2 = rd.expr();
  std::string par = tr(e, true);
  equation q(e, e2); interval iv(e, e2);
  out << ",\"c\":[" << cj << "],\"e\":" << dump(e) << ",\"e2\":" << dump(e2) << ",\"o\":" << strs(o) << ",\"o2\":" << quote(tr(e2)) << ",\"par\":" << quote(par)
      << ",\"eq\":" << quote(tr(q)) << ",\"iv\":" << quote(tr(iv));
}

// a processor of the client's own: a vector is shown as the sum of its components
struct VecProc : rt_latex_processor_interface<I>
{
  rt_latex_processor_interface<I> * clone() const { return new VecProc(); }
  std::string process(I const * e, bool, rt_latex_translator<I> const & tr) const
  {
    rt_vector_expr<I> const * v = dynamic_cast<rt_vector_expr<I> const *>(e);
    if (v == NULL) return "";
    std::string s = " \\left( ";
    for (std::size_t i = 0; i < v->size(); ++i) s += (i ? " + " : "") + tr((*v)[i], true);
    return s + " \\right) ";
  }
};
// a history of up to three translators: customize (c), copy (k), assign (a), start over (n), add a processor (v), print (p)
static void op_latexh(Reader & rd, std::ostream & out)
{
  long k = rd.integer();
  std::unique_ptr<latex_translator> t[3];
  for (int j = 0; j < 3; ++j) t[j].reset(new latex_translator());
  out << ",\"h\":[";
  for (long i = 0; i < k; ++i)
  {
    std::string c = rd.tok(); long x = rd.integer();
    out << (i ? "," : "") << "{\"c\":" << quote(c) << ",\"t\":" << x;
    if (c == "c")
    {
      E const & e = rd.expr(); std::string text = rd.tok();
      if (rt_variable<I> const * v = dynamic_cast<rt_variable<I> const *>(e.get())) t[x]->customize(*v, text);
      else t[x]->customize(dynamic_cast<function_symbol const &>(*e.get()), text);
      out << ",\"e\":" << dump(e) << ",\"s\":" << quote(text);
    }
    else if (c == "k" || c == "a")
    {
      long y = rd.integer();
      if (c == "a") *t[x] = *t[y]; else if (x != y) t[x].reset(new latex_translator(*t[y]));
      out << ",\"y\":" << y;
    }
    else if (c == "n") t[x].reset(new latex_translator());
    else if (c == "v") t[x]->add_processor(new VecProc());
    else { E const & e = rd.expr(); out << ",\"e\":" << dump(e) << ",\"s\":" << quote((*t[x])(e)); }
    out << "}";
  }
  out << "]";
}

// ---------------------------------------------------------------- quadrature
// a rule of the user: remembers what it is applied to and answers with a number that depends on that alone
struct RuleLog { std::string calls; int live; RuleLog() : live(0) {} };
struct UserRule : numerical_quadrature_interface<I>
{
  RuleLog * log;
  UserRule(RuleLog * l) : log(l) { ++log->live; }
  ~UserRule() { --log->live; }
  numerical_quadrature_interface<I> * clone() const { return new UserRule(log); }
  double eval(rt_interval<I> const & iv, E const & e, rt_variable<I> const & x) const
  {
    std::string lo = dump(iv.lower()), hi = dump(iv.upper()), d = dump(static_cast<I const *>(&x)), n = dump(e), all = lo + hi + d + n;
    long h = 7; for (std::size_t i = 0; i < all.size(); ++i) h = (h * 31 + (unsigned char)all[i]) % 9973;
    std::ostringstream o; o << (log->calls.empty() ? "" : ",") << "{\"lo\":" << lo << ",\"hi\":" << hi << ",\"d\":" << d << ",\"e\":" << n << ",\"v\":" << h << "}";
    log->calls += o.str(); return h;
  }
};
template <typename F> static void user_rule(std::ostream & out, F f)
{
  RuleLog l; std::string x; long tot = 0;
  { numerical_quadrature q(new UserRule(&l)); numerical_quadrature q2(q), q3(new rt_gauss_quad_1<>()), q4; q3 = q2; q4 = q3; q2 = q2;
    try { tot = static_cast<long>(f(q4)); } catch (...) { x = exc_name(); } }
  out << ",\"ucalls\":[" << l.calls << "],\"utot\":" << tot << ",\"ux\":" << quote(x) << ",\"ulive\":" << l.live;
}
static void op_quad(Reader & rd, std::ostream & out)
{
  E const & e = rd.expr(); numerical_quadrature q(new rt_gauss_quad_1<>()); numerical_quadrature q2(q), q3; q3 = q2;
  Strs y; std::string in = dump(e);
  VAL(y, q(e)); VAL(y, q2(e)); VAL(y, q3(e));
  user_rule(out, [&](numerical_quadrature const & r) { return r(e); });
  out << ",\"e\":" << in << ",\"y\":" << strs(y) << ",\"after\":" << dump(e);
}
static void op_quad3(Reader & rd, std::ostream & out)
{
  E const & lo = rd.expr(), & hi = rd.expr(); long id = rd.integer(); E const & e = rd.expr();
  interval iv(lo, hi); rt_variable<I> x(id);
  numerical_quadrature q(new rt_gauss_quad_1<>()); Strs y;
  VAL(y, q(iv, e, x));
  if (id == 0) VAL(y, q(iv, e, ct_variable<0>()));
  if (id == 1) VAL(y, q(iv, e, ct_variable<1>()));
  if (id == 2) VAL(y, q(iv, e, ct_variable<2>()));
  user_rule(out, [&](numerical_quadrature const & r) { return r(iv, e, x); });
  out << ",\"lo\":" << dump(lo) << ",\"hi\":" << dump(hi) << ",\"d\":" << dump(&x) << ",\"e\":" << dump(e) << ",\"y\":" << strs(y);
}

// ---------------------------------------------------------------- coordinate systems
template <int dim> void coord(Results & r, Results & q, E const & e, E const & e2)
{
  cartesian<dim> cs;
  TREE(r, "expr", apply_coordinate_system(cs, e));
  if (rt_unary_expr<I> const * u = dynamic_cast<rt_unary_expr<I> const *>(e.get())) TREE(r, "unary", apply_coordinate_system(cs, *u));
  if (rt_binary_expr<I> const * b = dynamic_cast<rt_binary_expr<I> const *>(e.get())) TREE(r, "binary", apply_coordinate_system(cs, *b));
  equation eq(e, e2);
  TREE(r, "eq_lhs", apply_coordinate_system(cs, eq).lhs());
  TREE(q, "eq_rhs", apply_coordinate_system(cs, eq).rhs());
}
static void op_coord(Reader & rd, std::ostream & out)
{
  long dim = rd.integer(); E const & e = rd.expr(), & e2 = rd.expr(); std::string in = dump(e), in2 = dump(e2);
  Results r, q;
  if (dim == 1) coord<1>(r, q, e, e2);
  if (dim == 2) coord<2>(r, q, e, e2);
  if (dim == 3) coord<3>(r, q, e, e2);
  out << ",\"dim\":" << dim << ",\"e\":" << in << ",\"e2\":" << in2 << ",\"r\":[" << r.s << "],\"q\":[" << q.s << "],\"after\":" << dump(e) << ",\"after2\":" << dump(e2);
}

// ---------------------------------------------------------------- vectors
static std::string dumpv(rt_vector_expr<I> const & v) { return dump(static_cast<I const *>(&v)); }
#define VTREE(R, W, EXPR) do { std::string t_, x_; try { t_ = dumpv(EXPR); } catch (...) { x_ = exc_name(); t_ = "{\"k\":\"n\"}"; } (R).item(W, x_, t_); } while (0)
static void op_vec(Reader & rd, std::ostream & out)
{
  E const & a = rd.expr(), & b = rd.expr(), & s = rd.expr();
  rt_vector_expr<I> const & va = dynamic_cast<rt_vector_expr<I> const &>(*a.get());
  rt_vector_expr<I> const & vb = dynamic_cast<rt_vector_expr<I> const &>(*b.get());
  std::string ia = dump(a), ib = dump(b), is_ = dump(s);
  Results r;
  VTREE(r, "+", va + vb); VTREE(r, "-", va - vb); TREE(r, "*", va * vb);
  VTREE(r, "v*s", va * s); VTREE(r, "s*v", s * va); VTREE(r, "v/s", va / s); VTREE(r, "s/v", s / va);
  rt_constant<double> const * c = dynamic_cast<rt_constant<double> const *>(s.get());
  rt_variable<I> const * v = dynamic_cast<rt_variable<I> const *>(s.get());
  rt_binary_expr<I> const * be = dynamic_cast<rt_binary_expr<I> const *>(s.get());
  rt_unary_expr<I> const * ue = dynamic_cast<rt_unary_expr<I> const *>(s.get());
  function_symbol const * f = dynamic_cast<function_symbol const *>(s.get());
  if (c) { double d = *c; VTREE(r, "v*s", va * d); VTREE(r, "s*v", d * va); VTREE(r, "v/s", va / d); VTREE(r, "s/v", d / va); VTREE(r, "v*s", va * *c); VTREE(r, "s*v", *c * va); }
  if (v) { VTREE(r, "v*s", va * *v); VTREE(r, "s*v", *v * va); VTREE(r, "v/s", va / *v); VTREE(r, "s/v", *v / va); }
  if (be) { VTREE(r, "v*s", va * *be); VTREE(r, "s*v", *be * va); }
  if (ue) { VTREE(r, "v*s", va * *ue); VTREE(r, "s*v", *ue * va); }
  if (f) { VTREE(r, "v*s", va * *f); VTREE(r, "s*v", *f * va); }
  rt_vector_expr<I> z(va.size()); VTREE(r, "new", z);
  rt_vector_expr<I> cp(va); VTREE(r, "copy", cp);
  for (std::size_t i = 0; i < cp.size(); ++i) cp[i] = vb[i]; VTREE(r, "setcopy", cp);
  z = va; VTREE(r, "copy", z); if (z.size()) { z[0] = s; VTREE(r, "set0", z); }
  out << ",\"a\":" << ia << ",\"b\":" << ib << ",\"s\":" << is_ << ",\"r\":[" << r.s << "],\"aa\":" << dump(a) << ",\"ba\":" << dump(b) << ",\"sa\":" << dump(s);
}

// ---------------------------------------------------------------- symbolic intervals
static void op_subint(Reader & rd, std::ostream & out)
{
  long id = rd.integer(); E const & lo = rd.expr(), & hi = rd.expr(); long v = rd.integer(); E const & e = rd.expr();
  std::string in = dump(e); Results r;
  interval iv(lo, hi); rt_variable<I> x(v); symbolic_interval si(id);
  TREE(r, "pair", viennamath::substitute(si, std::make_pair(iv, x), e));
  out << ",\"id\":" << id << ",\"lo\":" << dump(lo) << ",\"hi\":" << dump(hi) << ",\"v\":" << v << ",\"e\":" << in << ",\"r\":[" << r.s << "],\"after\":" << dump(e);
}

// ---------------------------------------------------------------- things made once and used by every request
struct Tools
{
  numerical_quadrature q; latex_translator tr; rt_variable<I> x0, x1; function_symbol u; std::vector<double> p;
  interval iv; equation eq; rt_vector_expr<I> w; cartesian<2> cs; rt_constant<double> k; rt_symbolic_interval<I> si;
  Tools() : q(new rt_gauss_quad_1<>()), x0(0), x1(1), u(0, unknown_tag<>()), iv(E(rt_constant<double>(0)), E(rt_constant<double>(2))),
            eq(E(x0 * x1), E(x0 + x1)), w(2), k(2.5), si(3)
  { p.push_back(2); p.push_back(3); p.push_back(-1); p.push_back(0.5); tr.customize(x1, "yy"); tr.add_processor(new VecProc()); w[0] = E(x0 * x0); w[1] = E(x1 + x0); }
};
static Tools const * tools;
static ct_binary_expr<ct_binary_expr<ct_variable<0>, op_mult<default_numeric_type>, ct_variable<1> >, op_plus<default_numeric_type>, ct_constant<3> > const ct_shared = ct_variable<0>() * ct_variable<1>() + ct_constant<3>();
// tool <k> <tree> <tree>: one way of using them
static void op_tool(Reader & rd, std::ostream & out)
{
  long k = rd.integer(); E const & a = rd.expr(), & b = rd.expr(); Tools const & t = *tools;
  Results r; Strs y; std::string text;
  switch (k)
  {
    case 0: VAL(y, t.q(t.iv, a, t.x0)); VAL(y, t.q(t.iv, t.eq.lhs(), t.x1)); break;
    case 1: try { text = t.tr(a) + "|" + t.tr(b, true) + "|" + t.tr(t.eq) + "|" + t.tr(t.iv) + "|" + t.tr(t.x1) + "|" + t.tr(t.u); } catch (...) { text = exc_name(); } break;
    case 2: TREE(r, "a", apply_coordinate_system(t.cs, a)); TREE(r, "l", apply_coordinate_system(t.cs, t.eq).lhs()); break;
    case 3: TREE(r, "d", viennamath::diff(a, t.x0)); TREE(r, "u", viennamath::diff(a, t.u)); TREE(r, "l", viennamath::diff(t.eq.rhs(), t.x1)); break;
    case 4: TREE(r, "s", viennamath::substitute(t.x0, b, a)); TREE(r, "k", viennamath::substitute(t.x1, t.k, a)); TREE(r, "f", viennamath::substitute(t.u, b, a)); break;
    case 5: VAL(y, viennamath::eval(a, t.p)); VAL(y, viennamath::eval(b, t.p)); VAL(y, viennamath::eval(t.eq.lhs(), t.p)); break;
    case 6: TREE(r, "w", E(t.w * t.w)); TREE(r, "m", E((t.w * 2.0)[0])); TREE(r, "p", E((t.w + t.w)[1])); break;
    case 7: TREE(r, "i", integral(t.iv, a, t.x0)); TREE(r, "s", integral(t.si, a)); TREE(r, "p", viennamath::substitute(t.si, std::make_pair(t.iv, t.x0), a)); break;
    case 8: { std::ostringstream o; o << t.eq << "|" << t.iv << "|" << t.w << "|" << t.x1 << "|" << t.k << "|" << t.u << "|" << t.si << "|" << ct_shared; text = o.str(); } break;
    case 9: VAL(y, viennamath::eval(ct_shared, make_vector(2.0, 3.0))); TREE(r, "e", E(ct_shared)); VAL(y, ct_shared(t.p)); TREE(r, "x", E(t.x0 * ct_shared)); break;
    case 10: TREE(r, "+", E(a + b)); TREE(r, "*", E(a * t.x0)); TREE(r, "k", E(t.k * a)); TREE(r, "sin", viennamath::sin(a)); TREE(r, "c", E(a)); break;
    default: { E c(a), d(b), e; e = c; c = d; d = e; c = viennamath::simplify(c); TREE(r, "c", c); TREE(r, "d", d); rt_vector_expr<I> v(t.w); v[0] = a; TREE(r, "v", E(v * t.w)); equation q(t.eq); q = equation(a, b); TREE(r, "q", q.lhs()); }
  }
  out << ",\"r\":[" << r.s << "],\"y\":" << strs(y) << ",\"t\":" << quote(text) << ",\"after\":" << dump(a) << dump(b);
}

static bool perform(std::string const & op, Reader & rd, std::ostream & out)
{
  if (op == "simp") op_simp(rd, out);
  else if (op == "diff") op_diff(rd, out);
  else if (op == "subst") op_subst(rd, out);
  else if (op == "eq") op_eq(rd, out);
  else if (op == "str") op_str(rd, out);
  else if (op == "print") op_print(rd, out);
  else if (op == "const") op_const(rd, out);
  else if (op == "eval") op_eval(rd, out);
  else if (op == "trav") op_trav(rd, out);
  else if (op == "mani") op_mani(rd, out);
  else if (op == "latex") op_latex(rd, out);
  else if (op == "latexh") op_latexh(rd, out);
  else if (op == "quad") op_quad(rd, out);
  else if (op == "quad3") op_quad3(rd, out);
  else if (op == "coord") op_coord(rd, out);
  else if (op == "vec") op_vec(rd, out);
  else if (op == "subint") op_subint(rd, out);
  else if (op == "tool") op_tool(rd, out);
  else return false;
  return true;
}

// ---------------------------------------------------------------- several threads
// thr <tree> ; <tree> ... | <request> ; <request> ... | ...   trees known as @0, @1, ... and what every thread asks, in its order
static std::atomic<long> races;
extern "C" void __tsan_on_report(void *) { ++races; }
static std::vector<std::string> parts(std::string const & s, char c)
{
  std::vector<std::string> r(1);
  for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == c) r.push_back(""); else r.back() += s[i];
  return r;
}
// what is answered, as a short text
static std::string answer(std::string const & q, std::deque<E> const * trees)
{
  Reader rd(q, trees); std::string op = rd.tok(); std::ostringstream out; std::string s;
  try { if (!perform(op, rd, out)) { std::cerr << "driver: bad operation " << op << "\n"; std::exit(92); } s = out.str(); }
  catch (...) { s = "exception " + exc_name(); }
  unsigned long h = 1469598103934665603ul;
  for (std::size_t i = 0; i < s.size(); ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ul;
  std::ostringstream o; o << std::hex << h << "." << std::dec << s.size();
  return o.str();
}
static void grow(std::deque<E> & trees, std::string const & text)
{
  std::vector<std::string> t = parts(text, ';');
  for (std::size_t i = 0; i < t.size(); ++i) { Reader rd(t[i]); trees.push_back(rd.expr()); }
}
struct Asker { std::vector<std::string> qs, as; std::deque<E> const * trees; pthread_barrier_t * go; };
static void * ask(void * p)
{
  Asker & a = *static_cast<Asker *>(p);
  pthread_barrier_wait(a.go);
  for (std::size_t i = 0; i < a.qs.size(); ++i) a.as.push_back(answer(a.qs[i], a.trees));
  return 0;
}
// every request in a process of its own, with objects of its own
static std::string alone(std::string const & q, std::string const & trees)
{
  int fd[2]; if (pipe(fd)) std::exit(92);
  pid_t p = fork();
  if (p == 0) { alarm(10); Tools t; tools = &t; std::deque<E> d; grow(d, trees); std::string s = answer(q, &d); if (write(fd[1], s.data(), s.size())) {} _exit(0); }
  close(fd[1]); std::string r; char buf[256]; long n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, n);
  close(fd[0]); int st = 0; waitpid(p, &st, 0);
  return st ? "died" : r;
}
static void scenario(std::string const & line, bool together, std::ostream & out)
{
  std::vector<std::string> p = parts(line.substr(4), '|'); std::string a;
  if (!together)
    for (std::size_t j = 1; j < p.size(); ++j)
    { std::vector<std::string> q = parts(p[j], ';'); Strs as; a += j > 1 ? ",[" : "[";
      for (std::size_t i = 0; i < q.size(); ++i) a += (i ? "," : "") + quote(alone(q[i], p[0])); a += "]"; }
  else
  {
    Tools t; tools = &t; std::deque<E> trees; grow(trees, p[0]);
    std::size_t n = p.size() - 1; std::vector<Asker> as(n); std::vector<pthread_t> id(n);
    pthread_barrier_t go; pthread_barrier_init(&go, 0, n);
    for (std::size_t j = 0; j < n; ++j) { as[j].qs = parts(p[j + 1], ';'); as[j].trees = &trees; as[j].go = &go; as[j].as.reserve(as[j].qs.size()); }
    long before = races;
    for (std::size_t j = 0; j < n; ++j) if (pthread_create(&id[j], 0, ask, &as[j])) { std::cerr << "driver: no thread\n"; std::exit(92); }
    for (std::size_t j = 0; j < n; ++j) pthread_join(id[j], 0);
    pthread_barrier_destroy(&go);
    for (std::size_t j = 0; j < n; ++j) { a += j ? ",[" : "["; for (std::size_t i = 0; i < as[j].as.size(); ++i) a += (i ? "," : "") + quote(as[j].as[i]); a += "]"; }
    out << ",\"race\":" << races - before;
  }
  out << ",\"a\":[" << a << "]";
}

int main(int argc, char ** argv)
{
  bool together = argc > 1 && std::string(argv[1]) == "together";
  std::string line; long n = 0;
  while (std::getline(std::cin, line))
  {
    ++n;
    if (line.empty()) continue;
    Reader rd(line); std::string op = rd.tok();
    std::ostringstream out;
    alarm(10);
    try
    {
      if (op == "thr") { alarm(together ? 20 : 0); scenario(line, together, out); }
      else if (!perform(op, rd, out)) { std::cerr << "driver: bad operation " << op << "\n"; return 92; }
      std::cout << "{\"n\":" << n << ",\"op\":" << quote(op) << ",\"bad\":\"\"" << out.str() << "}" << std::endl;
    }
    catch (...)
    { std::cout << "{\"n\":" << n << ",\"op\":" << quote(op) << ",\"bad\":" << quote("exception " + exc_name()) << "}" << std::endl; }
  }
  return 0;
}
