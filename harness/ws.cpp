// A workspace of named expression objects.  Executes one history per input
// line (commands separated by ';') and writes the contents of every object
// after every command.  Memory the library allocates is counted.
#include <new>
#include <cstdlib>
#include <cstring>
static long live_ = 0;
static void * get_(std::size_t n)
{
  char * p = static_cast<char *>(std::malloc(n + 16));
  if (!p) throw std::bad_alloc();
  std::memcpy(p, &n, sizeof n); ++live_;
  return p + 16;
}
static void put_(void * q)
{
  if (!q) return;
  char * p = static_cast<char *>(q) - 16;
  std::size_t n; std::memcpy(&n, p, sizeof n); --live_;
#ifndef WS_ASAN
  std::memset(p, 0xDD, n + 16); // what is read after its release shows
#endif
  std::free(p);
}
void * operator new(std::size_t n) { return get_(n); }
void * operator new[](std::size_t n) { return get_(n); }
void operator delete(void * p) throw() { put_(p); }
void operator delete[](void * p) throw() { put_(p); }
void operator delete(void * p, std::size_t) throw() { put_(p); }
void operator delete[](void * p, std::size_t) throw() { put_(p); }

#include <memory>
#include "vm_tree.hpp"
#include <unistd.h>
#include <map>
#include <set>
using namespace vmt;
typedef rt_expr<I> E; typedef rt_unary_expr<I> U; typedef rt_binary_expr<I> B; typedef rt_variable<I> V; typedef rt_constant<double> K;
typedef rt_function_symbol<I> F; typedef rt_vector_expr<I> W; typedef rt_equation<I> Q; typedef rt_interval<I> T;

struct Skip {};

template <typename X> struct Slot
{
  alignas(X) char buf[sizeof(X)]; X * p;
  Slot() : p(0) {}
  void clear() { if (p) { X * x = p; p = 0; x->~X(); std::memset(buf, 0xDD, sizeof buf); } }
  template <typename A> void make(A const & a) { clear(); p = new (buf) X(a); }
};
// the objects
struct Store
{
  Slot<E> e[4]; Slot<U> u[2]; Slot<B> b[2]; Slot<V> v[2]; Slot<K> c[2]; Slot<F> f[1]; Slot<W> w[2]; Slot<Q> q[2]; Slot<T> i[2];
  void clear() { for (int j = 0; j < 4; ++j) e[j].clear(); for (int j = 0; j < 2; ++j) { u[j].clear(); b[j].clear(); v[j].clear(); c[j].clear(); w[j].clear(); q[j].clear(); i[j].clear(); } f[0].clear(); }
};
static Store S;
#define KINDS(X) X('e', e) X('u', u) X('b', b) X('v', v) X('c', c) X('f', f) X('w', w) X('q', q) X('i', i)
static int ix(std::string const & s) { return s[1] - '0'; }

#include "evalways.hpp"
static std::string dumpo(E const & x) { return x.get() ? dump(x.get()) : std::string("{\"k\":\"n\"}"); }
template <typename X> std::string dumpo(X const & x) { return dump(static_cast<I const *>(&x)); }
static std::string two(E const & a, E const & b) { return "{\"k\":\"w\",\"e\":[" + dumpo(a) + "," + dumpo(b) + "]}"; }
static std::string dumpo(Q const & x) { return two(x.lhs(), x.rhs()); }
static std::string dumpo(T const & x) { return two(x.lower(), x.upper()); }
// the objects whose contents are not what they were
static std::map<std::string, std::string> old_;
static std::string changes()
{
  std::string s = "{";
#define X(ch, m) for (unsigned j = 0; j < sizeof S.m / sizeof *S.m; ++j) { std::string d = S.m[j].p ? dumpo(*S.m[j].p) : std::string("{\"k\":\"n\"}"), n = std::string(1, ch) + num(j); \
    std::string & o = old_[n]; if (o.empty()) o = "{\"k\":\"n\"}"; if (o != d) { if (s.size() > 1) s += ","; s += "\"" + n + "\":" + d; o = d; } }
  KINDS(X)
#undef X
  return s + "}";
}

// in a probed history everything that can be evaluated is evaluated, always at the same point, after every change
static bool probe_ = false;
static long nodes(I const * e)
{
  if (B const * b = dynamic_cast<B const *>(e)) return 1 + nodes(b->lhs()) + nodes(b->rhs());
  if (U const * u = dynamic_cast<U const *>(e)) return 1 + nodes(u->lhs());
  return 1;
}
static std::string look_;
static std::vector<long> ans_; // what a question was answered
static void evaluated(std::string const & s, I const * e, std::vector<double> const & p)
{
  if (!e || nodes(e) > 25) return;
  look_ += std::string(look_.size() ? "," : "") + "{\"s\":" + quote(s) + ",\"c\":" + num(e->is_constant()) + ",\"p\":[";
  for (std::size_t j = 0; j < p.size(); ++j) look_ += (j ? "," : "") + quote(val(p[j]));
  look_ += "],\"e\":" + dump_eval(e, p) + "}";
}
static void probe(std::string const & ch)
{
  for (int k = 0; k < 3; ++k)
  {
  std::vector<double> p(k ? 2 : 1, 2.0); if (k) p[1] = 2 * k + 1;
  for (int j = 0; j < 4; ++j) if (S.e[j].p && ch.find("\"e" + num(j) + "\":") != std::string::npos) evaluated("e" + num(j), S.e[j].p->get(), p);
  for (int j = 0; j < 2; ++j) if (S.u[j].p && ch.find("\"u" + num(j) + "\":") != std::string::npos) evaluated("u" + num(j), S.u[j].p, p);
  for (int j = 0; j < 2; ++j) if (S.b[j].p && ch.find("\"b" + num(j) + "\":") != std::string::npos) evaluated("b" + num(j), S.b[j].p, p);
  }
}

// apply a function to the object of the given name
template <typename Fn> void with(std::string const & s, Fn fn)
{
  int j = ix(s);
#define ONE(ch, m) case ch: if (!S.m[j].p) throw Skip(); fn(*S.m[j].p); break;
  switch (s[0]) { ONE('e', e) ONE('u', u) ONE('b', b) ONE('v', v) ONE('c', c) ONE('f', f) default: throw Skip(); }
}
static I const * node(std::string const & s)
{
  int j = ix(s);
#define NOD(ch, m) case ch: return S.m[j].p;
  switch (s[0]) { case 'e': return S.e[j].p ? S.e[j].p->get() : 0; NOD('u', u) NOD('b', b) NOD('v', v) NOD('c', c) NOD('f', f) NOD('w', w) default: throw Skip(); }
}
// assignment of a result by whichever assignment operator there is
template <typename A, typename R> auto assign_(A & a, R const & r, int) -> decltype(a = r, void()) { a = r; }
template <typename A, typename R> void assign_(A &, R const &, long) { throw Skip(); }
static void assign_(V &, double, int) { throw Skip(); }
template <typename R> void into(std::string const & s, R const & r)
{
  int j = ix(s);
  switch (s[0])
  {
    case 'e': if (!S.e[j].p) S.e[j].make(r); else assign_(*S.e[j].p, r, 0); break;
    case 'u': if (!S.u[j].p) throw Skip(); assign_(*S.u[j].p, r, 0); break;
    case 'b': if (!S.b[j].p) throw Skip(); assign_(*S.b[j].p, r, 0); break;
    default: throw Skip();
  }
}

// assignment of the object found at a node of another expression
static void from_node(std::string const & x, I const * n)
{
  if (!n) throw Skip();
  if (U const * t = dynamic_cast<U const *>(n)) into(x, *t);
  else if (B const * t = dynamic_cast<B const *>(n)) into(x, *t);
  else if (V const * t = dynamic_cast<V const *>(n)) into(x, *t);
  else if (K const * t = dynamic_cast<K const *>(n)) into(x, *t);
  else if (F const * t = dynamic_cast<F const *>(n)) into(x, *t);
  else throw Skip();
}
static I const * child(I const * n, int k)
{
  if (U const * t = dynamic_cast<U const *>(n)) return t->lhs();
  if (B const * t = dynamic_cast<B const *>(n)) return k ? t->rhs() : t->lhs();
  throw Skip();
}

template <typename R> void res(std::string const & x, R const & r) { into(x, r); }
struct Result { std::string x; explicit Result(std::string const & s) : x(s) {} };

template <typename A, typename Bt> void op2(std::string const & x, std::string const & o, A const & a, Bt const & b)
{
  // the temporary result lives until the assignment is done, as in client code
  if (o == "+") { res(x, a + b); }
  else if (o == "-") { res(x, a - b); }
  else if (o == "*") { res(x, a * b); }
  else { res(x, a / b); }
}
struct Op2b { std::string x, o; template <typename A, typename Bt> void go(A const & a, Bt const & b) const { op2(x, o, a, b); } };
template <typename A> struct Op2a { Op2b const & q; A const & a; template <typename Bt> void operator()(Bt const & b) const { q.go(a, b); } };
struct Op1 { Op2b q; std::string z; template <typename A> void operator()(A const & a) const { Op2a<A> f = {q, a}; with(z, f); } };
struct OpNum { Op2b q; double d; bool left; template <typename A> void operator()(A const & a) const { if (left) q.go(d, a); else q.go(a, d); } };

struct Fun { std::string x, f; template <typename A> void operator()(A const & a) const {
  using namespace viennamath;

  if (f == "exp") res(x, viennamath::exp(a)); else if (f == "sin") res(x, viennamath::sin(a)); else if (f == "cos") res(x, viennamath::cos(a));
  else if (f == "tan") res(x, viennamath::tan(a)); else if (f == "fabs") res(x, viennamath::fabs(a)); else if (f == "sqrt") res(x, viennamath::sqrt(a));
  else if (f == "log") res(x, viennamath::log(a)); else res(x, viennamath::log10(a)); }
  void operator()(F const &) const { throw Skip(); } };

struct Copy { std::string x; template <typename A> void operator()(A const & a) const { into(x, a); } };
struct Make { std::string x;
  template <typename A> void operator()(A const & a) const { if (x[0] != 'e') throw Skip(); E t(a); S.e[ix(x)].make(t); } };
struct Pair1 { std::string x, z;
  struct In { std::string x; template <typename A> struct Bound { std::string x; A const & a; template <typename Bt> void operator()(Bt const & b) const {
    if (x[0] == 'q') { Q r = make_equation(a, b); if (S.q[ix(x)].p) { *S.q[ix(x)].p = r; } else S.q[ix(x)].make(r); }
    else { T r = make_interval(a, b); if (S.i[ix(x)].p) { *S.i[ix(x)].p = r; } else S.i[ix(x)].make(r); } } }; };
  template <typename A> void operator()(A const & a) const { In::Bound<A> f = {x, a}; with(z, f); } };
struct DiffV { std::string x; V const & v; 
  template <typename A> void operator()(A const & a) const { res(x, viennamath::diff(a, v)); } };
struct DiffF { std::string x; F const & v; 
  template <typename A> void operator()(A const & a) const { res(x, viennamath::diff(a, v)); }
  void operator()(V const &) const { throw Skip(); } void operator()(K const &) const { throw Skip(); } };
struct Simp { std::string x; void operator()(E const & a) const { E r = viennamath::simplify(a); res(x, r); } 
  void operator()(U const & a) const { E r(a.simplify()); res(x, r); } void operator()(B const & a) const { E r(a.simplify()); res(x, r); }
  template <typename A> void operator()(A const &) const { throw Skip(); } };
struct Eval { std::vector<double> const & p; template <typename A> void operator()(A const & a) const { volatile double d = a(p); (void)d; d = viennamath::eval(a, p); } 
  void operator()(F const &) const { throw Skip(); } void operator()(K const & k) const { volatile double d = k(p[0]); (void)d; } };
// what the user hands over owns memory of its own: an expression
struct Own { E keep; Own() : keep(U(V(0).clone(), new op_unary<op_exp<double>, I>())) {} };
struct OwnProc : public rt_latex_processor_interface<I>, Own { rt_latex_processor_interface<I> * clone() const { return new OwnProc(*this); }
  std::string process(I const *, bool, rt_latex_translator<I> const &) const { return ""; } };
struct OwnRule : public numerical_quadrature_interface<I>, Own { rt_gauss_quad_1<I> g; numerical_quadrature_interface<I> * clone() const { return new OwnRule(*this); }
  double eval(rt_interval<I> const & iv, E const & e, rt_variable<I> const & x) const { return g.eval(iv, e, x); } };
struct Tex { template <typename A> void operator()(A const & a) const { rt_latex_translator<I> t; t.customize(V(0), "\\xi"); t.add_processor(new OwnProc()); std::string s = t(a); rt_latex_translator<I> t2(t); s = t2(a); }
  void operator()(K const &) const { throw Skip(); } };
struct Integral { std::string x; T const & i; V const & v; void operator()(E const & e) const { res(x, viennamath::integral(i, e, v)); }
  template <typename A> void operator()(A const & a) const { E e(a); res(x, viennamath::integral(i, e, v)); } };
struct Sint { std::string x; long id; template <typename A> void operator()(A const & a) const { res(x, viennamath::integral(rt_symbolic_interval<I>(id), a)); } };

static long count_;
struct Collect : public rt_traversal_interface<I>, Own { void operator()(I const * e) const { ++count_; } bool step_into(I const *) const { return true; } };
struct Replace : public rt_manipulation_interface<I>, Own { // the first variable becomes a sum
  I * operator()(I const * e) const { if (!modifies(e)) return e->clone(); return new B(e->clone(), new OPlus(), new K(1.0)); }
  bool modifies(I const * e) const { V const * v = dynamic_cast<V const *>(e); return v != NULL && v->id() == 0; } };
struct Boom {};
struct Thrower : public rt_traversal_interface<I>, Own { void operator()(I const * e) const { if (dynamic_cast<V const *>(e)) throw Boom(); } bool step_into(I const *) const { return true; } };

template <int d> void coord(std::string const & x, E const & e) { cartesian<d> cs; res(x, apply_coordinate_system(cs, e)); }

static bool run(Reader & r)
{
  std::string c = r.tok();
  if (c == "set")
  {
    std::string x = r.tok(); int j = ix(x);
    switch (x[0])
    {
      case 'e': { E t(r.tree()); S.e[j].make(t); } break;
      case 'q': case 'i': { E a(r.tree()), b(r.tree()); if (x[0] == 'q') { Q t(a, b); S.q[j].make(t); } else { T t(a, b); S.i[j].make(t); } } break;
      default:
      {
        E t(r.tree());
#define SET(ch, m, TY) case ch: S.m[j].make(dynamic_cast<TY const &>(*t.get())); break;
        switch (x[0]) { SET('u', u, U) SET('b', b, B) SET('v', v, V) SET('c', c, K) SET('f', f, F) SET('w', w, W) default: throw Skip(); }
        t = E();
      }
    }
  }
  else if (c == "duo")            // a value, then another one assigned to it
  {
    std::string x = r.tok(); int j = ix(x); long k = r.integer();
    switch (x[0])
    {
      case 'e':
      {
        E t(r.tree()); S.e[j].make(t); E v(r.tree());
        I const * n = v.get();
#define TYPED(TY) if (TY const * q = dynamic_cast<TY const *>(n)) { *S.e[j].p = *q; return true; }
        if (k) { TYPED(U) TYPED(B) TYPED(V) TYPED(K) TYPED(F) TYPED(W) }
        *S.e[j].p = v;
      } break;
      case 'q': case 'i':
      {
        E a(r.tree()), b(r.tree()); if (x[0] == 'q') { Q t(a, b); S.q[j].make(t); } else { T t(a, b); S.i[j].make(t); }
        E a2(r.tree()), b2(r.tree()); if (x[0] == 'q') *S.q[j].p = Q(a2, b2); else *S.i[j].p = T(a2, b2);
      } break;
      default:
      {
        E t(r.tree()), v(r.tree());
#define DUO(ch, m, TY) case ch: S.m[j].make(dynamic_cast<TY const &>(*t.get())); *S.m[j].p = dynamic_cast<TY const &>(*v.get()); break;
        switch (x[0]) { DUO('u', u, U) DUO('b', b, B) DUO('v', v, V) DUO('c', c, K) DUO('f', f, F) DUO('w', w, W) default: throw Skip(); }
      }
    }
  }
  else if (c == "clr")
  {
    std::string x = r.tok(); int j = ix(x);
#define CLR(ch, m) case ch: S.m[j].clear(); break;
    switch (x[0]) { KINDS(CLR) default: throw Skip(); }
  }
  else if (c == "cp" || c == "cc")
  {
    std::string x = r.tok(), y = r.tok(); int j = ix(x), k = ix(y);
#define SAMEK(ch, m, TY) if (x[0] == ch && y[0] == ch) { if (!S.m[k].p) throw Skip(); if (c == "cc" || !S.m[j].p) { std::unique_ptr<TY> t(new TY(*S.m[k].p)); S.m[j].make(*t); } else *S.m[j].p = *S.m[k].p; return true; }
    SAMEK('e', e, E) SAMEK('u', u, U) SAMEK('b', b, B) SAMEK('v', v, V) SAMEK('c', c, K) SAMEK('f', f, F) SAMEK('w', w, W) SAMEK('q', q, Q) SAMEK('i', i, T)
    if (y[0] == 'w') { if (!S.w[k].p) throw Skip(); if (c == "cc") { Make m = {x}; m(*S.w[k].p); } else into(x, *S.w[k].p); return true; }
    if (c == "cc") { Make m = {x}; with(y, m); } else { Copy m = {x}; with(y, m); }
  }
  else if (c == "num") { std::string x = r.tok(); double d = r.real(); into(x, d); }
  else if (c == "ct")
  {
    std::string x = r.tok(); long k = r.integer(); ct_constant<3> three; ct_variable<0> X; ct_variable<1> Y; 
    if (k == 0) into(x, three); else if (k == 1) into(x, Y); else if (k == 2) into(x, X + Y); else if (k == 3) into(x, (X - Y) * three); else into(x, X / (Y + three));
  }
  else if (c == "op") { Op1 f; f.q.x = r.tok(); f.q.o = r.tok(); std::string y = r.tok(); f.z = r.tok(); with(y, f); }
  else if (c == "opn" || c == "nop") { OpNum f; f.left = c == "nop"; f.q.x = r.tok(); f.q.o = r.tok(); std::string y = r.tok(); f.d = r.real(); with(y, f); }
  else if (c == "fn") { Fun f; f.x = r.tok(); f.f = r.tok(); with(r.tok(), f); }
  else if (c == "child") { std::string x = r.tok(), y = r.tok(); int k = r.integer(); from_node(x, child(node(y), k)); }
  else if (c == "diff")
  {
    std::string x = r.tok(), y = r.tok(), z = r.tok();
    if (z[0] == 'v') { if (!S.v[ix(z)].p) throw Skip(); DiffV f = {x, *S.v[ix(z)].p}; with(y, f); }
    else { if (!S.f[ix(z)].p) throw Skip(); DiffF f = {x, *S.f[ix(z)].p}; with(y, f); }
  }
  else if (c == "simp") { Simp f; f.x = r.tok(); with(r.tok(), f); }
  else if (c == "isimp") { std::string x = r.tok(); if (!S.e[ix(x)].p) throw Skip(); inplace_simplify(*S.e[ix(x)].p); }
  else if (c == "subst")
  {
    std::string x = r.tok(), a = r.tok(), b = r.tok(), y = r.tok();
    if (!S.e[ix(a)].p || !S.e[ix(b)].p || !S.e[ix(y)].p) throw Skip();
    res(x, viennamath::substitute(*S.e[ix(a)].p, *S.e[ix(b)].p, *S.e[ix(y)].p));
  }
  else if (c == "subv")
  {
    std::string x = r.tok(), a = r.tok(), b = r.tok(), y = r.tok(); int j = ix(a);
    if (!S.e[ix(b)].p || !S.e[ix(y)].p) throw Skip();
    E const & p = *S.e[ix(b)].p; E const & h = *S.e[ix(y)].p;
#define SUBV(ch, m) case ch: if (!S.m[j].p) throw Skip(); res(x, viennamath::substitute(*S.m[j].p, p, h)); break;
    switch (a[0]) { SUBV('v', v) SUBV('f', f) SUBV('u', u) SUBV('b', b) default: throw Skip(); }
  }
  else if (c == "subd")
  {
    std::string x = r.tok(), a = r.tok(); double d = r.real(); std::string y = r.tok(); int j = ix(a);
    if (!S.e[ix(y)].p) throw Skip();
#define SUBD(ch, m) case ch: if (!S.m[j].p) throw Skip(); res(x, viennamath::substitute(*S.m[j].p, d, *S.e[ix(y)].p)); break;
    switch (a[0]) { SUBD('v', v) SUBD('f', f) default: throw Skip(); }
  }
  else if (c == "subl")
  {
    std::string x = r.tok(), a = r.tok(), b = r.tok(), a2 = r.tok(), b2 = r.tok(), y = r.tok(); std::vector<E> ss, rr;
    if (!S.e[ix(a)].p || !S.e[ix(b)].p || !S.e[ix(a2)].p || !S.e[ix(b2)].p || !S.e[ix(y)].p) throw Skip();
    ss.push_back(*S.e[ix(a)].p); ss.push_back(*S.e[ix(a2)].p); rr.push_back(*S.e[ix(b)].p); rr.push_back(*S.e[ix(b2)].p);
    res(x, viennamath::substitute(ss, rr, *S.e[ix(y)].p));
  }
  else if (c == "raws")
  {
    std::string x = r.tok(); I const * a = node(r.tok()); I const * b = node(r.tok()); I const * h = node(r.tok());
    if (!a || !b || !h) throw Skip();
    E t(h->substitute(a, b)); res(x, t);
  }
  else if (c == "rdiff")
  {
    std::string x = r.tok(); I const * a = node(r.tok()); I const * d = node(r.tok());
    if (!a || !d) throw Skip();
    E t(a->diff(d)); res(x, t);
  }
  else if (c == "coordq")
  {
    std::string x = r.tok(); int d = r.integer(); std::string y = r.tok();
    if (!S.q[ix(y)].p || !S.q[ix(x)].p) throw Skip();
    Q const & q = *S.q[ix(y)].p;
    *S.q[ix(x)].p = d == 1 ? apply_coordinate_system(cartesian<1>(), q) : d == 2 ? apply_coordinate_system(cartesian<2>(), q) : apply_coordinate_system(cartesian<3>(), q);
  }
  else if (c == "subint")
  {
    std::string x = r.tok(); long id = r.integer(); std::string i = r.tok(), v = r.tok(), y = r.tok();
    if (!S.i[ix(i)].p || !S.v[ix(v)].p || !S.e[ix(y)].p) throw Skip();
    res(x, viennamath::substitute(rt_symbolic_interval<I>(id), std::make_pair(*S.i[ix(i)].p, *S.v[ix(v)].p), *S.e[ix(y)].p));
  }
  else if (c == "get")
  {
    std::string x = r.tok(), y = r.tok(); int k = r.integer();
    if (y[0] == 'q') { if (!S.q[ix(y)].p) throw Skip(); into(x, k ? S.q[ix(y)].p->rhs() : S.q[ix(y)].p->lhs()); }
    else if (y[0] == 'i') { if (!S.i[ix(y)].p) throw Skip(); into(x, k ? S.i[ix(y)].p->upper() : S.i[ix(y)].p->lower()); }
    else { if (!S.w[ix(y)].p) throw Skip(); into(x, (*S.w[ix(y)].p)[k]); }
  }
  else if (c == "put") { std::string y = r.tok(); int k = r.integer(); std::string x = r.tok(); if (!S.w[ix(y)].p || !S.e[ix(x)].p) throw Skip(); (*S.w[ix(y)].p)[k] = *S.e[ix(x)].p; }
  else if (c == "push") { std::string y = r.tok(), x = r.tok(); if (!S.w[ix(y)].p || !S.e[ix(x)].p) throw Skip(); S.w[ix(y)].p->push_back(*S.e[ix(x)].p); }
  else if (c == "pop") { std::string y = r.tok(); if (!S.w[ix(y)].p) throw Skip(); S.w[ix(y)].p->pop_back(); }
  else if (c == "erase") { std::string y = r.tok(); int k = r.integer(); if (!S.w[ix(y)].p) throw Skip(); S.w[ix(y)].p->erase(S.w[ix(y)].p->begin() + k); }
  else if (c == "vin") { std::string y = r.tok(); int k = r.integer(); if (!S.w[ix(y)].p) throw Skip(); (*S.w[ix(y)].p)[k] = *S.w[ix(y)].p; }
  else if (c == "vop")
  {
    std::string x = r.tok(), o = r.tok(), y = r.tok(), z = r.tok();
    if (!S.w[ix(y)].p) throw Skip(); W const & a = *S.w[ix(y)].p;
    if (z[0] == 'e') { if (!S.e[ix(z)].p || !S.w[ix(x)].p) throw Skip(); *S.w[ix(x)].p = (o == "*" ? a * *S.e[ix(z)].p : *S.e[ix(z)].p * a); }
    else
    {
      if (!S.w[ix(z)].p) throw Skip(); W const & b = *S.w[ix(z)].p;
      if (o == "*") { res(x, a * b); }
      else { if (!S.w[ix(x)].p) throw Skip(); if (o == "+") *S.w[ix(x)].p = a + b; else *S.w[ix(x)].p = a - b; }
    }
  }
  else if (c == "mk") { Pair1 f; f.x = r.tok(); std::string y = r.tok(); f.z = r.tok(); with(y, f); }
  else if (c == "int") { std::string x = r.tok(), i = r.tok(), y = r.tok(), v = r.tok(); if (!S.i[ix(i)].p || !S.v[ix(v)].p) throw Skip(); Integral f = {x, *S.i[ix(i)].p, *S.v[ix(v)].p}; with(y, f); }
  else if (c == "sint") { Sint f; f.x = r.tok(); f.id = r.integer(); with(r.tok(), f); }
  else if (c == "ptr") { std::string x = r.tok(), y = r.tok(); I const * n = node(y); if (!n || !S.e[ix(x)].p) throw Skip(); *S.e[ix(x)].p = n->clone(); }
  else if (c == "swap") { std::string x = r.tok(), y = r.tok(); int j = ix(x), k = ix(y);
#define SWP(ch, m) case ch: if (!S.m[j].p || !S.m[k].p) throw Skip(); { std::swap(*S.m[j].p, *S.m[k].p); } break;
    switch (x[0]) { KINDS(SWP) default: throw Skip(); } }
  // the rest does not modify anything, apart from the target named first
  else if (c == "mani") { std::string x = r.tok(), y = r.tok(); I const * n = node(y); if (!n) throw Skip(); rt_manipulation_wrapper<I> m(new Replace()); E t(n->recursive_manipulation(m)); res(x, t); }
  else if (c == "coord") { std::string x = r.tok(); int d = r.integer(); std::string y = r.tok(); if (!S.e[ix(y)].p) throw Skip(); if (d == 1) coord<1>(x, *S.e[ix(y)].p); else if (d == 2) coord<2>(x, *S.e[ix(y)].p); else coord<3>(x, *S.e[ix(y)].p); }
  else if (c == "show") { std::string y = r.tok(); int j = ix(y); std::ostringstream o;
#define SHW(ch, m) case ch: if (!S.m[j].p) throw Skip(); o << *S.m[j].p; break;
    switch (y[0]) { KINDS(SHW) default: throw Skip(); } }
  else if (c == "eval") { std::string y = r.tok(); std::vector<double> p(r.integer(), 2.0); for (std::size_t j = 1; j < p.size(); ++j) p[j] = 2 * j + 1; Eval f = {p}; evaluated(y, node(y), p); with(y, f); }
  else if (c == "probe") probe_ = true;
  else if (c == "equal") { I const * a = node(r.tok()); I const * b = node(r.tok()); if (!a || !b) throw Skip(); ans_.push_back(a->deep_equal(b)); ans_.push_back(b->deep_equal(a)); ans_.push_back(b->shallow_equal(a)); }
  else if (c == "ask") { I const * a = node(r.tok()); if (!a) throw Skip(); ans_.push_back(a->is_constant()); a->is_unary(); a->can_simplify(); std::string s = a->deep_str() + a->shallow_str(); a->unwrap(); }
  else if (c == "tex") { Tex f; with(r.tok(), f); }
  else if (c == "trav") { std::string y = r.tok(); int k = r.integer(); I const * n = node(y); if (!n) throw Skip(); if (k) { rt_traversal_wrapper<I> t(new Thrower()); n->recursive_traversal(t); } else { count_ = 0; { rt_traversal_wrapper<I> t(new Collect()); n->recursive_traversal(t); } ans_.push_back(count_); } }
  else if (c == "quad") { std::string y = r.tok(); int k = r.integer(); if (!S.e[ix(y)].p) throw Skip(); E const & e = *S.e[ix(y)].p;
    rt_numerical_quadrature<I> a(k == 1 ? static_cast<numerical_quadrature_interface<I> *>(new rt_gauss_quad_1<I>()) : new OwnRule()); rt_numerical_quadrature<I> b(a); if (k) b = a; if (k > 1) { rt_numerical_quadrature<I> d(new rt_gauss_quad_1<I>()); d = b; b = d; }
    if (k)
    { // the rule takes integrals between constants
      U const * u = dynamic_cast<U const *>(e.get()); typedef op_unary<op_rt_integral<I>, I> Int;
      Int const * o = u ? dynamic_cast<Int const *>(u->op()) : 0;
      if (!o || !o->op().interval().lower().get()->is_constant() || !o->op().interval().upper().get()->is_constant()) throw Skip();
      a(e); b(e);
    } else { T iv(E(K(0)), E(K(1))); V x(0); a(iv, e, x); b(iv, e, x); } }
  else { std::cerr << "driver: bad command " << c << "\n"; std::exit(92); }
  return true;
}

int main()
{
  std::string line; long n = 0;
  while (std::getline(std::cin, line))
  {
    ++n; alarm(30);
    std::vector<std::string> cmds; std::stringstream ss(line); std::string cmd;
    while (std::getline(ss, cmd, ';')) cmds.push_back(cmd);
    long left[2]; std::string out = "{\"n\":" + num(n) + ",\"op\":\"ws\",\"bad\":\"\",\"ev\":[";
    out.reserve(1 << 20);
    // twice: what is allocated once and for all is no leak
    for (int round = 0; round < 2; ++round)
    {
      for (std::size_t s = 0; s < cmds.size(); ++s)
      {
        std::string x;
        try { Reader rd(cmds[s]); run(rd); }
        catch (Skip const &) { x = "skip"; }
        catch (Boom const &) { x = "boom"; }
        catch (...) { x = exc_name(); }
        std::string ch = changes();
        if (probe_) probe(ch);
        if (round == 0)
        {
          out += std::string(s ? "," : "") + "{\"c\":" + quote(cmds[s]) + ",\"x\":" + quote(x) + ",\"ch\":" + ch + ",\"a\":[";
          for (std::size_t j = 0; j < ans_.size(); ++j) out += (j ? "," : "") + num(ans_[j]);
          out += "],\"l\":[" + look_ + "]}";
        }
        look_.clear(); ans_.clear();
      }
      S.clear(); old_.clear(); std::string().swap(line); std::string().swap(look_); std::vector<long>().swap(ans_); probe_ = false;
      if (round == 0) { out += "],\"left\":"; std::cout << out; std::string().swap(out); }
      left[round] = live_;
    }
    std::cout << left[1] - left[0] << "}" << std::endl;
  }
  return 0;
}
