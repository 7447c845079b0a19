// Compile-time expressions: types -> trees (text as in the traces)
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include "vm_tree.hpp"
#include "print.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/integrate.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"

namespace ctx {
using namespace viennamath;
typedef default_numeric_type Num;
typedef default_interface_type I;
inline std::string hex(double d) { char b[64]; std::snprintf(b, sizeof b, "%a", d); return b; }
template <typename T> struct D;
template <long v> struct D<ct_constant<v> > {
  static std::string s() { return "{\"k\":\"c\",\"t\":\"l\",\"h\":\"" + hex(double(v)) + "\",\"n\":\"" + std::to_string(v) + "\"}"; } };
template <id_type i> struct D<ct_variable<i> > { static std::string s() { return "{\"k\":\"v\",\"i\":" + std::to_string(i) + "}"; } };
template <id_type i> struct D<ct_function_symbol<unknown_tag<i> > > { static std::string s() { return "{\"k\":\"f\",\"i\":" + std::to_string(i) + ",\"g\":0}"; } };
template <id_type i> struct D<ct_function_symbol<test_tag<i> > > { static std::string s() { return "{\"k\":\"f\",\"i\":" + std::to_string(i) + ",\"g\":1}"; } };
template <typename L, typename O, typename R> struct D<ct_binary_expr<L, O, R> > {
  static std::string s() { return "{\"k\":\"b\",\"o\":\"" + O::str() + "\",\"a\":" + D<L>::s() + ",\"b\":" + D<R>::s() + "}"; } };
template <typename L, typename O> struct D<ct_unary_expr<L, O> > {
  static std::string s() { return "{\"k\":\"u\",\"o\":\"" + O().str() + "\",\"p\":[],\"x\":[],\"a\":" + D<L>::s() + "}"; } };
template <typename T> std::string dump(T const &) { return D<T>::s(); }
template <typename T> std::string dumpt() { return D<T>::s(); }

struct Out {
  std::string s; bool first;
  Out(const char * op, int n) : first(true) { s = std::string("{\"n\":") + std::to_string(n) + ",\"op\":\"" + op + "\",\"r\":["; }
  void tree(const char * w, std::string const & t) { if (!first) s += ","; first = false; s += std::string("{\"w\":\"") + w + "\",\"x\":\"\",\"t\":" + t + "}"; }
  std::string more;          // further fields
  std::string ys; bool yf;
  void num(const char * w, double d) { ys += (ys.empty() ? "" : ",") + std::string("{\"w\":\"") + w + "\",\"x\":\"\",\"h\":\"" + hex(d) + "\"}"; }
  void exc(const char * w, std::string const & x) { ys += (ys.empty() ? "" : ",") + std::string("{\"w\":\"") + w + "\",\"x\":\"" + x + "\",\"h\":\"\"}"; }
  void end() { std::printf("%s],\"y\":[%s],\"more\":{%s}}\n", s.c_str(), ys.c_str(), more.c_str()); std::fflush(stdout); }
};
template <typename F> void num(Out & o, const char * w, F f) {
  try { o.num(w, f()); }
  catch (variable_index_out_of_bounds_exception const & x)
  { // the exception names the index: the first number in its text
    std::string t = static_cast<std::exception const &>(x).what(); std::size_t a = t.find_first_of("0123456789"), b = t.find_first_not_of("0123456789", a);
    o.exc(w, a == std::string::npos ? "index" : "index:" + t.substr(a, b == std::string::npos ? b : b - a)); }
  catch (std::exception const & e) { o.exc(w, "text"); }
  catch (...) { o.exc(w, "other"); }
}

// a point made by a function that has returned
__attribute__((noinline)) inline ct_vector_1<double> kept(double a) { double b = a; return make_vector(b); }
__attribute__((noinline)) inline ct_vector_2<double, double> kept(double a, double b) { double c = a, d = b; return make_vector(c, d); }
__attribute__((noinline)) inline ct_vector_3<double, double, double> kept(double a, double b, double c) { double d = a, e = b, f = c; return make_vector(d, e, f); }
__attribute__((noinline)) inline void clobber() { volatile double w[128]; for (int i = 0; i < 128; ++i) w[i] = 77.25 + i; }

// printing
template <typename T> void print(Out & o, const char * k, T const & x) { std::ostringstream q; pr::printed(q, k, x); o.more += o.more.empty() ? q.str().substr(1) : q.str(); }
template <typename T> void printp(std::string & l, T const & x) { l += (l.empty() ? "" : ",") + pr::tokens(pr::shown(x)); }
// an operand of the run time, built node by node
inline vmt::I * as(char const * text) { vmt::Reader r(text); return r.tree(); }
// a compile-time expression may hold run time constants: through the object
template <typename T> std::string dv(T const &) { return D<T>::s(); }
inline std::string dv(rt_constant<double> const & c) { return vmt::dump(&c); }
inline std::string dv(rt_constant<long> const & c) { return vmt::dump(&c); }
inline std::string dv(rt_constant<int> const & c) { return vmt::dump(&c); }
inline std::string dv(rt_constant<float> const & c) { return vmt::dump(&c); }
template <typename L, typename O, typename R> std::string dv(ct_binary_expr<L, O, R> const & x)
{ return "{\"k\":\"b\",\"o\":\"" + O::str() + "\",\"a\":" + dv(x.lhs()) + ",\"b\":" + dv(x.rhs()) + "}"; }
// any object a formula may be made of or result in
template <typename T, bool ct> struct Any { static std::string s(T const & x) { return dv(x); } };
template <typename T> struct Any<T, false> { static std::string s(T const & x) { return vmt::dump(&x); } };
template <typename T> std::string any(T const & x) { return Any<T, result_of::is_compiletime<T>::value>::s(x); }
inline std::string any(rt_expr<> const & x) { return vmt::dump(x.get()); }
inline std::string any(double x) { return vmt::dump_const("d", x); }
inline std::string any(int x) { return any(double(x)); }
inline std::string any(float x) { return any(double(x)); }
inline std::string any(long x) { return any(double(x)); }
// the parts of an equation or interval
template <typename T> std::string part(rt_equation<T> const & q, int j) { return any(j ? q.rhs() : q.lhs()); }
template <typename T> std::string part(rt_interval<T> const & q, int j) { return any(j ? q.upper() : q.lower()); }
template <typename L, typename R> std::string part(ct_equation<L, R> const &, int j) { return j ? D<R>::s() : D<L>::s(); }
template <typename L, typename R> std::string part(ct_interval<L, R> const &, int j) { return j ? D<R>::s() : D<L>::s(); }
template <typename Q> void parts(Out & o, Q const & q) {
  o.tree("0 built", part(q, 0)); o.tree("1 built", part(q, 1));
  Q c(q); o.tree("0 copied", part(c, 0)); o.tree("1 copied", part(c, 1));
  Q d; d = q; o.tree("0 assigned", part(d, 0)); o.tree("1 assigned", part(d, 1));
  d = d; o.tree("0 self-assigned", part(d, 0)); o.tree("1 self-assigned", part(d, 1));
  o.tree("0 original", part(q, 0)); o.tree("1 original", part(q, 1));
}
}
