// a op b and f(a) for all kinds of run-time operands: the overload is chosen by
// the kinds named in the line, the contents are read from it.
#include "vm_tree.hpp"
#include <unistd.h>
using namespace vmt;
typedef rt_expr<I> E;
template <typename T> struct native { enum { value = 0 }; };
template <> struct native<double> { enum { value = 1 }; };
template <> struct native<int> { enum { value = 1 }; };
template <> struct native<long> { enum { value = 1 }; };
template <> struct native<float> { enum { value = 1 }; };

static std::string any(double x) { return dump_const("d", x); }
static std::string any(E const & x) { return dump(x); }
template <typename T> std::string any(T const & x) { return dump(static_cast<I const *>(&x)); }
static std::string any(int x) { return any(double(x)); }
static std::string any(float x) { return any(double(x)); }
static std::string any(long x) { return any(double(x)); }

struct Out
{
  std::string r;
  void tree(char const * w, std::string const & t) { r += (r.empty() ? "" : ",") + std::string("{\"w\":\"") + w + "\",\"x\":\"\",\"t\":" + t + "}"; }
};

static double number(I const * e) { return e->unwrap(); }
// calls fn with an object of the kind
template <typename Fn> void with(std::string const & k, I const * n, Fn const & fn)
{
  if (k == "d") { double x = number(n); fn(x); }
  else if (k == "i") { int x = static_cast<int>(number(n)); fn(x); }
  else if (k == "l") { long x = static_cast<long>(number(n)); fn(x); }
  else if (k == "cd") { rt_constant<double> x(number(n)); fn(x); }
  else if (k == "cl") { rt_constant<long> x(static_cast<long>(number(n))); fn(x); }
  else if (k == "ci") { rt_constant<int> x(static_cast<int>(number(n))); fn(x); }
  else if (k == "s") { float x = static_cast<float>(number(n)); fn(x); }
  else if (k == "cf") { rt_constant<float> x(static_cast<float>(number(n))); fn(x); }
  else if (k == "v") fn(dynamic_cast<rt_variable<I> const &>(*n));
  else if (k == "f") fn(dynamic_cast<rt_function_symbol<I> const &>(*n));
  else if (k == "u") fn(dynamic_cast<rt_unary_expr<I> const &>(*n));
  else if (k == "b") fn(dynamic_cast<rt_binary_expr<I> const &>(*n));
  else if (k == "e") { E x(n->clone()); fn(x); }
  else { std::cerr << "driver: bad kind " << k << "\n"; std::exit(91); }
}
template <typename R> void result(Out & o, R const & r)
{
  o.tree("result", any(r)); o.tree("copy", any(R(r))); o.tree("wrapped", any(E(r)));
}
template <typename A, typename B, bool both> struct Do
{ static void go(Out & o, std::string const & op, A const & a, B const & b)
  { if (op == "+") result(o, a + b); else if (op == "-") result(o, a - b); else if (op == "*") result(o, a * b); else result(o, a / b); } };
template <typename A, typename B> struct Do<A, B, true> { static void go(Out &, std::string const &, A const &, B const &) { std::exit(91); } };
template <typename A> struct Right { Out & o; std::string op; A const & a;
  template <typename B> void operator()(B const & b) const { Do<A, B, native<A>::value && native<B>::value>::go(o, op, a, b); o.tree("operand", any(a)); o.tree("operand", any(b)); } };
struct Left { Out & o; std::string op, kb; I const * nb;
  template <typename A> void operator()(A const & a) const { Right<A> r = {o, op, a}; with(kb, nb, r); } };

int main()
{
  std::string line; long n = 0;
  while (std::getline(std::cin, line))
  {
    ++n; alarm(10);
    Reader rd(line); std::string c = rd.tok(), op = rd.tok(); Out o;
    try
    {
      std::string ka = rd.tok(); E a(rd.tree()); std::string kb = rd.tok(); E b(rd.tree());
      Left l = {o, op, kb, b.get()}; with(ka, a.get(), l);
      std::cout << "{\"n\":" << n << ",\"op\":\"op\",\"bad\":\"\",\"o\":" << quote(op) << ",\"a\":[" << dump(a) << "," << dump(b) << "],\"r\":[" << o.r << "],\"y\":[]}" << std::endl;
    }
    catch (...) { std::cout << "{\"n\":" << n << ",\"op\":\"op\",\"bad\":" << quote("exception " + exc_name()) << "}" << std::endl; }
  }
  return 0;
}
