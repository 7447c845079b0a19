// Reading expression trees from text and writing them as JSON, through the
// public accessors of the library only.
#ifndef VM_TREE_HPP
#define VM_TREE_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <deque>
#include <string>
#include <vector>
#include <iostream>
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"

namespace vmt
{
  using namespace viennamath;
  typedef default_interface_type I;

  typedef op_unary<op_id<double>, I>      OId;
  typedef op_unary<op_exp<double>, I>     OExp;
  typedef op_unary<op_sin<double>, I>     OSin;
  typedef op_unary<op_cos<double>, I>     OCos;
  typedef op_unary<op_tan<double>, I>     OTan;
  typedef op_unary<op_fabs<double>, I>    OFabs;
  typedef op_unary<op_sqrt<double>, I>    OSqrt;
  typedef op_unary<op_log<double>, I>     OLog;
  typedef op_unary<op_log10<double>, I>   OLog10;
  typedef op_unary<op_gradient<double>, I>      OGrad;
  typedef op_unary<op_divergence<double>, I>    ODiv;
  typedef op_unary<op_partial_deriv<double>, I> OPd;
  typedef op_unary<op_rt_integral<I>, I>            OInt;
  typedef op_unary<op_rt_symbolic_integral<I>, I>   OSint;
  typedef op_binary<op_plus<double>, I>   OPlus;
  typedef op_binary<op_minus<double>, I>  OMinus;
  typedef op_binary<op_mult<double>, I>   OMult;
  typedef op_binary<op_div<double>, I>    OBDiv;

  inline std::string hex(double d) { char b[64]; std::snprintf(b, sizeof b, "%a", d); return b; }
  inline std::string quote(std::string const & s)
  {
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size(); ++i)
    {
      unsigned char c = s[i];
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  inline std::string idn(viennamath::id_type i) { std::ostringstream s; s << (i < 4294967296UL ? i : i - 4294967296UL + 30000000); return s.str(); }
  template <typename T> std::string num(T x) { std::ostringstream s; s << x; return s.str(); }

  // ---- reading ----
  struct third_tag { static std::string str() { return "third"; } static viennamath::id_type tag_id() { return 3; } };

  struct Reader
  {
    std::istringstream in;
    std::deque<rt_expr<I> > own;              // the expressions read
    std::deque<rt_expr<I> > const * shared;   // expressions known by a number: @0, @1, ...
    explicit Reader(std::string const & s, std::deque<rt_expr<I> > const * sh = 0) : in(s), shared(sh) {}
    std::string tok() { std::string t; if (!(in >> t)) { std::cerr << "driver: out of tokens\n"; std::exit(90); } return t; }
    // identifiers from 30000000 stand for those from 2^32 (the checker's integers have 32 bits)
    viennamath::id_type ident() { long i = integer(); return i < 30000000 ? i : i - 30000000 + 4294967296L; }
    long integer() { return std::strtol(tok().c_str(), 0, 10); }
    double real() { return std::strtod(tok().c_str(), 0); }
    bool more() { in >> std::ws; return !in.eof(); }

    function_symbol fs(long id, long tag)
    {
      if (tag == 0) return function_symbol(id, unknown_tag<>());
      if (tag == 1) return function_symbol(id, test_tag<>());
      if (tag == 3) return function_symbol(id, third_tag());
      return function_symbol(id, id_type(tag));
    }

    // a new tree, built node by node without any overloaded operator
    I * tree()
    {
      std::string t = tok();
      if (t == "c")
      {
        std::string ty = tok();
        if (ty == "l") return new rt_constant<long>(integer());
        if (ty == "i") return new rt_constant<int>(static_cast<int>(integer()));
        if (ty == "g") return new rt_constant<float>(static_cast<float>(real()));
        return new rt_constant<double>(real());
      }
      if (t == "v") return new rt_variable<I>(ident());
      if (t == "f") { viennamath::id_type id = ident(); long tag = integer(); return fs(id, tag).clone(); }
      if (t == "b")
      {
        std::string o = tok();
        I * a = tree(); I * b = tree();
        if (o == "+") return new rt_binary_expr<I>(a, new OPlus(), b);
        if (o == "-") return new rt_binary_expr<I>(a, new OMinus(), b);
        if (o == "*") return new rt_binary_expr<I>(a, new OMult(), b);
        if (o == "/") return new rt_binary_expr<I>(a, new OBDiv(), b);
      }
      if (t == "u")
      {
        std::string o = tok();
        if (o == "pd") { viennamath::id_type id = ident(); return new rt_unary_expr<I>(tree(), new OPd(op_partial_deriv<double>(id))); }
        if (o == "int")
        {
          rt_expr<I> lo(tree()), hi(tree()); viennamath::id_type v = ident();
          return new rt_unary_expr<I>(tree(), new OInt(op_rt_integral<I>(rt_interval<I>(lo, hi), rt_variable<I>(v))));
        }
        if (o == "sint") { viennamath::id_type id = ident(); return new rt_unary_expr<I>(tree(), new OSint(op_rt_symbolic_integral<I>(rt_symbolic_interval<I>(id)))); }
        I * a = tree();
        if (o == "id") return new rt_unary_expr<I>(a, new OId());
        if (o == "exp") return new rt_unary_expr<I>(a, new OExp());
        if (o == "sin") return new rt_unary_expr<I>(a, new OSin());
        if (o == "cos") return new rt_unary_expr<I>(a, new OCos());
        if (o == "tan") return new rt_unary_expr<I>(a, new OTan());
        if (o == "fabs") return new rt_unary_expr<I>(a, new OFabs());
        if (o == "sqrt") return new rt_unary_expr<I>(a, new OSqrt());
        if (o == "log") return new rt_unary_expr<I>(a, new OLog());
        if (o == "log10") return new rt_unary_expr<I>(a, new OLog10());
        if (o == "grad") return new rt_unary_expr<I>(a, new OGrad());
        if (o == "div") return new rt_unary_expr<I>(a, new ODiv());
      }
      if (t == "w")
      {
        long n = integer();
        rt_vector_expr<I> * w = new rt_vector_expr<I>(n);
        for (long i = 0; i < n; ++i) (*w)[i] = tree();
        return w;
      }
      std::cerr << "driver: bad tree token " << t << "\n"; std::exit(91);
    }
    rt_expr<I> const & expr()
    {
      in >> std::ws;
      if (shared && in.peek() == '@') { std::string t = tok(); return shared->at(std::strtol(t.c_str() + 1, 0, 10)); }
      own.push_back(rt_expr<I>(tree())); return own.back();
    }
  };

  // ---- writing ----
  template <typename OP> bool is(op_interface<I> const * o) { return dynamic_cast<OP const *>(o) != NULL; }

  std::string dump(I const * e);
  inline std::string dump(rt_expr<I> const & e) { return dump(e.get()); }

  inline std::string dump_const(char const * ty, double d)
  { return std::string("{\"k\":\"c\",\"t\":\"") + ty + "\",\"h\":\"" + hex(d) + "\"}"; }

  inline std::string dump_un(std::string const & o, std::string const & p, std::string const & x, I const * a)
  { return "{\"k\":\"u\",\"o\":\"" + o + "\",\"p\":[" + p + "],\"x\":[" + x + "],\"a\":" + dump(a) + "}"; }

  inline std::string dump(I const * e)
  {
    if (e == NULL) return "{\"k\":\"n\"}";
    if (rt_constant<double> const * c = dynamic_cast<rt_constant<double> const *>(e)) return dump_const("d", static_cast<double>(*c));
    if (rt_constant<long> const * c = dynamic_cast<rt_constant<long> const *>(e)) return dump_const("l", static_cast<double>(static_cast<long>(*c)));
    if (rt_constant<int> const * c = dynamic_cast<rt_constant<int> const *>(e)) return dump_const("i", static_cast<double>(static_cast<int>(*c)));
    if (rt_constant<float> const * c = dynamic_cast<rt_constant<float> const *>(e)) return dump_const("g", static_cast<double>(static_cast<float>(*c)));
    if (rt_variable<I> const * v = dynamic_cast<rt_variable<I> const *>(e)) return "{\"k\":\"v\",\"i\":" + idn(v->id()) + "}";
    if (rt_function_symbol<I> const * f = dynamic_cast<rt_function_symbol<I> const *>(e))
      return "{\"k\":\"f\",\"i\":" + idn(f->id()) + ",\"g\":" + num(f->tag_id()) + "}";
    if (rt_binary_expr<I> const * b = dynamic_cast<rt_binary_expr<I> const *>(e))
    {
      op_interface<I> const * o = b->op();
      std::string s = is<OPlus>(o) ? "+" : is<OMinus>(o) ? "-" : is<OMult>(o) ? "*" : is<OBDiv>(o) ? "/" : o == NULL ? "none" : "?" + o->str();
      return "{\"k\":\"b\",\"o\":" + quote(s) + ",\"a\":" + dump(b->lhs()) + ",\"b\":" + dump(b->rhs()) + "}";
    }
    if (rt_unary_expr<I> const * u = dynamic_cast<rt_unary_expr<I> const *>(e))
    {
      op_interface<I> const * o = u->op();
      if (OPd const * q = dynamic_cast<OPd const *>(o)) return dump_un("pd", idn(q->op().id()), "", u->lhs());
      if (OSint const * q = dynamic_cast<OSint const *>(o)) return dump_un("sint", idn(q->op().interval().id()), "", u->lhs());
      if (OInt const * q = dynamic_cast<OInt const *>(o))
        return dump_un("int", idn(q->op().variable().id()),
                       dump(q->op().interval().lower()) + "," + dump(q->op().interval().upper()), u->lhs());
      std::string s = is<OId>(o) ? "id" : is<OExp>(o) ? "exp" : is<OSin>(o) ? "sin" : is<OCos>(o) ? "cos" : is<OTan>(o) ? "tan"
        : is<OFabs>(o) ? "fabs" : is<OSqrt>(o) ? "sqrt" : is<OLog>(o) ? "log" : is<OLog10>(o) ? "log10"
        : is<OGrad>(o) ? "grad" : is<ODiv>(o) ? "div" : o == NULL ? "none" : "?";
      return dump_un(s, "", "", u->lhs());
    }
    if (rt_vector_expr<I> const * w = dynamic_cast<rt_vector_expr<I> const *>(e))
    {
      std::string s = "{\"k\":\"w\",\"e\":[";
      for (std::size_t i = 0; i < w->size(); ++i) s += (i ? "," : "") + dump((*w)[i].get());
      return s + "]}";
    }
    return "{\"k\":\"?\"}";
  }

  // name of the exception in flight (call from a catch-all handler)
  inline std::string exc_name()
  {
    try { throw; }
    catch (variable_index_out_of_bounds_exception const &) { return "index"; }
    catch (expression_not_evaluable_exception const &) { return "not_evaluable"; }
    catch (expression_not_unwrappable_exception const &) { return "not_unwrappable"; }
    catch (expression_not_differentiable_exception const &) { return "not_differentiable"; }
    catch (analytic_integration_not_supported_exception const &) { return "analytic_integration"; }
    catch (symbolic_integral_evaluation_not_possible_exception const &) { return "symbolic_integral"; }
    catch (integration_without_integral_exception const &) { return "no_integral"; }
    catch (std::exception const & e) { return std::string("std:"); }
    catch (char const *) { return "text"; }
    catch (...) { return "other"; }
  }
}
#endif
