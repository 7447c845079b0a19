// Every way of evaluating an expression, at every node of it (needs vmt, I, E)
static std::string exc()
{
  std::string n = exc_name();
  if (n == "index")
  { // the exception names the index: read the first number in its text
    try { throw; } catch (std::exception const & e)
    { std::string s = e.what(); std::size_t p = s.find_first_of("0123456789"); n += ":" + (p == std::string::npos ? std::string("?") : vmt::idn(std::strtoul(s.c_str() + p, NULL, 10))); }
  }
  return n;
}
template <typename T> struct Box { typedef T value_type; std::vector<T> d; std::size_t size() const { return d.size(); } T operator[](std::size_t i) const { return d[i]; } };

typedef std::vector<std::string> Strs;
static void put(Strs & y, std::string const & s) { for (std::size_t i = 0; i < y.size(); ++i) if (y[i] == s) return; y.push_back(s); }
static std::string strs(Strs const & y) { std::string s = "["; for (std::size_t i = 0; i < y.size(); ++i) s += (i ? "," : "") + quote(y[i]); return s + "]"; }
static std::string val(double d) { return d != d ? std::string("nan") : hex(d); }
#define VAL(Y, EXPR) do { std::string r_; try { r_ = val(EXPR); } catch (...) { r_ = "!" + exc(); } put(Y, r_); } while (0)

// every way of evaluating an object of class T at the point
template <typename T> void eval_ways(Strs & y, T const & t, std::vector<double> const & p)
{
  Box<double> b; b.d = p;
  VAL(y, t(p)); VAL(y, t(b)); VAL(y, viennamath::eval(t, p));
  if (p.size() == 1)
  {
    VAL(y, t(p[0])); rt_constant<double> c(p[0]); VAL(y, t(c));
    VAL(y, viennamath::eval(t, p[0]));
    VAL(y, t(make_vector(p[0])));
    if (p[0] == 0) VAL(y, t(ct_constant<0>()));
    if (p[0] == 1) VAL(y, t(ct_constant<1>()));
    if (p[0] == 2) VAL(y, t(ct_constant<2>()));
    if (p[0] == -3) VAL(y, t(ct_constant<-3>()));
  }
  if (p.size() == 2) VAL(y, t(make_vector(p[0], p[1])));
  if (p.size() == 3) VAL(y, t(make_vector(p[0], p[1], p[2])));
}
static void eval_var(Strs & y, rt_variable<I> const & t, std::vector<double> const & p)
{
  Box<double> b; b.d = p;
  VAL(y, t(p)); VAL(y, t(b)); VAL(y, viennamath::eval(t, p)); VAL(y, t.eval(p));
  if (p.size() == 1)
  {
    if (t.id() == 0) { VAL(y, t(p[0])); VAL(y, viennamath::eval(t, p[0])); }
    VAL(y, t.eval(p[0]));
    rt_constant<double> c(p[0]); VAL(y, t(c));
    VAL(y, t(make_vector(p[0])));
    if (p[0] == 0) VAL(y, t(ct_constant<0>()));
    if (p[0] == 1) VAL(y, t(ct_constant<1>()));
    if (p[0] == 2) VAL(y, t(ct_constant<2>()));
    if (p[0] == -3) VAL(y, t(ct_constant<-3>()));
  }
  if (p.size() == 2) VAL(y, t(make_vector(p[0], p[1])));
  if (p.size() == 3) VAL(y, t(make_vector(p[0], p[1], p[2])));
}
static std::string dump_eval(I const * e, std::vector<double> const & p)
{
  Strs y;
  { E w(e->clone()); eval_ways(y, w, p); VAL(y, e->eval(p)); if (p.size() == 1) VAL(y, e->eval(p[0])); }
  std::string k = "";
  if (rt_binary_expr<I> const * b = dynamic_cast<rt_binary_expr<I> const *>(e))
  { eval_ways(y, *b, p); k = ",\"a\":" + dump_eval(b->lhs(), p) + ",\"b\":" + dump_eval(b->rhs(), p); }
  else if (rt_unary_expr<I> const * u = dynamic_cast<rt_unary_expr<I> const *>(e))
  { eval_ways(y, *u, p); k = ",\"a\":" + dump_eval(u->lhs(), p); }
  else if (rt_variable<I> const * v = dynamic_cast<rt_variable<I> const *>(e)) eval_var(y, *v, p);
  else if (rt_constant<double> const * c = dynamic_cast<rt_constant<double> const *>(e))
  { VAL(y, viennamath::eval(*c, p)); VAL(y, c->eval(p)); }
  std::string d = dump(e);   // {"k":..., ... } of the node; replace the operands by the annotated ones
  std::string head;
  if (dynamic_cast<rt_binary_expr<I> const *>(e)) head = d.substr(0, d.find(",\"a\":"));
  else if (rt_unary_expr<I> const * u = dynamic_cast<rt_unary_expr<I> const *>(e))
  { std::string t = ",\"a\":" + dump(u->lhs()) + "}"; head = d.substr(0, d.size() - t.size()); }
  else head = d.substr(0, d.size() - 1);
  return head + ",\"y\":" + strs(y) + k + "}";
}

