// What the stream operators write
#ifndef VM_PRINT_HPP
#define VM_PRINT_HPP
#include <cctype>
#include <sstream>
#include <string>
namespace pr {
inline std::string quote(std::string const & t)
{
  std::string r = "\"";
  for (std::size_t i = 0; i < t.size(); ++i) { if (t[i] == '"' || t[i] == '\\') r += '\\'; r += t[i]; }
  return r + "\"";
}
// the lexical elements of a text: words, numbers, single other characters
inline std::string tokens(std::string const & t)
{
  std::string r = "[", w;
  for (std::size_t i = 0; i <= t.size(); ++i)
  {
    bool part = i < t.size() && (std::isalnum((unsigned char)t[i]) || t[i] == '_' || t[i] == '.');
    if (part) { w += t[i]; continue; }
    if (w.size()) { r += (r.size() > 1 ? "," : "") + quote(w); w.clear(); }
    if (i < t.size() && !std::isspace((unsigned char)t[i])) r += (r.size() > 1 ? "," : "") + quote(std::string(1, t[i]));
  }
  return r + "]";
}
template <typename T> std::string shown(T const & x) { std::ostringstream o; o << x; return o.str(); }
template <typename T> void printed(std::ostream & out, const char * k, T const & x)
{
  std::ostringstream o; o.precision(9); o << std::hex << x; o << 255;
  T c(x);
  out << ",\"" << k << "\":{\"s\":" << quote(shown(x)) << ",\"t\":" << tokens(shown(x)) << ",\"c\":" << quote(shown(c)) << ",\"z\":" << quote(shown(x))
      << ",\"st\":" << (o.precision() == 9 && o.str().substr(o.str().size() - 2) == "ff") << "}";
}
}
#endif
