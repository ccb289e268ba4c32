#pragma once
#include <charconv>
#include <cctype>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <string>
#include <type_traits>
#include <folly/Range.h>
namespace folly {
class ConversionError : public std::range_error {
 public:
  using std::range_error::range_error;
};

namespace detail {
template <class T, class Enable = void>
struct Append {
  static void go(std::string* s, const T& v) { std::ostringstream o; o << v; s->append(o.str()); }
};
template <> struct Append<std::string> { static void go(std::string* s, const std::string& v) { s->append(v); } };
template <> struct Append<StringPiece> { static void go(std::string* s, const StringPiece& v) { s->append(v.data(), v.size()); } };
template <> struct Append<const char*> { static void go(std::string* s, const char* v) { if (v) s->append(v); } };
template <> struct Append<char*> { static void go(std::string* s, const char* v) { if (v) s->append(v); } };
template <> struct Append<char> { static void go(std::string* s, char v) { s->push_back(v); } };
template <> struct Append<bool> { static void go(std::string* s, bool v) { s->push_back(v ? '1' : '0'); } };
template <class T>
struct Append<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>> {
  static void go(std::string* s, T v) { s->append(std::to_string(v)); }
};
template <class T>
struct Append<T, std::enable_if_t<std::is_enum<T>::value>> {
  static void go(std::string* s, T v) { s->append(std::to_string(static_cast<long long>(v))); }
};
template <class T>
struct Append<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static void go(std::string* s, T v) { char b[64]; auto r = std::to_chars(b, b + sizeof b, v); s->append(b, r.ptr); }
};

inline StringPiece trim(StringPiece p) {
  const char* b = p.begin(); const char* e = p.end();
  while (b < e && std::isspace((unsigned char)*b)) ++b;
  while (b < e && std::isspace((unsigned char)e[-1])) --e;
  return StringPiece(b, e);
}

template <class T, class Enable = void> struct Parse;
template <class T>
struct Parse<T, std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>> {
  static T go(StringPiece in) {
    StringPiece p = trim(in);
    if (p.empty()) throw ConversionError("Empty input string");
    const char* b = p.begin();
    if (*b == '+' && p.size() > 1 && b[1] != '-') ++b;
    T v{};
    auto r = std::from_chars(b, p.end(), v);
    if (r.ec == std::errc::result_out_of_range) throw ConversionError("Overflow during conversion");
    if (r.ec != std::errc() || r.ptr != p.end()) throw ConversionError("Invalid conversion: \"" + p.str() + "\"");
    return v;
  }
};
template <>
struct Parse<bool> {
  static bool go(StringPiece in) {
    StringPiece p = trim(in);
    std::string s;
    for (char c : p.str()) s.push_back((char)std::tolower((unsigned char)c));
    if (s.empty()) throw ConversionError("Empty input string");
    if (s == "y" || s == "yes" || s == "t" || s == "true" || s == "on") return true;
    if (s == "n" || s == "no" || s == "f" || s == "false" || s == "off") return false;
    if (s.find_first_not_of("01") == std::string::npos) {
      size_t nz = s.find_first_not_of('0');
      if (nz == std::string::npos) return false;
      if (nz == s.size() - 1) return true;
      throw ConversionError("Integer overflow when parsing bool (must be 0 or 1)");
    }
    throw ConversionError("Invalid value for bool");
  }
};
template <> struct Parse<std::string> { static std::string go(StringPiece p) { return p.str(); } };
template <class To, class From>
struct Conv1 {
  static To go(const From& f) {
    if constexpr (std::is_same<To, From>::value) { return f; }
    else if constexpr (std::is_same<To, std::string>::value) { std::string s; Append<std::decay_t<From>>::go(&s, f); return s; }
    else if constexpr (std::is_convertible<From, StringPiece>::value) { return Parse<To>::go(StringPiece(f)); }
    else {
      To t = static_cast<To>(f);
      if constexpr (std::is_integral<To>::value && std::is_integral<From>::value) {
        if (static_cast<From>(t) != f || ((t < To{}) != (f < From{}))) throw ConversionError("Overflow during arithmetic conversion");
      }
      return t;
    }
  }
};
}  // namespace detail

template <class... Ts>
void toAppend(const Ts&... ts);
namespace detail {
template <class S> void appendAll(S*) {}
template <class T> using AD = Append<std::conditional_t<std::is_array<T>::value, const char*, std::decay_t<T>>>;
template <class T, class... R>
struct AppendLast;
template <class T, class U, class... R>
struct AppendLast<T, U, R...> { };
template <class... Ts, std::size_t... I>
void appendTuple(std::index_sequence<I...>, const std::tuple<const Ts&...>& t) {
  std::string* s = std::get<sizeof...(Ts) - 1>(t);
  (AD<std::tuple_element_t<I, std::tuple<Ts...>>>::go(s, std::get<I>(t)), ...);
}
}
template <class... Ts>
void toAppend(const Ts&... ts) {
  detail::appendTuple<Ts...>(std::make_index_sequence<sizeof...(Ts) - 1>(), std::tuple<const Ts&...>(ts...));
}
template <class To, class From>
To to(const From& f) {
  if constexpr (std::is_array<From>::value) return detail::Conv1<To, const char*>::go(f);
  else return detail::Conv1<To, std::decay_t<From>>::go(f);
}
template <class To, class A, class B, class... R>
To to(const A& a, const B& b, const R&... r) {
  To s;
  toAppend(a, b, r..., &s);
  return s;
}
}  // namespace folly
