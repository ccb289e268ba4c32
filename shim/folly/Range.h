// Minimal stand-in for folly/Range.h (the sandbox has no folly). Behaviour
// follows folly's documented semantics for the operations wdt uses.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>

namespace folly {

template <class Iter>
class Range {
 public:
  using size_type = std::size_t;
  using iterator = Iter;
  using const_iterator = Iter;
  using value_type = typename std::remove_cv<
      typename std::remove_reference<decltype(*std::declval<Iter>())>::type>::type;
  using reference = decltype(*std::declval<Iter>());
  static constexpr size_type npos = std::string::npos;

  constexpr Range() : b_(), e_() {}
  Range(Iter start, Iter end) : b_(start), e_(end) {}
  Range(Iter start, size_type size) : b_(start), e_(start + size) {}
  Range(std::nullptr_t) = delete;

  template <class T = Iter,
            std::enable_if_t<std::is_same<T, const char*>::value, int> = 0>
  Range(const char* s) : b_(s), e_(s + std::strlen(s)) {}
  template <class T = Iter,
            std::enable_if_t<std::is_same<T, const char*>::value, int> = 0>
  Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}
  template <class T = Iter,
            std::enable_if_t<std::is_same<T, const char*>::value, int> = 0>
  Range(std::string_view s) : b_(s.data()), e_(s.data() + s.size()) {}
  template <class T = Iter,
            std::enable_if_t<std::is_same<T, const char*>::value, int> = 0>
  Range(const std::string& s, size_type from) {
    if (from > s.size()) throw std::out_of_range("index out of range");
    b_ = s.data() + from;
    e_ = s.data() + s.size();
  }
  template <class T = Iter,
            std::enable_if_t<std::is_same<T, const char*>::value, int> = 0>
  Range(const std::string& s, size_type from, size_type n) {
    if (from > s.size()) throw std::out_of_range("index out of range");
    b_ = s.data() + from;
    e_ = b_ + std::min(n, s.size() - from);
  }
  // mutable -> const, char <-> unsigned char
  template <class Other,
            std::enable_if_t<!std::is_same<Other, Iter>::value &&
                                 std::is_convertible<Other, Iter>::value,
                             int> = 0>
  Range(const Range<Other>& o) : b_(o.begin()), e_(o.end()) {}
  template <class Other,
            std::enable_if_t<!std::is_convertible<Other, Iter>::value &&
                                 std::is_pointer<Other>::value &&
                                 sizeof(typename std::remove_pointer<Other>::type) == 1,
                             int> = 0>
  explicit Range(const Range<Other>& o)
      : b_(reinterpret_cast<Iter>(o.begin())),
        e_(reinterpret_cast<Iter>(o.end())) {}

  void clear() { b_ = Iter(); e_ = Iter(); }
  void assign(Iter s, Iter e) { b_ = s; e_ = e; }
  void reset(Iter s, size_type n) { b_ = s; e_ = s + n; }
  constexpr size_type size() const { return size_type(e_ - b_); }
  constexpr bool empty() const { return b_ == e_; }
  constexpr Iter data() const { return b_; }
  constexpr Iter start() const { return b_; }
  constexpr Iter begin() const { return b_; }
  constexpr Iter end() const { return e_; }
  reference front() const { check(1); return *b_; }
  reference back() const { check(1); return *(e_ - 1); }
  reference operator[](size_type i) const { return b_[i]; }
  reference at(size_type i) const { check(i + 1); return b_[i]; }

  void advance(size_type n) { check(n); b_ += n; }
  void subtract(size_type n) { check(n); e_ -= n; }
  void uncheckedAdvance(size_type n) { b_ += n; }
  void pop_front() { check(1); ++b_; }
  void pop_back() { check(1); --e_; }
  Range subpiece(size_type first, size_type len = npos) const {
    check(first);
    return Range(b_ + first, std::min(len, size() - first));
  }

  std::string str() const { return std::string((const char*)b_, size()); }
  std::string toString() const { return str(); }
  explicit operator std::string() const { return str(); }
  operator std::string_view() const {
    return std::string_view((const char*)b_, size());
  }

  size_type find(value_type c, size_type from = 0) const {
    for (size_type i = from; i < size(); ++i)
      if (b_[i] == c) return i;
    return npos;
  }
  size_type rfind(value_type c) const {
    for (size_type i = size(); i > 0; --i)
      if (b_[i - 1] == c) return i - 1;
    return npos;
  }
  size_type find(const Range& o, size_type from = 0) const {
    if (o.size() > size()) return npos;
    for (size_type i = from; i + o.size() <= size(); ++i)
      if (std::equal(o.b_, o.e_, b_ + i)) return i;
    return npos;
  }
  bool contains(value_type c) const { return find(c) != npos; }
  bool startsWith(const Range& o) const {
    return size() >= o.size() && std::equal(o.b_, o.e_, b_);
  }
  bool endsWith(const Range& o) const {
    return size() >= o.size() && std::equal(o.b_, o.e_, e_ - o.size());
  }
  bool startsWith(value_type c) const { return !empty() && *b_ == c; }
  bool endsWith(value_type c) const { return !empty() && *(e_ - 1) == c; }
  bool removePrefix(const Range& o) {
    return startsWith(o) && (b_ += o.size(), true);
  }
  // Splits off everything before the first delimiter and steps over it.
  Range split_step(value_type delim) {
    size_type i = find(delim);
    Range res(b_, i == npos ? size() : i);
    b_ = (i == npos) ? e_ : b_ + i + 1;
    return res;
  }
  int compare(const Range& o) const {
    size_type n = std::min(size(), o.size());
    int r = n ? std::memcmp(b_, o.b_, n) : 0;
    if (r) return r;
    return size() < o.size() ? -1 : (size() > o.size() ? 1 : 0);
  }

 private:
  void check(size_type n) const {
    if (n > size()) throw std::out_of_range("index out of range");
  }
  Iter b_, e_;
};

using StringPiece = Range<const char*>;
using MutableStringPiece = Range<char*>;
using ByteRange = Range<const unsigned char*>;
using MutableByteRange = Range<unsigned char*>;

inline std::ostream& operator<<(std::ostream& os, const StringPiece& p) {
  return os.write(p.data(), p.size());
}
template <class A>
bool operator==(const Range<A>& a, const Range<A>& b) { return a.compare(b) == 0; }
template <class A>
bool operator!=(const Range<A>& a, const Range<A>& b) { return a.compare(b) != 0; }
template <class A>
bool operator<(const Range<A>& a, const Range<A>& b) { return a.compare(b) < 0; }
inline bool operator==(const StringPiece& a, const char* b) { return a.compare(b) == 0; }
inline bool operator!=(const StringPiece& a, const char* b) { return a.compare(b) != 0; }
inline bool operator==(const StringPiece& a, const std::string& b) { return a.compare(b) == 0; }
inline bool operator!=(const StringPiece& a, const std::string& b) { return a.compare(b) != 0; }
inline bool operator==(const std::string& b, const StringPiece& a) { return a.compare(b) == 0; }
inline bool operator==(const char* b, const StringPiece& a) { return a.compare(b) == 0; }
}  // namespace folly
