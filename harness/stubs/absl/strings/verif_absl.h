// A small stand-in for the parts of Abseil that absl/absl.h builds on: the Abseil installed here is
// older than AbslStringify in StrFormat. Values are rendered through AbslStringify if there is one.
#ifndef VERIF_ABSL_STUB_H
#define VERIF_ABSL_STUB_H

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#if __cplusplus >= 201703L
#include <string_view>
#endif

namespace absl {
#if __cplusplus >= 201703L
using string_view = std::string_view;
#else
class string_view {
  const char* p_;
  size_t n_;

public:
  string_view() : p_(""), n_(0) {}
  string_view(const char* p) : p_(p), n_(strlen(p)) {}
  string_view(const char* p, size_t n) : p_(p), n_(n) {}
  string_view(const std::string& s) : p_(s.data()), n_(s.size()) {}
  const char* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  explicit operator std::string() const { return std::string(p_, n_); }
  const char* begin() const { return p_; }
  const char* end() const { return p_ + n_; }
};
#endif

namespace verif_internal {
struct Sink {
  std::string out;
  void Append(size_t n, char c) { out.append(n, c); }
  void Append(string_view s) { out.append(s.data(), s.size()); }
  bool PutPaddedString(string_view s, int, int, bool) {
    Append(s);
    return true;
  }
  friend void AbslFormatFlush(Sink* s, string_view v) { s->Append(v); }
};
template <class T, class = void>
struct Stringifies : std::false_type {};
template <class T>
struct Stringifies<T, decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))> : std::true_type {};

template <class T, std::enable_if_t<Stringifies<T>::value, int> = 0>
std::string render(const T& x) {
  Sink s;
  AbslStringify(s, x);
  return s.out;
}
template <class T, std::enable_if_t<!Stringifies<T>::value && std::is_same<T, bool>::value, int> = 0>
std::string render(const T& x) {
  return x ? "true" : "false";
}
template <class T, std::enable_if_t<!Stringifies<T>::value && std::is_same<T, char>::value, int> = 0>
std::string render(const T& x) {
  return std::string(1, x);
}
template <class T, std::enable_if_t<!Stringifies<T>::value && std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value, int> = 0>
std::string render(const T& x) {
  return std::to_string(x);
}
template <class T, std::enable_if_t<!Stringifies<T>::value && std::is_floating_point<T>::value, int> = 0>
std::string render(const T& x) {
  char b[64];
  snprintf(b, sizeof b, "%g", (double)x);
  return b;
}
template <class T, std::enable_if_t<!Stringifies<T>::value && std::is_convertible<const T&, string_view>::value, int> = 0>
std::string render(const T& x) {
  string_view v = x;
  return std::string(v.data(), v.size());
}
// Types that only convert to an integer.
template <class T, std::enable_if_t<!Stringifies<T>::value && !std::is_arithmetic<T>::value && std::is_convertible<const T&, long long>::value, int> = 0>
std::string render(const T& x) {
  return std::to_string((long long)x);
}

inline std::string format(string_view f, const std::vector<std::string>& args) {
  std::string out;
  size_t a = 0;
  for (const char* p = f.data(); p != f.data() + f.size(); ++p) {
    if (*p != '%') {
      out += *p;
      continue;
    }
    ++p;
    if (*p == '%') {
      out += '%';
      continue;
    }
    while (p != f.data() + f.size() && !strchr("vdisug", *p)) ++p; // flags, widths and lengths are ignored
    if (a >= args.size()) {
      fprintf(stderr, "too few arguments for the format\n");
      _Exit(5);
    }
    out += args[a++];
  }
  return out;
}
// Where Format may write to.
inline void append(std::string* s, const std::string& x) { s->append(x); }
template <class S>
auto append(S* s, const std::string& x) -> decltype(s->Append(string_view(x))) {
  return s->Append(string_view(x));
}
} // namespace verif_internal

using FormatRawSink = verif_internal::Sink*;

template <class... Args>
std::string StrFormat(string_view f, const Args&... args) {
  return verif_internal::format(f, std::vector<std::string>{verif_internal::render(args)...});
}
template <class... Args>
std::string& StrAppendFormat(std::string* s, string_view f, const Args&... args) {
  return s->append(StrFormat(f, args...));
}
template <class S, class... Args>
bool Format(S* sink, string_view f, const Args&... args) {
  verif_internal::append(sink, StrFormat(f, args...));
  return true;
}
template <class... Args>
std::string StrCat(const Args&... args) {
  std::string r;
  for (const std::string& s : std::vector<std::string>{verif_internal::render(args)...}) r += s;
  return r;
}
template <class... Args>
void StrAppend(std::string* s, const Args&... args) {
  *s += StrCat(args...);
}

struct AlphaNumFormatterImpl {
  template <class T>
  void operator()(std::string* out, const T& t) const {
    *out += verif_internal::render(t);
  }
};
inline AlphaNumFormatterImpl AlphaNumFormatter() { return {}; }
struct StreamFormatterImpl : AlphaNumFormatterImpl {};
inline StreamFormatterImpl StreamFormatter() { return {}; }

template <class It, class F>
std::string StrJoin(It b, It e, string_view sep, F&& f) {
  std::string r;
  bool first = true;
  for (; b != e; ++b) {
    if (!first) r.append(sep.data(), sep.size());
    first = false;
    f(&r, *b);
  }
  return r;
}
namespace verif_internal {
template <class Tuple, class F, size_t... Is>
std::string join_tuple(const Tuple& t, string_view sep, F&& f, std::index_sequence<Is...>) {
  std::string r;
  bool first = true;
  int unused[] = {0, ((first ? void() : void(r.append(sep.data(), sep.size()))), first = false, f(&r, std::get<Is>(t)), 0)...};
  (void)unused;
  (void)first;
  (void)t;
  return r;
}
} // namespace verif_internal
template <class... Ts, class F>
std::string StrJoin(const std::tuple<Ts...>& t, string_view sep, F&& f) {
  return verif_internal::join_tuple(t, sep, f, std::index_sequence_for<Ts...>());
}
template <class... Ts>
std::string StrJoin(const std::tuple<Ts...>& t, string_view sep) {
  return StrJoin(t, sep, AlphaNumFormatter());
}
template <class Range, class F>
auto StrJoin(const Range& x, string_view sep, F&& f) -> decltype(std::begin(x), std::string()) {
  return StrJoin(std::begin(x), std::end(x), sep, f);
}
template <class Range>
auto StrJoin(const Range& x, string_view sep) -> decltype(std::begin(x), std::string()) {
  return StrJoin(std::begin(x), std::end(x), sep, AlphaNumFormatter());
}
template <class T>
std::string StrJoin(std::initializer_list<T> x, string_view sep) {
  return StrJoin(x.begin(), x.end(), sep, AlphaNumFormatter());
}
} // namespace absl
#endif
