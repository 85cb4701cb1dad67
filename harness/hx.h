// Shared frame of the conformance harnesses: reads one operation per line (tab separated fields, text
// hex-encoded, '-' = empty), runs it against the real library and answers one JSON record per line:
//   {"v":...}  value      {"E":"DomainError","m":"..."}  exception
// A crash ends the process; the driver records it as the answer of the line that caused it.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <linux/capability.h>
#include <sys/syscall.h>
#include <kt_utils/Exception.h>

namespace hx {
using Str = std::string;
using Args = std::vector<Str>;
using Fields = Args; // where kanji_tools::Args is visible too

inline Str unhex(const Str& h) {
  Str r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  return r;
}

// JSON string (bytes >= 0x80 are passed through)
inline Str js(const Str& s) {
  Str r{"\""};
  for (char c : s) {
    const auto u = static_cast<unsigned char>(c);
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (u < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", u); r += b; }
    else r += c;
  }
  return r + '"';
}
inline Str jb(bool b) { return b ? "true" : "false"; }
// integers are capped to TLC's 32 bit range
inline Str ji(long long x) { if (x > 2147483647LL) x = 2147483647LL; if (x < -2147483647LL) x = -2147483647LL; return std::to_string(x); }
inline Str ju(unsigned long long x) { return x > 2147483647ULL ? "2147483647" : std::to_string(x); }
inline Str jbytes(const Str& s) {
  Str r{"["};
  for (size_t i = 0; i < s.size(); ++i) { if (i) r += ','; r += std::to_string(static_cast<unsigned char>(s[i])); }
  return r + ']';
}
template <typename T> Str jcodes(const T& s) {
  Str r{"["};
  bool first = true;
  for (auto c : s) { if (!first) r += ','; first = false; r += ju(static_cast<uint32_t>(c)); }
  return r + ']';
}
// array of already rendered values
inline Str ja(const std::vector<Str>& v) {
  Str r{"["};
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += v[i]; }
  return r + ']';
}
// object from name/rendered pairs
inline Str jo(std::initializer_list<std::pair<const char*, Str>> l) {
  Str r{"{"};
  for (auto& i : l) { if (r.size() > 1) r += ','; r += '"'; r += i.first; r += "\":"; r += i.second; }
  return r + '}';
}

// heap copy with no slack, so that AddressSanitizer sees a read past the terminator
struct Exact {
  char* p;
  explicit Exact(const Str& s) : p{static_cast<char*>(malloc(s.size() + 1))} { memcpy(p, s.c_str(), s.size() + 1); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
};

// output stream that ends the process (seen as a crash by the driver) when the code under test writes without end
class Sink final : public std::ostream {
  struct Buf final : std::stringbuf {
    size_t n{};
    void more(size_t k) { if ((n += k) > 8000000) { fputs("terminate called: endless output\n", stderr); fflush(stderr); _exit(97); } }
    std::streamsize xsputn(const char* p, std::streamsize k) final { more(k); return std::stringbuf::xsputn(p, k); }
    int overflow(int c) final { more(1); return std::stringbuf::overflow(c); }
  } buf;
public:
  Sink() : std::ostream{nullptr} { rdbuf(&buf); }
  Str take() { Str r = buf.str(); reset(); return r; }
  void reset() { buf.str(""); buf.n = 0; clear(); flags(std::ios::skipws | std::ios::dec); fill(' '); width(0); precision(6); }
};

using Fn = std::function<Str(const Args&)>; // a[0] is the operation name
inline std::map<Str, Fn>& ops() { static std::map<Str, Fn> m; return m; }
struct Reg { Reg(const char* n, Fn f) { ops()[n] = std::move(f); } };

// value or exception as a JSON record
template <typename F> Str wrap(F&& f) {
  try { return "{\"v\":" + f() + "}"; }
  catch (const kanji_tools::DomainError& e) { return "{\"E\":\"DomainError\",\"m\":" + js(e.what()) + "}"; }
  catch (const kanji_tools::RangeError& e) { return "{\"E\":\"RangeError\",\"m\":" + js(e.what()) + "}"; }
  catch (const std::exception& e) { return "{\"E\":\"exception\",\"m\":" + js(e.what()) + "}"; }
  catch (...) { return "{\"E\":\"unknown\",\"m\":\"\"}"; }
}

// file permissions apply to root too
inline void respectPermissions() {
  __user_cap_header_struct h{_LINUX_CAPABILITY_VERSION_3, 0};
  __user_cap_data_struct d[2]{};
  if (syscall(SYS_capget, &h, d)) return;
  d[0].effective &= ~(1U << CAP_DAC_OVERRIDE); d[0].permitted &= ~(1U << CAP_DAC_OVERRIDE);
  syscall(SYS_capset, &h, d);
}
inline int loop() {
  respectPermissions();
  std::ios::sync_with_stdio(false);
  Str line;
  // replies go to fd 1 only; library output to std::cout is redirected to a sink
  std::ostream out{std::cout.rdbuf()};
  std::ostringstream sink;
  std::cout.rdbuf(sink.rdbuf());
  while (std::getline(std::cin, line)) {
    Args a;
    for (size_t p = 0;;) {
      const auto q = line.find('\t', p);
      a.push_back(line.substr(p, q - p));
      if (q == Str::npos) break;
      p = q + 1;
    }
    const Str r = wrap([&a]() -> Str {
      auto f = ops().find(a[0]);
      if (f == ops().end()) throw std::logic_error("bad op " + a[0]);
      return f->second(a);
    });
    out << r << '\n' << std::flush;
    sink.str("");
  }
  return 0;
}
} // namespace hx
