// UTF-8, character classes, character iteration, display width
#include "hx.h"
#include <kt_utils/Utf8.h>
#include <kt_utils/UnicodeBlock.h>
using namespace kanji_tools;
using namespace hx;
namespace {
// dec <hex> <max>: all decoding forms
Reg r1{"dec", [](const Args& a) {
  const Str s = unhex(a[1]);
  const size_t n = std::stoul(a[2]);
  const Exact e{s};
  const auto u = fromUtf8(e.p, n), u2 = fromUtf8(s, n);
  const auto w = fromUtf8ToWstring(e.p), w2 = fromUtf8ToWstring(s);
  const auto c = getCode(e.p), c2 = getCode(s);
  return ja({jo({{"u", jcodes(u)}, {"w", jcodes(w)}, {"c", ju(c)}}), jo({{"u", jcodes(u2)}, {"w", jcodes(w2)}, {"c", ju(c2)}})});
}};
CodeString codes(const Str& s) {
  CodeString r;
  std::istringstream is{s == "-" ? "" : s};
  for (Str t; std::getline(is, t, ',');) r += static_cast<Code>(std::stoul(t));
  return r;
}
Reg r2{"enc", [](const Args& a) {
  const auto c = codes(a[1]);
  std::wstring w;
  for (auto i : c) w += static_cast<wchar_t>(i);
  return jo({{"u", jbytes(toUtf8(c))}, {"w", jbytes(toUtf8(w))}});
}};
// encblk <first> <n>: one-character forms (all overloads must agree)
Reg r3{"encblk", [](const Args& a) {
  const auto c = std::stoul(a[1]), n = std::stoul(a[2]);
  std::vector<Str> v;
  for (uint64_t i = c; i < c + n; ++i) {
    const auto x = toUtf8(static_cast<Code>(i));
    if (toUtf8(static_cast<int>(i)) != x || toUtf8(static_cast<uint32_t>(i)) != x || toUtf8(CodeString(1, static_cast<Code>(i))) != x ||
        toUtf8(std::wstring(1, static_cast<wchar_t>(i))) != x)
      v.push_back("[0]");
    else v.push_back(jbytes(x));
  }
  return ja(v);
}};
// decblk <first> <n>: decode(encode(c)) over the library's own encoder
Reg r4{"decblk", [](const Args& a) {
  const auto c = std::stoul(a[1]), n = std::stoul(a[2]);
  CodeString r;
  for (uint64_t i = c; i < c + n; ++i) {
    const auto u = fromUtf8(toUtf8(static_cast<Code>(i)));
    r += i == 0 ? 0 : u.size() == 1 ? u[0] : 1;
  }
  return jcodes(r);
}};
const char* name(Utf8Result r) {
  switch (r) {
  case Utf8Result::Valid: return "Valid";
  case Utf8Result::CharTooLong: return "CharTooLong";
  case Utf8Result::ContinuationByte: return "ContinuationByte";
  case Utf8Result::InvalidCodePoint: return "InvalidCodePoint";
  case Utf8Result::MissingBytes: return "MissingBytes";
  case Utf8Result::Overlong: return "Overlong";
  case Utf8Result::StringTooLong: return "StringTooLong";
  }
  return "?";
}
const char* name(MBUtf8Result r) {
  switch (r) {
  case MBUtf8Result::Valid: return "Valid";
  case MBUtf8Result::NotMultiByte: return "NotMultiByte";
  case MBUtf8Result::NotValid: return "NotValid";
  }
  return "?";
}
Reg r5{"val", [](const Args& a) {
  const Str s = unhex(a[1]);
  const Exact e{s};
  const auto p = static_cast<const char*>(e.p);
  auto two = [](const Str& x, const Str& y) { return ja({x, y}); };
  std::vector<Str> r;
  auto one = [&](const auto& x) {
    Utf8Result e0{Utf8Result::Valid}, e1{Utf8Result::Valid};
    const auto m0 = validateMBUtf8(x, e0, false), m1 = validateMBUtf8(x, e1, true);
    if (m0 != validateMBUtf8(x, false) || m1 != validateMBUtf8(x, true) || e0 != validateUtf8(x, false) || e1 != validateUtf8(x, true) ||
        m0 != validateMBUtf8(x) || e0 != validateUtf8(x))
      throw std::runtime_error("validate forms disagree");
    return jo({{"m", two(js(name(m0)), js(name(m1)))}, {"u", two(js(name(e0)), js(name(e1)))},
        {"im", two(jb(isValidMBUtf8(x)), jb(isValidMBUtf8(x, true)))}, {"iu", two(jb(isValidUtf8(x)), jb(isValidUtf8(x, true)))}});
  };
  return ja({one(s), one(p)});
}};
} // namespace
namespace {
// rt <hex>: encode what was decoded
Reg r6{"rt", [](const Args& a) {
  const Str s = unhex(a[1]);
  return jo({{"u", jbytes(toUtf8(fromUtf8(s)))}, {"w", jbytes(toUtf8(fromUtf8ToWstring(s)))}});
}};
} // namespace
