// Utf8Char sessions and display width
#include "hx.h"
#include <kt_kana/DisplaySize.h>
#include <kt_kana/Utf8Char.h>
using namespace kanji_tools;
using namespace hx;
namespace {
std::unique_ptr<Utf8Char> cur;
Str rep(bool f, const Str& r) {
  return jo({{"f", jb(f)}, {"r", f ? jbytes(r) : "[]"}, {"n", ja({ju(cur->errors()), ju(cur->variants()), ju(cur->combiningMarks())})}});
}
const char* name(MBUtf8Result r) { return r == MBUtf8Result::Valid ? "Valid" : r == MBUtf8Result::NotMultiByte ? "NotMultiByte" : "NotValid"; }
Reg r0{"u8.new", [](const Args& a) { cur = std::make_unique<Utf8Char>(unhex(a[1])); return Str{"0"}; }};
Reg r1{"u8.next", [](const Args& a) { Str r{"#"}; const bool f = cur->next(r, a[1] == "1"); if (!f && r != "#") throw std::runtime_error("result changed"); return rep(f, r); }};
Reg r2{"u8.peek", [](const Args& a) { Str r{"#"}; const bool f = cur->peek(r, a[1] == "1"); if (!f && r != "#") throw std::runtime_error("result changed"); return rep(f, r); }};
Reg r3{"u8.reset", [](const Args&) { cur->reset(); return rep(false, {}); }};
Reg r4{"u8.info", [](const Args& a) {
  const Str s = unhex(a[1]);
  const Exact e{s};
  const char* p = e.p;
  if (Utf8Char::size(s) != Utf8Char::size(p) || Utf8Char::size(s, false) != Utf8Char::size(p, false) || cur->size() != Utf8Char::size(p) ||
      cur->size(false) != Utf8Char::size(p, false) || Utf8Char::isVariationSelector(s) != Utf8Char::isVariationSelector(p) ||
      Utf8Char::isCombiningMark(s) != Utf8Char::isCombiningMark(p) || cur->isValid() != (cur->valid() == MBUtf8Result::Valid))
    throw std::runtime_error("forms disagree");
  return jo({{"size", ja({ju(cur->size(true)), ju(cur->size(false))})}, {"sel", jb(Utf8Char::isVariationSelector(p))}, {"mark", jb(Utf8Char::isCombiningMark(p))},
      {"has", jb(Utf8Char::isCharWithVariationSelector(s))}, {"nosel", jbytes(Utf8Char::noVariationSelector(s))}, {"first", jbytes(Utf8Char::getFirst(s))},
      {"valid", ja({js(name(cur->valid(true))), js(name(cur->valid(false)))})}});
}};
// display width of every code point, as ranges of equal width
Reg r5{"width.ranges", [](const Args&) {
  std::vector<Str> r;
  size_t w = 99;
  uint32_t start = 0;
  for (uint32_t c = 1; c <= 0x110000; ++c) {
    size_t v = 98;
    if (c < 0x110000) {
      v = displaySize(CodeString(1, static_cast<Code>(c)));
      if ((c < 0xd800 || c > 0xdfff) && displaySize(toUtf8(static_cast<Code>(c))) != v) v = 97;
    }
    if (v != w) { if (w != 99) r.push_back(ja({ju(start), ju(c - 1), ju(w)})); start = c; w = v; }
  }
  return ja(r);
}};
Reg r6{"width", [](const Args& a) {
  const Str s = unhex(a[1]);
  const Exact e{s};
  const auto n = std::stoul(a[2]);
  CodeString u = fromUtf8(s);
  if (a.size() > 3) u.push_back(0);
  return jo({{"d", ja({ju(displaySize(s)), ju(displaySize(e.p)), ju(displaySize(u))})}, {"w", ji(wideSetw(s, n))}});
}};
} // namespace
