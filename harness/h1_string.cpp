// string helpers
#include "hx.h"
#include <kt_utils/String.h>
using namespace kanji_tools;
using namespace hx;
namespace {
BracketType br(const Str& s) { return s == "Curly" ? BracketType::Curly : s == "Round" ? BracketType::Round : s == "Square" ? BracketType::Square : BracketType::None; }
template <typename T> Str num(T x, const Str& b, size_t n) {
  const auto t = br(b);
  const Str bi = toBinary(x, t, n), h = toHex(x, t, HexCase::Lower, n), hu = toHex(x, t, HexCase::Upper, n);
  bool same = toHex(x, t, n) == h;
  if (n == 0) same = same && toBinary(x, t) == bi && toHex(x, t) == h && toHex(x, t, HexCase::Upper) == hu;
  if (t == BracketType::None) same = same && toBinary(x, n) == bi && toHex(x, n) == h && toHex(x, HexCase::Upper, n) == hu;
  if (!same) throw std::runtime_error("overloads disagree");
  return jo({{"b", jbytes(bi)}, {"h", jbytes(h)}, {"hu", jbytes(hu)}});
}
// num <type> <decimal> <bracket> <min>
Reg r1{"num", [](const Args& a) {
  const auto x = std::stoull(a[2]);
  const auto n = std::stoul(a[4]);
  const Str& t = a[1];
  if (t == "char") return num(static_cast<char>(x), a[3], n);
  if (t == "u8") return num(static_cast<uint8_t>(x), a[3], n);
  if (t == "u16") return num(static_cast<uint16_t>(x), a[3], n);
  if (t == "u32") return num(static_cast<uint32_t>(x), a[3], n);
  if (t == "code") return num(static_cast<Code>(x), a[3], n);
  return num(static_cast<uint64_t>(x), a[3], n);
}};
CodeString codes(const Str& s) {
  CodeString r;
  std::istringstream is{s == "-" ? "" : s};
  for (Str t; std::getline(is, t, ',');) r += static_cast<Code>(std::stoul(t));
  return r;
}
Reg r2{"uni", [](const Args& a) {
  const Str s = unhex(a[1]);
  const auto t = br(a[2]);
  if (t == BracketType::None && toUnicode(s) != toUnicode(s, t)) throw std::runtime_error("overloads disagree");
  return jo({{"s", jbytes(toUnicode(s, t))}});
}};
Reg r3{"unic", [](const Args& a) {
  const auto c = codes(a[1]);
  const auto t = br(a[2]);
  return jo({{"c", jbytes(toUnicode(c, t))}, {"f", c.empty() ? "[]" : jbytes(toUnicode(c[0], t))}});
}};
template <typename T> Str sb(const T& s) { return ja({jb(isSingleByte(s)), jb(isSingleByte(s, false)), jb(isAllSingleByte(s)), jb(isAnySingleByte(s))}); }
// str <hex> <bracket> <n>
Reg r4{"str", [](const Args& a) {
  const Str s = unhex(a[1]);
  return jo({{"lo", jbytes(toLower(s))}, {"up", jbytes(toUpper(s))}, {"fl", jbytes(firstLower(s))}, {"fu", jbytes(firstUpper(s))}, {"sb", sb(s)},
      {"br", jbytes(addBrackets(s, br(a[2])))}, {"z", jbytes(addLeadingZeroes(s, std::stoul(a[3])))}});
}};
Reg r5{"sc", [](const Args& a) { const auto c = codes(a[1]); return jo({{"sb", sb(c)}, {"z", jcodes(addLeadingZeroes(c, std::stoul(a[2])))}}); }};
// char <type> <decimal> [neg]
Reg r6{"char", [](const Args& a) {
  const Str& t = a[1];
  int r{};
  if (t == "int") { const int x = std::stoi(a[2]); const bool neg = a[3] == "1"; r = toChar(x, neg); if (neg && toChar(x) != r) throw std::runtime_error("default differs"); }
  else {
    const auto x = std::stoull(a[2]);
    r = t == "uint16_t" ? toChar(static_cast<uint16_t>(x)) : t == "uint32_t" ? toChar(static_cast<uint32_t>(x)) : t == "size_t" ? toChar(static_cast<size_t>(x))
      : t == "Code" ? toChar(static_cast<Code>(x)) : toChar(static_cast<uint8_t>(x));
  }
  return ji(r);
}};
Reg r7{"uchar", [](const Args& a) { const auto c = static_cast<char>(std::stoi(a[1])); return jo({{"u", ju(toUChar(c))}, {"single", jb(isSingleByteChar(c) && isSingleByteChar(static_cast<Code>(toUChar(c))))}}); }};
} // namespace
