// Morohashi numbers, strokes, pinyin, radicals
#include "hx.h"
#include <kt_kanji/KanjiData.h>
#include <fstream>
#include <filesystem>
using namespace kanji_tools;
using namespace hx;
namespace {
template <typename T> Str out(const T& x) { Sink s; s << x; return s.take(); }
template <typename T> Str rel(const T& a, const T& b) {
  return jo({{"lt", jb(a < b)}, {"le", jb(a <= b)}, {"eq", jb(a == b)}, {"ne", jb(a != b)}, {"ge", jb(a >= b)}, {"gt", jb(a > b)}});
}
Reg r1{"mo", [](const Fields& a) {
  const MorohashiId m{unhex(a[1])};
  if (out(m) != m.toString()) throw std::logic_error("output differs");
  return jo({{"id", ju(m.id())}, {"type", ju(static_cast<unsigned>(m.idType()))}, {"text", js(m.toString())}, {"some", jb(static_cast<bool>(m))}});
}};
Reg r2{"mocmp", [](const Fields& a) { const MorohashiId x{unhex(a[1])}, y{unhex(a[2])}; return rel(x, y); }};
Strokes st(const Str& v, const Str& w) {
  const auto x = static_cast<Strokes::Size>(std::stoi(v));
  return w == "-1" ? Strokes{x} : Strokes{x, static_cast<Strokes::Size>(std::stoi(w))};
}
Reg r3{"st", [](const Fields& a) {
  const Strokes s{st(a[1], a[2])};
  return jo({{"v", ju(s.value())}, {"var", ju(s.variant())}, {"has", jb(s.hasVariant())}, {"text", js(s.toString())}, {"full", js(s.toString(true))}, {"out", js(out(s))}});
}};
Reg r4{"stcmp", [](const Fields& a) { return rel(st(a[1], a[2]), st(a[3], a[4])); }};
Reg r5{"py", [](const Fields& a) {
  const Pinyin x{unhex(a[1])}, y{unhex(a[2])};
  if (out(x) != x.name() || (x == y) == (x != y)) throw std::logic_error("pinyin");
  return jo({{"a", js(x.name())}, {"b", js(y.name())}, {"eq", jb(x == y)}, {"some", jb(static_cast<bool>(x))}});
}};
std::unique_ptr<RadicalData> rd = std::make_unique<RadicalData>();
Str show(RadicalRef r) {
  std::vector<Str> alt; for (auto& i : r.altForms()) alt.push_back(js(i));
  return jo({{"number", ju(r.number())}, {"name", js(r.name())}, {"alt", ja(alt)}, {"long", js(r.longName())}, {"reading", js(r.reading())}, {"out", js(out(r))}});
}
Reg r6{"ra.new", [](const Fields&) { rd = std::make_unique<RadicalData>(); return Str{"0"}; }};
Reg r7{"ra.load", [](const Fields& a) {
  const Str n = unhex(a[1]);
  std::ofstream(n, std::ios::binary) << unhex(a[2]);
  struct Rm { const Str& n; ~Rm() { std::filesystem::remove(n); } } rm{n};
  rd->load(n);
  return Str{"0"};
}};
Reg r8{"ra.num", [](const Fields& a) { return show(rd->find(static_cast<Radical::Number>(std::stoi(a[1])))); }};
Reg r9{"ra.name", [](const Fields& a) { return show(rd->find(unhex(a[1]))); }};
Reg r10{"ra.cmp", [](const Fields& a) {
  RadicalRef x = rd->find(static_cast<Radical::Number>(std::stoi(a[1])));
  RadicalRef y = rd->find(static_cast<Radical::Number>(std::stoi(a[2])));
  return ja({jb(x < y), jb(x == y)});
}};
} // namespace
