// Unicode data
#include "hx.h"
#include "h2_show.h"
#include <filesystem>
#include <fstream>
using namespace kanji_tools;
using namespace hx;
namespace {
std::unique_ptr<UcdData> ud = std::make_unique<UcdData>();
Reg r1{"uc.new", [](const Fields&) { ud = std::make_unique<UcdData>(); return Str{"0"}; }};
Reg r2{"uc.load", [](const Fields& a) {
  const Str n = unhex(a[1]);
  std::ofstream(n, std::ios::binary) << unhex(a[2]);
  struct Rm { const Str& n; ~Rm() { std::filesystem::remove(n); } } rm{n};
  ud->load(n);
  return Str{"0"};
}};
Reg r3{"uc.names", [](const Fields&) {
  std::vector<Str> v;
  for (auto& i : ud->map()) { if (i.first != i.second.name()) throw std::logic_error("key"); v.push_back(js(i.first)); }
  return ja(v);
}};
Reg r4{"uc.get", [](const Fields& a) {
  const auto u = ud->find(unhex(a[1]));
  const auto kana = ud->getReadingsAsKana(u);
  if (!u) return jo({{"none", "true"}, {"kana", js(kana)}, {"meaning", js(UcdData::getMeaning(u))}});
  if (UcdData::getMeaning(u) != u->meaning()) throw std::logic_error("meaning");
  return jo({{"rec", showUcd(*u)}, {"kana", js(kana)}});
}};
} // namespace
