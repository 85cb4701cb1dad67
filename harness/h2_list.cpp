// list files
#include "hx.h"
#include <kt_kanji/ListFile.h>
#include <kt_utils/Utf8.h>
#include <filesystem>
#include <fstream>
using namespace kanji_tools;
using namespace hx;
namespace fs = std::filesystem;
namespace {
// bytes that are no valid UTF-8 become <xx>
Str vis(const Str& s) {
  Str r;
  for (size_t i = 0; i < s.size();) {
    const auto c = static_cast<unsigned char>(s[i]);
    const size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    bool ok = n && i + n <= s.size();
    for (size_t j = 1; ok && j < n; ++j) ok = (static_cast<unsigned char>(s[i + j]) & 0xc0) == 0x80;
    if (ok && n > 2) {
      const auto d = static_cast<unsigned char>(s[i + 1]);
      ok = !(c == 0xe0 && d < 0xa0) && !(c == 0xed && d > 0x9f) && !(c == 0xf0 && d < 0x90) && !(c == 0xf4 && d > 0x8f);
    }
    if (ok) { r += s.substr(i, n); i += n; }
    else { char b[8]; snprintf(b, sizeof b, "<%02x>", c); r += b; ++i; }
  }
  return r;
}
template <typename F> Str guarded(F f) {
  try { return f(); } catch (const DomainError& e) { throw DomainError{vis(e.what())}; }
}
Str strs(const std::vector<Str>& v) { std::vector<Str> q; for (auto& i : v) q.push_back(js(i)); return ja(q); }
Str answer(const ListFile& l, const Fields& a, size_t from) {
  std::vector<Str> idx, has;
  for (size_t i = from; i < a.size(); ++i) { const Str n = unhex(a[i]); idx.push_back(ju(l.getIndex(n))); has.push_back(jb(l.exists(n))); }
  return jo({{"name", js(l.name())}, {"level", js(toString(l.level()))}, {"kyu", js(toString(l.kyu()))}, {"list", strs(l.list())},
      {"size", ju(l.size())}, {"text", js(l.toString())}, {"ask", ja(idx)}, {"has", ja(has)}});
}
struct Files { // removes what an operation created
  std::vector<Str> l;
  ~Files() { std::error_code e; for (auto i = l.rbegin(); i != l.rend(); ++i) fs::remove(*i, e); }
  void make(const Str& p, const Str& kind, const Str& text) {
    if (kind == "none") return;
    if (kind == "dir") fs::create_directory(p); else std::ofstream(p, std::ios::binary) << text;
    l.push_back(p);
  }
};
Reg r1{"lf.reset", [](const Fields&) { ListFile::clearUniqueCheckData(); return Str{"0"}; }};
// lf.load <file given> <file written> <kind> <type> <one> <text> <ask...>
Reg r2{"lf.load", [](const Fields& a) {
  const Str given = unhex(a[1]);
  Files f; f.make(unhex(a[2]), a[3], unhex(a[6]));
  return guarded([&]() -> Str {
    if (a[4] == "plain") {
      if (a[5] == "d") { const ListFile l{given}; return answer(l, a, 7); }
      const ListFile l{given, a[5] == "1" ? ListFile::FileType::OnePerLine : ListFile::FileType::MultiplePerLine};
      return answer(l, a, 7);
    }
    if (a[4][0] == 'N') { const LevelListFile l{given, AllJlptLevels.fromString(a[4])}; return answer(l, a, 7); }
    const KyuListFile l{given, AllKenteiKyus.fromString(a[4])};
    return answer(l, a, 7);
  });
}};
// lf.big <file> <n>: n different names
Reg r3{"lf.big", [](const Fields& a) {
  Files f; const Str p = unhex(a[1]); const auto n = std::stoul(a[2]);
  std::vector<Str> names; Str text;
  for (Code c = 0xa0; names.size() < n; ++c) if (c < 0xd800 || c > 0xdfff) { names.push_back(toUtf8(c)); text += names.back(); text += names.size() % 7 ? ' ' : '\n'; }
  f.make(p, "file", text);
  const ListFile l{p, ListFile::FileType::MultiplePerLine};
  size_t bad{};
  for (size_t i = 0; i < n; ++i) if (l.getIndex(names[i]) != i + 1 || l.list()[i] != names[i]) ++bad;
  return ja({ju(l.size()), ju(l.getIndex(names.back())), ju(bad)});
}};
// lf.getfile <dir> <dirkind> <file> <plain> <txt>
Reg r4{"lf.getfile", [](const Fields& a) {
  Files f; const Str d = unhex(a[1]), n = unhex(a[3]);
  f.make(d, a[2], "x");
  if (a[2] == "dir") { f.make(d + '/' + n, a[4], "x"); f.make(d + '/' + n + ".txt", a[5], "x"); }
  return js(ListFile::getFile(d, n).string());
}};
Reg r5{"lf.print", [](const Fields& a) {
  ListFile::StringList l; for (size_t i = 3; i < a.size(); ++i) l.push_back(unhex(a[i]));
  Sink o; ListFile::print(o, l, unhex(a[1]), unhex(a[2]));
  return js(o.take());
}};
} // namespace
