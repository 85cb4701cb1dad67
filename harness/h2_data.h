// a data directory written, loaded and removed; JSON renderings of kanji
#pragma once
#include "h2_show.h"
#include <kt_kanji/Kanji.h>
#include <kt_kanji/TextKanjiData.h>
#include <filesystem>
#include <fstream>
namespace hx {
namespace fs = std::filesystem;
inline Str strs(const std::vector<Str>& v) { std::vector<Str> q; for (auto& i : v) q.push_back(js(i)); return ja(q); }
template <typename L> Str kanjiNames(const L& l) { std::vector<Str> q; for (auto& i : l) q.push_back(js(i->name())); return ja(q); }
template <typename T> Str en(T x) { return js(hasValue(x) ? toString(x) : Str{"None"}); }
// directory that is removed when it goes out of scope; fields: relative path, content (both hex)
struct Dir {
  Str path;
  explicit Dir(const Fields& a, size_t from) {
    char t[] = "dirXXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    path = fs::absolute(t).string();
    for (size_t i = from; i + 1 < a.size(); i += 2) {
      const fs::path p = fs::path(path) / unhex(a[i]);
      fs::create_directories(p.parent_path());
      std::ofstream(p, std::ios::binary) << unhex(a[i + 1]);
    }
  }
  ~Dir() { std::error_code e; fs::remove_all(path, e); }
  Dir(const Dir&) = delete;
};
// messages of the form ERROR[0001] --- text, numbered without gaps in this process
inline std::vector<Str> errors(const Str& t) {
  static size_t last;
  std::vector<Str> q;
  for (size_t p = 0; p < t.size();) {
    const auto e = t.find('\n', p);
    const Str l = t.substr(p, e - p);
    char b[40]; snprintf(b, sizeof b, "ERROR[%04zu] --- ", ++last);
    if (e == Str::npos || l.compare(0, strlen(b), b)) { q.push_back("unexpected output: " + l); }
    else q.push_back(l.substr(strlen(b)));
    if (e == Str::npos) break;
    p = e + 1;
  }
  return q;
}
inline Str showKanji(const kanji_tools::Kanji& k) {
  using namespace kanji_tools;
  std::vector<Str> nel; for (auto i : k.nelsonIds()) nel.push_back(ju(i));
  // shorthands must agree with the values they stand for
  if (k.hasGrade() != hasValue(k.grade()) || k.hasKyu() != hasValue(k.kyu()) || k.hasLevel() != hasValue(k.level()) || k.hasMeaning() == k.meaning().empty() ||
      k.hasNelsonIds() == k.nelsonIds().empty() || k.hasReading() == k.reading().empty() || !k.is(k.type()) || !(k == k)) throw std::logic_error("shorthand " + k.name());
  if (k.frequencyOrDefault(77) != (k.frequency() ? k.frequency() : 77)) throw std::logic_error("frequencyOrDefault " + k.name());
  return jo({{"n", js(k.name())}, {"type", js(toString(k.type()))}, {"compat", js(k.compatibilityName())}, {"variant", jb(k.variant())}, {"nonvar", js(k.nonVariantName())},
      {"rad", ju(k.radical().number())}, {"v", ju(k.strokes().value())}, {"var", ju(k.strokes().variant())}, {"pinyin", js(k.pinyin().name())}, {"moro", js(k.morohashiId().toString())},
      {"nelson", ja(nel)}, {"meaning", js(k.meaning())}, {"reading", js(k.reading())}, {"grade", en(k.grade())}, {"level", en(k.level())}, {"kyu", en(k.kyu())}, {"freq", ju(k.frequency())},
      {"link", js(k.link() ? k.link()->name() : Str{})}, {"new", js(k.newName().value_or(""))}, {"old", strs(k.oldNames())}, {"linked", jb(k.linkedReadings())}, {"year", ju(k.year())},
      {"reason", en(k.reason())}, {"extra", js(k.extraTypeInfo().value_or(""))}, {"q", js(k.qualifiedName())}, {"fm", ju(k.frequencyOrMax())}});
}
struct Loaded { // a data object with the streams it writes to
  Sink out, err;
  std::shared_ptr<kanji_tools::TextKanjiData> data;
};
inline std::unique_ptr<Loaded> ld; // the data loaded last
} // namespace hx
