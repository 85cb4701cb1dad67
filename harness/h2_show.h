// JSON renderings of the kanji library's objects
#pragma once
#include "hx.h"
#include <kt_kanji/KanjiData.h>
namespace hx {
inline Str showUcd(const kanji_tools::Ucd& u) {
  using namespace kanji_tools;
  std::vector<Str> links;
  for (auto& i : u.links()) {
    if (i.codeAndName() != toUnicode(i.code(), BracketType::Square) + ' ' + i.name()) throw std::logic_error("link");
    links.push_back(jo({{"code", ju(i.code())}, {"name", js(i.name())}}));
  }
  if (u.entry().name() != u.name() || u.entry().code() != u.code()) throw std::logic_error("entry");
  return jo({{"code", ju(u.code())}, {"name", js(u.name())}, {"block", js(u.block().name())}, {"version", js(u.version().name())}, {"radical", ju(u.radical())},
      {"strokes", ju(u.strokes().value())}, {"var", ju(u.strokes().variant())}, {"pinyin", js(u.pinyin().name())}, {"moro", js(u.morohashiId().toString())},
      {"nelson", js(u.nelsonIds())}, {"sources", js(u.sources())}, {"jsource", js(u.jSource())}, {"joyo", jb(u.joyo())}, {"jinmei", jb(u.jinmei())},
      {"links", ja(links)}, {"type", js(hasValue(u.linkType()) ? toString(u.linkType()) : Str{"None"})}, {"meaning", js(u.meaning())}, {"on", js(u.onReading())}, {"kun", js(u.kunReading())},
      {"has", jb(u.hasLinks())}, {"trad", jb(u.hasTraditionalLinks())}, {"nontrad", jb(u.hasNonTraditionalLinks())}, {"linkedReadings", jb(u.linkedReadings())},
      {"shown", js(u.codeAndName())}, {"shownLinks", js(u.linkCodeAndNames())}});
}
} // namespace hx
