// kanji data
#include "h2_data.h"
#include <algorithm>
using namespace kanji_tools;
using namespace hx;
namespace {
TextKanjiData& kd() { if (!ld || !ld->data) throw std::logic_error("nothing loaded"); return *ld->data; }
KanjiPtr ptr(const Str& n) { const auto k = kd().findByName(n); if (!k) throw std::logic_error("no kanji " + n); return k; }
const Kanji& kj(const Str& n) { const auto k = kd().findByName(n); if (!k) throw std::logic_error("no kanji " + n); return *k; }
Str nm(const KanjiPtr& k) { return js(k ? k->name() : Str{}); }
bool wanted(const std::vector<Str>& only, const Str& n) { return only.empty() || std::find(only.begin(), only.end(), n) != only.end(); }
template <typename L> Str some(const L& l, const std::vector<Str>& only) { std::vector<Str> q; for (auto& i : l) if (wanted(only, i->name())) q.push_back(js(i->name())); return ja(q); }
template <typename M> Str lists(const M& m, const std::vector<Str>& only) { std::vector<Str> q; for (auto& l : m) q.push_back(some(l, only)); return ja(q); }
Str dump(const std::vector<Str>& errs, const std::vector<Str>& only) {
  auto& d = kd();
  std::vector<Str> recs, fr;
  for (auto& i : d.nameMap()) { if (i.first != i.second->name()) throw std::logic_error("key"); if (wanted(only, i.first)) recs.push_back(showKanji(*i.second)); }
  for (size_t i = 0; i < KanjiData::FrequencyBuckets; ++i) fr.push_back(some(d.frequencyList(i), only));
  return jo({{"errs", strs(errs)}, {"recs", ja(recs)}, {"types", lists(d.types(), only)}, {"grades", lists(d.grades(), only)}, {"levels", lists(d.levels(), only)}, {"kyus", lists(d.kyus(), only)},
      {"freqs", ja(fr)}, {"max", ju(KanjiData::maxFrequency())}});
}
std::vector<Str> errs;
// kd.load <path> <content> ...
Reg r1{"kd.load", [](const Fields& a) {
  ld = std::make_unique<Loaded>(); errs.clear();
  const Dir dir{a, 1};
  const char* argv[] = {"test", "-data", dir.path.c_str()};
  try { ld->data = std::make_shared<TextKanjiData>(kanji_tools::Args{3, argv}, ld->out, ld->err); }
  catch (...) { errors(ld->err.take()); throw; }
  errs = errors(ld->err.take());
  if (const auto o = ld->out.take(); !o.empty()) throw std::logic_error("output: " + o);
  return dump(errs, {});
}};
// kd.report <option> <path> <content> ...: what loading prints with -info or -debug
Reg r1b{"kd.report", [](const Fields& a) {
  const auto l = std::make_unique<Loaded>();
  const Dir dir{a, 2};
  const Str opt = unhex(a[1]);
  const char* argv[] = {"test", "-data", dir.path.c_str(), opt.c_str()};
  try { l->data = std::make_shared<TextKanjiData>(kanji_tools::Args{4, argv}, l->out, l->err); }
  catch (...) { errors(l->err.take()); throw; }
  errors(l->err.take());
  return js(l->out.take());
}};
// kd.part <names...>: the loaded data restricted to some names
Reg r2{"kd.part", [](const Fields& a) {
  std::vector<Str> only; for (size_t i = 1; i < a.size(); ++i) only.push_back(unhex(a[i]));
  return dump(errs, only);
}};
Reg r3{"kd.find", [](const Fields& a) {
  const Str n = unhex(a[1]);
  auto& d = kd();
  const auto u = d.findUcd(n);
  return jo({{"n", nm(d.findByName(n))}, {"type", en(d.getType(n))}, {"ucd", js(u ? u->name() : Str{})}, {"freq", ju(d.frequency(n))}, {"level", en(d.level(n))}, {"kyu", en(d.kyu(n))}});
}};
Reg r4{"kd.freq", [](const Fields& a) { return nm(kd().findByFrequency(static_cast<Kanji::Frequency>(std::stoul(a[1])))); }};
Reg r5{"kd.list", [](const Fields& a) { return kanjiNames(kd().frequencyList(std::stoul(a[1]))); }};
Reg r6{"kd.moro", [](const Fields& a) {
  const Str t = unhex(a[1]);
  const auto x = kanjiNames(kd().findByMorohashiId(t));
  if (kanjiNames(kd().findByMorohashiId(MorohashiId{t})) != x) throw std::logic_error("morohashi");
  return x;
}};
Reg r7{"kd.nelson", [](const Fields& a) { return kanjiNames(kd().findByNelsonId(static_cast<Kanji::NelsonId>(std::stoul(a[1])))); }};
Reg r8{"kd.info", [](const Fields& a) {
  const auto& k = kj(unhex(a[1]));
  const auto f = static_cast<unsigned>(std::stoul(a[2]));
  if (f == 511 && k.info() != k.info(Kanji::Info::All)) throw std::logic_error("info");
  return js(k.info(static_cast<Kanji::Info>(f)));
}};
Reg r9{"kd.order", [](const Fields& a) {
  std::vector<Str> s, q;
  for (size_t i = 1; i < a.size(); ++i) {
    std::vector<Str> si, qi;
    for (size_t j = 1; j < a.size(); ++j) {
      const auto x = ptr(unhex(a[i])), y = ptr(unhex(a[j]));
      si.push_back(jb(KanjiData::OrderByStrokes(x, y))); qi.push_back(jb(KanjiData::OrderByQualifiedName(x, y)));
    }
    s.push_back(ja(si)); q.push_back(ja(qi));
  }
  return jo({{"strokes", ja(s)}, {"qual", ja(q)}});
}};
Reg r10{"kd.sort", [](const Fields& a) {
  KanjiData::List l; for (size_t i = 2; i < a.size(); ++i) l.push_back(ptr(unhex(a[i])));
  if (a[1] == "strokes") std::sort(l.begin(), l.end(), KanjiData::OrderByStrokes); else std::sort(l.begin(), l.end(), KanjiData::OrderByQualifiedName);
  return kanjiNames(l);
}};
} // namespace
