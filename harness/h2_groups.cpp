// group files and compound words
#include "h2_data.h"
#include <kt_quiz/GroupData.h>
#include <kt_quiz/JukugoData.h>
#include <sstream>
using namespace kanji_tools;
using namespace hx;
namespace {
template <typename T> Str shown(const T& x) { std::ostringstream s; s << x; return s.str(); }
Str kind(const Group& g) {
  using enum Group::PatternType;
  switch (g.patternType()) { case Family: return "Family"; case Peer: return "Peer"; case Reading: return "Reading"; case None: return "Meaning"; }
  return "?";
}
Str groups(const GroupData::List& l) {
  std::vector<Str> q;
  for (auto& g : l) q.push_back(jo({{"n", ju(g->number())}, {"name", js(g->name())}, {"type", js(shown(g->type()))}, {"kind", js(kind(*g))}, {"str", js(g->toString())}, {"show", js(shown(*g))}, {"members", kanjiNames(g->members())}}));
  return ja(q);
}
template <typename M> Str mapped(const M& m, const GroupData::List& l) {
  std::map<Str, std::vector<Str>> q;
  for (auto& i : m) {
    size_t n = 0;
    for (size_t j = 0; j < l.size(); ++j) if (l[j] == i.second) n = j + 1;
    q[i.first].push_back(ju(n));
  }
  std::vector<Str> w; for (auto& i : q) w.push_back(jo({{"k", js(i.first)}, {"g", ja(i.second)}}));
  return ja(w);
}
// gr.load <path> <content> ...: the files of a directory; uses the data loaded last
Reg r1{"gr.load", [](const Fields& a) {
  const Dir dir{a, 1};
  const KanjiData::Path p = dir.path;
  ld->out.reset(); ld->err.reset();
  try {
    const GroupData g{ld->data, &p};
    if (const auto o = ld->out.take(); !o.empty()) throw std::logic_error("output: " + o);
    if (&g.data() != ld->data.get()) throw std::logic_error("data");
    return jo({{"fail", js("")}, {"errs", strs(errors(ld->err.take()))}, {"meaning", groups(g.meaningGroups())}, {"pattern", groups(g.patternGroups())},
        {"mmap", mapped(g.meaningMap(), g.meaningGroups())}, {"pmap", mapped(g.patternMap(), g.patternGroups())}});
  } catch (const DomainError& e) { return jo({{"fail", js(e.what())}, {"errs", strs(errors(ld->err.take()))}}); }
}};
// ju.load <number of kanji> <kanji> ... <path> <content> ...: compound words of some kanji
Reg r2{"ju.load", [](const Fields& a) {
  const auto n = std::stoul(a[1]);
  const Dir dir{a, 2 + n};
  const KanjiData::Path p = dir.path;
  ld->out.reset(); ld->err.reset();
  const JukugoData d{ld->data, &p};
  if (const auto o = ld->out.take() + ld->err.take(); !o.empty()) throw std::logic_error("output: " + o);
  std::vector<Str> q;
  for (size_t i = 0; i < n; ++i) {
    std::vector<Str> w;
    for (auto& j : d.find(unhex(a[2 + i]))) {
      if (j->nameAndReading() != j->name() + "（" + j->reading() + "）") throw std::logic_error("nameAndReading");
      w.push_back(jo({{"n", jbytes(j->name())}, {"y", jbytes(j->reading())}, {"g", js(toString(j->grade()))}}));
    }
    q.push_back(ja(w));
  }
  return ja(q);
}};
// gr.open <option, or nothing> <path> <content> ...: loads data for the reports below, which are what loading the groups and the words prints
Reg r3{"gr.open", [](const Fields& a) {
  ld = std::make_unique<Loaded>();
  const Dir dir{a, 2};
  const Str opt = unhex(a[1]);
  const char* argv[] = {"test", "-data", dir.path.c_str(), opt.c_str()};
  ld->data = std::make_shared<TextKanjiData>(kanji_tools::Args{static_cast<kanji_tools::Args::Size>(opt.empty() ? 3 : 4), argv}, ld->out, ld->err);
  ld->out.reset(); ld->err.reset();
  return js("loaded");
}};
template <typename T> Str report(const Fields& a) {
  const Dir dir{a, 1};
  const KanjiData::Path p = dir.path;
  ld->out.reset(); ld->err.reset();
  const T x{ld->data, &p};
  if (const auto e = ld->err.take(); !e.empty()) throw std::logic_error("errors: " + e);
  return js(ld->out.take());
}
Reg r4{"gr.report", report<GroupData>};
Reg r5{"ju.report", report<JukugoData>};
} // namespace
