// counting characters of strings, files and directories
#include "h2_tree.h"
#include <kt_stats/Utf8Count.h>
#include <kt_utils/UnicodeBlock.h>
using namespace kanji_tools;
using namespace hx;
namespace {
Sink debug;
std::unique_ptr<Utf8Count> cnt;
bool pred(const Str& f, const Str& t) {
  if (f == "hiragana") return isHiragana(t);
  if (f == "katakana") return isKatakana(t);
  if (f == "kanji") return isKanji(t);
  if (f == "common") return isCommonKanji(t);
  if (f == "rare") return isRareKanji(t);
  if (f == "punct") return isMBPunctuation(t);
  if (f == "symbol") return isMBSymbol(t);
  if (f == "letter") return isMBLetter(t);
  if (f == "unrecognized") return !isRecognizedUtf8(t);
  throw std::logic_error("filter");
}
Str state(size_t added) {
  std::vector<Str> m, t;
  for (auto& i : cnt->map()) {
    if (cnt->count(i.first) != i.second) throw std::logic_error("count");
    m.push_back(ja({jbytes(i.first), ju(i.second)}));
    if (const auto q = cnt->tags(i.first)) for (auto& j : *q) t.push_back(ja({jbytes(i.first), jbytes(j.first), ju(j.second)}));
  }
  if (cnt->count("no such") || cnt->tags("no such") || m.size() != cnt->uniqueEntries()) throw std::logic_error("entries");
  return jo({{"added", ju(added)}, {"map", ja(m)}, {"tags", ja(t)}, {"files", ju(cnt->files())}, {"dirs", ju(cnt->directories())}, {"repl", ju(cnt->replacements())}, {"last", jbytes(cnt->lastReplaceTag())},
      {"err", ju(cnt->errors())}, {"var", ju(cnt->variants())}, {"comb", ju(cnt->combiningMarks())}, {"debug", jbytes(debug.take())}});
}
// cnt.new <find 0/1> <filter or all> <debug 0/1>
Reg r1{"cnt.new", [](const Fields& a) {
  const Utf8Count::OptRegex find = a[1] == "1" ? Utf8Count::OptRegex{Utf8Count::RemoveFurigana} : std::nullopt;
  const auto d = a[3] == "1" ? &debug : nullptr;
  debug.take();
  const Str f = a[2];
  if (f == "all") cnt = std::make_unique<Utf8Count>(find, Utf8Count::DefaultReplace, d);
  else {
    auto p = [f](const Str& t) { return pred(f, t); };
    cnt = std::make_unique<Utf8CountIf<decltype(p)>>(p, find, Utf8Count::DefaultReplace, d);
  }
  return state(0);
}};
Reg r2{"cnt.add", [](const Fields& a) { return state(cnt->add(unhex(a[1]), a[2] == "1" ? Utf8Count::OptString{unhex(a[3])} : std::nullopt)); }};
// cnt.file <tag> <names> <recurse> <path to count> then <kind> <path> <content or link target> ... below a scratch directory
Reg r3{"cnt.file", [](const Fields& a) {
  const Tree t{a, 5};
  try { return state(cnt->addFile((t.p / unhex(a[4])).string(), a[1] == "1", a[2] == "1", a[3] == "1")); }
  catch (const DomainError& e) { throw DomainError{t.stable(e.what())}; }
}};
} // namespace
