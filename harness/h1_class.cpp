// character class predicates
#include "hx.h"
#include <kt_utils/BlockRange.h>
#include <kt_utils/UnicodeBlock.h>
using namespace kanji_tools;
using namespace hx;
namespace {
using P = bool (*)(const Str&, bool);
using Q = bool (*)(const Str&);
const P One[]{isKana, isHiragana, isKatakana, isKanji, isCommonKanji, isRareKanji, isMBSymbol, isMBLetter, isRecognizedUtf8};
const Q All[]{isAllKana, isAllHiragana, isAllKatakana, isAllKanji, isAllCommonKanji, isAllRareKanji, isAllMBSymbol, isAllMBLetter,
    isAllRecognizedUtf8, isAllMBPunctuation};
Reg r1{"cls", [](const Args& a) {
  const Str s = unhex(a[1]);
  std::vector<Str> o, f, p, l;
  for (auto i : One) { o.push_back(jb(i(s, true))); f.push_back(jb(i(s, false))); }
  for (auto one : {true, false}) for (auto sp : {false, true}) p.push_back(jb(isMBPunctuation(s, sp, one)));
  for (auto i : All) l.push_back(jb(i(s)));
  return jo({{"one", ja(o)}, {"first", ja(f)}, {"p", ja(p)}, {"all", ja(l)}});
}};
// independent encoder
Str enc(uint32_t c) {
  Str r;
  if (c < 0x80) r += char(c);
  else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
  else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
  return r;
}
// ranges <predicate> <form>: code points for which it holds, as ranges
Reg r2{"ranges", [](const Args& a) {
  static const std::map<Str, int> idx{{"kana", 0}, {"hiragana", 1}, {"katakana", 2}, {"kanji", 3}, {"common", 4}, {"rare", 5}, {"symbol", 6}, {"letter", 7}, {"recognized", 8}};
  const auto form = std::stoi(a[2]); // 0 one char, 1 first char, 2 all, 3 one char + selector, 4 first char + more
  std::function<bool(const Str&, uint32_t)> f;
  const auto i = idx.find(a[1]);
  if (a[1] == "nonspacing") f = [](const Str&, uint32_t c) { return isNonSpacing(c); };
  else if (a[1] == "punct" || a[1] == "punctspace") {
    const bool sp = a[1] == "punctspace";
    f = [=](const Str& s, uint32_t) {
      return form == 0 ? isMBPunctuation(s, sp) : form == 1 ? isMBPunctuation(s, sp, false) : form == 2 ? isAllMBPunctuation(s) : isMBPunctuation(s + "x", sp, false);
    };
  } else f = [=](const Str& s, uint32_t) {
    const auto p = One[i->second];
    return form == 0 ? p(s, true) : form == 1 ? p(s, false) : form == 2 ? All[i->second](s) : form == 3 ? p(s + "\xef\xb8\x80", true) : p(s + "x", false);
  };
  std::vector<Str> r;
  uint32_t start = 0;
  bool in = false;
  for (uint32_t c = 1; c <= 0x110000; ++c) {
    if (c >= 0xd800 && c <= 0xdfff) continue;
    const bool v = c < 0x110000 && f(enc(c), c);
    if (v && !in) start = c;
    if (!v && in) r.push_back(ja({ju(start), ju(c - 1)}));
    in = v;
  }
  return ja(r);
}};
// what a block says about itself: limits, size, membership at its limits, Unicode version and printed forms
Str about(const UnicodeBlock& b) {
  std::ostringstream o, v;
  o << b;
  if (b.version()) v << *b.version();
  const auto d = b.version() ? b.version()->date() : std::chrono::year_month{std::chrono::year{0}, std::chrono::month{0}};
  return jo({{"name", js(Str{b.name()})}, {"start", ju(b.start())}, {"end", ju(b.end())}, {"range", ju(b.range())},
      {"in", ja({jb(b(b.start() - 1)), jb(b(b.start())), jb(b(b.start() + b.range() / 2)), jb(b(b.end())), jb(b(b.end() + 1))})},
      {"w", ja({ju(static_cast<uint32_t>(b.wStart())), ju(static_cast<uint32_t>(b.wEnd()))})},
      {"ver", js(b.version() ? Str{b.version()->version()} : Str{})}, {"y", ji(int(d.year()))}, {"m", ju(static_cast<unsigned>(d.month()))},
      {"text", js(o.str())}, {"vtext", js(v.str())}});
}
template <size_t N> Str about(const std::array<UnicodeBlock, N>& t) {
  std::vector<Str> r;
  for (auto& i : t) r.push_back(about(i));
  return ja(r);
}
constexpr auto B1{makeBlock<0x80>()}, B2{makeBlock<0x10ffff>()};
constexpr auto B3{makeBlock<0x9999, 0x10000>()}, B4{makeBlock<0xabc, 0x1234>()};
Reg r3{"blocks", [](const Args& a) -> Str {
  const auto& n = a[1];
  if (n == "hiragana") return about(HiraganaBlocks);
  if (n == "katakana") return about(KatakanaBlocks);
  if (n == "kana") return ja({about(CommonKanaBlock)});
  if (n == "common") return about(CommonKanjiBlocks);
  if (n == "rare") return about(RareKanjiBlocks);
  if (n == "punct") return about(PunctuationBlocks);
  if (n == "symbol") return about(SymbolBlocks);
  if (n == "letter") return about(LetterBlocks);
  if (n == "nonspacing") return about(NonSpacingBlocks);
  return ja({about(B1), about(B2), about(B3), about(B4)});
}};
// every position of a range (and those past its end)
template <typename T> Str positions(const T& t) {
  std::vector<Str> r, w;
  for (auto i = t(); *i; ++i) w.push_back(ju(static_cast<uint32_t>(*i)));
  for (size_t i = 0; i < t.size() + 5; ++i) r.push_back(wrap([&] { return ju(static_cast<uint32_t>(t[i])); }));
  r.push_back(wrap([&] { return ju(static_cast<uint32_t>(t[std::numeric_limits<size_t>::max()])); }));
  return jo({{"size", ju(t.size())}, {"w", ja(w)}, {"at", ja(r)}});
}
Reg r4{"brange", [](const Args& a) -> Str {
  const auto& n = a[1];
  return n == "kanji" ? positions(KanjiRange) : n == "wide" ? positions(WideLetterRange) : n == "hiragana" ? positions(HiraganaRange)
       : n == "katakana" ? positions(KatakanaRange) : positions(KanaRange);
}};
} // namespace
