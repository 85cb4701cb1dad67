// kana tables and the converter
#include "hx.h"
#include <kt_kana/Converter.h>
#include <kt_kana/Kana.h>
using namespace kanji_tools;
using namespace hx;
namespace {
CharType type(const Str& s) { return s == "Hiragana" ? CharType::Hiragana : s == "Katakana" ? CharType::Katakana : CharType::Romaji; }
constexpr std::array Types{CharType::Hiragana, CharType::Katakana, CharType::Romaji};
ConvertFlags flag(int i) { return static_cast<ConvertFlags>(i); }
const Kana* find(const Str& t, const Str& key) {
  auto& m{Kana::getMap(type(t))};
  const auto i{m.find(key)};
  return i == m.end() ? nullptr : i->second;
}
Str name(const Kana* k) { return js(k ? k->romaji() : Str{}); }
Str opt(const Kana::OptString& s) { return js(s.value_or("")); }
Str list(const std::vector<Str>& v) { std::vector<Str> r; for (auto& i : v) r.push_back(js(i)); return ja(r); }
Reg r1{"kn.map", [](const Args& a) {
  std::vector<Str> r;
  for (auto& i : Kana::getMap(type(a[1]))) r.push_back(ja({js(i.first), name(i.second)}));
  return ja(r);
}};
Reg r2{"kn.facts", [](const Args& a) {
  const auto* k{find(a[1], unhex(a[2]))};
  if (!k) return Str{"\"none\""};
  std::vector<Str> rom, dbl, get;
  for (int f = 0; f < 16; ++f) {
    rom.push_back(js(k->getRomaji(flag(f))));
    dbl.push_back(js(k->getSokuonRomaji(flag(f))));
    std::vector<Str> g;
    for (auto t : Types) g.push_back(js(k->get(t, flag(f))));
    get.push_back(ja(g));
  }
  std::vector<Str> d, h;
  for (auto t : Types) { d.push_back(opt(k->dakuten(t))); h.push_back(opt(k->hanDakuten(t))); }
  return jo({{"r", js(k->romaji())}, {"h", js(k->hiragana())}, {"k", js(k->katakana())}, {"var", list(k->romajiVariants())}, {"vk", jb(k->kunreiVariant())},
      {"rom", ja(rom)}, {"dbl", ja(dbl)}, {"get", ja(get)}, {"links", ja({name(k->dakuten()), name(k->hanDakuten()), name(k->plain())})},
      {"dak", ja(d)}, {"han", ja(h)}, {"is", ja({jb(k->isSmall()), jb(k->isMonograph()), jb(k->isDigraph()), jb(k->isDakuten()), jb(k->isHanDakuten())})}});
}};
Reg r3{"kn.same", [](const Args& a) {
  const auto *x{find("Romaji", a[1])}, *y{find("Romaji", a[2])};
  return ja({jb(*x == *y), jb(x->containsKana(y->hiragana())), jb(x->containsKana(y->katakana())), jb(x->containsKana(y->romaji()))});
}};
Reg r4{"kn.mark", [](const Args& a) { return ja({opt(Kana::findDakuten(unhex(a[1]))), opt(Kana::findHanDakuten(unhex(a[1])))}); }};
Str iter(const Kana::IterationMark* m) { return js(!m ? "" : m == &Kana::RepeatPlain ? "plain" : m == &Kana::RepeatAccented ? "accented" : "?"); }
Reg r5{"kn.iter", [](const Args& a) {
  const auto t{unhex(a[1])};
  std::vector<Str> r;
  for (auto c : Types) { r.push_back(iter(Kana::findIterationMark(c, t))); }
  for (auto m : {&Kana::RepeatPlain, &Kana::RepeatAccented}) for (auto c : Types) r.push_back(jb(m->matches(c, t)));
  return ja(r);
}};
Reg r6{"kn.repeat", [](const Args& a) {
  const auto& m{a[1] == "plain" ? Kana::RepeatPlain : Kana::RepeatAccented};
  return js(m.get(type(a[2]), flag(std::stoi(a[3])), a[4] == "-" ? nullptr : find("Romaji", a[4])));
}};
Reg r7{"kn.special", [](const Args&) {
  return ja({name(&Kana::SmallTsu), name(&Kana::N), js(Kana::RepeatPlain.hiragana()), js(Kana::RepeatPlain.katakana()),
      js(Kana::RepeatAccented.hiragana()), js(Kana::RepeatAccented.katakana()), js(Kana::ProlongMark)});
}};
// one converter with state
std::unique_ptr<Converter> conv;
Str state() { return ja({js(toString(conv->target())), ji(static_cast<int>(conv->flags())), js(conv->flagString())}); }
Reg c1{"cv.new", [](const Args& a) {
  conv = a[1] == "-" ? std::make_unique<Converter>() : a[2] == "-" ? std::make_unique<Converter>(type(a[1]))
                     : std::make_unique<Converter>(type(a[1]), flag(std::stoi(a[2])));
  return state();
}};
Reg c2{"cv.target", [](const Args& a) { conv->target(type(a[1])); return state(); }};
Reg c3{"cv.flags", [](const Args& a) { conv->flags(flag(std::stoi(a[1]))); return state(); }};
// cv.convert <source|-> <text> <target|-> <flags|->
Reg c4{"cv.convert", [](const Args& a) {
  const auto t{unhex(a[2])};
  Str r;
  if (a[3] == "-") r = a[1] == "-" ? conv->convert(t) : conv->convert(type(a[1]), t);
  else if (a[4] == "-") r = a[1] == "-" ? conv->convert(t, type(a[3])) : conv->convert(type(a[1]), t, type(a[3]));
  else r = a[1] == "-" ? conv->convert(t, type(a[3]), flag(std::stoi(a[4]))) : conv->convert(type(a[1]), t, type(a[3]), flag(std::stoi(a[4])));
  return ja({js(r), state()});
}};
} // namespace
