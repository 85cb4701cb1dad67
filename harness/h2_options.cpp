// options and the search for the data directory
#include "h2_data.h"
#include <unistd.h>
using namespace kanji_tools;
using namespace hx;
namespace {
struct Probe : KanjiData {
  static Path dir(const kanji_tools::Args& a) { return getDataDir(a); }
  static DebugMode mode(const kanji_tools::Args& a) { return getDebugMode(a); }
  static const char* name(DebugMode m) { return m == DebugMode::Full ? "-debug" : m == DebugMode::Info ? "-info" : "none"; }
};
std::unique_ptr<Dir> tree;
const Str& root() { if (!tree) throw std::logic_error("no tree"); return tree->path; }
Str real(const Str& t) { Str r = t; if (r.substr(0, 1) == "@") r = root() + r.substr(1); return r; }
Str shown(Str t) { for (size_t i; (i = t.find(root())) != Str::npos;) t.replace(i, root().size(), "@"); return t; }
struct List { // arguments, fields from 'from'
  std::vector<Str> s; std::vector<const char*> p;
  List(const Fields& a, size_t from) { for (size_t i = from; i < a.size(); ++i) s.push_back(real(unhex(a[i]))); for (auto& i : s) p.push_back(i.c_str()); }
  kanji_tools::Args args() const { return kanji_tools::Args{static_cast<kanji_tools::Args::Size>(p.size()), p.empty() ? nullptr : p.data()}; }
};
struct In { // in a folder of the tree
  const fs::path old = fs::current_path();
  explicit In(const Str& p) { fs::current_path(real(p)); }
  ~In() { std::error_code e; fs::current_path(old, e); }
};
template <typename E> [[noreturn]] void again(const E& e) { throw E(shown(e.what())); }
// op.tree <number of folders> <folder> <number of .txt files in it> ... <file> ...
Reg r1{"op.tree", [](const Fields& a) {
  tree.reset(); tree = std::make_unique<Dir>(Fields{}, 0);
  const auto n = std::stoul(a[1]);
  for (size_t i = 0; i < n; ++i) {
    const fs::path p = real(unhex(a[2 + 2 * i]));
    fs::create_directories(p);
    for (size_t j = 0; j < std::stoul(a[3 + 2 * i]); ++j) std::ofstream(p / ("f" + std::to_string(j) + ".txt"));
    std::ofstream(p / "other.text"); std::ofstream(p / ".txt"); std::ofstream(p / "txt"); std::ofstream(p / "a.txt.bak");
  }
  for (size_t i = 2 + 2 * n; i < a.size(); ++i) std::ofstream(real(unhex(a[i])));
  for (auto p = fs::path(root()).parent_path(); ; p = p.parent_path()) { if (fs::exists(p / "data")) throw std::logic_error("a data directory above the scratch directory"); if (p == p.parent_path()) break; }
  return js("made");
}};
// op.dir <current folder> <argument> ...
Reg r2{"op.dir", [](const Fields& a) {
  const List l{a, 2};
  const In in{unhex(a[1])};
  try { return js(shown(fs::canonical(Probe::dir(l.args())).string())); }
  catch (const DomainError& e) { again(e); }
}};
Reg r3{"op.mode", [](const Fields& a) { return js(Probe::name(Probe::mode(List{a, 1}.args()))); }};
Reg r4{"op.own", [](const Fields& a) {
  const List l{a, 1};
  std::vector<Str> q;
  const auto args = l.args();
  for (auto i = KanjiData::nextArg(args); i < args.size(); i = KanjiData::nextArg(args, i)) { q.push_back(ju(i)); if (q.size() > l.s.size()) throw std::logic_error("endless"); }
  return ja(q);
}};
Reg r5{"op.next", [](const Fields& a) { const List l{a, 2}; return ju(KanjiData::nextArg(l.args(), static_cast<kanji_tools::Args::Size>(std::stoul(a[1])))); }};
// op.new <argc> <whether a list is given> <whether argc is an int>
Reg r6{"op.new", [](const Fields& a) {
  static const char* argv[] = {"a", nullptr};
  const auto l = a[2] == "1" ? argv : nullptr;
  const kanji_tools::Args x = a[3] == "1" ? kanji_tools::Args{std::stoi(a[1]), l} : kanji_tools::Args{static_cast<kanji_tools::Args::Size>(std::stoul(a[1])), l};
  if ((x ? true : false) != (x.size() != 0)) throw std::logic_error("bool");
  return js(std::to_string(x.size()));
}};
Reg r7{"op.at", [](const Fields& a) { const List l{a, 2}; return js(shown(l.args()[static_cast<kanji_tools::Args::Size>(std::stoul(a[1]))])); }};
} // namespace
