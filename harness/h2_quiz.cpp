// quiz sessions: arguments and input lines in, everything printed out
#include "h2_data.h"
#include <kt_quiz/GroupData.h>
#include <kt_quiz/JukugoData.h>
#include <kt_quiz/QuizLauncher.h>
using namespace kanji_tools;
using namespace hx;
namespace {
struct Lists { GroupDataPtr groups; JukugoDataPtr jukugo; };
std::unique_ptr<Lists> lists; // loaded last, with the data 'ld'
QuizLauncher::OptChar opt(const Str& h) { const auto s = unhex(h); return s.empty() ? QuizLauncher::OptChar{} : QuizLauncher::OptChar{s[0]}; }
// qz.lists <path> <content> ...: group files and compound words
Reg r1{"qz.lists", [](const Fields& a) {
  const Dir dir{a, 1};
  const KanjiData::Path p = dir.path;
  ld->out.reset(); ld->err.reset();
  auto q = std::make_unique<Lists>();
  q->groups = std::make_shared<GroupData>(ld->data, &p);
  q->jukugo = std::make_shared<JukugoData>(ld->data, &p);
  lists = std::move(q);
  return jo({{"out", js(ld->out.take())}, {"errs", strs(errors(ld->err.take()))}});
}};
// qz.run <input> <number of args> <arg> ... { <type> <list> <first> <show meanings> <randomize answers> } ...
Reg r2{"qz.run", [](const Fields& a) {
  std::istringstream in{unhex(a[1])};
  const auto n = std::stoul(a[2]);
  std::vector<Str> text{"kanjiQuiz"};
  std::vector<const char*> argv;
  for (size_t i = 0; i < n; ++i) text.push_back(unhex(a[3 + i]));
  for (auto& i : text) argv.push_back(i.c_str());
  argv.push_back(nullptr); // like argv of main
  ld->out.reset(); ld->err.reset();
  Str fail;
  try {
    QuizLauncher l{{static_cast<int>(text.size()), argv.data()}, ld->data, lists->groups, lists->jukugo, &in};
    for (size_t i = 3 + n; i + 4 < a.size(); i += 5)
      l.start(opt(a[i]), opt(a[i + 1]), static_cast<QuizLauncher::Question>(std::stoul(a[i + 2])), a[i + 3] == "1", a[i + 4] == "1");
  } catch (const DomainError& e) { fail = e.what(); }
  if (const auto e = ld->err.take(); !e.empty()) throw std::logic_error("errors: " + e);
  in.clear();
  Str rest{std::istreambuf_iterator<char>(in), {}};
  return jo({{"out", js(ld->out.take())}, {"fail", js(fail)}, {"rest", js(rest)}});
}};
} // namespace
