// the statistics report
#include "h2_data.h"
#include "h2_tree.h"
#include <kt_stats/Stats.h>
using namespace kanji_tools;
using namespace hx;
namespace {
// st.run <n> <n args, @ is the scratch directory> then its files; uses the data loaded last
Reg r1{"st.run", [](const Fields& a) {
  const auto n = std::stoul(a[1]);
  const Tree t{a, 2 + n};
  std::vector<Str> args{"stats"};
  for (size_t i = 0; i < n; ++i) { Str x = unhex(a[2 + i]); if (!x.empty() && x[0] == '@') x = t.p.string() + x.substr(1); args.push_back(x); }
  std::vector<const char*> v; for (auto& i : args) v.push_back(i.c_str());
  ld->out.reset(); ld->err.reset();
  try { Stats{kanji_tools::Args{static_cast<int>(v.size()), v.data()}, ld->data}; }
  catch (const DomainError& e) { ld->out.take(); throw DomainError{t.stable(e.what())}; }
  if (const auto e = ld->err.take(); !e.empty()) throw std::logic_error("stderr: " + e);
  return jbytes(ld->out.take());
}};
// st.order <count name> ...: every pair compared
Reg r2{"st.order", [](const Fields& a) {
  std::vector<Stats::Count> c;
  for (size_t i = 1; i + 1 < a.size(); i += 2) c.emplace_back(std::stoul(a[i]), unhex(a[i + 1]), ld->data->findByName(unhex(a[i + 1])));
  std::vector<Str> q;
  for (auto& i : c) { std::vector<Str> w; for (auto& j : c) w.push_back(jb(i < j)); q.push_back(ja(w)); }
  return ja(q);
}};
} // namespace
