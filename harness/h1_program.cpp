// the kana converter program and tables
#include "hx.h"
#include <kt_kana/KanaConvert.h>
#include <kt_kana/Table.h>
using namespace kanji_tools;
using namespace hx;
namespace {
// kc.run <input> <arg>...
Reg r1{"kc.run", [](const hx::Args& a) {
  std::vector<Str> s{"kanaConvert"};
  for (size_t i = 2; i < a.size(); ++i) s.push_back(unhex(a[i]));
  std::vector<const char*> v;
  for (auto& i : s) v.push_back(i.c_str());
  std::istringstream in{unhex(a[1])};
  Sink out;
  Str err;
  try { KanaConvert{kanji_tools::Args{static_cast<int>(v.size()), v.data()}, out, &in}; }
  catch (const DomainError& e) { err = e.what(); }
  return jo({{"out", js(out.take())}, {"err", js(err)}});
}};
std::unique_ptr<Table> table;
Table::Row row(const hx::Args& a, size_t i) { Table::Row w; for (; i < a.size(); ++i) w.push_back(unhex(a[i])); return w; }
// tb.new <count> <cell>... / tb.add <section> <cell>... / tb.print <odd> / tb.md
Reg t1{"tb.new", [](const hx::Args& a) { table = std::make_unique<Table>(row(a, 2), a[1] == "1"); return Str{"[]"}; }};
Reg t2{"tb.add", [](const hx::Args& a) { table->add(row(a, 2), a[1] == "1"); return Str{"[]"}; }};
Reg t3{"tb.print", [](const hx::Args& a) {
  Sink out;
  if (a[1] == "1") out << std::right << std::hex << std::showbase;
  if (a[1] == "1") out.fill('*');
  table->print(out);
  return jbytes(out.take());
}};
Reg t4{"tb.md", [](const hx::Args& a) {
  Sink out;
  if (a[1] == "1") out << std::right;
  table->printMarkdown(out);
  return jbytes(out.take());
}};
} // namespace
