// column files
#include "hx.h"
#include <kt_utils/ColumnFile.h>
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace kanji_tools;
using namespace hx;
namespace {
std::unique_ptr<ColumnFile> file;
std::map<Str, std::unique_ptr<ColumnFile::Column>> columns;
ColumnFile::Column& col(const Str& n) {
  auto& c = columns[n];
  if (!c) c = std::make_unique<ColumnFile::Column>(n);
  const ColumnFile::Column again{n};
  if (!(again == *c) || again.name() != n) throw std::logic_error("column identity");
  return *c;
}
Str u(uint64_t x) { return js(std::to_string(x)); }
template <typename O> Str o(const O& x) { return x ? u(*x) : js("none"); }
// cf.open <name> <file|dir|missing> <content> <delim> <columns...>
Reg r1{"cf.open", [](const Args& a) {
  const Str name = unhex(a[1]), text = unhex(a[3]), delim = unhex(a[4]);
  ColumnFile::Columns cs;
  for (size_t i = 5; i < a.size(); ++i) cs.push_back(col(unhex(a[i])));
  if (a[2] == "readonly") {
    // a file the (unprivileged) reader may read but not write
    char dir[] = "/tmp/ktroXXXXXX";
    if (!mkdtemp(dir)) throw std::logic_error("mkdtemp");
    const Str path = Str{dir} + '/' + name;
    std::ofstream(path, std::ios::binary) << text;
    chmod(dir, 0755); chmod(path.c_str(), 0444);
    struct Undo { const Str& f; const char* d; Undo(const Str& x, const char* y) : f{x}, d{y} { (void)!seteuid(65534); } ~Undo() { (void)!seteuid(0); unlink(f.c_str()); rmdir(d); } };
    std::unique_ptr<ColumnFile> f;
    { const Undo undo{path, dir}; f = std::make_unique<ColumnFile>(path, cs, delim[0]); }
    file = std::move(f);
    return ju(file->columns());
  }
  if (a[2] == "dir") std::filesystem::create_directory(name);
  if (a[2] == "file") std::ofstream(name, std::ios::binary) << text;
  struct Rm { const Str& n; ~Rm() { std::filesystem::remove(n); } } rm{name};
  auto f = delim == "\t" ? std::make_unique<ColumnFile>(name, cs) : std::make_unique<ColumnFile>(name, cs, delim[0]);
  file = std::move(f);
  return ju(file->columns());
}};
Reg r2{"cf.col", [](const Args& a) { return js(col(unhex(a[1])).name()); }};
Reg r3{"cf.next", [](const Args&) { const bool b = file->nextRow(); return ja({jb(b), ju(file->currentRow())}); }};
Reg r4{"cf.info", [](const Args&) { return ja({ju(file->columns()), ju(file->currentRow()), js(file->fileName())}); }};
Reg r5{"cf.get", [](const Args& a) {
  const Str& k = a[1];
  const auto& c = col(unhex(a[2]));
  const uint64_t max = std::stoull(a[3]);
  if (k == "get") return js(file->get(c));
  if (k == "empty") return jb(file->isEmpty(c));
  if (k == "u64") return max ? u(file->getU64(c, max)) : u(file->getU64(c));
  if (k == "ou64") return max ? o(file->getOptU64(c, max)) : o(file->getOptU64(c));
  if (k == "u8") return u(file->getU8(c));
  if (k == "u16") return u(file->getU16(c));
  if (k == "ou8") return o(file->getOptU8(c));
  if (k == "ou16") return o(file->getOptU16(c));
  if (k == "bool") return jb(file->getBool(c));
  if (k == "code") { const auto x = file->getChar32(c); if (file->getChar32(c, file->get(c)) != x) throw std::logic_error("forms differ"); return ju(x); }
  throw std::logic_error("bad kind");
}};
} // namespace
