// a scratch directory with files, directories, links and others; removed when it goes out of scope
#pragma once
#include "hx.h"
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
namespace hx {
struct Tree {
  char t[12] = "cntXXXXXX";
  std::filesystem::path p;
  // fields: <kind> <path> <content or link target> ...
  Tree(const Fields& a, size_t from) {
    namespace fs = std::filesystem;
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    p = t;
    for (size_t i = from; i + 2 < a.size(); i += 3) {
      const fs::path q = p / unhex(a[i + 1]);
      const Str c = unhex(a[i + 2]);
      if (a[i] == "d") fs::create_directories(q);
      else if (a[i] == "l") fs::create_symlink(c, q);
      else if (a[i] == "p") { if (mkfifo(q.c_str(), 0644)) throw std::runtime_error("mkfifo"); }
      else { std::ofstream(q, std::ios::binary) << c; if (a[i] == "r") fs::permissions(q, fs::perms::owner_read); }
    }
  }
  ~Tree() { std::error_code e; std::filesystem::remove_all(p, e); }
  Tree(const Tree&) = delete;
  // the text with the directory's (changing) name shown as @
  Str stable(Str m) const { for (size_t q; (q = m.find(t)) != Str::npos;) m.replace(q, strlen(t), "@"); return m; }
};
} // namespace hx
