// choice prompts over a stream: state = one Choice, its input and output
#include "hx.h"
#include <kt_kana/Choice.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <termios.h>
#include <csignal>
#include <unistd.h>
using namespace kanji_tools;
using namespace hx;
namespace {
std::unique_ptr<std::istringstream> in;
Sink out;
std::unique_ptr<Choice> choice;
char chr(const Str& s) { return static_cast<char>(std::stoi(s)); }
Choice::OptChar opt(const Str& s) { if (s == "-") return {}; return chr(s); }
// ch.new <quit> <desc|*> <input>
Reg r1{"ch.new", [](const Args& a) {
  in = std::make_unique<std::istringstream>(unhex(a[3]));
  choice = std::make_unique<Choice>(out, in.get());
  out.reset();
  if (a[1] != "-") {
    if (a[2] == "*") choice = std::make_unique<Choice>(out, in.get(), opt(a[1]));
    else choice = std::make_unique<Choice>(out, in.get(), opt(a[1]), unhex(a[2]));
  }
  return Str{"0"};
}};
Reg r2{"ch.setquit", [](const Args& a) { if (a[2] == "*") choice->setQuit(chr(a[1])); else choice->setQuit(chr(a[1]), unhex(a[2])); return Str{"0"}; }};
Reg r3{"ch.clear", [](const Args&) { choice->clearQuit(); return Str{"0"}; }};
Reg r4{"ch.quit", [](const Args& a) {
  return jo({{"quit", choice->quit() ? ja({ji(*choice->quit())}) : Str{"[]"}}, {"desc", js(choice->quitDescription())}, {"is", jb(choice->isQuit(chr(a[1])))}});
}};
// ch.get <form> <first> <last> <msg> <useQuit> <def> <c> <desc> ...
Reg r5{"ch.get", [](const Args& a) {
  const Str msg = unhex(a[4]);
  const bool q = a[5] == "1", ranged = a[2] != "-";
  const auto def = opt(a[6]);
  const Choice::Range r{ranged ? chr(a[2]) : 'x', ranged ? chr(a[3]) : 'x'};
  Choice::Choices cs;
  for (size_t i = 7; i + 1 < a.size(); i += 2) cs[chr(a[i])] = unhex(a[i + 1]);
  out.reset();
  const Str res = wrap([&]() -> Str {
    // the shorter forms stand for the full one with the defaults left out
    const bool s = a[1] == "short";
    char x;
    if (ranged) {
      if (s && q && cs.empty() && !def) x = choice->get(r, msg);
      else if (s && q && cs.empty()) x = choice->get(r, msg, def);
      else if (s && q && !def) x = choice->get(r, msg, cs);
      else if (s && q) x = choice->get(r, msg, cs, def);
      else x = choice->get(r, msg, q, cs, def);
    } else {
      if (s && q && !def) x = choice->get(msg, cs);
      else if (s && q) x = choice->get(msg, cs, def);
      else if (s && !def) x = choice->get(msg, q, cs);
      else x = choice->get(msg, q, cs, def);
    }
    return ji(x);
  });
  return jo({{"res", res}, {"out", js(out.take())}});
}};
// ch.tty <keys> <quit> <msg> <def> <c> <desc> ...: the same through a terminal (a child reading a pseudo terminal); every key is
// typed when the prompt is complete; after the last one the terminal is hung up
struct FdBuf final : std::streambuf {
  int fd;
  explicit FdBuf(int f) : fd{f} {}
  std::streamsize xsputn(const char* p, std::streamsize n) final { return write(fd, p, static_cast<size_t>(n)); }
  int overflow(int c) final { const char x = static_cast<char>(c); return write(fd, &x, 1) == 1 ? c : -1; }
};
Reg r6{"ch.tty", [](const Args& a) -> Str {
  const Str keys = unhex(a[1]), msg = unhex(a[3]);
  Choice::Choices cs;
  for (size_t i = 5; i + 1 < a.size(); i += 2) cs[chr(a[i])] = unhex(a[i + 1]);
  const int m = posix_openpt(O_RDWR | O_NOCTTY);
  if (m < 0 || grantpt(m) || unlockpt(m)) throw std::logic_error("no pty");
  const int sl = open(ptsname(m), O_RDWR | O_NOCTTY);
  int p[2];
  if (sl < 0 || pipe(p)) throw std::logic_error("no pty");
  const pid_t pid = fork();
  if (!pid) {
    alarm(20);
    dup2(sl, 0); close(sl); close(m); close(p[0]);
    close(2);
    FdBuf b{p[1]};
    std::ostream o{&b};
    const Str res = wrap([&] { return ji(Choice{o, opt(a[2])}.get(msg, cs, opt(a[4]))); });
    o << '\0' << res << std::flush;
    struct termios t; // the terminal is left as it was found
    if (!tcgetattr(0, &t)) o << ((t.c_lflag & ICANON) && (t.c_lflag & ECHO) ? "T" : "F") << std::flush; else o << "-" << std::flush;
    _exit(0);
  }
  close(sl); close(p[1]);
  Str got;
  size_t k = 0, seen = 0;
  bool hung = false;
  char buf[4096];
  for (;;) {
    struct pollfd f{p[0], POLLIN, 0};
    if (poll(&f, 1, 15000) <= 0) break;
    const auto n = read(p[0], buf, sizeof buf);
    if (n <= 0 || got.size() > 1000000) break;
    got.append(buf, static_cast<size_t>(n));
    if (got.find('\0') == Str::npos && got.size() > seen && got.ends_with(": ")) {
      seen = got.size();
      if (k < keys.size()) { usleep(2000); if (write(m, &keys[k++], 1) != 1) break; }
      else if (!hung) { hung = true; usleep(20000); close(m); }
    }
  }
  kill(pid, SIGKILL);
  waitpid(pid, nullptr, 0);
  close(p[0]);
  if (!hung) close(m);
  const auto z = got.find('\0');
  if (z == Str::npos) return jo({{"res", js("no answer")}, {"out", js(got.substr(0, 300))}});
  const char mode = got.back();
  return jo({{"res", got.substr(z + 1, got.size() - z - 2)}, {"out", js(got.substr(0, z))}, {"term", jb(mode != 'F')}});
}};
} // namespace
