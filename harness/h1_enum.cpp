// enum lists, maps, iterators, bitmasks, symbols
#include "hx.h"
#include <kt_utils/Bitmask.h>
#include <kt_utils/EnumList.h>
#include <kt_utils/EnumMap.h>
#include <kt_utils/Symbol.h>
#include <utility>
using namespace kanji_tools;
using namespace hx;

namespace kanji_tools {
enum class L1 : Enum::Size { A };
enum class L3 : Enum::Size { A, B, C };
enum class L130 : Enum::Size { A };
enum class N2 : Enum::Size { A, B, None };
enum class N1 : Enum::Size { A, None };
enum class M1 : Enum::Size { A, None };
enum class M3 : Enum::Size { A, B, C, None };
enum class M250 : Enum::Size { A, None = 250 };
enum class Life : Enum::Size { A, B, C };
enum class LifeN : Enum::Size { A, B, None };
enum class Mask : Enum::Size { None };
template <> inline constexpr auto is_enumlist<L1>{true};
template <> inline constexpr auto is_enumlist<L3>{true};
template <> inline constexpr auto is_enumlist<L130>{true};
template <> inline constexpr auto is_enumlist_with_none<N2>{true};
template <> inline constexpr auto is_enumlist_with_none<N1>{true};
template <> inline constexpr auto is_enumlist<Life>{true};
template <> inline constexpr auto is_enumlist_with_none<LifeN>{true};
template <> inline constexpr auto is_bitmask<Mask>{true};
} // namespace kanji_tools

namespace {
Str nm(size_t i) { return "x" + std::to_string(i + 1); }
template <typename T, size_t... I> auto make(std::index_sequence<I...>) { return BaseEnumList<T>::create(nm(I)...); }
const auto l1{make<L1>(std::make_index_sequence<1>{})};
const auto l3{make<L3>(std::make_index_sequence<3>{})};
const auto l130{make<L130>(std::make_index_sequence<130>{})};
const auto n2{make<N2>(std::make_index_sequence<2>{})};
const auto n1{make<N1>(std::make_index_sequence<1>{})};

struct Box {
  virtual ~Box() = default;
  virtual Str op(const Args&) = 0;
  virtual Str pos() = 0;
};
long long num(const Str& s) { return std::stoll(s); }
Str six(bool a, bool b, bool c, bool d, bool e, bool f) { return ja({jb(a), jb(b), jb(c), jb(d), jb(e), jb(f)}); }

// operations common to list and map iterators; V renders *it, P the position
template <typename It, typename V, typename P> Str itOp(const Args& a, std::vector<It>& r, V val, P pos) {
  const Str& o = a[1];
  auto& i = r[num(a[2]) - 1];
  if (o == "copy") { i = r[num(a[3]) - 1]; return "0"; }
  if (o == "inc") { auto& x = ++i; if (&x != &i) throw std::logic_error("not self"); return ji(pos(x)); }
  if (o == "dec") { auto& x = --i; if (&x != &i) throw std::logic_error("not self"); return ji(pos(x)); }
  if (o == "incp") return ji(pos(i++));
  if (o == "decp") return ji(pos(i--));
  if (o == "add") { auto& x = i += num(a[3]); if (&x != &i) throw std::logic_error("not self"); return ji(pos(x)); }
  if (o == "sub") { auto& x = i -= num(a[3]); if (&x != &i) throw std::logic_error("not self"); return ji(pos(x)); }
  if (o == "plus") return ji(pos(i + num(a[3])));
  if (o == "minus") return ji(pos(i - num(a[3])));
  if (o == "at") return val(i[num(a[3])]);
  if (o == "deref") return val(*i);
  auto& q = r[num(a[3]) - 1];
  if (o == "diff") return ji(i - q);
  if (o == "cmp") return six(i == q, i != q, i < q, i <= q, i > q, i >= q);
  throw std::logic_error("bad op");
}

template <typename T, typename L> struct ListBox final : Box {
  const L& l;
  using It = decltype(l.begin());
  std::vector<It> r{3};
  explicit ListBox(const L& x) : l{x} {}
  static long long under(T x) { return to_underlying(x); }
  long long p(const It& i) { return i - l.begin(); }
  Str pos() final { return ja({ji(p(r[0])), ji(p(r[1])), ji(p(r[2]))}); }
  Str op(const Args& a) final {
    const Str& o = a[1];
    if (o == "begin") { r[num(a[2]) - 1] = l.begin(); return "0"; }
    if (o == "end") { r[num(a[2]) - 1] = l.end(); return "0"; }
    if (o == "def") { r[num(a[2]) - 1] = It{}; return "0"; }
    if (o == "size") return ju(l.size());
    if (o == "all") { std::vector<Str> v; for (auto i : l) v.push_back(ji(under(i))); return ja(v); }
    if (o == "index") {
      const Str &t = a[2], &s = a[3];
      if (t == "int") return ji(under(l[static_cast<int>(num(s))]));
      if (t == "long") return ji(under(l[static_cast<long>(num(s))]));
      if (t == "i8") return ji(under(l[static_cast<int8_t>(num(s))]));
      if (t == "u8") return ji(under(l[static_cast<uint8_t>(num(s))]));
      if (t == "u16") return ji(under(l[static_cast<uint16_t>(num(s))]));
      return ji(under(l[static_cast<size_t>(std::stoull(s))]));
    }
    if (o == "name") {
      const auto x = to_enum<T>(num(a[2]));
      const Str n = l.toString(x);
      std::ostringstream os; os << x;
      if (toString(x) != n || os.str() != n) throw std::logic_error("toString forms differ");
      return js(n);
    }
    if (o == "from") {
      const Str t = unhex(a[3]);
      if (a[2] == "plain") { const auto x = l.fromString(t); if (BaseEnumList<T>::instance().fromString(t) != x) throw std::logic_error("instance differs"); return ji(under(x)); }
      if constexpr (enumlist_with_none<T>)
        return ji(under(a[2] == "empty" ? l.fromStringAllowEmpty(t) : a[2] == "none" ? l.fromStringAllowNone(t) : l.fromStringAllowEmptyAndNone(t)));
    }
    if (o == "has") {
      const auto x = to_enum<T>(num(a[2]));
      if constexpr (enumlist_with_none<T>) return ja({jb(hasValue(x)), jb(!x), jb(isNextNone(x))});
    }
    return itOp(a, r, [](T x) { return ji(under(x)); }, [this](const It& i) { return p(i); });
  }
};

template <typename T> struct MapBox final : Box {
  using M = EnumMap<T, int>;
  M ma, mb;
  using It = typename M::ConstIterator;
  std::vector<It> r{3};
  // position relative to the map it belongs to, or to a default constructed iterator
  long long p(It i) {
    return i - base(i);
  }
  It base(const It& i) {
    for (auto b : {It{}, ma.begin(), mb.begin()}) try { (void)(i == b); return b; } catch (const DomainError&) {}
    throw std::logic_error("no base");
  }
  M& map(const Str& n) { return n == "a" ? ma : mb; }
  Str pos() final { return ja({ji(p(r[0])), ji(p(r[1])), ji(p(r[2]))}); }
  Str op(const Args& a) final {
    const Str& o = a[1];
    if (o == "begin") { r[num(a[2]) - 1] = map(a[3]).begin(); return "0"; }
    if (o == "end") { r[num(a[2]) - 1] = map(a[3]).end(); return "0"; }
    if (o == "def") { r[num(a[2]) - 1] = It{}; return "0"; }
    if (o == "size") return ju(ma.size());
    if (o == "all") { std::vector<Str> v; for (auto& i : map(a[2])) v.push_back(ji(i)); return ja(v); }
    if (o == "set") { map(a[2])[to_enum<T>(num(a[3]))] = static_cast<int>(num(a[4])); return "0"; }
    if (o == "get") { const auto x = to_enum<T>(num(a[3])); return ji(a[4] == "const" ? std::as_const(map(a[2]))[x] : map(a[2])[x]); }
    return itOp(a, r, [](const int& x) { return ji(x); }, [this](const It& i) { return p(i); });
  }
};

std::unique_ptr<Box> box;
Reg r0{"en.new", [](const Args& a) {
  const Str& k = a[1];
  if (k == "L1") box = std::make_unique<ListBox<L1, decltype(l1)>>(l1);
  if (k == "L3") box = std::make_unique<ListBox<L3, decltype(l3)>>(l3);
  if (k == "L130") box = std::make_unique<ListBox<L130, decltype(l130)>>(l130);
  if (k == "N1") box = std::make_unique<ListBox<N1, decltype(n1)>>(n1);
  if (k == "N2") box = std::make_unique<ListBox<N2, decltype(n2)>>(n2);
  if (k == "M1") box = std::make_unique<MapBox<M1>>();
  if (k == "M3") box = std::make_unique<MapBox<M3>>();
  if (k == "M250") box = std::make_unique<MapBox<M250>>();
  return Str{"0"};
}};
Reg r1{"en", [](const Args& a) { const Str x = wrap([&] { return box->op(a); }); return jo({{"x", x}, {"pos", box->pos()}}); }};
Reg r2{"mask", [](const Args& a) {
  const auto x = to_enum<Mask>(num(a[1])), y = to_enum<Mask>(num(a[2]));
  auto u = [](Mask m) { return ju(to_underlying(m)); };
  auto p = x, q = x, r = x;
  p &= y; q |= y; r ^= y;
  if (p != (x & y) || q != (x | y) || r != (x ^ y)) throw std::logic_error("assignment differs");
  return jo({{"and", u(x & y)}, {"or", u(x | y)}, {"xor", u(x ^ y)}, {"not", u(~x)}, {"has", jb(hasValue(x))}, {"nothas", jb(!x)}});
}};

// life cycle of the list registered for an enum type
struct LifeBase { virtual ~LifeBase() = default; };
template <typename L> struct Held final : LifeBase { L l; template <typename... A> explicit Held(A... a) : l(BaseEnumList<Life>::create(a...)) {} };
template <typename L> struct HeldN final : LifeBase { L l; template <typename... A> explicit HeldN(A... a) : l(BaseEnumList<LifeN>::create(a...)) {} };
std::unique_ptr<LifeBase> life, lifeN;
Reg r3{"life", [](const Args& a) {
  const Str& o = a[1];
  const bool n = a[2] == "n";
  auto& h = n ? lifeN : life;
  if (o == "reset" || o == "destroy") { h.reset(); return Str{"0"}; }
  if (o == "created") return jb(n ? BaseEnumList<LifeN>::isCreated() : BaseEnumList<Life>::isCreated());
  if (o == "create") {
    std::unique_ptr<LifeBase> t;
    if (n) t = std::make_unique<HeldN<EnumListWithNone<LifeN, 2>>>(unhex(a[3]), unhex(a[4]));
    else t = std::make_unique<Held<EnumList<Life, 3>>>(unhex(a[3]), unhex(a[4]), unhex(a[5]));
    h = std::move(t);
    return Str{"0"};
  }
  if (o == "find") return ju(n ? to_underlying(BaseEnumList<LifeN>::instance().fromString(unhex(a[3]))) : to_underlying(BaseEnumList<Life>::instance().fromString(unhex(a[3]))));
  if (o == "str") return js(n ? toString(to_enum<LifeN>(num(a[3]))) : toString(to_enum<Life>(num(a[3]))));
  throw std::logic_error("bad op");
}};

// symbols of many types (a session uses types of its own); "sym.fill" adds prefix0..prefix(k-1)
template <size_t N> struct Sym final : Symbol<Sym<N>> { using Symbol<Sym>::Symbol; inline static const Str Type{"Type" + std::to_string(N)}; };
template <typename S> Str symShow(const S& s) {
  std::ostringstream os; os << s;
  if (os.str() != s.name()) throw std::logic_error("stream differs");
  return jo({{"id", ju(s.id())}, {"name", js(s.name())}, {"b", jb(static_cast<bool>(s))}, {"size", ju(S::size())}, {"type", js(S::type())}});
}
template <typename S> Str symOp(const Args& a) {
  const Str& o = a[1];
  const Str n = a.size() > 3 ? unhex(a[3]) : "";
  if (o == "new") return symShow(S{n});
  if (o == "empty") return symShow(S{});
  if (o == "exists") return jb(S::exists(n));
  if (o == "eq") {
    const S x{n}, y{unhex(a[4])};
    return ja({jb(x == y), jb(x != y)});
  }
  if (o == "fill") {
    const auto k = num(a[4]);
    bool ok = true;
    for (long long i = 0; i < k; ++i) { const auto c = S::size(); ok = S{n + std::to_string(i)}.id() == c + 1 && ok; }
    return jo({{"ok", jb(ok)}, {"size", ju(S::size())}});
  }
  throw std::logic_error("bad op");
}
template <size_t... I> auto symTable(std::index_sequence<I...>) { return std::vector<Str (*)(const Args&)>{&symOp<Sym<I>>...}; }
const auto symTypes{symTable(std::make_index_sequence<64>{})};
Reg r4{"sym", [](const Args& a) { return symTypes.at(num(a[2]))(a); }};
} // namespace
