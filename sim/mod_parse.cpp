// C02: parsing never depends on bytes outside the given text.
// C03: text survives storage: write -> crash/short write -> parse.
#include "sim.h"
#include "val.h"

#include <cmath>
#include <cstdlib>
#include <iterator>
#include <memory>
#include <optional>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string_view>
#include <sys/mman.h>
#include <vector>

#include <vecmath/mat_io.h>
#include <vecmath/vec_io.h>

namespace {
using namespace sim;

// ---------------------------------------------------------------- results
struct Parsed { // canonical form of whatever a parse function produced
  bool present = false;
  std::vector<double> v;
  bool operator==(const Parsed& o) const {
    if (present != o.present || v.size() != o.v.size()) {
      return false;
    }
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (!sameBits(v[i], o.v[i])) {
        return false;
      }
    }
    return true;
  }
  std::string text() const {
    std::string s = present ? "[" : "nothing[";
    for (auto d : v) {
      s += str(d) + " ";
    }
    return s + "]";
  }
};

// output iterator of parse_all: yields to the scheduler at each delivery
template <typename V> struct CollectIt {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  std::vector<V>* to;
  CollectIt& operator=(const V& v) {
    yield(K_OUT, 0);
    to->push_back(v);
    return *this;
  }
  CollectIt& operator*() { return *this; }
  CollectIt& operator++() { return *this; }
  CollectIt& operator++(int) { return *this; }
};

template <typename T, std::size_t S> Parsed pVec(std::string_view s) {
  Parsed r;
  if (const auto o = vm::parse<T, S>(s)) {
    r.present = true;
    for (std::size_t i = 0; i < S; ++i) {
      r.v.push_back(double(o->v[i]));
    }
  }
  return r;
}
template <typename T, std::size_t RR, std::size_t CC> Parsed pMat(std::string_view s) {
  Parsed r;
  if (const auto o = vm::parse<T, RR, CC>(s)) {
    r.present = true;
    for (std::size_t i = 0; i < RR; ++i) {
      for (std::size_t j = 0; j < CC; ++j) {
        r.v.push_back(double(o->v[j].v[i]));
      }
    }
  }
  return r;
}
template <typename T, std::size_t S> Parsed pAll(std::string_view s) {
  Parsed r;
  std::vector<vm::vec<T, S>> out;
  vm::parse_all<T, S>(s, CollectIt<vm::vec<T, S>>{&out});
  r.present = true;
  for (auto& v : out) {
    for (std::size_t i = 0; i < S; ++i) {
      r.v.push_back(double(v.v[i]));
    }
  }
  return r;
}

constexpr u32 kParsers = 28;
Parsed parseWith(u32 k, std::string_view s) {
  switch (k % kParsers) {
    case 0: return pVec<double, 3>(s);
    case 1: return pVec<double, 1>(s);
    case 2: return pVec<double, 2>(s);
    case 3: return pVec<double, 4>(s);
    case 4: return pVec<float, 3>(s);
    case 5: return pVec<float, 2>(s);
    case 6: return pMat<double, 2, 2>(s);
    case 7: return pMat<double, 3, 3>(s);
    case 8: return pMat<double, 4, 4>(s);
    case 9: return pMat<float, 2, 2>(s);
    case 10: return pMat<double, 2, 3>(s);
    case 11: return pMat<double, 3, 2>(s);
    case 12: return pAll<double, 3>(s);
    case 13: return pAll<double, 1>(s);
    case 14: return pAll<float, 2>(s);
    case 15: return pAll<double, 2>(s);
    case 16: return pVec<int, 3>(s);
    case 17: return pVec<double, 5>(s);
    case 18: return pVec<float, 4>(s);
    case 19: return pMat<float, 4, 4>(s);
    case 20: return pMat<double, 1, 4>(s);
    case 21: return pMat<double, 5, 5>(s);
    case 22: return pAll<int, 3>(s);
    case 23: return pAll<double, 4>(s);
    case 24: return pAll<float, 3>(s);
    case 25: return pVec<float, 1>(s);
    case 26: return pMat<float, 3, 3>(s);
    default: return pAll<double, 6>(s);
  }
}
u32 wantTokens(u32 k) {
  static const u32 n[kParsers] = {3, 1, 2, 4, 3, 2, 4, 9, 16, 4, 6, 6, 3, 1, 2, 2, 3, 5, 4, 16, 4, 25, 3, 4, 3, 1, 9, 6};
  return n[k % kParsers];
}

std::string numberToken(Rng& r) {
  char b[64];
  const double d = anyDouble(r, false);
  switch (r.below(8)) {
    case 0: snprintf(b, sizeof b, "%.17g", d); break;
    case 1: snprintf(b, sizeof b, "%.3f", modDouble(r)); break;
    case 2: snprintf(b, sizeof b, "%d", int(r.below(2000)) - 1000); break;
    case 3: snprintf(b, sizeof b, "%.9e", modDouble(r)); break;
    case 4: snprintf(b, sizeof b, "%d.", int(r.below(100))); break;
    case 5: snprintf(b, sizeof b, ".%d", int(r.below(1000))); break;
    case 6: snprintf(b, sizeof b, "%d", int(r.below(10))); break;
    default: snprintf(b, sizeof b, "%g", modDouble(r)); break;
  }
  return b;
}
std::string longToken(Rng& r) { // more digits than any fixed buffer expects
  std::string s;
  if (r.below(4) == 0) {
    s += '-';
  }
  const u64 lead = r.below(3) == 0 ? r.below(200) : 1;
  for (u64 i = 0; i < lead; ++i) {
    s += r.below(4) ? char('0' + r.below(10)) : '0';
  }
  s += '.';
  const u64 tail = r.below(200);
  for (u64 i = 0; i < tail; ++i) {
    s += char('0' + r.below(10));
  }
  if (r.below(3) == 0) {
    s += "e-" + std::to_string(r.below(300));
  }
  return s;
}
std::string oddToken(Rng& r) {
  static const char* odd[] = {"-", "+", ".", "1e", "1e+", "2e-", "0x", "0x1.8p3", "inf", "-inf",
    "nan", "NAN", "infinity", "nan(7)", "abc", "1.2.3", "--1", "+5", "1,2", "3;", "7,", "e5",
    "00012", "1e999", "1e-999", "\"1\"", "0x1p", "in", "na", "1_000", "-.5", "5e0", "1e3x"};
  if (r.below(10) == 0) {
    std::string s;
    const u64 n = 1 + r.below(4);
    for (u64 i = 0; i < n; ++i) {
      s += char(r.below(256));
    }
    return s;
  }
  return odd[r.below(sizeof odd / sizeof *odd)];
}
// text with roughly the right number of tokens, in any state of disrepair
std::string someText(Rng& r, u32 want, bool records) {
  std::string s;
  if (r.below(40) == 0) {
    return s;
  }
  const u32 oddRate = u32(r.below(4)) * 80;
  u64 n = want;
  if (records) {
    n = want * r.below(4) + (r.below(2) ? 0 : r.below(want + 1));
  } else if (r.below(5) == 0) {
    n = want ? r.below(want + 1) : 0;
  } else if (r.below(4) == 0) {
    n = want + r.below(3);
  }
  static const char* blanks[] = {" ", " ", " ", "  ", "\t", "\n", "\r\n", "(", ")", " (", ") "};
  static const char* seps[] = {" ", ", ", "; ", "\n", ",", ") (", "), (", ";"};
  if (r.below(4) == 0) {
    s += blanks[r.below(11)];
  }
  for (u64 i = 0; i < n; ++i) {
    s += r.chance(oddRate) ? oddToken(r) : r.below(40) == 0 ? longToken(r) : numberToken(r);
    if (i + 1 < n) {
      s += (records && (i + 1) % want == 0) ? seps[r.below(8)] : r.below(8) ? " " : blanks[r.below(11)];
    }
  }
  if (r.below(4) == 0) {
    s += blanks[r.below(11)];
  }
  if (r.below(6) == 0 && !s.empty()) {
    s.resize(r.below(s.size() + 1)); // cut anywhere
  }
  return s;
}

// ---------------------------------------------------------------- C02
// One storage page shared by all tasks: each owns a slot, texts end flush with
// the slot end, and the last slot ends at an inaccessible page.
constexpr std::size_t kSlot = 480;
struct Arena {
  u8* page = nullptr;
  std::size_t slots = 0;
  u8* slot(std::size_t i) const { return page + 4096 - (slots - i) * kSlot; }
};
Arena arena;
u8* front[8]; // per task: a page with an inaccessible page before it, where texts start flush

void setupArena(const Plan& p) {
  u8* m = static_cast<u8*>(
    mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (m == MAP_FAILED) {
    broken("mmap");
  }
  mprotect(m, 4096, PROT_NONE);
  mprotect(m + 2 * 4096, 4096, PROT_NONE);
  arena.page = m + 4096;
  arena.slots = p.tasks.size();
  for (std::size_t t = 0; t < p.tasks.size(); ++t) {
    u8* f = static_cast<u8*>(
      mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (f == MAP_FAILED) {
      broken("mmap");
    }
    mprotect(f, 4096, PROT_NONE);
    mprotect(f + 2 * 4096, 4096, PROT_NONE);
    front[t] = f + 4096;
  }
  Rng r(p.world);
  static const char junk[] = "0123456789.eE+-xpinfa() ,;";
  for (std::size_t i = 0; i < 4096; ++i) {
    arena.page[i] = u8(junk[r.below(sizeof junk - 1)]);
  }
}

void runC02(int task, const Op& op, std::size_t) {
  const u32 parser = u32(op.arg(0) % kParsers);
  Rng r(op.arg(1));
  std::string text = someText(r, wantTokens(parser), parser >= 12);
  if (op.arg(5)) { // minimisation aid: keep only the first arg(5) bytes
    text.resize(std::min<std::size_t>(text.size(), op.arg(5)));
  }
  if (text.size() > kSlot - 16) {
    text.resize(kSlot - 16);
  }
  u8* slot = arena.slot(std::size_t(task));
  u8* at = slot + (kSlot - text.size());
  // new content of this slot: junk (the remains of earlier records), then the text
  Rng jr(op.arg(2));
  static const char* frag[] = {"7", "42", ".5", "e3", "e-2", "x1", "inf", " 9 9 9", "00", "(1 2 3)",
    "nan", "-", ",", "\0", "1", "3 ", "p4", "e", ".", "+2"};
  std::string fill;
  while (fill.size() < kSlot) {
    const char* f = frag[jr.below(20)];
    fill += *f ? std::string(f) : std::string(1, '\0');
  }
  if (op.arg(2) == 0) {
    fill.assign(kSlot, ' ');
  }
  std::memcpy(slot, fill.data(), kSlot - text.size());
  if (!text.empty()) {
    std::memcpy(at, text.data(), text.size());
  }
  if (task + 1 < int(arena.slots)) {
    // bytes directly behind the text belong to somebody else
    const u8 nb = *arena.slot(std::size_t(task) + 1);
    if (nb != ' ' && nb != 0) {
      fault("live-bytes-behind-text");
    }
    if (op.arg(3)) { // neighbour's bytes as left by a previous, longer record
      u8* n = arena.slot(std::size_t(task) + 1);
      const std::string f2 = frag[op.arg(3) % 20];
      if (!f2.empty() && self() == task) {
        std::memcpy(n, f2.data(), f2.size());
        fault("stale-tail-of-longer-record");
      }
    }
  } else {
    fault("inaccessible-byte-behind-text");
  }
  // reference: the same bytes alone, followed by nothing but NULs
  std::vector<char> alone(text.begin(), text.end());
  alone.resize(text.size() + 64, '\0');
  Parsed ref;
  {
    std::vector<char> cp = alone;
    ref = parseWith(parser, std::string_view(cp.data(), text.size()));
    if (cp != alone) {
      violate("text-modified", "parsing changed the text it was given");
    }
  }
  const std::string_view view =
    (text.empty() && op.arg(4)) ? std::string_view() : std::string_view(reinterpret_cast<char*>(at), text.size());
  note(K_RESULT, fold(parser, text.data(), text.size()));
  say("parser %u on %s", parser, quote(text).c_str());
  const Parsed got = parseWith(parser, view);
  if (op.arg(6) && !text.empty()) { // the text at the start of a page nobody may write
    u8* f = front[task];
    std::memcpy(f + text.size(), fill.data(), kSlot - text.size()); // remains behind it
    std::memcpy(f, text.data(), text.size());
    mprotect(f, 4096, PROT_READ);
    fault("inaccessible-byte-before-text");
    const Parsed again = parseWith(parser, std::string_view(reinterpret_cast<char*>(f), text.size()));
    mprotect(f, 4096, PROT_READ | PROT_WRITE);
    if (!(again == ref)) {
      violate("depends-on-outside-bytes", "parser %u on text %s gives %s at the start of a page but %s alone",
        parser, quote(text).c_str(), again.text().c_str(), ref.text().c_str());
    }
  }
  if (!text.empty() && std::memcmp(at, text.data(), text.size()) != 0) {
    violate("text-modified", "parsing changed the text it was given");
  }
  if (ref.present && !ref.v.empty()) {
    probe("parsed-something");
  }
  if (!(got == ref)) {
    violate("depends-on-outside-bytes", "parser %u on text %s gives %s in storage but %s alone",
      parser, quote(text).c_str(), got.text().c_str(), ref.text().c_str());
  }
}

void genC02(Rng& rng, Plan& p) {
  const u64 nt = 1 + rng.below(4);
  const u32 focus = u32(rng.below(kParsers));
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 1 + rng.below(6);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      o.a = {rng.below(3) ? rng.below(kParsers) : focus, rng.next() >> 40,
        rng.below(6) ? rng.next() >> 44 : 0, rng.below(2) ? 1 + rng.below(20) : 0, rng.below(2), 0,
        rng.below(2)};
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}

// ---------------------------------------------------------------- C03
struct Disk : std::streambuf {
  std::string data;    // what the device holds
  u64 crashAt = ~0ull; // bytes beyond this never arrive
  u64 chunk = 0;
  u64 seen = 0;
  bool crashed = false;
  void put(char c) {
    ++seen;
    if (data.size() < crashAt) {
      data.push_back(c);
    } else if (!crashed) {
      crashed = true;
      fault("crash-torn-write");
    }
  }
  int_type overflow(int_type ch) override {
    yield(K_SINK, 1);
    if (traits_type::eq_int_type(ch, traits_type::eof())) {
      return traits_type::not_eof(ch);
    }
    put(char(ch)); // the writer believes the write succeeded: it is lost at the crash
    return ch;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    yield(K_SINK, u64(n));
    for (std::streamsize i = 0; i < n; ++i) {
      if (chunk && i && u64(i) % chunk == 0) {
        fault("short-write");
        yield(K_SINK, u64(i));
      }
      put(s[i]);
    }
    return n;
  }
};

struct Span {
  std::size_t b, e;
};
// token extents of text, split at blanks
std::vector<Span> tokens(const std::string& s, std::size_t from, std::size_t to) {
  std::vector<Span> r;
  const char* blank = " \t\n\r()";
  std::size_t i = from;
  while (i < to) {
    if (std::strchr(blank, s[i])) {
      ++i;
      continue;
    }
    std::size_t j = i;
    while (j < to && !std::strchr(blank, s[j])) {
      ++j;
    }
    r.push_back({i, j});
    i = j;
  }
  return r;
}

template <typename V> struct Rec;
template <typename T, std::size_t S> struct Rec<vm::vec<T, S>> {
  using V = vm::vec<T, S>;
  static constexpr std::size_t n = S;
  static constexpr bool isMat = false;
  using Scalar = T;
  static V make(Rng& r) { return anyVec<T, S>(r); }
  static T at(const V& v, std::size_t i) { return v.v[i]; }
  static std::optional<V> parse(std::string_view s) { return vm::parse<T, S>(s); }
};
template <typename T, std::size_t R, std::size_t C> struct Rec<vm::mat<T, R, C>> {
  using V = vm::mat<T, R, C>;
  static constexpr std::size_t n = R * C;
  static constexpr bool isMat = true;
  using Scalar = T;
  static V make(Rng& r) {
    V m;
    for (std::size_t c = 0; c < C; ++c) {
      for (std::size_t q = 0; q < R; ++q) {
        m.v[c].v[q] = anyScalar<T>(r);
      }
    }
    return m;
  }
  static T at(const V& m, std::size_t i) { return m.v[i % C].v[i / C]; } // row-major text order
  static std::optional<V> parse(std::string_view s) { return vm::parse<T, R, C>(s); }
};

// arg: 0 type, 1 value seed, 2 records-1, 3 separator style, 4 crash (0 none, k: byte k-1 mod len),
//      5 chunk, 6 wrap (parens/blanks), 7 sci format, 8 read as list
template <typename V> void storeAndLoad(const Op& op) {
  using Rc = Rec<V>;
  using T = typename Rc::Scalar;
  Rng r(op.arg(1));
  const bool list = !Rc::isMat && op.arg(8);
  const std::size_t count = list ? 1 + op.arg(2) % 400 : 1;
  static const char* sepPlain[] = {" ", "\n", ", ", "; ", ",\n", "\t", " , ", "\r\n"};
  const bool mixed = op.arg(3) % 12 >= 8; // another separator after each record
  auto sep = [&](std::size_t i) { return sepPlain[(op.arg(3) + (mixed ? i * i : 0)) % 8]; };
  const bool paren = op.arg(6) & 1;
  const bool pad = op.arg(6) & 2;
  std::vector<V> recs;
  Disk disk;
  disk.chunk = op.arg(5);
  std::ostream os(&disk);
  os.precision(std::numeric_limits<T>::max_digits10);
  if (op.arg(7) == 1) {
    os.setf(std::ios_base::scientific, std::ios_base::floatfield);
    os.precision(std::numeric_limits<T>::max_digits10 - 1);
  } else if (op.arg(7) == 2) { // every digit: very long numbers
    os.setf(std::ios_base::fixed, std::ios_base::floatfield);
    os.precision(std::is_same_v<T, float> ? 160 : 1080);
  } else if (op.arg(7) == 3) {
    os.setf(std::ios_base::showpos | std::ios_base::uppercase);
  } else if (op.arg(7) == 4) {
    os.setf(std::ios_base::showpoint);
  } else if (op.arg(7) == 5) { // exact, whatever the precision
    os.setf(std::ios_base::fixed | std::ios_base::scientific, std::ios_base::floatfield);
  }
  // dry run to learn the full text (a device that never crashes)
  std::string full;
  std::vector<std::pair<std::size_t, std::size_t>> extent;
  {
    Disk d2;
    std::ostream o2(&d2);
    o2.copyfmt(os);
    Rng r2(op.arg(1));
    for (std::size_t i = 0; i < count; ++i) {
      const V v = Rc::make(r2);
      recs.push_back(v);
      if (i) {
        o2 << sep(i);
      }
      if (pad) {
        o2 << " ";
      }
      if (paren) {
        o2 << "(";
      }
      const std::size_t b = d2.data.size();
      o2 << v;
      extent.emplace_back(b, d2.data.size());
      if (paren) {
        o2 << ")";
      }
      if (pad) {
        o2 << " ";
      }
    }
    full = d2.data;
  }
  if (op.arg(4)) {
    disk.crashAt = (op.arg(4) - 1) % (full.size() + 1);
  }
  for (std::size_t i = 0; i < count; ++i) {
    if (i) {
      os << sep(i);
    }
    if (pad) {
      os << " ";
    }
    if (paren) {
      os << "(";
    }
    os << recs[i];
    if (paren) {
      os << ")";
    }
    if (pad) {
      os << " ";
    }
  }
  if (disk.data != full.substr(0, disk.data.size()) || (!op.arg(4) && disk.data != full)) {
    violate("text-not-reproducible", "the same values were written as %s and as %s",
      quote(full).c_str(), quote(disk.data).c_str());
  }
  const std::string stored = disk.data;
  const std::size_t cut = stored.size();
  note(K_RESULT, fold(0, stored.data(), cut));
  say("stored %s of %s", quote(stored).c_str(), quote(full).c_str());
  std::vector<V> got;
  if (list) {
    if constexpr (!Rc::isMat) {
      vm::parse_all<T, Rc::n>(std::string_view(stored), CollectIt<V>{&got});
    }
  } else {
    if (const auto o = Rc::parse(std::string_view(stored))) {
      got.push_back(*o);
    }
  }
  // what must come back
  std::size_t expect = 0;
  for (std::size_t i = 0; i < count; ++i) {
    const auto tk = tokens(full, extent[i].first, extent[i].second);
    if (tk.size() != Rc::n) {
      violate("text-shape", "a value with %zu components was written as %zu numbers: %s", Rc::n,
        tk.size(), quote(full.substr(extent[i].first, extent[i].second - extent[i].first)).c_str());
    }
    bool all = true;
    for (auto& t : tk) {
      all = all && t.b < cut;
    }
    if (!all) {
      break;
    }
    ++expect;
    if (got.size() < expect) {
      violate("record-lost", "record %zu is completely present in %s but was not read back (%zu read)",
        i, quote(stored).c_str(), got.size());
    }
    for (std::size_t k = 0; k < Rc::n; ++k) {
      if (tk[k].e > cut) {
        probe("last-component-torn");
        continue; // only partly stored: nothing promised about its value
      }
      if (!sameBits(Rc::at(got[i], k), Rc::at(recs[i], k))) {
        violate("wrong-value", "component %zu of record %zu was written as %s and read back as %s (text %s)",
          k, i, str(Rc::at(recs[i], k)).c_str(), str(Rc::at(got[i], k)).c_str(),
          quote(stored).c_str());
      }
    }
  }
  if (got.size() > expect) {
    violate("record-invented", "%zu records read back from %s, which holds only %zu", got.size(),
      quote(stored).c_str(), expect);
  }
  if (cut < full.size()) {
    probe(expect < count ? "torn-record-dropped" : "only-decoration-torn");
  } else {
    probe("intact-round-trip");
  }
}

constexpr u32 kTypes = 26;
void runC03(int, const Op& op, std::size_t) {
  switch (op.arg(0) % kTypes) {
    case 0: return storeAndLoad<vm::vec<double, 3>>(op);
    case 1: return storeAndLoad<vm::vec<float, 3>>(op);
    case 2: return storeAndLoad<vm::vec<int, 3>>(op);
    case 3: return storeAndLoad<vm::vec<double, 1>>(op);
    case 4: return storeAndLoad<vm::vec<double, 2>>(op);
    case 5: return storeAndLoad<vm::vec<double, 4>>(op);
    case 6: return storeAndLoad<vm::vec<float, 2>>(op);
    case 7: return storeAndLoad<vm::vec<int, 2>>(op);
    case 8: return storeAndLoad<vm::mat<double, 2, 2>>(op);
    case 9: return storeAndLoad<vm::mat<double, 3, 3>>(op);
    case 10: return storeAndLoad<vm::mat<double, 4, 4>>(op);
    case 11: return storeAndLoad<vm::mat<float, 3, 3>>(op);
    case 12: return storeAndLoad<vm::mat<double, 2, 3>>(op);
    case 13: return storeAndLoad<vm::mat<double, 3, 2>>(op);
    case 14: return storeAndLoad<vm::vec<float, 4>>(op);
    case 15: return storeAndLoad<vm::vec<double, 5>>(op);
    case 16: return storeAndLoad<vm::vec<float, 1>>(op);
    case 17: return storeAndLoad<vm::vec<short, 3>>(op);
    case 18: return storeAndLoad<vm::vec<unsigned, 3>>(op);
    case 19: return storeAndLoad<vm::vec<double, 9>>(op);
    case 20: return storeAndLoad<vm::mat<float, 4, 4>>(op);
    case 21: return storeAndLoad<vm::mat<double, 1, 1>>(op);
    case 22: return storeAndLoad<vm::mat<double, 5, 5>>(op);
    case 23: return storeAndLoad<vm::mat<float, 2, 4>>(op);
    case 24: return storeAndLoad<vm::mat<int, 2, 2>>(op);
    default: return storeAndLoad<vm::mat<double, 4, 1>>(op);
  }
}
void genC03(Rng& rng, Plan& p) {
  const u64 nt = 1 + rng.below(3);
  const u32 crashRate = u32(rng.below(4)) * 300;
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 1 + rng.below(4);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      o.a = {rng.below(3) ? rng.below(kTypes) : 0, rng.next() >> 40, rng.below(12) ? rng.below(6) : rng.below(rng.below(6) ? 80 : 400), rng.below(12),
        rng.chance(crashRate) ? 1 + rng.below(400) : 0, rng.below(4) ? 0 : 1 + rng.below(5),
        rng.below(4), rng.below(4) == 0 ? 1u : rng.below(24) == 0 ? 2u : rng.below(4) == 0 ? 3u + rng.below(3) : 0u, rng.below(2)};
      if (o.a[7] == 2) {
        o.a[2] = rng.below(3);
      }
      if ((o.a[7] == 2 || o.a[2] > 6) && o.a[4]) {
        o.a[4] = 1 + rng.below(4000);
      }
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}

const char* nameC02(u32) { return "parse-in-shared-buffer"; }
const char* nameC03(u32) { return "store-crash-load"; }
Reg r2({"C02", genC02, setupArena, runC02, nullptr, nameC02, 200000});
Reg r3({"C03", genC03, nullptr, runC03, nullptr, nameC03, 400000});
} // namespace
