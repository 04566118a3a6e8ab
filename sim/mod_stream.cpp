// C01: stream insertion under sink faults.
#include "sim.h"
#include "val.h"

#include <locale>
#include <memory>
#include <ostream>
#include <sstream>
#include <streambuf>

#include <vecmath/approx.h>
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane.h>
#include <vecmath/plane_io.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>
#include <vecmath/vec_io.h>

namespace {
using namespace sim;

struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};

// The simulated device behind a stream.
struct Sink : std::streambuf {
  int owner = -1;
  std::string data;
  u64 failAt = 0; // 1-based byte of the current operation that is not accepted; 0 = none
  u32 mode = 0;   // 0 error, stays broken; 1 error once; 2 throws, stays broken; 3 throws once
  u64 opBytes = 0;
  u64 chunk = 0;
  bool fired = false;
  bool dead = false;
  u32 reenter = 0;
  u64 reenterSeed = 0;
  void begin(u64 f, u32 m, u64 c) {
    failAt = f;
    mode = m;
    chunk = c;
    opBytes = 0;
    fired = false;
    dead = false;
  }
  bool accept(char c) {
    if (self() != owner) {
      violate("wrong-stream", "task %d wrote to the stream of task %d", self(), owner);
    }
    if (dead || (failAt && opBytes + 1 == failAt && !fired)) {
      if (!fired) {
        fault(mode == 0   ? "sink-error-permanent"
              : mode == 1 ? "sink-error-transient"
              : mode == 2 ? "sink-exception-permanent"
                          : "sink-exception-transient");
      }
      fired = true;
      if (mode == 0 || mode == 2) {
        dead = true;
      }
      if (mode >= 2) {
        throwFault(1);
      }
      return false;
    }
    ++opBytes;
    data.push_back(c);
    return true;
  }
  void nested();
  int_type overflow(int_type ch) override {
    yield(K_SINK, 1);
    nested();
    if (traits_type::eq_int_type(ch, traits_type::eof())) {
      return traits_type::not_eof(ch);
    }
    return accept(char(ch)) ? ch : traits_type::eof();
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    yield(K_SINK, u64(n));
    nested();
    std::streamsize i = 0;
    for (; i < n; ++i) {
      if (chunk && i && u64(i) % chunk == 0) {
        fault("sink-short-chunk");
        yield(K_SINK, u64(i));
      }
      if (!accept(s[i])) {
        break;
      }
    }
    return i;
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    // the position can be asked for, but not changed
    return off == 0 && dir == std::ios_base::cur ? pos_type(off_type(data.size())) : pos_type(off_type(-1));
  }
  int sync() override {
    yield(K_SINK, 0);
    return 0;
  }
};

struct Dev {
  Sink sink;
  std::unique_ptr<std::ostream> os;
};
Dev* dev[8];

struct FmtState {
  std::ios_base::fmtflags flags;
  std::streamsize prec, width;
  char fill;
  std::ios_base::iostate exc;
  std::ostream* tie;
  std::streambuf* buf;
  std::string loc;
  explicit FmtState(std::ostream& o)
    : flags(o.flags())
    , prec(o.precision())
    , width(o.width())
    , fill(o.fill())
    , exc(o.exceptions())
    , tie(o.tie())
    , buf(o.rdbuf())
    , loc(std::string(1, std::use_facet<std::numpunct<char>>(o.getloc()).decimal_point()) + o.getloc().name()) {}
  const char* diff(const FmtState& b) const {
    if (flags != b.flags) {
      return "format flags";
    }
    if (prec != b.prec) {
      return "precision";
    }
    if (width != b.width) {
      return "width";
    }
    if (fill != b.fill) {
      return "fill";
    }
    if (exc != b.exc) {
      return "exception mask";
    }
    if (tie != b.tie) {
      return "tie";
    }
    if (buf != b.buf) {
      return "stream buffer";
    }
    if (loc != b.loc) {
      return "locale";
    }
    return nullptr;
  }
};

void applyFormat(std::ostream& os, u64 seed) {
  os.flags(std::ios_base::skipws | std::ios_base::dec);
  os.precision(6);
  os.fill(' ');
  os.width(0);
  static const std::locale plain = std::locale::classic();
  static const std::locale odd(std::locale::classic(), new Punct);
  if (os.getloc() != plain) {
    os.imbue(plain);
  }
  if (seed == 0) {
    return;
  }
  Rng r(seed);
  const u64 what = r.next();
  if (what & 1) {
    os.precision(std::streamsize(r.below(18)));
  }
  if (what & 2) {
    os.setf(r.below(2) ? std::ios_base::fixed : std::ios_base::scientific, std::ios_base::floatfield);
  }
  if (what & 4) {
    os.setf(std::ios_base::showpos);
  }
  if (what & 8) {
    os.setf(std::ios_base::showpoint);
  }
  if (what & 16) {
    os.setf(std::ios_base::uppercase);
  }
  if (what & 32) {
    os.setf(r.below(2) ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield);
    os.setf(std::ios_base::showbase);
  }
  if (what & 64) {
    os.fill('*');
  }
  if ((what & 0x180) == 0x180) {
    os.imbue(odd);
  }
  if ((what & 0x600) == 0x600) {
    os.setf(std::ios_base::fixed | std::ios_base::scientific, std::ios_base::floatfield); // hexfloat
  }
  if ((what & 0x1800) == 0x1800) {
    os.setf(std::ios_base::boolalpha | std::ios_base::internal);
  }
}

// ---- the values and the independent description of their text ----
template <typename T, std::size_t S> void refVec(std::ostream& o, const vm::vec<T, S>& v) {
  for (std::size_t i = 0; i < S; ++i) {
    if (i) {
      o << ' ';
    }
    o << v.v[i];
  }
}
template <typename T, std::size_t Rr, std::size_t C>
void refMat(std::ostream& o, const vm::mat<T, Rr, C>& m) {
  for (std::size_t r = 0; r < Rr; ++r) {
    for (std::size_t c = 0; c < C; ++c) {
      if (r || c) {
        o << ' ';
      }
      o << m.v[c].v[r];
    }
  }
}

template <typename V, typename Ref>
void insertOp(const V& value, Ref ref, std::ostream& os, Sink& sink, u64 fmt, u64 failAt, u32 mode,
  u32 exc, u64 chunk, u32 pre, bool retry) {
  os.exceptions(std::ios_base::goodbit);
  os.clear();
  applyFormat(os, fmt);
  std::ostringstream model;
  model.copyfmt(os);
  model.exceptions(std::ios_base::goodbit);
  ref(model);
  const std::string text = model.str();
  static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::badbit,
    std::ios_base::badbit | std::ios_base::failbit, std::ios_base::failbit};
  static const std::ios_base::iostate preStates[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit,
    std::ios_base::eofbit, std::ios_base::eofbit | std::ios_base::failbit, std::ios_base::eofbit | std::ios_base::badbit};
  const auto preState = preStates[pre % 6];
  if (pre) {
    os.setstate(preState);
    fault("stream-already-failed");
  } else {
    os.exceptions(masks[exc & 3]);
  }
  alignas(V) unsigned char before[sizeof(V)];
  std::memcpy(before, static_cast<const void*>(&value), sizeof(V));
  const std::size_t start = sink.data.size();
  const FmtState fs(os);
  // place the fault inside the text (or just behind it)
  const u64 at = failAt ? 1 + (failAt - 1) % (text.size() + 1) : 0;
  sink.begin(at, mode, chunk);
  bool threw = false;
  std::ostream* returned = nullptr;
  try {
    std::ostream& o = (os << value);
    returned = &o;
  } catch (const Fault&) {
    threw = true;
  } catch (const std::ios_base::failure&) {
    threw = true;
  }
  const std::string got = sink.data.substr(start);
  const FmtState fs2(os);
  note(K_RESULT, fold(os.rdstate(), got.data(), got.size()) + threw);
  say("inserted %s of %s state=%d threw=%d", quote(got).c_str(), quote(text).c_str(),
    int(os.rdstate()), int(threw));
  if (returned && returned != &os) {
    violate("wrong-stream-returned", "insertion did not return its stream");
  }
  if (std::memcmp(before, static_cast<const void*>(&value), sizeof(V)) != 0) {
    violate("value-changed", "insertion modified the value it printed");
  }
  if (const char* d = fs.diff(fs2)) {
    violate("format-state-changed", "insertion left the stream's %s changed (%s fault)", d,
      sink.fired ? "with" : "without");
  }
  if (pre) {
    if (!got.empty()) {
      violate("wrote-on-failed-stream", "stream had already failed but %s was written",
        quote(got).c_str());
    }
    if ((os.rdstate() & preState) != preState) {
      violate("failure-cleared", "an insertion into a failed stream cleared a part of its state");
    }
  } else if (!sink.fired) {
    if (got != text) {
      violate("wrong-text", "wrote %s, expected %s", quote(got).c_str(), quote(text).c_str());
    }
    if (!os.good() || threw) {
      violate("spurious-failure", "complete text written but the stream reports failure");
    }
  } else {
    if (got.size() > text.size() || text.compare(0, got.size(), got) != 0) {
      violate("not-a-prefix", "after a sink failure at byte %llu the stream carries %s, not a prefix of %s",
        (unsigned long long)at, quote(got).c_str(), quote(text).c_str());
    }
    if (at <= text.size()) {
      if (got.size() != at - 1) {
        violate("not-a-prefix", "sink failed at byte %llu but %zu bytes arrived",
          (unsigned long long)at, got.size());
      }
      if (os.good()) {
        violate("failure-hidden", "bytes were lost at byte %llu of %s but the stream is good",
          (unsigned long long)at, quote(text).c_str());
      }
      if ((masks[exc & 3] & std::ios_base::badbit) && !threw) {
        violate("exception-swallowed", "the stream was asked to throw on failure but did not");
      }
      probe("insertion-cut-short");
    }
  }
  os.exceptions(std::ios_base::goodbit);
  os.clear();
  if (retry && (sink.fired || pre)) {
    sink.begin(0, 0, chunk);
    const std::size_t s2 = sink.data.size();
    os << value;
    const std::string again = sink.data.substr(s2);
    probe("retry-after-failure");
    if (again != text || !os.good()) {
      violate("retry-differs", "retry after a failure wrote %s, expected %s", quote(again).c_str(),
        quote(text).c_str());
    }
  }
}

template <typename F> void withValue(u32 type, u64 seed, F f) {
  Rng r(seed);
  using namespace vm;
  switch (type) {
#define VEC(n, T, S)                                                                               \
  case n: {                                                                                        \
    auto v = anyVec<T, S>(r);                                                                      \
    f(v, [v](std::ostream& o) { refVec(o, v); });                                                  \
    break;                                                                                         \
  }
    VEC(0, double, 3)
    VEC(1, float, 3)
    VEC(2, int, 3)
    VEC(3, double, 2)
    VEC(4, double, 1)
    VEC(5, double, 4)
    VEC(6, float, 2)
    VEC(7, float, 4)
    VEC(8, int, 2)
    VEC(9, float, 7)
    VEC(31, float, 1)
    VEC(32, long, 3)
    VEC(33, unsigned, 4)
    VEC(34, std::size_t, 2)
    VEC(35, long double, 3)
    VEC(36, double, 5)
    VEC(37, double, 6)
    VEC(38, float, 9)
    VEC(39, int, 1)
    VEC(40, double, 16)
    VEC(41, short, 3)
#undef VEC
#define MAT(n, T, RR, CC)                                                                          \
  case n: {                                                                                        \
    vm::mat<T, RR, CC> m;                                                                          \
    for (std::size_t c = 0; c < CC; ++c) {                                                         \
      for (std::size_t q = 0; q < RR; ++q) {                                                       \
        m.v[c].v[q] = anyScalar<T>(r);                                                             \
      }                                                                                            \
    }                                                                                              \
    f(m, [m](std::ostream& o) { refMat(o, m); });                                                  \
    break;                                                                                         \
  }
    MAT(10, double, 2, 2)
    MAT(11, float, 3, 3)
    MAT(12, double, 4, 4)
    MAT(13, float, 4, 4)
    MAT(14, double, 2, 3)
    MAT(15, double, 4, 2)
    MAT(16, double, 1, 3)
    MAT(17, double, 3, 1)
    MAT(42, float, 2, 2)
    MAT(43, int, 3, 3)
    MAT(44, double, 5, 5)
    MAT(45, float, 3, 4)
    MAT(46, double, 1, 1)
    MAT(47, double, 2, 4)
    MAT(48, float, 6, 2)
#undef MAT
#define BOX(n, T, S)                                                                               \
  case n: {                                                                                        \
    vm::bbox<T, S> b;                                                                              \
    b.min = anyVec<T, S>(r);                                                                       \
    b.max = anyVec<T, S>(r);                                                                       \
    f(b, [b](std::ostream& o) {                                                                    \
      o << "{ min: (";                                                                             \
      refVec(o, b.min);                                                                            \
      o << "), max: (";                                                                            \
      refVec(o, b.max);                                                                            \
      o << ") }";                                                                                  \
    });                                                                                            \
    break;                                                                                         \
  }
    BOX(18, double, 3)
    BOX(19, float, 2)
    BOX(49, float, 3)
    BOX(50, double, 2)
    BOX(51, double, 1)
    BOX(52, int, 3)
    BOX(53, double, 4)
#undef BOX
#define LINE(n, T, S)                                                                              \
  case n: {                                                                                        \
    vm::line<T, S> b;                                                                              \
    b.point = anyVec<T, S>(r);                                                                     \
    b.direction = anyVec<T, S>(r);                                                                 \
    f(b, [b](std::ostream& o) {                                                                    \
      o << "{ point: (";                                                                           \
      refVec(o, b.point);                                                                          \
      o << "), direction: (";                                                                      \
      refVec(o, b.direction);                                                                      \
      o << ") }";                                                                                  \
    });                                                                                            \
    break;                                                                                         \
  }
    LINE(20, double, 3)
    LINE(21, float, 2)
    LINE(54, double, 2)
    LINE(55, float, 3)
    LINE(56, double, 4)
#undef LINE
#define PLANE(n, T, S)                                                                             \
  case n: {                                                                                        \
    vm::plane<T, S> b;                                                                             \
    b.normal = anyVec<T, S>(r);                                                                    \
    b.distance = anyScalar<T>(r);                                                                  \
    f(b, [b](std::ostream& o) {                                                                    \
      o << "{ normal: (";                                                                          \
      refVec(o, b.normal);                                                                         \
      o << "), distance: " << b.distance << " }";                                                  \
    });                                                                                            \
    break;                                                                                         \
  }
    PLANE(22, double, 3)
    PLANE(23, float, 3)
    PLANE(57, double, 2)
    PLANE(58, float, 2)
    PLANE(59, double, 4)
#undef PLANE
#define RAY(n, T, S)                                                                               \
  case n: {                                                                                        \
    vm::ray<T, S> b;                                                                               \
    b.origin = anyVec<T, S>(r);                                                                    \
    b.direction = anyVec<T, S>(r);                                                                 \
    f(b, [b](std::ostream& o) {                                                                    \
      o << "{ origin: (";                                                                          \
      refVec(o, b.origin);                                                                         \
      o << "), direction: (";                                                                      \
      refVec(o, b.direction);                                                                      \
      o << ") }";                                                                                  \
    });                                                                                            \
    break;                                                                                         \
  }
    RAY(24, double, 3)
    RAY(25, float, 2)
    RAY(60, double, 2)
    RAY(61, float, 3)
    RAY(62, double, 4)
#undef RAY
    case 26: {
      const double d = anyDouble(r);
      f(vm::approx<double>(d), [d](std::ostream& o) { o << d; });
      break;
    }
    case 27: {
      const float d = anyScalar<float>(r);
      f(vm::approx<float>(d, 0.5f), [d](std::ostream& o) { o << d; });
      break;
    }
    case 28: {
      const auto v = anyVec<double, 3>(r);
      f(vm::approx<vm::vec<double, 3>>(v), [v](std::ostream& o) { refVec(o, v); });
      break;
    }
    case 29: {
      vm::mat<double, 3, 3> m;
      for (std::size_t c = 0; c < 3; ++c) {
        m.v[c] = anyVec<double, 3>(r);
      }
      f(vm::approx<vm::mat<double, 3, 3>>(m), [m](std::ostream& o) { refMat(o, m); });
      break;
    }
    case 30: {
      vm::line<double, 3> b;
      b.point = anyVec<double, 3>(r);
      b.direction = anyVec<double, 3>(r);
      f(vm::approx<vm::line<double, 3>>(b, 0.25), [b](std::ostream& o) {
        o << "{ point: (";
        refVec(o, b.point);
        o << "), direction: (";
        refVec(o, b.direction);
        o << ") }";
      });
      break;
    }
    default: break;
  }
}
constexpr u32 kTypes = 63;

// A sink that itself prints library values elsewhere (a logging device).
void Sink::nested() {
  if (!reenter) {
    return;
  }
  const u32 t = reenter - 1;
  reenter = 0;
  fault("sink-reenters-library");
  withValue(t % kTypes, reenterSeed, [](const auto& v, auto ref) {
    std::ostringstream a, b;
    a << v;
    ref(b);
    if (a.str() != b.str()) {
      violate("reentrant-text", "nested insertion wrote %s, expected %s", quote(a.str()).c_str(),
        quote(b.str()).c_str());
    }
  });
}

void generate(Rng& rng, Plan& p) {
  const u64 nt = 1 + rng.below(3);
  const u32 faultRate = u32(rng.below(4) * 250); // swarm: some runs are fault free
  const bool fmtOn = rng.below(3) != 0;
  const u32 focus = u32(rng.below(kTypes));
  const bool focused = rng.below(3) == 0;
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 1 + rng.below(4);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      const u32 type = focused && rng.below(2) ? focus : u32(rng.below(kTypes));
      o.a = {type, rng.next() >> 40, fmtOn && rng.below(2) ? rng.next() >> 44 : 0, 0, 0, rng.below(4), 0, 0, 0, 1, 0};
      if (rng.chance(faultRate)) {
        o.a[3] = 1 + (rng.below(3) == 0 ? rng.below(200) : rng.below(40));
        o.a[4] = rng.below(4);
      }
      if (rng.chance(100)) {
        o.a[6] = 1 + rng.below(4);
      }
      if (rng.chance(faultRate / 8)) {
        o.a[7] = 1 + rng.below(kTypes);
        o.a[10] = rng.next() >> 44;
      }
      if (rng.chance(faultRate / 10)) {
        o.a[8] = 1 + rng.below(5);
        o.a[5] = 0;
      }
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}

void setup(const Plan& p) {
  for (std::size_t i = 0; i < p.tasks.size(); ++i) {
    dev[i] = new Dev;
    dev[i]->sink.owner = int(i);
    dev[i]->os = std::make_unique<std::ostream>(&dev[i]->sink);
  }
  std::ostringstream warm;
  applyFormat(warm, 12345);
}

void runOp(int task, const Op& op, std::size_t) {
  Dev& d = *dev[task];
  d.sink.reenter = u32(op.arg(7));
  d.sink.reenterSeed = op.arg(10);
  withValue(u32(op.arg(0) % kTypes), op.arg(1), [&](const auto& v, auto ref) {
    insertOp(v, ref, *d.os, d.sink, op.arg(2), op.arg(3), u32(op.arg(4) & 3), u32(op.arg(5)),
      op.arg(6), u32(op.arg(8) % 6), op.arg(9) != 0);
  });
  if (const u64 n = strayOutput()) {
    violate("other-stream-touched", "an insertion wrote %llu bytes to a standard stream", (unsigned long long)n);
  }
}

const char* opName(u32) { return "insert"; }

Reg reg({"C01", generate, setup, runOp, nullptr, opName, 200000});
} // namespace
