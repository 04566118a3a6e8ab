// Seeded values used by workloads.
#pragma once
#include "sim.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <vecmath/bbox.h>
#include <vecmath/mat.h>
#include <vecmath/vec.h>

namespace sim {
// finite, moderate values: what geometry code meets
inline double modDouble(Rng& r) {
  switch (r.below(12)) {
    case 0: return 0.0;
    case 1: return 1.0;
    case 2: return -1.0;
    case 3: return double(std::int64_t(r.below(41)) - 20);
    case 4: return double(std::int64_t(r.below(4001)) - 2000) / 16.0;
    case 5: return (r.unit() - 0.5) * 2.0;
    case 6: return (r.unit() - 0.5) * 2e3;
    case 7: return (r.unit() - 0.5) * 2e5;
    case 8: return double(std::int64_t(r.below(2001)) - 1000) / 10.0;
    case 9: return (r.unit() - 0.5) * 1e-3;
    case 10: return -0.0;
    default: return double(std::int64_t(r.below(21)) - 10) / 4.0;
  }
}
// any double, including the awkward ones
inline double anyDouble(Rng& r, bool nonfinite = true) {
  switch (r.below(16)) {
    case 0: {
      u64 bits = r.next();
      double d;
      std::memcpy(&d, &bits, 8);
      if (!std::isfinite(d)) {
        d = 1.5;
      }
      return d;
    }
    case 1: return std::numeric_limits<double>::denorm_min() * double(1 + r.below(1000));
    case 2: return -std::numeric_limits<double>::min();
    case 3: return std::numeric_limits<double>::max();
    case 4: return nonfinite ? std::numeric_limits<double>::infinity() : 1e300;
    case 5: return nonfinite ? -std::numeric_limits<double>::infinity() : -1e300;
    case 6: return nonfinite ? std::numeric_limits<double>::quiet_NaN() : 1e-300;
    case 7: return std::nextafter(1.0, r.below(2) ? 2.0 : 0.0);
    case 8: return std::ldexp(r.unit() + 0.5, int(r.below(2000)) - 1000);
    case 9: return 123456789.0 + double(r.below(1000000));
    default: return modDouble(r);
  }
}
template <typename T> T anyScalar(Rng& r, bool nonfinite = true) {
  if constexpr (std::is_same_v<T, double>) {
    return anyDouble(r, nonfinite);
  } else if constexpr (std::is_same_v<T, float>) {
    switch (r.below(12)) {
      case 0: {
        u32 bits = u32(r.next());
        float f;
        std::memcpy(&f, &bits, 4);
        return std::isfinite(f) ? f : 2.5f;
      }
      case 1: return std::numeric_limits<float>::denorm_min() * float(1 + r.below(1000));
      case 2: return -std::numeric_limits<float>::max();
      case 3: return nonfinite ? std::numeric_limits<float>::infinity() : 3e38f;
      case 4: return nonfinite ? std::numeric_limits<float>::quiet_NaN() : -3e38f;
      case 5: return std::ldexp(float(r.unit() + 0.5), int(r.below(240)) - 120);
      default: return float(modDouble(r));
    }
  } else if constexpr (std::is_same_v<T, long double>) {
    return static_cast<long double>(anyDouble(r, nonfinite)) * 1.0000000001L;
  } else {
    switch (r.below(6)) {
      case 0: return T(0);
      case 1: return std::numeric_limits<T>::max();
      case 2: return std::numeric_limits<T>::min();
      case 3: return T(std::int64_t(r.next() & 0xffffffffu) - 0x80000000ll);
      default: return T(std::int64_t(r.below(2001)) - 1000);
    }
  }
}
template <typename T> T modScalar(Rng& r) {
  if constexpr (std::is_floating_point_v<T>) {
    return T(modDouble(r));
  } else {
    return T(std::int64_t(r.below(201)) - 100);
  }
}
template <typename T, std::size_t S> vm::vec<T, S> anyVec(Rng& r, bool nonfinite = true) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) {
    v.v[i] = anyScalar<T>(r, nonfinite);
  }
  return v;
}
template <typename T, std::size_t S> vm::vec<T, S> modVec(Rng& r) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) {
    v.v[i] = modScalar<T>(r);
  }
  return v;
}
// bit equality with one canonical NaN
template <typename T> bool sameBits(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    if (a != a || b != b) {
      return a != a && b != b;
    }
  }
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <typename T, std::size_t S>
bool sameBits(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  for (std::size_t i = 0; i < S; ++i) {
    if (!sameBits(a.v[i], b.v[i])) {
      return false;
    }
  }
  return true;
}
template <typename T> std::string str(T v) {
  char b[64];
  if constexpr (std::is_floating_point_v<T>) {
    snprintf(b, sizeof b, "%.17g", double(v));
  } else {
    snprintf(b, sizeof b, "%lld", (long long)v);
  }
  return b;
}
template <typename T, std::size_t S> std::string str(const vm::vec<T, S>& v) {
  std::string s = "(";
  for (std::size_t i = 0; i < S; ++i) {
    s += (i ? " " : "") + str(v.v[i]);
  }
  return s + ")";
}
inline std::string quote(const std::string& s) {
  std::string o = "'";
  for (unsigned char c : s) {
    if (c >= 32 && c < 127) {
      o += char(c);
    } else {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    }
  }
  return o + "'";
}
} // namespace sim
