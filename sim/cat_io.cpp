#include "cat.h"
#include <new>
#include <sstream>
namespace catns {
namespace {
template <typename X> std::string print(const Args& a, const X& x) {
  std::ostringstream s;
  s.precision(int(1 + a.n(4) % 17));
  if (a.n(5) & 1) {
    s.setf(std::ios::fixed, std::ios::floatfield);
  }
  s << x;
  if (!s) { // the standard stream turns a failed allocation into its badbit
    throw std::bad_alloc();
  }
  return s.str();
}
template <typename T, std::size_t S> void ioS() {
  OPS("io/parse", o(vm::parse<T, S>(a.text(0))))
  OPS("io/parse_all", std::vector<vm::vec<T, S>> out; vm::parse_all<T, S>(a.text(0), std::back_inserter(out)); o(out))
  OPS("io/print-vec", if constexpr (std::is_same_v<T, int>) o(print(a, a.iv<S>(0))); else o(print(a, a.v<T, S>(0))))
  OPS("io/roundtrip", if constexpr (!std::is_same_v<T, int>) { std::ostringstream s; s.precision(17); s << a.v<T, S>(0); if (!s) throw std::bad_alloc(); o(vm::parse<T, S>(s.str())); })
}
template <typename T> void ioT() {
  OPT("io/print-mat", o(print(a, a.m<T, 2>(0))); o(print(a, a.m<T, 3>(1))); o(print(a, a.m<T, 4>(2))))
  OPT("io/parse-mat", o(vm::parse<T, 2, 2>(a.text(0))); o(vm::parse<T, 3, 3>(a.text(1))); o(vm::parse<T, 4, 4>(a.text(2))))
  OPT("io/print-bbox", o(print(a, a.b<T, 3>(0))); o(print(a, a.b<T, 2>(1))))
  OPT("io/print-line", o(print(a, a.l<T, 3>(0))); o(print(a, a.r<T, 3>(1))); o(print(a, a.p<T>(2))))
  OPT("io/print-approx", o(print(a, vm::approx<T>(a.sc<T>(0)))); o(print(a, vm::approx<vm::vec<T, 3>>(a.v<T, 3>(1))));
      o(print(a, vm::approx<vm::mat<T, 2, 2>>(a.m<T, 2>(2)))); o(print(a, vm::approx<vm::line<T, 3>>(a.l<T, 3>(3)))))
}
} // namespace
void regIo() {
  ioS<float, 1>();
  ioS<float, 2>();
  ioS<float, 3>();
  ioS<double, 2>();
  ioS<double, 3>();
  ioS<double, 4>();
  ioS<int, 2>();
  ioS<int, 3>();
  ioT<float>();
  ioT<double>();
}
} // namespace catns
