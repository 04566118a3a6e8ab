#pragma once
#include "sim.h"
struct CatRes {
  static constexpr sim::u32 kShow = 12;
  sim::u64 hash = 0;
  sim::u32 n = 0;
  sim::u32 threw = 0; // 1 bad_alloc, 2 injected getter failure, 3 something else
  double show[kShow] = {};
};
struct CatApi {
  int (*count)();
  const char* (*name)(int);
  const char* (*text)(int); // the expressions it evaluates
  void* (*build)(sim::u64 seed, sim::u64 gen);
  void (*assign)(void* dst, const void* src);
  sim::u64 (*hash)(const void* w);
  void (*run)(int op, const void* wa, const void* wb, const sim::u64* sel, sim::u64 failAt, CatRes* out);
};
