#pragma once
#include "h.hh"
#ifdef H_PYTHON
#include <Python.h>
#endif
namespace h { int nfail = 0; std::string cur; std::vector<Test> &tests() { static std::vector<Test> t; return t; } }
int main(int argc, char **argv) {
#ifdef H_PYTHON
  Py_InitializeEx(0);
#endif
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  int scale = argc > 2 ? atoi(argv[2]) : 1;
  for (auto &t : h::tests()) {
    bool sel = argc <= 3;
    for (int i = 3; i < argc; ++i) sel = sel || t.name == argv[i];
    if (!sel) continue;
    h::cur = t.name;
    h::Rng r(seed);
    long n = 0;
    try { n = t.f(r, scale); }
    catch (const std::exception &e) { h::fail("see BEGIN line", "no exception", std::string("exception ") + e.what()); }
    catch (...) { h::fail("see BEGIN line", "no exception", "exception"); }
    printf("DONE %s %ld\n", t.name.c_str(), n);
    fflush(stdout);
  }
  return h::nfail ? 1 : 0;
}
