// loads lapack.so (built from lapack.cc beside the program) through devsim's own loader
#pragma once
#include "BlasHeaders.hh"
#include <string>
#include <unistd.h>
namespace h { inline void lapack() {
  static bool once = false; if (once) return; once = true;
  char b[4096]; long n = readlink("/proc/self/exe", b, sizeof b); std::string p(b, n), e;
  MathLoader::LoadBlasDLL(p.substr(0, p.rfind('/')) + "/lapack.so", e, true);
} }
