#pragma once
// A fresh instance of the library, booted on the simulated machine: loading the
// module runs its constructors and resolvers under the installed seams.
#include "core.hpp"
#include <dlfcn.h>
#include <string>
#include <unistd.h>
struct Booted {
  void *h = nullptr;
  static const char *path() {
    static std::string p;
    if (p.empty()) {
      char b[4096];
      ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
      p.assign(b, n > 0 ? size_t(n) : 0);
      p = p.substr(0, p.rfind('/')) + "/libfptu_sim.so";
    }
    return p.c_str();
  }
  Booted() {
    h = dlopen(path(), RTLD_LAZY | RTLD_LOCAL);
    if (!h) {
      fprintf(stderr, "%s\n", dlerror());
      _exit(5);
    }
    SIM_COUNT("op.boot");
  }
  ~Booted() {
    dlclose(h);
    if (void *again = dlopen(path(), RTLD_LAZY | RTLD_NOLOAD)) { // must be gone, else the next boot is none
      dlclose(again);
      fprintf(stderr, "the module stays loaded\n");
      _exit(5);
    }
  }
  template <class F> F sym(const char *n) { return reinterpret_cast<F>(dlsym(h, n)); }
};
