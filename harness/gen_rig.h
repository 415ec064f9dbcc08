// Compiles generated code and loads it into the harness.
#ifndef VERIF_GEN_RIG_H_
#define VERIF_GEN_RIG_H_
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include "vh.h"

namespace gen {
inline void Put(const std::string& path, const std::string& text) {
  std::ofstream f(path, std::ios::binary);
  f << text;
}
inline std::string Get(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
// Fresh scratch directory for one case.
inline std::string Dir(vh::Case& c) {
  static int n = 0;
  std::string d = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/g" + std::to_string(n++);
  std::string cmd = "rm -rf '" + d + "'";
  (void)!system(cmd.c_str());
  mkdir(d.c_str(), 0700);
  return d;
}
inline void Drop(const std::string& d) {
  if (vh::G().verbose) return;
  std::string cmd = "rm -rf '" + d + "'";
  (void)!system(cmd.c_str());
}
// Compiles the sources in dir to a shared object and loads it; a compile error is a violation.
inline void* Load(vh::Case& c, const std::string& dir, const std::string& sources, const std::string& extra = "") {
  const char* cxx = getenv("VH_GENCXX");
  if (!cxx) {
    fprintf(stderr, "VH_GENCXX not set\n");
    _exit(64);
  }
  std::string cmd = "cd '" + dir + "' && " + cxx + " -I. " + extra + " " + sources + " -o out.so > cxx.log 2>&1";
  int rc = system(cmd.c_str());
  if (rc != 0) {
    std::string log = Get(dir + "/cxx.log");
    // A compiler that could not run at all is not a verdict on the code.
    if (log.find("error:") == std::string::npos && log.find("undefined") == std::string::npos) {
      fprintf(stderr, "compiler failed: %s\n", log.substr(0, 2000).c_str());
      _exit(64);
    }
    c.fail("generated code does not compile", log.substr(0, 6000));
  }
  void* h = dlopen((dir + "/out.so").c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) c.fail("generated code does not link", dlerror());
  c.ev("compiled");
  return h;
}
template <typename F>
F Sym(vh::Case& c, void* h, const char* name) {
  void* p = dlsym(h, name);
  if (!p) {
    fprintf(stderr, "symbol %s missing\n", name);
    _exit(64);
  }
  return reinterpret_cast<F>(p);
}
}  // namespace gen
#endif
