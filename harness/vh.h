// Common runtime for the monitoring harnesses.
//
// A harness registers scenarios.  A scenario is run for many case indices; every
// case is a deterministic function of (VERIF_SEED, property, scenario, index).
// The scenario drives the real code through its public interface and an oracle
// (a reference model or a trace checker) watches what the code does.
//
//   c.op(...)     append one line to the case's operation trace (survives a crash)
//   c.ev(name)    count an observed event
//   c.seen(h)     record a distinct observed state / situation
//   c.nontrivial()  the case exercised the guarantee (see each scenario's rule)
//   c.check(cond, key, fmt, ...)   oracle; a false condition is a violation
#ifndef VERIF_VH_H_
#define VERIF_VH_H_
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>

#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t HashStr(const char* s, uint64_t h = 0xcbf29ce484222325ull) {
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 0x100000001b3ull;
  return h;
}
inline uint64_t HashBytes(const void* p, size_t n,
                          uint64_t h = 0xcbf29ce484222325ull) {
  auto* s = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 0x100000001b3ull;
  return h;
}
inline uint64_t Comb(uint64_t a, uint64_t b) { return Mix(a ^ (b * 0x9ddfea08eb382d69ull)); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // Uniform in [lo, hi].
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  bool coin() { return next() & 1; }
  // "Interesting" 64-bit value: boundary-biased.
  uint64_t val() {
    switch (below(10)) {
      case 0: return 0;
      case 1: return ~0ull;
      case 2: return 1ull << below(64);
      case 3: return (1ull << below(64)) - 1;
      case 4: return ~(1ull << below(64));
      case 5: return ~((1ull << below(64)) - 1);
      case 6: return below(256);
      case 7: return (uint64_t)(-(int64_t)below(256));
      default: return next();
    }
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  std::string ident(int maxlen = 8) {
    static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    static const char b[] = "abcdefghijklmnopqrstuvwxyz0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    std::string r(1, a[below(sizeof(a) - 1)]);
    int n = (int)below(maxlen);
    for (int i = 0; i < n; ++i) r += b[below(sizeof(b) - 1)];
    return r;
  }
};

struct Violation {
  std::string key, msg;
};

// Page shared with the driver through a file: survives aborts.
struct Shared {
  char scenario[64];
  uint64_t index;
  uint64_t trace_len;
  char trace[1 << 18];
};

struct Case;
struct Scenario {
  const char* prop;
  const char* name;
  uint64_t quick, thorough;  // number of cases
  void (*fn)(Case&);
};
inline std::vector<Scenario>& Registry() {
  static auto* r = new std::vector<Scenario>;
  return *r;
}
struct Reg {
  Reg(const char* p, const char* n, uint64_t q, uint64_t t, void (*fn)(Case&)) {
    Registry().push_back({p, n, q, t, fn});
  }
};
#define VH_SCENARIO(prop, name, quick, thorough)                     \
  static void scn_##prop##_##name(vh::Case& c);                      \
  static vh::Reg reg_##prop##_##name(#prop, #name, quick, thorough,  \
                                     scn_##prop##_##name);           \
  static void scn_##prop##_##name(vh::Case& c)

struct Global {
  Shared* sh = nullptr;
  std::map<std::string, uint64_t> events;
  std::unordered_set<uint64_t> seen;   // distinct states/situations
  std::unordered_set<uint64_t> cases;  // distinct non-trivial case traces
  bool verbose = false;
  bool thorough = false;
};
inline Global& G() {
  static auto* g = new Global;
  return *g;
}

struct Case {
  Rng rng;
  uint64_t index;
  uint64_t total;  // cases of this scenario in this tier
  const Scenario* scn;
  uint64_t h = 1469598103934665603ull;
  bool nt = false;
  bool thorough = false;
  Case(uint64_t seed, uint64_t i, uint64_t tot, const Scenario* s)
      : rng(seed), index(i), total(tot), scn(s), thorough(G().thorough) {}
  __attribute__((format(printf, 2, 3))) void op(const char* fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
    buf[n++] = '\n';
    buf[n] = 0;
    h = HashBytes(buf, n, h);
    Shared* s = G().sh;
    if (s->trace_len + n < sizeof(s->trace)) {
      memcpy(s->trace + s->trace_len, buf, n);
      s->trace_len += n;
    }
    if (G().verbose) fwrite(buf, 1, n, stdout);
  }
  // Like op() for long texts: hashed in full, kept in full if it fits.
  void text(const std::string& t) {
    h = HashBytes(t.data(), t.size(), h);
    Shared* s = G().sh;
    size_t n = std::min(t.size(), sizeof(s->trace) - 1 - s->trace_len);
    memcpy(s->trace + s->trace_len, t.data(), n);
    s->trace_len += n;
    if (G().verbose) fwrite(t.data(), 1, t.size(), stdout);
  }
  // Adds to the distinctness hash without a trace line (hot loops).
  void mix(uint64_t v) { h = Comb(h, v); }
  void ev(const char* name, uint64_t n = 1) { G().events[name] += n; }
  void seen(uint64_t x) {
    if (G().seen.size() < 2000000) G().seen.insert(x);
  }
  void nontrivial() { nt = true; }
  __attribute__((format(printf, 4, 5))) void check(bool ok, const char* key,
                                                   const char* fmt, ...) {
    if (__builtin_expect(ok, 1)) return;
    char buf[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    throw Violation{key, buf};
  }
  [[noreturn]] void fail(const char* key, const std::string& msg) {
    throw Violation{key, msg};
  }
};

inline std::string JsonEsc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += ch;
    }
  }
  return r;
}

inline void OnAlarm(int) {
  static const char m[] = "VH-HANG: case exceeded its time limit\n";
  (void)!write(2, m, sizeof(m) - 1);
  _exit(97);
}

inline int Main(int argc, char** argv) {
  const char* prop = nullptr;
  const char* only = nullptr;
  uint64_t seed = 1;
  unsigned shard = 0, shards = 1;
  const char* out = nullptr;
  const char* shm = nullptr;
  const char* skipf = nullptr;
  int64_t single = -1;
  double scale = 1;
  int caselimit = 120;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nextarg = [&] { return argv[++i]; };
    if (a == "--prop") prop = nextarg();
    else if (a == "--scenario") only = nextarg();
    else if (a == "--case") single = atoll(nextarg());
    else if (a == "--seed") seed = strtoull(nextarg(), nullptr, 0);
    else if (a == "--shard") shard = atoi(nextarg());
    else if (a == "--shards") shards = atoi(nextarg());
    else if (a == "--out") out = nextarg();
    else if (a == "--shm") shm = nextarg();
    else if (a == "--resume") skipf = nextarg();  // "scenario:index" to resume after
    else if (a == "--scale") scale = atof(nextarg());
    else if (a == "--case-limit") caselimit = atoi(nextarg());
    else if (a == "--thorough") G().thorough = true;
    else if (a == "--verbose") G().verbose = true;
    else if (a == "--list") list = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 64; }
  }
  if (list) {
    for (auto& s : Registry()) printf("%s %s %lu %lu\n", s.prop, s.name, s.quick, s.thorough);
    return 0;
  }
  if (shm) {
    int fd = open(shm, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 65;
    G().sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    G().sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  signal(SIGALRM, OnAlarm);
  signal(SIGPIPE, SIG_IGN);
  std::string resume_s;
  uint64_t resume_i = 0;
  if (skipf) {
    std::string f = skipf;
    auto p = f.find(':');
    resume_s = f.substr(0, p);
    resume_i = strtoull(f.c_str() + p + 1, nullptr, 0);
  }
  bool skipping = skipf != nullptr;
  std::string viol;
  std::map<std::string, uint64_t> vkeys;
  int nviol = 0;
  uint64_t ncases = 0;
  std::map<std::string, uint64_t> per;
  std::string samples;
  int nsamples = 0;
  for (auto& s : Registry()) {
    if (prop && strcmp(prop, s.prop)) continue;
    if (only && strcmp(only, s.name)) continue;
    uint64_t n = (uint64_t)((G().thorough ? s.thorough : s.quick) * scale);
    if (n == 0) n = 1;
    uint64_t first = 0;
    if (skipping) {
      if (resume_s != s.name) continue;
      skipping = false;
      first = resume_i + 1;
    }
    int scn_samples = 0;
    for (uint64_t i = first; i < n; ++i) {
      if (single >= 0 ? i != (uint64_t)single : i % shards != shard) continue;
      uint64_t cs = Comb(Comb(Comb(Mix(seed), HashStr(s.prop)), HashStr(s.name)), i);
      Case c(cs, i, n, &s);
      Shared* sh = G().sh;
      snprintf(sh->scenario, sizeof sh->scenario, "%s", s.name);
      sh->index = i;
      sh->trace_len = 0;
      alarm(caselimit);
      Violation v;
      bool bad = false;
      try {
        s.fn(c);
      } catch (const Violation& e) {
        bad = true;
        v = e;
      } catch (const std::exception& e) {
        bad = true;
        v = Violation{"exception", std::string("uncaught exception: ") + e.what()};
      } catch (...) {
        bad = true;
        v = Violation{"exception", "uncaught exception"};
      }
      alarm(0);
      ++ncases;
      ++per[s.name];
      if (c.nt && G().cases.size() < 4000000) G().cases.insert(Comb(c.h, HashStr(s.name)));
      if (c.nt && scn_samples < 1 && nsamples < 24) {
        ++scn_samples;
        ++nsamples;
        std::string t(sh->trace, std::min<uint64_t>(sh->trace_len, 700));
        if (!samples.empty()) samples += ",";
        samples += "{\"scenario\":\"" + std::string(s.name) + "\",\"case\":" + std::to_string(i) +
                   ",\"trace\":\"" + JsonEsc(t) + "\"}";
      }
      if (bad) {
        ++nviol;
        auto k = std::string(s.name) + ":" + v.key;
        if (G().verbose) printf("VIOLATION %s: %s\n", k.c_str(), v.msg.c_str());
        if (vkeys[k]++ < 2) {
          if (!viol.empty()) viol += ",\n";
          std::string t(sh->trace, sh->trace_len);
          viol += "{\"scenario\":\"" + std::string(s.name) + "\",\"case\":" + std::to_string(i) +
                  ",\"key\":\"" + JsonEsc(v.key) + "\",\"msg\":\"" + JsonEsc(v.msg) +
                  "\",\"trace\":\"" + JsonEsc(t) + "\"}";
        }
        // Enough evidence of a broken property; do not grind on.
        if (vkeys[k] > 200) break;
      }
    }
  }
  if (out) {
    FILE* f = fopen(out, "w");
    if (!f) return 66;
    fprintf(f, "{\"cases\":%lu,\n\"per_scenario\":{", ncases);
    bool fst = true;
    for (auto& [k, v] : per) {
      fprintf(f, "%s\"%s\":%lu", fst ? "" : ",", k.c_str(), v);
      fst = false;
    }
    fprintf(f, "},\n\"events\":{");
    fst = true;
    for (auto& [k, v] : G().events) {
      fprintf(f, "%s\"%s\":%lu", fst ? "" : ",", JsonEsc(k).c_str(), v);
      fst = false;
    }
    fprintf(f, "},\n\"samples\":[%s],\n\"violations\":[%s],\n\"nviol\":%d}\n", samples.c_str(),
            viol.c_str(), nviol);
    fclose(f);
    std::string hf = std::string(out) + ".hash";
    f = fopen(hf.c_str(), "wb");
    uint64_t nn = G().cases.size();
    fwrite(&nn, 8, 1, f);
    for (uint64_t x : G().cases) fwrite(&x, 8, 1, f);
    nn = G().seen.size();
    fwrite(&nn, 8, 1, f);
    for (uint64_t x : G().seen) fwrite(&x, 8, 1, f);
    fclose(f);
  }
  return nviol ? 1 : 0;
}
}  // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char** argv) { return vh::Main(argc, argv); }
#endif
#endif  // VERIF_VH_H_
