// C22: the cache model counts what an LRU cache of its configuration would do, and is transparent.
#include "mem_rig.h"
#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mem;
using namespace mpact::sim::util;
using mpact::sim::generic::Component;
using mpact::sim::generic::SimpleCounter;

namespace {
struct Model {
  uint64_t line = 16, lines = 1, ways = 1;
  bool alloc = false;
  int kind = 0;  // 0 none, 1 cacheable ranges, 2 non-cacheable
  std::vector<std::pair<uint64_t, uint64_t>> ranges;
  struct Way {
    uint64_t block, time;
    bool dirty;
  };
  std::map<uint64_t, std::vector<Way>> sets;
  uint64_t t = 0;
  std::map<std::string, uint64_t> n;
  bool inside(uint64_t a, int size) const {
    for (auto& r : ranges) if (a + (size - 1) >= r.first && a <= r.second) return true;
    return false;
  }
  bool cacheable(uint64_t a, int size) const { return kind == 0 || (kind == 1) == inside(a, size); }
  // True if the access is entirely in or entirely out of the ranges.
  bool clear_cut(uint64_t a, int size) const {
    bool x = inside(a, 1);
    for (int i = 1; i < size; ++i) if (inside(a + i, 1) != x) return false;
    return true;
  }
  // The least recently used line is only defined when no two lines of a set were last used by the same access.
  bool ordered(const std::vector<std::pair<uint64_t, int>>& acc) const {
    if (ways == 1) return true;
    std::map<uint64_t, std::set<uint64_t>> by;
    for (auto& [a, size] : acc)
      for (uint64_t b = a / line; b <= (a + (size - 1)) / line; ++b) by[b % (lines / ways)].insert(b);
    for (auto& [i, s] : by) if (s.size() > 1) return false;
    return true;
  }
  void access(uint64_t a, int size, bool read) {
    for (uint64_t b = a / line; b <= (a + (size - 1)) / line; ++b) {
      if (!cacheable(a, size)) {
        ++n[read ? "read_non_cacheable" : "write_non_cacheable"];
        continue;
      }
      auto& s = sets[b % (lines / ways)];
      auto it = std::find_if(s.begin(), s.end(), [&](Way& w) { return w.block == b; });
      if (it != s.end()) {
        it->time = t;
        it->dirty |= !read;
        ++n[read ? "read_hit" : "write_hit"];
        continue;
      }
      ++n[read ? "read_miss" : "write_miss"];
      if (!read && !alloc) {
        ++n["write_around"];
        continue;
      }
      if (s.size() == ways) {
        auto v = std::min_element(s.begin(), s.end(), [](const Way& x, const Way& y) { return x.time < y.time; });
        if (v->dirty) ++n["dirty_line_writeback"];
        s.erase(v);
      }
      s.push_back({b, t, !read});
    }
  }
};
const char* kNames[] = {"read_hit", "read_miss", "write_hit", "write_miss", "dirty_line_writeback", "read_around", "write_around", "read_non_cacheable", "write_non_cacheable"};
}  // namespace

static void Run(vh::Case& c, int mode) {  // 0 plain, 1 tagged, 2 no memory
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  Component top("top");
  SimpleCounter<uint64_t> clock("clock", 0);
  std::unique_ptr<MemoryInterface> under;
  TaggedMemoryInterface* tunder = nullptr;
  std::unique_ptr<Cache> cache;
  Component* parent = r.coin() ? &top : nullptr;
  if (mode == 0) {
    under.reset(new FlatDemandMemory());
    if (r.chance(1, 3)) cache.reset(new Cache("c", parent)), cache->set_memory(under.get());
    else cache.reset(new Cache("c", parent, under.get()));
  } else if (mode == 1) {
    auto* t = new TaggedFlatDemandMemory(8u);
    under.reset(t);
    tunder = t;
    if (r.chance(1, 3)) cache.reset(new Cache("c", parent)), cache->set_tagged_memory(t);
    else cache.reset(new Cache("c", parent, t));
  } else {
    if (r.coin()) cache.reset(new Cache("c", parent));
    else cache.reset(new Cache("c"));
  }
  std::map<std::string, SimpleCounter<uint64_t>*> cnt;
  for (auto* n : kNames) {
    auto* p = cache->GetCounter(n);
    c.check(p != nullptr, "counter", "no counter %s", n);
    cnt[n] = dynamic_cast<SimpleCounter<uint64_t>*>(p);
    c.check(cnt[n] != nullptr && cnt[n]->GetValue() == 0, "counter", "counter %s", n);
  }
  Model m;
  Ref ref;
  std::map<uint64_t, uint8_t> tags;
  uint64_t base = r.coin() ? 0 : r.next() >> r.below(50) << 12 >> 1;
  if (base > ~0ull - 0x100000) base = 0;
  int span = r.chance(1, 5) ? 8192 : 512;
  auto configure = [&]() {
    Model x;
    x.line = 4ull << r.below(5);
    x.lines = 1ull << r.below(r.chance(1, 4) ? 11 : 6);
    x.ways = r.chance(1, 4) ? 0 : 1ull << r.below(r.chance(1, 4) ? 9 : 6);
    x.alloc = r.coin();
    x.kind = r.coin() ? 0 : 1 + r.below(2);
    uint64_t size = x.line * x.lines;
    std::string s, ways = std::to_string(x.ways);
    if (size % 1024 == 0 && r.coin()) s = std::to_string(size / 1024) + "k";
    else s = std::to_string(size);
    s += "," + std::to_string(x.line) + "," + ways + "," + (x.alloc ? "true" : "false");
    if (x.kind) {
      uint64_t at = base;
      for (int i = 0, n = r.range(1, r.chance(1, 4) ? 9 : 3); i < n; ++i) {
        uint64_t lo = at + r.below(100), hi = lo + r.below(100);
        x.ranges.push_back({lo, hi});
        at = hi + 1 + r.below(r.coin() ? 2 : 30);
        char b[100];
        snprintf(b, sizeof b, r.coin() ? ",%s:0x%lx:0x%lx" : ",%s:%lu:%lu", x.kind == 1 ? "c" : "nc", lo, hi);
        s += b;
      }
    }
    bool ok = true;
    if (x.ways == 0) x.ways = x.lines;
    if (x.ways > x.lines) ok = false;
    auto* ck = &clock;
    if (r.chance(1, 4)) {  // break it
      ok = false;
      std::vector<std::string> bad{"", "1k", "1k,16", "1k,16,1", "abc,16,1,true", "1k,x,1,true", "1k,16,,true", "1k,16,1,maybe", "1x,16,1,true", "3k,16,1,true", "1k,24,1,true", "1k,16,3,true",
                                   "1k,2,1,true", "16,32,1,true", "0,16,1,true", "1k,0,1,true", ",,,", "1k,16,1,true,", "1k,16,1,true,c:0:", "1k,16,1,true,q:0:1", "1k,16,1,true,c:5:4",
                                   "1k,16,1,true,c:0:1,nc:4:5", "1k,16,1,true,nc:0:1,c:4:5", "1k,16,1,false,c:z:9", "1k,16,1,true,c:0:1:2", "99999999999999999999999,16,1,true", "1k,16,4096,true", "-1k,16,1,true", "1k,16,1,true,c:0:0x1g"};
      s = r.pick(bad);
      if (r.chance(1, 10)) s = "1k,16,1,true", ck = nullptr;
    }
    c.op("configure '%s'", s.c_str());
    auto st = cache->Configure(s, ck);
    c.check(st.ok() == ok, "configure", "configuration '%s' returned %s", s.c_str(), st.ok() ? "ok" : "an error");
    c.ev(ok ? "configured" : "config_refused");
    if (ok) {
      x.n = m.n;
      x.t = m.t;
      m = x;
    }
    return ok;
  };
  for (int i = 0; !configure(); ++i) c.check(i < 1000, "harness", "no valid configuration");
  auto verify = [&](const char* what) {
    for (auto* n : kNames)
      c.check(cnt[n]->GetValue() == m.n[n], n, "after %s: %s is %lu, expected %lu (line %lu lines %lu ways %lu allocate %d)", what, n, cnt[n]->GetValue(), m.n[n], m.line, m.lines, m.ways, m.alloc);
  };
  std::vector<uint64_t> far{0};
  if (r.chance(1, 3)) for (int i = 0; i < 2; ++i) far.push_back(1ull << r.range(20, 61));
  auto pick = [&](uint64_t n) -> uint64_t {
    for (;;) {
      uint64_t a = base + (r.chance(1, 3) ? r.below(64) : r.below(span - n));
      a ^= r.pick(far);
      if (a > ~0ull - 100) a = base;
      if (m.kind == 0 || m.clear_cut(a, n)) return a;
      n = 1;  // give up on the length; callers check
    }
  };
  auto fits = [&](uint64_t a, int n) { return (m.kind == 0 || m.clear_cut(a, n)) && m.ordered({{a, n}}); };
  auto rd = [&](uint64_t a, int n) { return ref.read(a, n); };
  if (r.coin()) {  // the clock may start anywhere
    uint64_t t0 = r.next() >> r.range(2, 63);
    if (r.coin()) t0 = (1ull << r.range(31, 61)) - r.below(60);
    clock.SetValue(t0);
    m.t = t0;
  }
  int steps = r.range(30, 150);
  for (int s = 0; s < steps; ++s) {
    switch (r.below(9)) {
      case 0: case 1: {
        int n = r.chance(1, 5) ? r.range(1, 70) : 1 << r.below(4);
        uint64_t a = pick(n);
        if (!fits(a, n)) break;
        m.access(a, n, true);
        if (under) {
          k.load(cache.get(), a, ref.read(a, n));
        } else {
          auto* d = g.buf(g.rnd(n));
          cache->Load(a, d, nullptr, nullptr);
          d->DecRef();
        }
        verify("load");
        break;
      }
      case 2: case 3: {
        int n = r.chance(1, 5) ? r.range(1, 70) : 1 << r.below(4);
        uint64_t a = pick(n);
        if (!fits(a, n)) break;
        Bytes b = g.rnd(n);
        m.access(a, n, false);
        k.store(cache.get(), a, b);
        ref.write(a, b);
        for (int i = 0; i < n; ++i) tags.erase((a + i) >> 3);
        verify("store");
        c.ev("stores");
        break;
      }
      case 4: {
        Vec v = k.vec(pick, {1, 2, 4, 8}, 6, 40);
        bool ok = true;
        std::vector<std::pair<uint64_t, int>> acc;
        for (int i = 0; i < v.n; ++i) {
          ok &= fits(v.at[i], v.el);
          if (v.mask[i]) acc.push_back({v.at[i], v.el});
        }
        if (!ok || !m.ordered(acc)) break;
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) m.access(v.at[i], v.el, true);
        k.vload(cache.get(), v, rd, !!under, !!under);
        verify("vector load");
        break;
      }
      case 5: {
        Vec v = k.vec(pick, {1, 2, 4, 8}, 6, 40);
        bool ok = true;
        std::vector<std::pair<uint64_t, int>> acc;
        for (int i = 0; i < v.n; ++i) {
          ok &= fits(v.at[i], v.el);
          if (v.mask[i]) acc.push_back({v.at[i], v.el});
        }
        if (!ok || !m.ordered(acc)) break;
        Bytes b = g.rnd(v.el * v.n);
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) m.access(v.at[i], v.el, false);
        k.vstore(cache.get(), v, b);
        k.model(ref, v, b);
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) for (int j = 0; j < v.el; ++j) tags.erase((v.at[i] + j) >> 3);
        verify("vector store");
        break;
      }
      case 6: {
        if (mode != 1) break;
        int nt = r.range(1, 3);
        uint64_t a = pick(nt * 8) & ~7ull;
        if (!fits(a, nt * 8)) break;
        if (r.coin()) {
          bool only = r.chance(1, 3), inst = r.chance(2, 3);
          int l = k.lat();
          auto *d = g.buf(g.rnd(nt * 8)), *td = g.buf(g.rnd(nt));
          d->set_latency(l);
          td->set_latency(l);
          Rec* x = g.start(inst, inst && r.coin());
          m.access(a, nt * 8, true);
          c.op("tagged load %lx %d only tags %d latency %d", a, nt, only, l);
          cache->Load(a, only ? nullptr : d, td, x->inst, x->ctx);
          g.issued(x, l);
          if (!only) c.check(g.bytes(d) == ref.read(a, nt * 8), "tload_data", "tagged load at %lx", a);
          for (int i = 0; i < nt; ++i) {
            uint8_t want = tags.count((a >> 3) + i) ? tags[(a >> 3) + i] : 0;
            c.check(g.bytes(td)[i] == want, "tload_tags", "tag %d of load at %lx", i, a);
          }
          c.check(d->latency() == l && td->latency() == l, "db_latency", "tagged load changed a latency");
          c.check(d->ref_count() == 1 && td->ref_count() == 1, "db_refs", "references after a tagged load");
          d->DecRef();
          td->DecRef();
          c.ev(only ? "tag_only_loads" : "tagged_loads");
        } else {
          Bytes b = g.rnd(nt * 8), t(nt);
          for (auto& q : t) q = r.coin();
          auto *d = g.buf(b), *td = g.buf(t);
          m.access(a, nt * 8, false);
          c.op("tagged store %lx %d", a, nt);
          cache->Store(a, d, td);
          ref.write(a, b);
          for (int i = 0; i < nt; ++i) tags[(a >> 3) + i] = t[i];
          k.after(d, b);
          td->DecRef();
          c.ev("tagged_stores");
        }
        verify("tagged access");
        break;
      }
      case 7:
        if (r.chance(1, 12)) {
          configure();
          verify("configure");
          break;
        }
        [[fallthrough]];
      default: g.advance();
    }
    uint64_t dt = r.chance(1, 8) ? r.below(1000) + 1 : r.chance(1, 20) ? r.next() >> r.range(24, 63) : 1;
    clock.Increment(dt + (dt == 0));
    m.t = clock.GetValue();
    c.seen(vh::Comb(vh::Comb(m.line, m.lines), vh::Comb(m.ways, m.n["read_hit"] * 7 + m.n["write_miss"])));
    g.settle();
  }
  g.finish();
  for (auto& [n, v] : m.n) c.ev(n.c_str(), v);
  c.nontrivial();
}
VH_SCENARIO(C22, plain, 4000, 200000) { Run(c, 0); }
VH_SCENARIO(C22, tagged, 3000, 150000) { Run(c, 1); }
VH_SCENARIO(C22, alone, 1500, 50000) { Run(c, 2); }
