// C23: the memory use profile lists exactly the words accessed while enabled.
#include <sstream>

#include "mem_rig.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mem;
using namespace mpact::sim::util;

template <typename P, bool kTagged>
static void Run(vh::Case& c) {
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  std::unique_ptr<MemoryInterface> under;
  std::unique_ptr<P> p;
  bool fwd = !r.chance(1, 5);
  if constexpr (kTagged) {
    auto* t = new TaggedFlatDemandMemory(8u);
    under.reset(t);
    p.reset(fwd ? new P(t) : new P());
  } else {
    under.reset(new FlatDemandMemory());
    p.reset(fwd ? new P(under.get()) : new P());
  }
  Ref ref;
  std::set<uint64_t> words;
  bool on = false;
  // A few hot places: segment edges, the bottom and the top of the address space.
  const uint64_t S = 128 * 1024;
  std::vector<uint64_t> hot;
  for (int i = 0, n = r.range(1, 4); i < n; ++i) {
    switch (r.below(5)) {
      case 0: hot.push_back(0); break;
      case 1: hot.push_back(S * r.below(6) - 40); break;
      case 2: hot.push_back(r.next() / 4 / S * S); break;
      case 3: hot.push_back(r.next() / 4); break;
      default: hot.push_back(0 - S - 64); break;
    }
    if (r.chance(1, 3)) hot.push_back(hot.back() ^ (1ull << r.range(18, 61))), c.ev("far_aliases");
    if (r.chance(1, 4)) hot.push_back(hot.back() + S + (1ull << r.range(18, 61)));
  }
  auto pick = [&](uint64_t n) -> uint64_t {
    uint64_t a = r.pick(hot) + r.below(100);
    if (a + n < a || a > ~0ull - 200) a = r.below(100);
    return a;
  };
  auto mark = [&](uint64_t a, int n) {
    if (!on || n > 8) return;
    for (int i = 0; i < n; ++i) words.insert((a + i) & ~3ull);
  };
  auto rd = [&](uint64_t a, int n) { return ref.read(a, n); };
  auto verify = [&]() {
    std::ostringstream os;
    p->WriteProfile(os);
    std::string want;
    for (auto it = words.begin(); it != words.end();) {
      uint64_t lo = *it, hi = lo;
      for (++it; it != words.end() && *it == hi + 4; ++it) hi = *it;
      char b[100];
      snprintf(b, sizeof b, "0x%lx,0x%lx,%lu\n", lo, hi, hi - lo + 4);
      want += b;
    }
    c.check(os.str() == want, "profile", "profile:\n%s\nexpected:\n%s", os.str().c_str(), want.c_str());
    c.ev("profiles");
  };
  int steps = r.range(10, 60);
  for (int s = 0; s < steps; ++s) {
    switch (s == 0 ? 7 : r.below(9)) {
      case 0: case 1: {
        int n = r.chance(1, 8) ? r.range(9, 40) : r.range(1, 8);
        uint64_t a = pick(n);
        mark(a, n);
        if (fwd) {
          k.load(p.get(), a, ref.read(a, n));
        } else {
          auto* d = g.buf(g.rnd(n));
          c.op("load %lx %d", a, n);
          p->Load(a, d, nullptr, nullptr);
          d->DecRef();
        }
        break;
      }
      case 2: case 3: {
        int n = r.chance(1, 8) ? r.range(9, 40) : r.range(1, 8);
        uint64_t a = pick(n);
        if (r.chance(1, 6)) a = (a & ~0x1ffffull) + 0x20000 - r.below(9);  // segment boundary
        if (a > ~0ull - 100) a = 0;
        Bytes b = g.rnd(n);
        mark(a, n);
        k.store(p.get(), a, b);
        if (fwd) ref.write(a, b);
        c.ev("stores");
        break;
      }
      case 4: {
        Vec v = k.vec(pick, {1, 2, 4, 8}, 9, 90);
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) mark(v.at[i], v.el);
        k.vload(p.get(), v, rd, fwd, fwd);
        break;
      }
      case 5: {
        Vec v = k.vec(pick, {1, 2, 4, 8}, 9, 90);
        Bytes b = g.rnd(v.el * v.n);
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) mark(v.at[i], v.el);
        k.vstore(p.get(), v, b);
        if (fwd) k.model(ref, v, b);
        break;
      }
      case 6:
        if constexpr (kTagged) {
          int nt = r.range(1, 2);
          uint64_t a = pick(nt * 8) & ~7ull;
          auto *d = g.buf(g.rnd(nt * 8)), *t = g.buf(Bytes(nt, 1));
          if (r.coin()) {
            bool only = r.chance(1, 4);
            if (!only) mark(a, nt * 8);
            Rec* x = g.start(fwd, false);
            c.op("tagged load %lx %d %d", a, nt, only);
            p->Load(a, only ? nullptr : d, t, x->inst, x->ctx);
            g.issued(x, 0);
            if (fwd && !only) c.check(g.bytes(d) == ref.read(a, nt * 8), "tload", "tagged load");
          } else {
            mark(a, nt * 8);
            c.op("tagged store %lx %d", a, nt);
            p->Store(a, d, t);
            if (fwd) {
              ref.write(a, g.bytes(d));
              auto *d2 = g.buf(g.rnd(nt * 8)), *t2 = g.buf(Bytes(nt, 0));
              static_cast<TaggedMemoryInterface*>(static_cast<TaggedFlatDemandMemory*>(under.get()))->Load(a, d2, t2, nullptr, nullptr);
              c.check(g.bytes(t2) == Bytes(nt, 1), "tags", "tags lost in the profiler");
              d2->DecRef();
              t2->DecRef();
            }
          }
          d->DecRef();
          t->DecRef();
          c.ev("tagged_accesses");
          break;
        }
        [[fallthrough]];
      case 7:
        if (s == 0 || r.chance(1, 3)) {
          on = s == 0 ? r.chance(3, 4) : r.chance(4, 5);
          p->set_is_enabled(on);
          c.op("enabled %d", on);
          c.ev(on ? "enabled" : "disabled");
          break;
        }
        [[fallthrough]];
      case 8:
        if (r.coin()) verify();
        else g.advance();
    }
    c.seen(vh::Comb(words.size(), words.empty() ? 0 : *words.rbegin()));
    g.settle();
  }
  // A long run up to and across the end of a segment.
  if (on && r.chance(1, 3)) {
    uint64_t e = (r.pick(hot) & ~(S - 1)) + S;
    if (e != 0) {
      int before = r.range(0, 60), after = r.coin() ? 0 : r.range(1, 60);
      if (r.chance(1, 20)) before = r.range(0, 40000), c.ev("long_runs");
      if (e < (uint64_t)before * 4) before = 0;
      for (int i = -before; i < after; ++i) {
        uint64_t a = e + (int64_t)i * 4;
        Bytes b = g.rnd(4);
        mark(a, 4);
        auto* d = g.buf(b);
        p->Store(a, d);
        if (fwd) ref.write(a, b);
        d->DecRef();
      }
      c.op("run %lx -%d +%d", e, before, after);
      c.ev("segment_runs");
    }
  }
  verify();
  c.check(!words.empty() || true, "x", "x");
  g.finish();
  c.ev("words", words.size());
  if (words.size() > 1) c.nontrivial();
}
VH_SCENARIO(C23, plain, 6000, 200000) { Run<MemoryUseProfiler, false>(c); }
VH_SCENARIO(C23, tagged, 4000, 150000) { Run<TaggedMemoryUseProfiler, true>(c); }
