// C20: memory watchers - each watched access is reported once, and forwarded unchanged.
#include "mem_rig.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"

using namespace mem;
using namespace mpact::sim::util;

namespace {
struct Hit {
  int watch;
  uint64_t a;
  int n;
  bool after;  // memory already had the access when the callback ran
  bool operator==(const Hit& o) const { return watch == o.watch && a == o.a && n == o.n && after == o.after; }
};
// Records when the access reaches the memory behind the watcher.
template <typename Base>
struct Spy : Base {
  int* reached;
  template <typename... A>
  explicit Spy(int* p, A... a) : Base(a...), reached(p) {}
  using MI = MemoryInterface;
  void Load(uint64_t a, DataBuffer* d, Instruction* i, ReferenceCount* x) override { ++*reached; Base::Load(a, d, i, x); }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* d, Instruction* i, ReferenceCount* x) override { ++*reached; Base::Load(a, m, e, d, i, x); }
  void Store(uint64_t a, DataBuffer* d) override { ++*reached; Base::Store(a, d); }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* d) override { ++*reached; Base::Store(a, m, e, d); }
};
struct TSpy : Spy<TaggedFlatDemandMemory> {
  using Spy::Load;
  using Spy::Spy;
  using Spy::Store;
  void Load(uint64_t a, DataBuffer* d, DataBuffer* t, Instruction* i, ReferenceCount* x) override { ++*reached; TaggedFlatDemandMemory::Load(a, d, t, i, x); }
  void Store(uint64_t a, DataBuffer* d, DataBuffer* t) override { ++*reached; TaggedFlatDemandMemory::Store(a, d, t); }
};
}  // namespace

template <typename W, bool kTagged>
static void Run(vh::Case& c) {
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  int reached = 0;
  uint64_t base = r.coin() ? 0x2000 : r.coin() ? 0 : 0 - 0x1008ull;
  int span = r.pick(std::vector<int>{128, 300, 900});
  Ref ref;
  std::unique_ptr<MemoryInterface> under;
  std::unique_ptr<W> w;
  if constexpr (kTagged) {
    auto* t = new TSpy(&reached, (uint64_t)0x1000, base, 1u, (uint8_t)0, 8u);
    under.reset(t);
    w.reset(new W(t));
  } else {
    auto* t = new Spy<FlatDemandMemory>(&reached, (uint64_t)0x1000, base);
    under.reset(t);
    w.reset(new W(t));
  }
  using Range = typename W::AddressRange;
  struct Watch {
    uint64_t lo, hi;
    int id;
  };
  std::vector<Watch> watch[2];  // 0: load, 1: store
  std::vector<Hit> hits[2];
  int ids = 0;
  auto pick = [&](uint64_t n) -> uint64_t { return base + r.below(span - n); };
  auto rd = [&](uint64_t x, int n) { return ref.read(x, n); };
  auto expect = [&](int kind, uint64_t a, int n, std::vector<Hit>& out) {
    std::vector<Watch> v = watch[kind];
    std::sort(v.begin(), v.end(), [](const Watch& x, const Watch& y) { return x.lo < y.lo; });
    for (auto& x : v)
      if (x.lo <= a + (n - 1) && a <= x.hi) out.push_back({x.id, a, n, kind == 1});
  };
  auto verify = [&](int kind, const std::vector<Hit>& want) {
    auto& got = hits[kind];
    c.check(hits[1 - kind].empty(), "wrong_kind", "a %s triggered a %s watch", kind ? "store" : "load", kind ? "load" : "store");
    c.check(reached == 1, "forwarded", "the access reached memory %d times", reached);
    std::string s;
    for (auto& h : got) s += " [" + std::to_string(h.watch) + " " + std::to_string(h.a) + "+" + std::to_string(h.n) + (h.after ? " after]" : " before]");
    s += " expected";
    for (auto& h : want) s += " [" + std::to_string(h.watch) + " " + std::to_string(h.a) + "+" + std::to_string(h.n) + (h.after ? " after]" : " before]");
    c.check(got == want, "hits", "callbacks:%s", s.c_str());
    c.ev(kind ? "store_hits" : "load_hits", got.size());
    if (got.size() > 1) c.ev("multi_hits");
    if (got.empty()) c.ev("misses");
    hits[0].clear();
    hits[1].clear();
    reached = 0;
  };
  int steps = r.range(10, 60);
  c.op("base %lx span %d", base, span);
  for (int s = 0; s < steps; ++s) {
    std::vector<Hit> want;
    switch (r.below(9)) {
      case 0: case 1: {  // set
        int kind = r.below(2);
        uint64_t lo = pick(1), hi = r.chance(1, 3) ? lo : lo + r.below(r.chance(1, 6) ? span : 20);
        if (r.chance(1, 10)) std::swap(lo, hi);
        bool bad = lo > hi;
        for (auto& x : watch[kind]) bad |= x.lo <= hi && lo <= x.hi;
        int id = ++ids;
        c.op("watch %s [%lx, %lx] id %d", kind ? "store" : "load", lo, hi, id);
        auto cb = [&, kind, id](uint64_t a, int n) { hits[kind].push_back({id, a, n, reached > 0}); };
        auto st = kind ? w->SetStoreWatchCallback(Range(lo, hi), cb) : w->SetLoadWatchCallback(Range(lo, hi), cb);
        c.check(st.ok() == !bad, "set", "setting a watch on [%lx, %lx] returned %d, overlaps or inverted: %d", lo, hi, st.ok(), bad);
        if (!bad) watch[kind].push_back({lo, hi, id});
        c.ev(bad ? "set_refused" : "set");
        break;
      }
      case 2: {  // clear
        int kind = r.below(2);
        uint64_t a = pick(1);
        if (!watch[kind].empty() && r.chance(2, 3)) {
          auto& x = r.pick(watch[kind]);
          a = r.coin() ? x.lo : x.hi;
        }
        c.op("clear %s %lx", kind ? "store" : "load", a);
        auto st = kind ? w->ClearStoreWatchCallback(a) : w->ClearLoadWatchCallback(a);
        bool found = false;
        for (size_t i = 0; i < watch[kind].size(); ++i)
          if (watch[kind][i].lo <= a && a <= watch[kind][i].hi) {
            watch[kind].erase(watch[kind].begin() + i);
            found = true;
            break;
          }
        c.check(st.ok() == found, "clear", "clearing the watch at %lx returned %d, expected %d", a, st.ok(), found);
        c.ev(found ? "cleared" : "clear_unknown");
        break;
      }
      case 3: {
        int n = r.range(1, 24);
        uint64_t a = pick(n);
        expect(0, a, n, want);
        k.load(w.get(), a, ref.read(a, n));
        verify(0, want);
        break;
      }
      case 4: {
        int n = r.range(1, 24);
        uint64_t a = pick(n);
        Bytes b = g.rnd(n);
        expect(1, a, n, want);
        k.store(w.get(), a, b);
        ref.write(a, b);
        verify(1, want);
        c.ev("stores");
        break;
      }
      case 5: {
        Vec v = k.vec(pick, {1, 2, 4, 8}, 9, span >= 900 ? 90 : 0);
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) expect(0, v.at[i], v.el, want);
        k.vload(w.get(), v, rd);
        verify(0, want);
        break;
      }
      case 6: {
        Vec v = k.vec(pick, {1, 2, 4, 8}, 9, span >= 900 ? 90 : 0);
        Bytes b = g.rnd(v.el * v.n);
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) expect(1, v.at[i], v.el, want);
        k.vstore(w.get(), v, b);
        k.model(ref, v, b);
        verify(1, want);
        break;
      }
      case 7:
        if constexpr (kTagged) {
          int nt = r.range(1, 3);
          uint64_t a = base + r.below(span / 8 - nt) * 8;
          auto *d = g.buf(g.rnd(nt * 8)), *t = g.buf(g.rnd(nt));
          if (r.coin()) {
            bool only = r.chance(1, 4);
            if (!only) expect(0, a, nt * 8, want);
            c.op("tagged load %lx %d", a, nt);
            int l = k.lat();
            d->set_latency(l);
            t->set_latency(l);
            Rec* x = g.start(r.coin(), false);
            w->Load(a, only ? nullptr : d, t, x->inst, x->ctx);
            g.issued(x, l);
            if (!only) c.check(g.bytes(d) == ref.read(a, nt * 8), "tload", "tagged load data at %lx", a);
            verify(0, want);
          } else {
            expect(1, a, nt * 8, want);
            c.op("tagged store %lx %d", a, nt);
            w->Store(a, d, t);
            ref.write(a, g.bytes(d));
            Bytes tb = g.bytes(t);
            verify(1, want);
            // The tags must have arrived.
            auto *d2 = g.buf(g.rnd(nt * 8)), *t2 = g.buf(g.rnd(nt));
            static_cast<TaggedMemoryInterface*>(static_cast<TSpy*>(under.get()))->Load(a, d2, t2, nullptr, nullptr);
            reached = 0;
            c.check(g.bytes(t2) == tb, "tags", "tags lost in the watcher");
            d2->DecRef();
            t2->DecRef();
          }
          c.check(d->ref_count() == 1 && t->ref_count() == 1, "db_refs", "references");
          d->DecRef();
          t->DecRef();
          c.ev("tagged_accesses");
          break;
        }
        [[fallthrough]];
      default: g.advance();
    }
    c.seen(vh::Comb(watch[0].size(), vh::Comb(watch[1].size(), ref.m.size())));
    g.settle();
  }
  g.finish();
  if (ids > 1) c.nontrivial();
}
VH_SCENARIO(C20, plain, 6000, 300000) { Run<MemoryWatcher, false>(c); }
VH_SCENARIO(C20, tagged, 6000, 300000) { Run<TaggedMemoryWatcher, true>(c); }
