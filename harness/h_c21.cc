// C21: routers deliver every access, whole, to exactly the target that owns its range.
#include "mem_rig.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/single_initiator_router.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mem;
using namespace mpact::sim::util;
using Op = AtomicMemoryOpInterface::Operation;

namespace {
struct Log {
  std::vector<std::string> v;
  void add(int target, const char* what, uint64_t a, int n) {
    char b[100];
    snprintf(b, sizeof b, "%d:%s:%lx:%d", target, what, a, n);
    v.push_back(b);
  }
};
struct PMem : FlatDemandMemory {  // plain target
  Log* l;
  int id;
  PMem(Log* l, int id) : l(l), id(id) {}
  void Load(uint64_t a, DataBuffer* d, Instruction* i, ReferenceCount* x) override { l->add(id, "ld", a, d->size<uint8_t>()); FlatDemandMemory::Load(a, d, i, x); }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* d, Instruction* i, ReferenceCount* x) override { l->add(id, "vld", a->Get<uint64_t>(0), e * m->size<uint8_t>()); FlatDemandMemory::Load(a, m, e, d, i, x); }
  void Store(uint64_t a, DataBuffer* d) override { l->add(id, "st", a, d->size<uint8_t>()); FlatDemandMemory::Store(a, d); }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* d) override { l->add(id, "vst", a->Get<uint64_t>(0), e * m->size<uint8_t>()); FlatDemandMemory::Store(a, m, e, d); }
};
struct TMem : TaggedFlatDemandMemory {
  Log* l;
  int id;
  TMem(Log* l, int id) : TaggedFlatDemandMemory(8u), l(l), id(id) {}
  void Load(uint64_t a, DataBuffer* d, Instruction* i, ReferenceCount* x) override { l->add(id, "ld", a, d->size<uint8_t>()); TaggedFlatDemandMemory::Load(a, d, i, x); }
  void Load(DataBuffer* a, DataBuffer* m, int e, DataBuffer* d, Instruction* i, ReferenceCount* x) override { l->add(id, "vld", a->Get<uint64_t>(0), e * m->size<uint8_t>()); TaggedFlatDemandMemory::Load(a, m, e, d, i, x); }
  void Load(uint64_t a, DataBuffer* d, DataBuffer* t, Instruction* i, ReferenceCount* x) override { l->add(id, "tld", a, t->size<uint8_t>()); TaggedFlatDemandMemory::Load(a, d, t, i, x); }
  void Store(uint64_t a, DataBuffer* d) override { l->add(id, "st", a, d->size<uint8_t>()); TaggedFlatDemandMemory::Store(a, d); }
  void Store(DataBuffer* a, DataBuffer* m, int e, DataBuffer* d) override { l->add(id, "vst", a->Get<uint64_t>(0), e * m->size<uint8_t>()); TaggedFlatDemandMemory::Store(a, m, e, d); }
  void Store(uint64_t a, DataBuffer* d, DataBuffer* t) override { l->add(id, "tst", a, t->size<uint8_t>()); TaggedFlatDemandMemory::Store(a, d, t); }
};
struct AMem : AtomicMemoryOpInterface {
  Log* l;
  int id;
  FlatDemandMemory fm;
  AtomicMemory am{&fm};
  AMem(Log* l, int id) : l(l), id(id) {}
  absl::Status PerformMemoryOp(uint64_t a, Operation op, DataBuffer* d, Instruction* i, ReferenceCount* x) override {
    l->add(id, "amo", a, d->size<uint8_t>());
    return am.PerformMemoryOp(a, op, d, i, x);
  }
};
struct Map {
  struct R {
    uint64_t lo, hi;
    int t;
  };
  std::vector<R> v;
  int def = -1;
  // 1: added, 0: refused, 2: ignored duplicate
  int add(uint64_t lo, uint64_t hi, int t) {
    if (lo >= hi) return 0;
    for (auto& x : v) {
      if (x.lo == lo && x.hi == hi) return 2;
      if (x.lo <= hi && lo <= x.hi) return 0;
    }
    v.push_back({lo, hi, t});
    return 1;
  }
  // target id, or -1
  int find(uint64_t a, int n) const {
    bool overlap = false;
    for (auto& x : v) {
      if (x.lo <= a && a + (n - 1) <= x.hi) return x.t;
      if (x.lo <= a + (n - 1) && a <= x.hi) overlap = true;
    }
    return overlap ? -1 : def;
  }
};
struct View {  // routing tables of one initiator
  Map plain, tagged, atomic;
  int plain_access(uint64_t a, int n, vh::Case& c) const {
    int t = plain.find(a, n);
    return t >= 0 ? t : tagged.find(a, n);
  }
  // vectors: -1 no target / several
  int vector(const Vec& v) const {
    for (const Map* m : {&plain, &tagged}) {
      int t = -1;
      bool all = true;
      for (int i = 0; i < v.n && all; ++i) {
        if (!v.mask[i]) continue;
        int q = m->find(v.at[i], v.el);
        if (q < 0) all = false;
        else if (t < 0) t = q;
        else if (t != q) return -1;  // split over targets is refused
      }
      if (all) return t;
    }
    return -1;
  }
};
struct Targets {
  Log log;
  std::vector<std::unique_ptr<PMem>> p;
  std::vector<std::unique_ptr<TMem>> t;
  std::vector<std::unique_ptr<AMem>> a;
  std::map<int, Ref> ref;                              // by target id
  std::map<int, std::map<uint64_t, uint8_t>> tags;
};
}  // namespace

// Drives accesses through one initiator.
struct Driver {
  vh::Case& c;
  vh::Rng& r;
  Rig& g;
  Client& k;
  Targets& T;
  uint64_t base, span;
  void expect(int t, const char* what, uint64_t a, int n) {
    auto& v = T.log.v;
    std::string got;
    for (auto& s : v) got += s + " ";
    char b[100];
    snprintf(b, sizeof b, "%d:%s:%lx:%d ", t, what, a, n);
    if (t < 0) c.check(v.empty(), "unexpected_target", "an access with no single target was sent: %s", got.c_str());
    else c.check(got == b, "target", "the access reached [%s], expected [%s]", got.c_str(), b);
    c.ev(t < 0 ? "unrouted" : "routed");
    v.clear();
  }
  uint64_t pick(const View& w, uint64_t n) {
    uint64_t a = base + r.below(span - n);
    if (r.chance(1, 2)) {  // at an edge of a range
      std::vector<uint64_t> e;
      for (auto* m : {&w.plain, &w.tagged, &w.atomic})
        for (auto& x : m->v) e.push_back(x.lo), e.push_back(x.hi + 1);
      if (!e.empty()) {
        uint64_t y = r.pick(e);
        y += r.coin() ? -n : r.coin() ? 0 : -r.below(n + 1);
        if (y >= base && y - base <= span - n) a = y;
      }
    }
    return a;
  }
  void touch(int t, uint64_t a, int n) {
    for (int i = 0; i < n; ++i) T.tags[t].erase((a + i) >> 3);
  }
  void step(const View& w, MemoryInterface* m, TaggedMemoryInterface* tm, AtomicMemoryOpInterface* am) {
    T.log.v.clear();
    auto pk = [&](uint64_t n) { return pick(w, n); };
    switch (r.below(7)) {
      case 0: {
        int n = r.range(1, 16);
        uint64_t a = pk(n);
        Bytes b = g.rnd(n);
        int t = w.plain_access(a, n, c);
        k.store(m, a, b);
        expect(t, "st", a, n);
        if (t >= 0) T.ref[t].write(a, b), touch(t, a, n);
        c.ev("stores");
        break;
      }
      case 1: {
        int n = r.range(1, 16);
        uint64_t a = pk(n);
        int t = w.plain_access(a, n, c);
        if (t >= 0) {
          k.load(m, a, T.ref[t].read(a, n));
        } else {
          Rec* x = g.start(true, r.coin());
          Bytes pre = g.rnd(n);
          auto* d = g.buf(pre);
          c.op("load %lx %d (no target)", a, n);
          m->Load(a, d, x->inst, x->ctx);
          g.issued(x, 0, false);
          c.check(g.bytes(d) == pre && d->ref_count() == 1, "unrouted_data", "an unrouted load changed its buffer");
          d->DecRef();
        }
        expect(t, "ld", a, n);
        break;
      }
      case 2: {
        Vec v = k.vec(pk, {1, 2, 4, 8}, 5, span >= 600 ? 70 : 0);
        int t = w.vector(v);
        bool none = std::none_of(v.mask.begin(), v.mask.end(), [](uint8_t x) { return x; });
        if (none) t = -1, c.ev("all_masked");
        k.vload(m, v, [&](uint64_t a, int n) { return T.ref[t].read(a, n); }, none || t >= 0, t >= 0);
        if (none) T.log.v.clear();
        else expect(t, "vld", v.addrs[0], v.el * v.n);
        break;
      }
      case 3: {
        Vec v = k.vec(pk, {1, 2, 4, 8}, 5, span >= 600 ? 70 : 0);
        Bytes b = g.rnd(v.el * v.n);
        int t = w.vector(v);
        bool none = std::none_of(v.mask.begin(), v.mask.end(), [](uint8_t x) { return x; });
        if (none) t = -1;
        k.vstore(m, v, b);
        if (none) T.log.v.clear();
        else expect(t, "vst", v.addrs[0], v.el * v.n);
        if (t >= 0) {
          k.model(T.ref[t], v, b);
          for (int i = 0; i < v.n; ++i) if (v.mask[i]) touch(t, v.at[i], v.el);
        }
        break;
      }
      case 4: {
        if (!tm) break;
        int nt = r.range(1, 3);
        uint64_t a = pk(nt * 8) & ~7ull;
        if (a < base) a += 8;
        int t = w.tagged.find(a, nt * 8);
        bool only = r.chance(1, 4);
        Bytes pd = g.rnd(nt * 8), pt = g.rnd(nt);
        auto *d = g.buf(pd), *td = g.buf(pt);
        int l = k.lat();
        d->set_latency(l);
        td->set_latency(l);
        Rec* x = g.start(r.chance(2, 3), r.coin());
        c.op("tagged load %lx %d only tags %d", a, nt, only);
        tm->Load(a, only ? nullptr : d, td, x->inst, x->ctx);
        g.issued(x, l, t >= 0);
        expect(t, "tld", a, nt);
        if (t >= 0) {
          if (!only) c.check(g.bytes(d) == T.ref[t].read(a, nt * 8), "tload_data", "tagged load data at %lx", a);
          for (int i = 0; i < nt; ++i) {
            auto it = T.tags[t].find((a >> 3) + i);
            c.check(g.bytes(td)[i] == (it == T.tags[t].end() ? 0 : it->second), "tload_tag", "tag %d at %lx", i, a);
          }
        } else {
          c.check(g.bytes(d) == pd && g.bytes(td) == pt, "unrouted_data", "an unrouted tagged load changed its buffers");
        }
        c.check(d->ref_count() == 1 && td->ref_count() == 1, "db_refs", "references");
        d->DecRef();
        td->DecRef();
        c.ev("tagged_loads");
        break;
      }
      case 5: {
        if (!tm) break;
        int nt = r.range(1, 3);
        uint64_t a = pk(nt * 8) & ~7ull;
        if (a < base) a += 8;
        int t = w.tagged.find(a, nt * 8);
        Bytes b = g.rnd(nt * 8), tb(nt);
        for (auto& q : tb) q = r.coin();
        auto *d = g.buf(b), *td = g.buf(tb);
        c.op("tagged store %lx %d", a, nt);
        tm->Store(a, d, td);
        expect(t, "tst", a, nt);
        if (t >= 0) {
          T.ref[t].write(a, b);
          for (int i = 0; i < nt; ++i) T.tags[t][(a >> 3) + i] = tb[i];
        }
        k.after(d, b);
        td->DecRef();
        c.ev("tagged_stores");
        break;
      }
      default: {
        if (!am) break;
        int n = 1 << r.below(4);
        uint64_t a = pk(n);
        int t = w.atomic.find(a, n);
        Bytes b = g.rnd(n), old;
        auto* d = g.buf(b);
        Rec* x = g.start(r.chance(2, 3), r.coin());
        c.op("swap %lx %d", a, n);
        auto st = am->PerformMemoryOp(a, Op::kAtomicSwap, d, x->inst, x->ctx);
        c.check(st.ok() == (t >= 0), "amo_status", "atomic operation at %lx returned %d, target %d", a, st.ok(), t);
        g.issued(x, 0, t >= 0);
        expect(t, "amo", a, n);
        if (t >= 0) {
          c.check(g.bytes(d) == T.ref[t].read(a, n), "amo_data", "swap at %lx", a);
          T.ref[t].write(a, b);
        } else {
          c.check(g.bytes(d) == b, "unrouted_data", "an unrouted atomic operation changed its buffer");
        }
        d->DecRef();
        c.ev("atomic_ops");
      }
    }
    if (r.chance(1, 4)) g.advance();
    g.settle();
  }
};

VH_SCENARIO(C21, single, 8000, 400000) {
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  Targets T;
  int id = 0;
  for (int i = 0, n = r.range(1, 4); i < n; ++i) T.p.emplace_back(new PMem(&T.log, id++));
  for (int i = 0, n = r.range(1, 3); i < n; ++i) T.t.emplace_back(new TMem(&T.log, id++));
  for (int i = 0, n = r.range(1, 3); i < n; ++i) T.a.emplace_back(new AMem(&T.log, id++));
  auto* router = new SingleInitiatorRouter("r");
  View w;
  uint64_t base = r.coin() ? 0x1000 : 0 - 0x400ull, span = r.pick(std::vector<int>{100, 200, 300, 700});
  Driver d{c, r, g, k, T, base, span};
  int steps = r.range(10, 60);
  c.check(router->name() == "r", "name", "router name");
  bool dp = r.coin(), dt = r.coin(), da = r.coin();
  for (int s = 0; s < steps; ++s) {
    if (s < 5 || r.chance(1, 8)) {
      uint64_t lo = base + r.below(span), hi = lo + (r.chance(1, 12) ? 0 : r.range(1, span >= 600 && r.coin() ? 600 : 60));
      if (r.chance(1, 20)) std::swap(lo, hi);
      int kind = r.below(3), want;
      std::vector<Map::R>* v = kind == 0 ? &w.plain.v : kind == 1 ? &w.tagged.v : &w.atomic.v;
      if (!v->empty() && r.chance(1, 3)) {  // adjacent to or equal to an existing range
        auto x = r.pick(*v);
        if (r.coin()) lo = x.hi + 1, hi = lo + r.range(1, 30);
        else if (r.coin()) hi = x.lo - 1, lo = hi - r.range(1, 20);
        else lo = x.lo, hi = x.hi;
      }
      absl::Status st;
      int t;
      if (kind == 0) {
        auto& q = T.p[r.below(T.p.size())];
        st = router->AddTarget<MemoryInterface>(q.get(), lo, hi);
        want = w.plain.add(lo, hi, t = q->id);
      } else if (kind == 1) {
        auto& q = T.t[r.below(T.t.size())];
        st = router->AddTarget<TaggedMemoryInterface>(q.get(), lo, hi);
        want = w.tagged.add(lo, hi, t = q->id);
      } else {
        auto& q = T.a[r.below(T.a.size())];
        st = router->AddTarget<AtomicMemoryOpInterface>(q.get(), lo, hi);
        want = w.atomic.add(lo, hi, t = q->id);
      }
      c.op("map kind %d [%lx, %lx] -> %d", kind, lo, hi, t);
      c.check(st.ok() == (want != 0), "add", "adding [%lx, %lx] returned %d, expected %d", lo, hi, st.ok(), want);
      c.ev(want ? "mapped" : "map_refused");
      continue;
    }
    if (r.chance(1, 15)) {
      int kind = r.below(3);
      if (!(kind == 0 ? dp : kind == 1 ? dt : da)) continue;
      absl::Status st;
      Map& m = kind == 0 ? w.plain : kind == 1 ? w.tagged : w.atomic;
      int t;
      bool clear = m.def >= 0 && r.coin();
      if (kind == 0) {
        t = T.p[0]->id;
        st = router->AddDefaultTarget<MemoryInterface>(clear ? nullptr : T.p[0].get());
      } else if (kind == 1) {
        t = T.t[0]->id;
        st = router->AddDefaultTarget<TaggedMemoryInterface>(clear ? nullptr : T.t[0].get());
      } else {
        t = T.a[0]->id;
        st = router->AddDefaultTarget<AtomicMemoryOpInterface>(clear ? nullptr : T.a[0].get());
      }
      c.op("default kind %d -> %d clear %d", kind, t, clear);
      bool ok = clear || m.def < 0;
      c.check(st.ok() == ok, "default", "setting a default target returned %d, expected %d", st.ok(), ok);
      if (ok) m.def = clear ? -1 : t;
      c.ev("defaults");
      continue;
    }
    d.step(w, router, router, router);
    c.seen(vh::Comb(w.plain.v.size(), vh::Comb(w.tagged.v.size(), T.ref.size())));
  }
  g.finish();
  delete router;
  c.nontrivial();
}

VH_SCENARIO(C21, multi, 4000, 200000) {
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  Targets T;
  int id = 0;
  std::vector<std::string> inames{"i0", "i1", "", "cpu.fetch"}, tnames{"t0", "t1", "t2", "t3", "t4", "", "i0"};
  auto router = std::make_unique<MemoryRouter>();
  struct Init {
    View w;
    MemoryInterface* m = nullptr;
    TaggedMemoryInterface* t = nullptr;
    AtomicMemoryOpInterface* a = nullptr;
  };
  std::map<std::string, Init> I;
  std::map<std::string, std::pair<int, int>> tgt;  // name -> kind, id
  uint64_t base = 0x1000, span = r.chance(1, 6) ? 700 : 200;
  Driver d{c, r, g, k, T, base, span};
  int steps = r.range(20, 80);
  for (int s = 0; s < steps; ++s) {
    switch (s < 8 ? r.below(3) : r.below(10)) {
      case 0: {
        auto& n = r.pick(inames);
        auto& x = I[n];
        int kind = r.below(3);
        c.op("initiator '%s' kind %d", n.c_str(), kind);
        if (kind == 0) {
          auto* p = router->AddMemoryInitiator(n);
          c.check(p && (!x.m || x.m == p), "initiator", "another interface for the same initiator");
          x.m = p;
        } else if (kind == 1) {
          auto* p = router->AddTaggedInitiator(n);
          c.check(p && (!x.t || x.t == p), "initiator", "another interface for the same initiator");
          x.t = p;
        } else {
          auto* p = router->AddAtomicInitiator(n);
          c.check(p && (!x.a || x.a == p), "initiator", "another interface for the same initiator");
          x.a = p;
        }
        c.ev("initiators");
        break;
      }
      case 1: {
        auto& n = r.pick(tnames);
        int kind = r.below(3);
        bool dup = tgt.count(n);
        absl::Status st;
        c.op("target '%s' kind %d", n.c_str(), kind);
        if (kind == 0) {
          T.p.emplace_back(new PMem(&T.log, id));
          st = router->AddTarget(n, static_cast<MemoryInterface*>(T.p.back().get()));
        } else if (kind == 1) {
          T.t.emplace_back(new TMem(&T.log, id));
          st = router->AddTarget(n, static_cast<TaggedMemoryInterface*>(T.t.back().get()));
        } else {
          T.a.emplace_back(new AMem(&T.log, id));
          st = router->AddTarget(n, static_cast<AtomicMemoryOpInterface*>(T.a.back().get()));
        }
        c.check(st.ok() == !dup, "add_target", "adding target '%s' returned %d, duplicate: %d", n.c_str(), st.ok(), dup);
        if (!dup) tgt[n] = {kind, id};
        ++id;
        c.ev(dup ? "duplicate_targets" : "targets");
        break;
      }
      case 2: {
        auto &in = r.pick(inames), &tn = r.pick(tnames);
        uint64_t lo = base + r.below(span), hi = lo + r.below(span >= 600 && r.coin() ? 600 : 60);
        if (r.chance(1, 10)) std::swap(lo, hi);
        c.op("mapping '%s' '%s' [%lx, %lx]", in.c_str(), tn.c_str(), lo, hi);
        auto st = router->AddMapping(in, tn, lo, hi);
        bool ok = I.count(in) && tgt.count(tn);
        if (ok) {
          auto [kind, t] = tgt[tn];
          View& w = I[in].w;
          ok = (kind == 0 ? w.plain : kind == 1 ? w.tagged : w.atomic).add(lo, hi, t) != 0;
        }
        c.check(st.ok() == ok, "mapping", "mapping returned %d, expected %d", st.ok(), ok);
        c.ev(ok ? "mapped" : "map_refused");
        break;
      }
      default: {
        if (I.empty()) break;
        auto it = std::next(I.begin(), r.below(I.size()));
        auto& x = it->second;
        c.op("through '%s'", it->first.c_str());
        if (!x.m) x.m = router->AddMemoryInitiator(it->first);
        d.step(x.w, x.m, x.t, x.a);
      }
    }
  }
  g.finish();
  router.reset();
  if (!tgt.empty()) c.nontrivial();
}
