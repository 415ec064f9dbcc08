// C19: atomic memories - load linked / store conditional and atomic operations.
#include "mem_rig.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mem;
using namespace mpact::sim::util;
using Op = AtomicMemoryOpInterface::Operation;

static uint64_t Le(const Bytes& b) {
  uint64_t v = 0;
  for (size_t i = 0; i < b.size(); ++i) v |= (uint64_t)b[i] << (8 * i);
  return v;
}
static Bytes Le(uint64_t v, int n) {
  Bytes b(n);
  for (int i = 0; i < n; ++i) b[i] = (uint8_t)(v >> (8 * i));
  return b;
}
static int64_t Sx(uint64_t v, int n) { return n == 8 ? (int64_t)v : (int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n); }

static void Run(vh::Case& c, bool tagged) {
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  uint64_t base = r.coin() ? 0x1000 : (r.next() >> r.below(30)) & ~0xfffull;
  if (base > ~0ull - 0x20000) base = 0x4000;
  int span = r.pick(std::vector<int>{16, 32, 64, 200, 200, 900});
  Ref ref;
  std::unique_ptr<MemoryInterface> under;
  std::unique_ptr<AtomicMemory> am;
  std::unique_ptr<AtomicTaggedMemory> at;
  MemoryInterface* m;
  AtomicMemoryOpInterface* a;
  if (tagged) {
    auto* t = new TaggedFlatDemandMemory(0x10000, base, 8);
    under.reset(t);
    at.reset(new AtomicTaggedMemory(t));
    m = at.get();
    a = at.get();
  } else {
    auto* t = new FlatDemandMemory(0x10000, base);
    under.reset(t);
    am.reset(new AtomicMemory(t));
    m = am.get();
    a = am.get();
  }
  c.op("%s base %lx span %d", tagged ? "tagged" : "plain", base, span);
  std::set<uint64_t> res;                  // reserved granules
  std::map<uint64_t, uint8_t> tags;        // by granule
  auto touch = [&](uint64_t x, int n) {
    for (int i = 0; i < n; ++i) {
      if (res.erase((x + i) >> 3)) c.ev("reservations_broken");
      tags.erase((x + i) >> 3);
    }
  };
  auto pick = [&](uint64_t n) -> uint64_t { return base + r.below(span - std::min<uint64_t>(n, span - 1)); };
  auto rd = [&](uint64_t x, int n) { return ref.read(x, n); };
  int steps = r.range(10, 80);
  if (span >= 900 && r.coin()) {  // many reservations at once
    int n = r.range(10, 200);
    for (int i = 0; i < n; ++i) {
      uint64_t x = pick(8) & ~7ull;
      auto* d = g.buf(g.rnd(8));
      c.check(a->PerformMemoryOp(x, Op::kLoadLinked, d, nullptr, nullptr).ok(), "ll_status", "load linked failed");
      d->DecRef();
      res.insert(x >> 3);
    }
    c.op("%d reservations", n);
    c.ev("many_reservations");
  }
  for (int s = 0; s < steps; ++s) {
    int n = 1 << r.below(4);
    bool inst = r.chance(2, 3);
    switch (r.below(12)) {
      case 0: case 1: {  // load linked
        uint64_t x = pick(8) / n * n;
        Rec* e = g.start(inst, inst && r.coin());
        auto* d = g.buf(g.rnd(n));
        c.op("ll %lx size %d", x, n);
        auto st = a->PerformMemoryOp(x, Op::kLoadLinked, d, e->inst, e->ctx);
        c.check(st.ok(), "ll_status", "load linked failed");
        g.issued(e, 0);
        c.check(g.bytes(d) == ref.read(x, n), "ll_data", "load linked at %lx gave %s, expected %s", x, hex(g.bytes(d)).c_str(), hex(ref.read(x, n)).c_str());
        c.check(d->ref_count() == 1, "db_refs", "references");
        d->DecRef();
        res.insert(x >> 3);
        c.ev("load_linked");
        break;
      }
      case 2: case 3: {  // store conditional
        uint64_t x = res.empty() || r.chance(1, 4) ? pick(8) / n * n : ((*std::next(res.begin(), r.below(res.size()))) << 3) + r.below(8 / n) * n;
        if (r.chance(1, 6) && x + 15 < base + span) x = (x & ~7ull) + r.below(8), c.ev("unaligned_sc");
        Rec* e = g.start(inst, inst && r.coin());
        Bytes b = g.rnd(n);
        auto* d = g.buf(b);
        bool ok = res.count(x >> 3);
        c.op("sc %lx %s", x, hex(b).c_str());
        auto st = a->PerformMemoryOp(x, Op::kStoreConditional, d, e->inst, e->ctx);
        c.check(st.ok(), "sc_status", "store conditional returned an error");
        g.issued(e, 0);
        c.check(Le(g.bytes(d)) == (ok ? 0u : 1u), "sc_result", "store conditional at %lx reported %lx, expected %d", x, Le(g.bytes(d)), ok ? 0 : 1);
        c.check(d->ref_count() == 1, "db_refs", "references");
        d->DecRef();
        if (ok) {
          ref.write(x, b);
          touch(x, n);
        }
        c.ev(ok ? "sc_success" : "sc_fail");
        break;
      }
      case 4: case 5: case 6: {  // atomic operation
        static const Op ops[] = {Op::kAtomicSwap, Op::kAtomicAdd, Op::kAtomicSub, Op::kAtomicAnd, Op::kAtomicOr, Op::kAtomicXor, Op::kAtomicMax, Op::kAtomicMaxu, Op::kAtomicMin, Op::kAtomicMinu};
        int o = r.below(10);
        uint64_t x = r.chance(1, 4) ? pick(8) : pick(8) / n * n;
        Bytes old = ref.read(x, n);
        uint64_t v = r.val(), ov = Le(old), nv;
        Bytes b = Le(v, n);
        v = Le(b);
        switch (o) {
          case 0: nv = v; break;
          case 1: nv = ov + v; break;
          case 2: nv = ov - v; break;
          case 3: nv = ov & v; break;
          case 4: nv = ov | v; break;
          case 5: nv = ov ^ v; break;
          case 6: nv = Sx(ov, n) > Sx(v, n) ? ov : v; break;
          case 7: nv = ov > v ? ov : v; break;
          case 8: nv = Sx(ov, n) < Sx(v, n) ? ov : v; break;
          default: nv = ov < v ? ov : v;
        }
        if (r.chance(1, 12)) {  // an illegal size is refused
          auto* d = g.buf(g.rnd(r.coin() ? 3 : 16));
          Rec* e = g.start(true, r.coin());
          auto st = a->PerformMemoryOp(x, ops[o], d, e->inst, e->ctx);
          c.check(!st.ok(), "bad_size", "an atomic operation of %d bytes was accepted", d->size<uint8_t>());
          g.issued(e, 0, false);
          d->DecRef();
          c.ev("bad_sizes");
          break;
        }
        Rec* e = g.start(inst, inst && r.coin());
        auto* d = g.buf(b);
        c.op("amo %d %lx %s (old %s)", o, x, hex(b).c_str(), hex(old).c_str());
        auto st = a->PerformMemoryOp(x, ops[o], d, e->inst, e->ctx);
        c.check(st.ok(), "amo_status", "atomic operation failed");
        g.issued(e, 0);
        c.check(g.bytes(d) == old, "amo_result", "atomic operation %d at %lx returned %s, memory held %s", o, x, hex(g.bytes(d)).c_str(), hex(old).c_str());
        c.check(d->ref_count() == 1, "db_refs", "references");
        d->DecRef();
        ref.write(x, Le(nv, n));
        touch(x, n);
        c.ev("atomic_ops");
        auto* q = g.buf(g.rnd(n));
        under->Load(x, q, nullptr, nullptr);
        c.check(g.bytes(q) == Le(nv, n), "amo_memory", "atomic operation %d of %s on %s (size %d) left %s, expected %s", o, hex(b).c_str(), hex(old).c_str(), n, hex(g.bytes(q)).c_str(), hex(Le(nv, n)).c_str());
        q->DecRef();
        break;
      }
      case 7: {
        int z = r.chance(1, 10) ? r.range(1, span) : r.chance(1, 3) ? r.range(1, 20) : n;
        z = std::min(z, span - 1);
        uint64_t x = pick(z);
        Bytes b = g.rnd(z);
        if (tagged && r.coin() && span >= 16) {
          x = x & ~7ull;
          b = g.rnd(8 * r.range(1, span / 8 >= 3 && x + 16 <= base + span ? 2 : 1));
          Bytes t(b.size() / 8);
          for (auto& q : t) q = r.coin();
          auto *d = g.buf(b), *td = g.buf(t);
          c.op("tagged store %lx %s", x, hex(b).c_str());
          at->Store(x, d, td);
          k.after(d, b);
          td->DecRef();
          ref.write(x, b);
          touch(x, b.size());
          for (size_t i = 0; i < t.size(); ++i) tags[(x >> 3) + i] = t[i];
          c.ev("tagged_stores");
          break;
        }
        k.store(m, x, b);
        ref.write(x, b);
        touch(x, z);
        c.ev("stores");
        break;
      }
      case 8: {
        Vec v = k.vec(pick, span >= 64 ? std::vector<int>{1, 2, 4, 8} : std::vector<int>{1, 2}, span >= 100 ? 9 : 5, span >= 900 ? 90 : 0);
        Bytes b = g.rnd(v.el * v.n);
        k.vstore(m, v, b);
        k.model(ref, v, b);
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) touch(v.at[i], v.el);
        break;
      }
      case 9: {
        Vec v = k.vec(pick, span >= 64 ? std::vector<int>{1, 2, 4, 8} : std::vector<int>{1, 2}, span >= 100 ? 9 : 5, span >= 900 ? 90 : 0);
        k.vload(m, v, rd);
        break;
      }
      case 10: {
        if (tagged && r.coin()) {
          uint64_t x = pick(8) & ~7ull;
          auto *d = g.buf(g.rnd(8)), *td = g.buf(g.rnd(1));
          Rec* e = g.start(inst, inst && r.coin());
          int l = k.lat();
          d->set_latency(l);
          at->Load(x, d, td, e->inst, e->ctx);
          g.issued(e, l);
          uint8_t want = tags.count(x >> 3) ? tags[x >> 3] : 0;
          c.check(g.bytes(d) == ref.read(x, 8), "tload_data", "tagged load data at %lx", x);
          c.check(g.bytes(td)[0] == want, "tload_tags", "tagged load at %lx gave tag %d, expected %d", x, g.bytes(td)[0], want);
          d->DecRef();
          td->DecRef();
          c.ev("tagged_loads");
          break;
        }
        int z = std::min<int>(r.range(1, 20), span - 1);
        uint64_t x = pick(z);
        k.load(m, x, ref.read(x, z));
        break;
      }
      default: g.advance();
    }
    uint64_t hs = res.size();
    for (auto x : res) hs = vh::Comb(hs, x - (base >> 3));
    c.seen(hs);
    g.settle();
  }
  g.finish();
  // Every granule: a store conditional succeeds exactly where a reservation is left.
  for (uint64_t x = base >> 3; x <= (base + span) >> 3; ++x) {
    auto* d = g.buf(ref.read(x << 3, 8));
    (void)a->PerformMemoryOp(x << 3, Op::kStoreConditional, d, nullptr, nullptr);
    c.check(Le(g.bytes(d)) == (res.count(x) ? 0u : 1u), "sc_final", "final store conditional at %lx reported %lx, reserved: %d", x << 3, Le(g.bytes(d)), (int)res.count(x));
    d->DecRef();
  }
  auto* d = g.buf(g.rnd(span + 8));
  under->Load(base, d, nullptr, nullptr);
  c.check(g.bytes(d) == ref.read(base, span + 8), "final", "memory %s, expected %s", hex(g.bytes(d), 220).c_str(), hex(ref.read(base, span + 8), 220).c_str());
  d->DecRef();
  c.nontrivial();
}
VH_SCENARIO(C19, plain, 6000, 300000) { Run(c, false); }
VH_SCENARIO(C19, tagged, 5000, 250000) { Run(c, true); }
