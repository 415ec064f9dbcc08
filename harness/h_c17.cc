// C17: flat and demand allocated memories hold what was stored.
#include "mem_rig.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"

using namespace mem;
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::FlatMemory;

static void Run(vh::Case& c, bool demand) {
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  unsigned unit = r.chance(1, 2) ? 1 : 1u << r.below(4);
  uint8_t fill = r.pick(std::vector<uint8_t>{0, 0xff, 0xa5, (uint8_t)r.next()});
  uint64_t base, size;
  if (demand) {
    switch (r.below(5)) {
      case 0: base = 0; break;
      case 1: base = r.next() >> r.below(60); break;
      case 2: base = 0x4000ull * r.below(100) - r.below(64); break;
      case 3: base = 0 - 0x4000ull * r.range(1, 20); break;
      default: base = (1ull << r.range(13, 63)) - r.below(40);
    }
    size = r.coin() ? r.range(64, 100000) : 1ull << r.range(7, 62);
    if (base + size < base) size = 0 - base - (r.coin() ? 0 : 1);
    if (size < 16) size = 16, base = 0 - 17;
  } else {
    base = r.coin() ? 0 : r.next() >> r.below(60);
    size = r.range(16, r.chance(1, 4) ? 70000 : 400);
    if (base + size < base) base = 0 - size;
  }
  Ref ref;
  ref.unit = unit;
  ref.fill = fill;
  k.unit = unit;
  std::unique_ptr<MemoryInterface> m;
  FlatDemandMemory* dm = nullptr;
  if (demand) {
    if (unit == 1 && fill == 0 && r.coin() && base + size == 0) m.reset(dm = new FlatDemandMemory(base));
    else if (unit == 1 && r.coin()) m.reset(dm = new FlatDemandMemory(size, base)), ref.fill = fill = 0;
    else m.reset(dm = new FlatDemandMemory(size, base, unit, fill));
  } else if (base == 0 && r.coin()) {
    m.reset(new FlatMemory(size, unit, fill));
  } else {
    m.reset(new FlatMemory(size, base, unit, fill));
  }
  c.op("%s base %lx size %lx unit %u fill %x", demand ? "demand" : "flat", base, size, unit, fill);
  uint64_t hot = base + r.below(size);
  std::vector<uint64_t> recent;
  // A random access of n bytes that fits.
  auto pick = [&](uint64_t n) -> uint64_t {
    uint64_t u = (n + unit - 1) / unit;
    c.check(u <= size, "harness", "access larger than memory");
    uint64_t lo = base, hi = base + (size - u);  // inclusive
    uint64_t a;
    switch (r.below(7)) {
      case 0: a = lo + r.below(8); break;
      case 1: a = hi - r.below(8); break;
      case 2: a = (hot & ~0x3fffull) + 0x4000 - r.below(u + 4); break;  // block boundary
      case 3: case 4: a = recent.empty() ? hot : r.pick(recent) + r.below(12) - 6; break;
      case 5:
        a = lo + r.below(hi - lo + 1);
        if (!recent.empty() && r.coin()) a = r.pick(recent) ^ (1ull << r.below(64));  // far apart, but alike
        break;
      default: a = hot + r.below(64);
    }
    if (a < lo || a > hi) a = lo + r.below(hi - lo + 1);
    recent.push_back(a);
    if (recent.size() > 12) recent.erase(recent.begin());
    return a;
  };
  auto len = [&]() -> int {  // bytes
    int n = r.chance(1, 40) ? r.range(1000, 40000) : r.chance(1, 3) ? (1 << r.below(5)) : r.range(1, 70);
    if (demand || n > (int)unit) n = (n + unit - 1) / unit * unit;
    if ((uint64_t)n / unit > size) n = unit * (1 + r.below(size));
    return n;
  };
  std::vector<int> els;
  for (int e : {1, 2, 4, 8})
    if (e >= (int)unit && (uint64_t)e * 9 / unit < size) els.push_back(e);
  if (demand && r.coin()) {  // elements of any whole number of units
    for (int i = 0; i < 3; ++i) {
      uint64_t e = (uint64_t)unit * r.range(1, r.coin() ? 9 : 70);
      if (e * 9 / unit < size) els.push_back((int)e);
    }
  }
  if (els.empty()) els.push_back(unit);
  uint64_t most = *std::max_element(els.begin(), els.end());
  int big = (int)std::min<uint64_t>(r.chance(1, 8) ? 600 : 90, (size - 1) / (most / unit));
  auto rd = [&](uint64_t a, int n) { return ref.read(a, n); };
  int steps = r.range(8, 60);
  for (int s = 0; s < steps; ++s) {
    switch (r.below(8)) {
      case 0: case 1: {
        int n = len();
        uint64_t a = pick(n);
        Bytes b = g.rnd(n);
        if (a < base + size && demand && (a >> 14) != ((a + (n - 1) / unit) >> 14)) c.ev("block_crossings");
        k.store(m.get(), a, b);
        ref.write(a, b);
        c.ev("stores");
        break;
      }
      case 2: case 3: {
        int n = len();
        uint64_t a = pick(n);
        k.load(m.get(), a, ref.read(a, n));
        break;
      }
      case 4: {
        Vec v = k.vec(pick, els, 9, big);
        k.vload(m.get(), v, rd);
        break;
      }
      case 5: {
        Vec v = k.vec(pick, els, 9, big);
        Bytes b = g.rnd(v.el * v.n);
        k.vstore(m.get(), v, b);
        k.model(ref, v, b);
        break;
      }
      case 6:
        if (dm && r.chance(1, 6)) {
          c.op("clear");
          dm->Clear();
          ref.m.clear();
          c.ev("clears");
          break;
        }
        [[fallthrough]];
      default: {
        int n = r.range(1, 4);
        c.op("advance %d", n);
        while (n--) g.advance();
      }
    }
    if (unit > 1) c.ev("multi_byte_units");
    c.seen(vh::Comb(vh::Comb(unit, size), vh::Comb(base & 0x3fff, ref.m.size())));
    g.settle();
  }
  g.finish();
  // Everything ever touched, and around it.
  std::vector<uint64_t> addrs;
  for (auto& [key, v] : ref.m) if (addrs.empty() || addrs.back() != key.first) addrs.push_back(key.first);
  for (auto a : addrs) {
    uint64_t lo = a - std::min<uint64_t>(a - base, 2);
    uint64_t n = std::min<uint64_t>(5, base + size - lo);
    if (addrs.size() > 3000 && (a & 7)) continue;
    auto* d = g.buf(g.rnd(n * unit));
    m->Load(lo, d, nullptr, nullptr);
    c.check(g.bytes(d) == ref.read(lo, n * unit), "final", "memory at %lx is %s, expected %s", lo, hex(g.bytes(d)).c_str(), hex(ref.read(lo, n * unit)).c_str());
    d->DecRef();
    c.ev("final_reads");
  }
  if (!ref.m.empty()) c.nontrivial();
}
VH_SCENARIO(C17, flat, 4000, 200000) { Run(c, false); }
VH_SCENARIO(C17, demand, 6000, 300000) { Run(c, true); }
