// C18: tagged memory - tags follow the data, and plain stores invalidate them.
#include "mem_rig.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"

using namespace mem;
using namespace mpact::sim::util;

namespace {
struct Tags {
  unsigned granule, unit;
  bool always_zero = false;
  std::map<uint64_t, uint8_t> t;  // by granule index in bytes (128 bit avoided: index)
  // Index of the granule holding byte k of address a; addresses are granule-unit based.
  uint64_t idx(uint64_t a, uint64_t k) const { return (uint64_t)((((unsigned __int128)a * unit) + k) / granule); }
  Bytes read(uint64_t a, int ntags) const {
    Bytes b(ntags);
    for (int i = 0; i < ntags; ++i) {
      auto it = t.find(idx(a, (uint64_t)i * granule));
      b[i] = it == t.end() ? 0 : it->second;
    }
    return b;
  }
  void write(uint64_t a, const Bytes& b) {
    if (always_zero) return;
    for (size_t i = 0; i < b.size(); ++i) t[idx(a, (uint64_t)i * granule)] = b[i];
  }
  int clear(uint64_t a, int bytes) {
    int n = 0;
    for (int k = 0; k < bytes; ++k) {
      auto it = t.find(idx(a, k));
      if (it != t.end() && it->second) it->second = 0, ++n;
    }
    return n;
  }
};
}  // namespace

static void Run(vh::Case& c, bool transactor) {
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  unsigned granule = 1u << r.range(transactor ? 3 : 2, 5);
  unsigned unit = transactor || r.coin() ? 1 : std::min(granule, 1u << r.below(4));
  unsigned gu = granule / unit;  // granule in units
  uint8_t fill = transactor ? 0 : (r.coin() ? 0 : (uint8_t)r.next());
  uint64_t ng = r.coin() ? r.range(4, 40) : r.range(1000, 5000);
  uint64_t base = 0;
  switch (r.below(4)) {
    case 0: break;
    case 1: base = r.next() >> r.range(1, 50); break;
    case 2: base = 0 - (ng + 1) * gu; break;
    default: base = 0x4000ull * gu * r.range(1, 9) - gu * r.below(20);
  }
  base = base / gu * gu;
  uint64_t size = ng * gu;  // units
  if (base + size < base) base = 0;
  const uint64_t gbase = base, gsize = size;  // the whole granules, where tagged accesses may go
  if (gu > 1 && r.coin()) {  // the memory may begin and end within a granule
    if (r.coin() && base >= gu) {
      uint64_t more = r.below(gu);
      base -= more;
      size += more;
    }
    uint64_t more = r.below(gu);
    if (base + size + more > base + size) size += more, c.ev("ragged_ends");
  }
  Ref ref;
  ref.unit = unit;
  ref.fill = fill;
  Tags tg{granule, unit};
  tg.always_zero = transactor;
  k.unit = unit;
  std::unique_ptr<MemoryInterface> under;
  std::unique_ptr<TaggedMemoryInterface> m;
  if (transactor) {
    if (r.coin()) under.reset(new FlatDemandMemory(size, base, unit, fill));
    else under.reset(new FlatMemory(size, base, unit, fill));
    m.reset(new TaggedToUntaggedMemoryTransactor(under.get()));
  } else if (unit == 1 && fill == 0 && r.coin()) {
    m.reset(new TaggedFlatDemandMemory(size, base, granule));
  } else if (unit == 1 && fill == 0 && base == 0 && r.coin()) {
    m.reset(new TaggedFlatDemandMemory(granule));
  } else {
    m.reset(new TaggedFlatDemandMemory(size, base, unit, fill, granule));
  }
  c.op("%s base %lx size %lx unit %u granule %u fill %x", transactor ? "transactor" : "tagged", base, size, unit, granule, fill);
  uint64_t hot = base + r.below(size);
  auto pick = [&](uint64_t n) -> uint64_t {
    uint64_t u = (n + unit - 1) / unit, hi = base + (size - u);
    uint64_t a = r.chance(1, 6) ? base + r.below(4) : r.chance(1, 6) ? hi - r.below(4) : r.coin() ? hot + r.below(6 * gu) - 3 * gu : base + r.below(size);
    if (a < base || a > hi) a = base + r.below(hi - base + 1);
    return a;
  };
  auto pick_g = [&](int ntags) -> uint64_t {
    uint64_t a = pick((uint64_t)ntags * granule);
    a = a / gu * gu;
    if (a < gbase) a = gbase;
    if (a - gbase > gsize - ntags * gu) a = gbase + (gsize - ntags * gu);
    return a;
  };
  std::vector<int> els;
  for (int e : {1, 2, 4, 8}) if (e >= (int)unit) els.push_back(e);
  if (!transactor && r.coin()) {
    uint64_t e = (uint64_t)unit * r.range(1, r.coin() ? 9 : 40);
    if (e * 9 / unit < size) els.push_back((int)e);
  }
  uint64_t most = *std::max_element(els.begin(), els.end());
  int max_n = (int)std::min<uint64_t>(9, std::max<uint64_t>(1, size * unit / most));
  int big = (int)std::min<uint64_t>(r.chance(1, 8) ? 600 : 90, size * unit / most);
  auto rd = [&](uint64_t a, int n) { return ref.read(a, n); };
  auto tload = [&](uint64_t a, int nt, bool with_db) {
    int l = k.lat(), other = k.lat();
    bool inst = r.chance(2, 3);
    Rec* x = g.start(inst, inst && r.coin());
    DataBuffer* d = with_db ? g.buf(g.rnd(nt * granule)) : nullptr;
    DataBuffer* t = g.buf(g.rnd(nt));
    if (d) d->set_latency(l);
    t->set_latency(d ? other : l);
    c.op("tagged load %lx tags %d db %d latency %d", a, nt, with_db, l);
    m->Load(a, d, t, x->inst, x->ctx);
    g.issued(x, l);
    if (d) c.check(g.bytes(d) == ref.read(a, nt * granule), "tload_data", "tagged load at %lx gave data %s, expected %s", a, hex(g.bytes(d), 64).c_str(), hex(ref.read(a, nt * granule), 64).c_str());
    c.check(g.bytes(t) == tg.read(a, nt), "tload_tags", "tagged load at %lx gave tags %s, expected %s", a, hex(g.bytes(t), 64).c_str(), hex(tg.read(a, nt), 64).c_str());
    c.check((!d || d->ref_count() == 1) && t->ref_count() == 1, "db_refs", "references to the buffers after a tagged load");
    for (auto b : g.bytes(t)) c.ev(b ? "tags_set" : "tags_clear");
    c.ev(with_db ? "tagged_loads" : "tag_only_loads");
    if (d) d->DecRef();
    t->DecRef();
  };
  int steps = r.range(10, 60);
  for (int s = 0; s < steps; ++s) {
    switch (r.below(10)) {
      case 0: case 1: {
        int nt = r.range(1, std::min<int>(4, ng));
        uint64_t a = pick_g(nt);
        Bytes b = g.rnd(nt * granule), t(nt);
        for (auto& x : t) x = transactor && r.chance(9, 10) ? 0 : r.coin() ? 1 : r.coin() ? 0 : (uint8_t)r.next();
        auto *d = g.buf(b), *td = g.buf(t);
        c.op("tagged store %lx %s tags %s", a, hex(b, 32).c_str(), hex(t).c_str());
        m->Store(a, d, td);
        ref.write(a, b);
        tg.write(a, t);
        c.check(g.bytes(td) == t && td->ref_count() == 1, "tstore_tags", "the store changed or kept its tag buffer");
        k.after(d, b);
        td->DecRef();
        c.ev("tagged_stores");
        break;
      }
      case 2: case 3: {
        int nt = r.range(1, std::min<int>(5, ng));
        tload(pick_g(nt), nt, r.chance(3, 4));
        break;
      }
      case 4: {  // plain store clears exactly the touched granules
        int n = r.range(1, 3 * granule);
        if (r.chance(1, 12)) n = r.range(1, granule * 1000), c.ev("large_stores");
        n = std::min<uint64_t>((n + unit - 1) / unit, size) * unit;
        uint64_t a = pick(n);
        Bytes b = g.rnd(n);
        k.store(m.get(), a, b);
        ref.write(a, b);
        c.ev("tags_cleared_by_store", tg.clear(a, n));
        c.ev("stores");
        break;
      }
      case 5: {
        int n = r.range(1, 3 * granule);
        n = std::min<uint64_t>((n + unit - 1) / unit, size) * unit;
        uint64_t a = pick(n);
        k.load(m.get(), a, ref.read(a, n));
        break;
      }
      case 6: k.vload(m.get(), k.vec(pick, els, max_n, big), rd); break;
      case 7: {
        Vec v = k.vec(pick, els, max_n, big);
        Bytes b = g.rnd(v.el * v.n);
        k.vstore(m.get(), v, b);
        k.model(ref, v, b);
        for (int i = 0; i < v.n; ++i) if (v.mask[i]) c.ev("tags_cleared_by_vector", tg.clear(v.at[i], v.el));
        break;
      }
      case 8:
        if (!transactor && r.chance(1, 3) && ng >= 8) {  // refused requests have no effect
          int nt = r.range(1, 3);
          uint64_t a = pick_g(nt + 1);
          int bad = r.below(3), db_n = nt * granule, tn = nt;
          if (bad == 0 && gu == 1) bad = 1;
          if (bad == 0) a += 1 + r.below(gu - 1);
          else if (bad == 1) db_n += granule == unit ? 0 : unit;
          else tn += r.coin() && nt > 1 ? -1 : 1;
          if (bad == 1 && granule == unit) break;
          Bytes b = g.rnd(db_n), t = g.rnd(tn);
          auto *d = g.buf(b), *td = g.buf(t);
          if (r.coin()) {
            c.op("refused tagged store %lx db %d tags %d", a, db_n, tn);
            m->Store(a, d, td);
          } else {
            Rec* x = g.start(true, r.coin());
            c.op("refused tagged load %lx db %d tags %d", a, db_n, tn);
            m->Load(a, d, td, x->inst, x->ctx);
            g.issued(x, 0, false);
          }
          c.check(g.bytes(d) == b && g.bytes(td) == t, "refused", "a refused tagged access changed its buffers");
          c.check(d->ref_count() == 1 && td->ref_count() == 1, "db_refs", "references after a refused access");
          d->DecRef();
          td->DecRef();
          c.ev("refused");
          break;
        }
        [[fallthrough]];
      default: {
        int n = r.range(1, 3);
        while (n--) g.advance();
      }
    }
    c.seen(vh::Comb(vh::Comb(unit, granule), vh::Comb(ref.m.size(), tg.t.size())));
    g.settle();
  }
  for (auto& [i, v] : tg.t) {
    uint64_t a = (uint64_t)((unsigned __int128)i * granule / unit);
    if (a < gbase || a - gbase >= gsize) continue;
    int nt = (int)std::min<uint64_t>(2, (gbase + gsize - a) / gu);
    tload(a, nt, true);
  }
  g.finish();
  if (!ref.m.empty()) c.nontrivial();
}
VH_SCENARIO(C18, tagged, 6000, 300000) { Run(c, false); }
VH_SCENARIO(C18, transactor, 2500, 100000) { Run(c, true); }
