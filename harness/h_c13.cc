// C13: resource reservation (bit sets, simple and complex resources).
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"
#include "mpact/sim/generic/resource_bitset.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"
#include "vh.h"

using namespace mpact::sim::generic;

namespace {
struct State : ArchState {
  explicit State(absl::string_view id) : ArchState(id, nullptr) {}
  void set(uint64_t v) { set_cycle(v); }
};
using Bits = std::set<int>;

void CheckBits(vh::Case& c, const ResourceBitSet& b, const Bits& m, vh::Rng& r) {
  c.check(b.GetOnesCount() == (int)m.size(), "count", "%d ones, expected %zu", b.GetOnesCount(), m.size());
  int pos = -7;
  bool f = b.FindFirstSetBit(&pos);
  c.check(f == !m.empty(), "first", "FindFirstSetBit %d with %zu bits", f, m.size());
  if (f) c.check(pos == *m.begin(), "first", "first bit %d, expected %d", pos, *m.begin());
  c.check(b.FindFirstSetBit(nullptr) == !m.empty(), "first", "FindFirstSetBit(nullptr)");
  // Walk all the bits.
  Bits walk;
  for (int p = 0; b.FindNextSetBit(&p); ++p) {
    c.check(walk.insert(p).second, "next", "bit %d found twice", p);
    if (walk.size() > m.size() + 4) break;
  }
  c.check(walk == m, "next", "walk found %zu bits, expected %zu", walk.size(), m.size());
  for (int k = 0; k < 3; ++k) {
    int p = (int)r.below(300);
    int q = p;
    auto it = m.lower_bound(p);
    bool g = b.FindNextSetBit(&q);
    c.check(g == (it != m.end()), "next", "FindNextSetBit from %d returned %d", p, g);
    if (g) c.check(q == *it, "next", "next bit from %d is %d, expected %d", p, q, *it);
  }
}
}  // namespace

VH_SCENARIO(C13, bitset, 4000, 120000) {
  auto& r = c.rng;
  static const int kSizes[] = {0, 1, 23, 63, 64, 65, 127, 128, 129, 200, 256};
  const int span = c.rng.chance(1, 10) ? 3000 : 280;
  struct S {
    std::unique_ptr<ResourceBitSet> b;
    Bits m;
  };
  std::vector<S> s;
  int n = (int)r.range(2, 4);
  for (int i = 0; i < n; ++i) {
    int sz = kSizes[r.below(11)];
    s.push_back({sz == 0 ? std::make_unique<ResourceBitSet>() : std::make_unique<ResourceBitSet>(sz), {}});
    c.op("bitset %d size %d", i, sz);
  }
  int steps = (int)r.range(5, 50);
  for (int k = 0; k < steps; ++k) {
    int i = (int)r.below(n), j = (int)r.below(n);
    auto &a = s[i], &b = s[j];
    switch (r.below(8)) {
      case 0: case 1: case 2: {
        static const int kPos[] = {0, 1, 62, 63, 64, 65, 127, 128, 191, 192, 255, 256};
        int p = r.coin() ? kPos[r.below(12)] : (int)r.below(span);
        c.op("set %d.%d", i, p);
        a.b->Set(p);
        a.m.insert(p);
        c.ev("set");
        break;
      }
      case 3:
        c.op("or %d |= %d", i, j);
        a.b->Or(*b.b);
        { auto t = b.m; a.m.insert(t.begin(), t.end()); }
        c.ev("or");
        break;
      case 4: {
        c.op("andnot %d &= ~%d", i, j);
        a.b->AndNot(*b.b);
        auto t = b.m;
        for (int p : t) a.m.erase(p);
        c.ev("andnot");
        break;
      }
      case 5: {
        bool want = false;
        for (int p : a.m) want |= b.m.count(p) != 0;
        c.op("intersect %d %d", i, j);
        c.check(a.b->IsIntersectionNonEmpty(*b.b) == want, "intersection", "IsIntersectionNonEmpty, expected %d", want);
        c.ev(want ? "intersecting" : "disjoint");
        break;
      }
      case 6:
        if (r.coin()) {
          c.op("assign %d = %d", i, j);
          *a.b = *b.b;
          if (i != j) a.m = b.m;
          c.ev(i == j ? "self_assign" : "assign");
        } else if (r.coin()) {
          c.op("copy %d from %d", i, j);
          auto nb = std::make_unique<ResourceBitSet>(*b.b);
          auto nm = b.m;
          a.b = std::move(nb);
          a.m = nm;
          c.ev("copy");
        } else {
          c.op("move %d", i);
          auto nb = std::make_unique<ResourceBitSet>(std::move(*a.b));
          c.check(a.b->GetOnesCount() == 0, "move", "moved-from set not empty");
          a.b = std::move(nb);
          c.ev("move");
        }
        break;
      default: {
        int sz = (int)r.range(a.m.empty() ? 1 : *a.m.rbegin() + 1, span + 40);
        c.op("resize %d to %d", i, sz);
        a.b->Resize(sz);
        c.ev("resize");
      }
    }
    for (auto& x : s) CheckBits(c, *x.b, x.m, r);
    c.seen(vh::Comb(s[0].m.size(), s[1].m.size()));
  }
  c.nontrivial();
}

// Pools of simple resources; sets; timed release through operands.
VH_SCENARIO(C13, pool, 3000, 90000) {
  auto& r = c.rng;
  struct PM {
    std::unique_ptr<SimpleResourcePool> pool;
    int width;
    std::vector<std::string> names;
    std::set<std::string> held;
    struct Set {
      SimpleResourceSet* s;
      std::set<std::string> in;
    };
    std::vector<Set> sets;
  };
  SimpleResourceDelayLine dl(1 + (int)r.below(8));
  std::vector<PM> ps(r.coin() ? 1 : 2);
  struct Op {
    std::unique_ptr<SimpleResourceOperand> o;
    int p, s, lat;
  };
  std::vector<Op> ops;
  std::map<uint64_t, std::vector<std::pair<int, int>>> due;
  uint64_t cyc = 0;
  for (auto& p : ps) {
    static const int kW[] = {1, 5, 63, 64, 65, 130, 400};
    p.width = kW[r.below(7)];
    p.pool = std::make_unique<SimpleResourcePool>("pool", p.width);
    c.check(p.pool->width() == (unsigned)p.width, "width", "width");
    c.op("pool width %d", p.width);
    // Sometimes start with many resources.
    if (r.chance(1, 6))
      for (int i = (int)r.below(p.width + 1), k = 0; k < i; ++k) {
        std::string n = "m" + std::to_string(k * 7919 % 1000);
        if (p.pool->GetResource(n) != nullptr) continue;
        c.check(p.pool->AddResource(n).ok(), "add", "AddResource(%s) refused", n.c_str());
        p.names.push_back(n);
      }
  }
  auto add = [&](PM& p, const std::string& n) {
    bool dup = std::count(p.names.begin(), p.names.end(), n) != 0;
    bool full = (int)p.names.size() == p.width;
    int how = (int)r.below(3);
    if (how == 0) {
      bool ok = p.pool->AddResource(n).ok();
      c.check(ok == (!dup && !full), "add", "AddResource(%s) %d (dup %d full %d)", n.c_str(), ok, dup, full);
      c.ev(ok ? "added" : "add_refused");
    } else if (how == 1) {
      auto* q = p.pool->GetOrAddResource(n);
      c.check((q != nullptr) == (dup || !full), "add", "GetOrAddResource(%s) %p (dup %d full %d)", n.c_str(), (void*)q, dup, full);
      c.ev("get_or_add");
    } else {
      if (p.sets.empty()) return;
      auto& st = p.sets[r.below(p.sets.size())];
      bool ok = st.s->AddResource(n).ok();
      c.check(ok == (dup || !full), "add", "set AddResource(%s) %d (dup %d full %d)", n.c_str(), ok, dup, full);
      if (ok) st.in.insert(n);
      c.ev("set_add_by_name");
    }
    if (!dup && !full) p.names.push_back(n);
  };
  int steps = (int)r.range(20, 150);
  for (int k = 0; k < steps; ++k) {
    int pi = (int)r.below(ps.size());
    auto& p = ps[pi];
    switch (r.below(11)) {
      case 0: case 1: {
        std::string n = "r" + std::to_string(r.below(r.coin() ? 8 : p.width + 3));
        c.op("p%d add %s", pi, n.c_str());
        add(p, n);
        break;
      }
      case 2:
        if (p.sets.size() < 5) {
          p.sets.push_back({p.pool->CreateResourceSet(), {}});
          c.op("p%d new set", pi);
        }
        break;
      case 3: {  // add a resource object to a set, possibly of another pool
        if (p.sets.empty()) break;
        auto& src = ps[r.below(ps.size())];
        if (src.names.empty()) break;
        auto& n = r.pick(src.names);
        auto& st = p.sets[r.below(p.sets.size())];
        bool same = &src == &p;
        bool ok = st.s->AddResource(src.pool->GetResource(n)).ok();
        c.op("p%d set add %s same=%d", pi, n.c_str(), same);
        c.check(ok == same, "foreign", "adding a resource of %s pool returned %d", same ? "its own" : "another", ok);
        if (same) st.in.insert(n);
        c.ev(same ? "set_add" : "foreign_refused");
        break;
      }
      case 4: case 5: {
        if (p.names.empty()) break;
        auto& n = r.pick(p.names);
        auto* q = p.pool->GetResource(n);
        c.op("p%d acquire %s", pi, n.c_str());
        if (r.coin()) q->Acquire();
        else p.pool->Acquire(q);
        p.held.insert(n);
        c.ev("acquired");
        break;
      }
      case 6: {
        if (p.names.empty()) break;
        auto& n = r.pick(p.names);
        auto* q = p.pool->GetResource(n);
        c.op("p%d release %s", pi, n.c_str());
        if (r.coin()) q->Release();
        else p.pool->Release(q);
        p.held.erase(n);
        c.ev("released");
        break;
      }
      case 7: {
        if (p.sets.empty()) break;
        auto& st = p.sets[r.below(p.sets.size())];
        if (r.coin()) {
          c.op("p%d set acquire", pi);
          st.s->Acquire();
          p.held.insert(st.in.begin(), st.in.end());
        } else {
          c.op("p%d set release", pi);
          st.s->Release();
          for (auto& x : st.in) p.held.erase(x);
        }
        c.ev("set_ops");
        break;
      }
      case 8: {
        if (p.sets.empty()) break;
        int si = (int)r.below(p.sets.size());
        int lat = (int)r.range(1, 12);
        Op o{r.coin() ? std::make_unique<SimpleResourceOperand>(p.sets[si].s, lat, &dl) : std::make_unique<SimpleResourceOperand>(p.sets[si].s, lat), pi, si, lat};
        o.o->set_delay_line(&dl);
        c.check(o.o->latency() == lat && o.o->resource_set() == p.sets[si].s, "operand", "operand attributes");
        ops.push_back(std::move(o));
        break;
      }
      case 9: {
        if (ops.empty()) break;
        auto& o = ops[r.below(ops.size())];
        auto& q = ps[o.p];
        auto& st = q.sets[o.s];
        bool free = true;
        for (auto& x : st.in) free &= !q.held.count(x);
        c.check(o.o->IsFree() == free, "operand", "operand IsFree, expected %d", free);
        if (free && r.chance(3, 4)) {
          c.op("operand acquire for %d", o.lat);
          o.o->Acquire();
          q.held.insert(st.in.begin(), st.in.end());
          due[cyc + o.lat].push_back({o.p, o.s});
          c.ev("operand_acquires");
        } else if (r.chance(1, 3)) {
          int lat = (int)r.below(4);
          c.op("operand release %d", lat);
          o.o->Release(lat);
          if (lat == 0)
            for (auto& x : st.in) q.held.erase(x);
          else
            due[cyc + lat].push_back({o.p, o.s});
          c.ev("operand_releases");
        }
        break;
      }
      default:
        ++cyc;
        c.op("advance");
        dl.Advance();
        for (auto& [a, b] : due[cyc])
          for (auto& x : ps[a].sets[b].in) ps[a].held.erase(x);
        due.erase(cyc);
        c.ev("advances");
    }
    for (auto& q : ps) {
      std::string want = "[", sep;
      for (size_t i = 0; i < q.names.size(); ++i) {
        auto* x = q.pool->GetResource(q.names[i]);
        c.check(x && x->name() == q.names[i] && x->index() == (int)i && x->pool() == q.pool.get(), "lookup", "resource %s", q.names[i].c_str());
        c.check(q.pool->GetResource((unsigned)i) == x, "lookup", "resource index %zu", i);
        bool held = q.held.count(q.names[i]);
        c.check(x->IsFree() == !held && q.pool->IsFree(x) == !held, "free", "%s IsFree=%d, held %d", q.names[i].c_str(), x->IsFree(), held);
        if (held) {
          want += sep + q.names[i];
          sep = ", ";
        }
      }
      want += "]";
      c.check(q.pool->ReservedAsString() == want, "reserved", "reserved '%s', expected '%s'", q.pool->ReservedAsString().c_str(), want.c_str());
      c.check(q.pool->GetResource((unsigned)q.names.size()) == nullptr && q.pool->GetResource("nosuch") == nullptr, "lookup", "unknown resource found");
      for (auto& st : q.sets) {
        bool free = true;
        for (auto& x : st.in) free &= !q.held.count(x);
        c.check(st.s->IsFree() == free && q.pool->IsFree(st.s) == free, "setfree", "set IsFree, expected %d", free);
        std::string w = "[", sp;
        for (auto& x : q.names)
          if (st.in.count(x)) {
            w += sp + x;
            sp = ", ";
          }
        w += "]";
        c.check(st.s->AsString() == w, "settext", "set '%s', expected '%s'", st.s->AsString().c_str(), w.c_str());
      }
      c.seen(vh::Comb(q.held.size(), q.names.size()));
    }
  }
  c.nontrivial();
}

namespace {
// Cycles (absolute) for which a complex resource is taken.
void Complex(vh::Case& c, size_t depth, int max_adv) {
  auto& r = c.rng;
  State st("st");
  ComplexResource res(&st, "res", depth);
  c.check(res.name() == "res" && res.AsString() == "res" && res.cycle_depth() == depth, "attributes", "attributes");
  c.check(res.bit_array().size() == (depth + 63) / 64, "attributes", "array size");
  std::set<uint64_t> busy;
  uint64_t now = r.coin() ? 0 : r.below(1000);
  if (r.chance(1, 4)) now = (1ull << 32) * r.below(4) - r.below(200);
  if (now >> 63) now = 0;
  st.set(now);
  struct O {
    std::unique_ptr<ComplexResourceOperand> o;
    std::set<int> cyc;
  };
  std::vector<O> ops;
  int steps = (int)r.range(10, 60);
  for (int k = 0; k < steps; ++k) {
    std::set<int> rel;
    std::vector<uint64_t> span((depth + 63) / 64 - (r.coin() ? 0 : r.below((depth + 63) / 64)), 0);
    int nb = (int)r.range(1, 5);
    for (int i = 0; i < nb; ++i) {
      int b = (int)r.below(span.size() * 64), len = (int)r.range(1, 10);
      for (int j = b; j < b + len && j < (int)span.size() * 64 && j < (int)depth; ++j) rel.insert(j);
    }
    for (int j : rel) span[j / 64] |= 1ull << (j % 64);
    auto is_busy = [&](const std::set<int>& s) {
      for (int j : s)
        if (busy.count(now + j)) return true;
      return false;
    };
    // Sometimes the clock moves and the next use of the resource is not a look at it.
    if (r.chance(1, 4)) {
      uint64_t adv = r.chance(1, 8) ? depth + r.range(1, 100) : r.range(1, max_adv);
      if (r.chance(1, 12)) adv = (1ull << r.range(31, 40)) * r.range(1, 3) + r.below(max_adv + 1);
      now += adv;
      st.set(now);
      c.op("unobserved advance %lu to %lu", adv, now);
      c.ev("unobserved_advances");
    }
    switch (r.below(8)) {
      case 0: case 1:
        c.op("acquire %zu cycles at %lu", rel.size(), now);
        res.Acquire(span);
        for (int j : rel) busy.insert(now + j);
        c.ev("complex_acquires");
        break;
      case 2:
        c.op("release %zu cycles", rel.size());
        res.Release(span);
        for (int j : rel) busy.erase(now + j);
        c.ev("complex_releases");
        break;
      case 3: {  // new operand
        O o;
        o.o = std::make_unique<ComplexResourceOperand>(&res);
        c.check(o.o->AsString() == "res", "operand", "text");
        for (int t = (int)r.range(1, 2); t > 0; --t) {
          if (r.coin()) {
            size_t b = r.below(depth), e = b + r.below(20);
            if (r.chance(1, 4)) e = b = (b / 64) * 64;
            if (r.chance(1, 8)) std::swap(b, e);
            bool want = b <= e && e < depth;
            c.op("mask %zu..%zu", b, e);
            bool ok = o.o->SetCycleMask(b, e).ok();
            c.check(ok == want, "mask", "SetCycleMask(%zu,%zu) with depth %zu returned %d", b, e, depth, ok);
            if (ok) {
              o.cyc.clear();
              for (size_t x = b; x <= e; ++x) o.cyc.insert((int)x);
            }
            c.ev(ok ? "range_masks" : "refused_masks");
          } else {
            int mode = (int)r.below(6);
            std::vector<uint64_t> sp = span;
            bool want = true;
            std::set<int> cy = rel;
            if (mode == 0) sp.assign((depth + 63) / 64 + 1, 1), want = false;        // too long
            if (mode == 1) sp.assign(sp.size(), 0), want = false;                      // nothing set
            if (mode == 2 && r.coin()) sp.clear(), want = false;                       // empty
            c.op("mask span of %zu words mode %d", sp.size(), mode);
            bool ok = o.o->SetCycleMask(absl::Span<const uint64_t>(sp)).ok();
            c.check(ok == want, "mask", "SetCycleMask(span of %zu words, mode %d) with depth %zu returned %d", sp.size(), mode, depth, ok);
            if (ok) o.cyc = cy;
            c.ev(ok ? "span_masks" : "refused_masks");
          }
          // A refused mask leaves the operand as it was.
          std::set<int> got;
          auto ba = o.o->bit_array();
          for (size_t w = 0; w < ba.size(); ++w)
            for (int b = 0; b < 64; ++b)
              if (ba[w] >> b & 1) got.insert((int)w * 64 + b);
          c.check(got == o.cyc, "mask", "operand covers %zu cycles, expected %zu", got.size(), o.cyc.size());
        }
        if (!o.cyc.empty()) ops.push_back(std::move(o));
        break;
      }
      case 4: {
        if (ops.empty()) break;
        auto& o = ops[r.below(ops.size())];
        bool want = !is_busy(o.cyc);
        c.check(o.o->IsFree() == want, "operand_free", "operand IsFree, expected %d", want);
        if (want) {
          c.op("operand acquire at %lu", now);
          o.o->Acquire();
          for (int j : o.cyc) busy.insert(now + j);
          c.ev("complex_operand_acquires");
        }
        break;
      }
      default: {
        c.check(res.IsFree(span) == !is_busy(rel), "free", "IsFree at %lu, expected %d", now, !is_busy(rel));
        uint64_t adv = r.chance(1, 12) ? depth + r.range(1, 100) : r.range(0, max_adv);
        if (r.chance(1, 16)) adv = (1ull << r.range(31, 40)) * r.range(1, 3) + r.below(max_adv + 1);
        now += adv;
        st.set(now);
        c.op("advance %lu to %lu", adv, now);
        // Look at the resource, so that the next advance starts here.
        c.check(res.IsFree(span) == !is_busy(rel), "free", "IsFree at %lu, expected %d", now, !is_busy(rel));
        c.ev("complex_advances");
      }
    }
    c.check(res.IsFree(span) == !is_busy(rel), "free", "IsFree at %lu, expected %d", now, !is_busy(rel));
    for (int t = 0; t < 4; ++t) {
      int j = (int)r.below(depth);
      std::vector<uint64_t> one(depth / 64 + 1, 0);
      one[j / 64] = 1ull << (j % 64);
      bool w = !busy.count(now + j);
      c.check(res.IsFree(one) == w, "free", "cycle %d ahead at %lu: IsFree, expected %d", j, now, w);
    }
    c.seen(vh::Comb(busy.size(), now & 63));
  }
  c.nontrivial();
}
}  // namespace

VH_SCENARIO(C13, complex, 3000, 60000) {
  static const int kD[] = {64, 128, 192, 256, 512};
  Complex(c, kD[c.rng.below(5)], 63);
}

// Histories of the known findings (see known_findings.json).
VH_SCENARIO(C13, complex_long_advance, 1, 1) {
  State st("st");
  ComplexResource res(&st, "res", 256);
  uint64_t all[4] = {~0ull, ~0ull, ~0ull, ~0ull}, first[1] = {1};
  c.op("depth 256: acquire cycles 0..255, advance 96 cycles at once");
  res.Acquire(all);
  st.set(96);
  c.check(!res.IsFree(first), "advance96", "the resource is busy in cycles 0..255 but reported free in cycle 96");
}
VH_SCENARIO(C13, complex_partial_word, 1, 1) {
  State st("st");
  ComplexResource res(&st, "res", 32);
  uint64_t first[1] = {1};
  c.op("depth 32: acquire cycle 0");
  res.Acquire(first);
  c.check(!res.IsFree(first), "depth32", "cycle 0 acquired but still reported free (depth not a multiple of 64)");
}
