// C01: data buffers - reference counted, recycled, never aliased.
#include <cstring>
#include <memory>

#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/ref_count.h"
#include "vh.h"

using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferDelayLine;
using mpact::sim::generic::DataBufferDestination;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::ReferenceCount;

namespace {

// A destination that records what it is given and optionally keeps it.
struct Sink : DataBufferDestination {
  std::vector<DataBuffer*> got;
  bool keep = false;
  void SetDataBuffer(DataBuffer* db) override {
    got.push_back(db);
    if (keep) db->IncRef();
  }
};

struct Live {
  DataBuffer* db;
  int refs;
  std::vector<uint8_t> bytes;  // expected contents
};

struct World {
  vh::Case& c;
  std::unique_ptr<DataBufferFactory> f{new DataBufferFactory};
  std::vector<Live> live;
  // handed-out bookkeeping per size since the last Clear()
  std::map<int, std::set<DataBuffer*>> handed;
  std::map<int, int> nlive, peak;
  explicit World(vh::Case& c) : c(c) {}

  void verify(const char* where) {
    std::set<DataBuffer*> uniq;
    std::map<uintptr_t, uintptr_t> spans;
    for (auto& l : live) {
      c.check(uniq.insert(l.db).second, "alias", "%s: the same buffer was handed out twice", where);
      c.check(l.db->ref_count() == l.refs, "refcount", "%s: ref_count %d, expected %d", where,
              l.db->ref_count(), l.refs);
      c.check(l.db->size<uint8_t>() == (int)l.bytes.size(), "size", "%s: size %d, expected %zu", where,
              l.db->size<uint8_t>(), l.bytes.size());
      if (!l.bytes.empty()) {
        c.check(memcmp(l.db->raw_ptr(), l.bytes.data(), l.bytes.size()) == 0, "contents",
                "%s: contents of a referenced buffer of %zu bytes changed", where, l.bytes.size());
        auto b = (uintptr_t)l.db->raw_ptr();
        spans[b] = b + l.bytes.size();
      }
    }
    uintptr_t end = 0;
    for (auto& [b, e] : spans) {
      c.check(b >= end, "overlap", "%s: storage of two live buffers overlaps", where);
      end = e;
    }
    c.ev("live_buffers_verified", live.size());
  }
  void adopt(DataBuffer* db, int size, const char* how) {
    c.check(db != nullptr, "null", "%s returned null", how);
    for (auto& l : live)
      c.check(l.db != db, "alias", "%s(%d) returned a buffer that is still referenced", how, size);
    c.check(db->ref_count() == 1, "refcount", "%s: fresh buffer has ref_count %d", how, db->ref_count());
    c.check(db->size<uint8_t>() == size, "size", "%s(%d): size is %d", how, size, db->size<uint8_t>());
    if (handed[size].count(db)) c.ev("recycled_reuse");
    handed[size].insert(db);
    nlive[size]++;
    peak[size] = std::max(peak[size], nlive[size]);
    // The free list is searched before a new buffer is made.
    c.check((int)handed[size].size() <= peak[size], "no-recycle",
            "%s(%d): %zu distinct buffers handed out though at most %d were ever live", how, size,
            handed[size].size(), peak[size]);
    c.ev(size > 4096 ? "alloc_long" : "alloc_short");
  }
  void fill(Live& l) {
    for (auto& b : l.bytes) b = (uint8_t)c.rng.next();
    if (!l.bytes.empty()) l.db->CopyFrom(l.bytes.data());
  }
  void drop(size_t i) {
    Live& l = live[i];
    l.refs--;
    bool last = l.refs == 0;
    auto* db = l.db;
    if (last) {
      nlive[l.bytes.size()]--;
      live[i] = std::move(live.back());
      live.pop_back();
      c.ev("released");
    }
    db->DecRef();
  }
};

int PickSize(vh::Rng& r) {
  static const std::vector<int> s = {0, 1, 2, 4, 8, 16, 17, 32, 64, 256, 4095, 4096, 4097, 4100, 8192, 10000};
  return r.chance(4, 5) ? r.pick(s) : (int)r.range(1, 6000);
}

template <typename T>
void SetGet(World& w, Live& l) {
  auto& c = w.c;
  int n = l.bytes.size() / sizeof(T);
  c.check(l.db->size<T>() == n, "size", "size<T> is %d, expected %d", l.db->size<T>(), n);
  auto sp = l.db->Get<T>();
  c.check((int)sp.size() == n, "span", "span has %zu elements, expected %d", sp.size(), n);
  if (n == 0) return;
  int i = (int)c.rng.below(n);
  switch (c.rng.below(4)) {
    case 0: {
      T v = (T)c.rng.val();
      l.db->Set<T>(i, v);
      memcpy(l.bytes.data() + i * sizeof(T), &v, sizeof(T));
      break;
    }
    case 1: {
      int k = (int)c.rng.range(0, std::min(n, 40));
      std::vector<T> vals(k);
      for (auto& v : vals) v = (T)c.rng.val();
      l.db->Set<T>(absl::Span<const T>(vals));
      if (k) memcpy(l.bytes.data(), vals.data(), k * sizeof(T));
      break;
    }
    case 2: {
      T v = (T)c.rng.val();
      sp[i] = v;
      memcpy(l.bytes.data() + i * sizeof(T), &v, sizeof(T));
      break;
    }
    default: break;
  }
  T e;
  memcpy(&e, l.bytes.data() + i * sizeof(T), sizeof(T));
  T g = l.db->Get<T>(i);
  c.check(memcmp(&e, &g, sizeof(T)) == 0, "get", "Get<%zu bytes>(%d) differs from what was stored", sizeof(T), i);
  T g2 = l.db->Get<T>()[i];
  c.check(memcmp(&e, &g2, sizeof(T)) == 0, "get", "Get<%zu bytes>()[%d] differs", sizeof(T), i);
  c.ev("typed_access");
}

}  // namespace

VH_SCENARIO(C01, pool, 4000, 200000) {
  World w(c);
  Sink sinks[2];
  sinks[1].keep = true;
  int steps = (int)c.rng.range(10, 120);
  bool biased = c.rng.coin();
  std::vector<int> few;
  for (int i = 0; i < 3; ++i) few.push_back(PickSize(c.rng));
  for (int s = 0; s < steps; ++s) {
    auto& r = c.rng;
    switch (r.below(14)) {
      case 0: case 1: case 2: {
        int size = biased ? r.pick(few) : PickSize(r);
        c.op("alloc %d", size);
        DataBuffer* db = w.f->Allocate(size);
        w.adopt(db, size, "Allocate");
        w.live.push_back({db, 1, std::vector<uint8_t>(size)});
        w.fill(w.live.back());
        break;
      }
      case 3: {
        int n = (int)r.range(0, 40);
        DataBuffer* db;
        int size;
        switch (r.below(4)) {
          case 0: db = w.f->Allocate<uint8_t>(n); size = n; break;
          case 1: db = w.f->Allocate<uint16_t>(n); size = 2 * n; break;
          case 2: db = w.f->Allocate<uint32_t>(n); size = 4 * n; break;
          default: db = w.f->Allocate<uint64_t>(n); size = 8 * n; break;
        }
        c.op("alloc<T> -> %d", size);
        w.adopt(db, size, "Allocate<T>");
        w.live.push_back({db, 1, std::vector<uint8_t>(size)});
        w.fill(w.live.back());
        break;
      }
      case 4: {
        if (w.live.empty()) break;
        size_t i = r.below(w.live.size());
        c.op("copyof #%zu size %zu", i, w.live[i].bytes.size());
        auto bytes = w.live[i].bytes;
        DataBuffer* db = w.f->MakeCopyOf(w.live[i].db);
        w.adopt(db, (int)bytes.size(), "MakeCopyOf");
        c.check(bytes.empty() || memcmp(db->raw_ptr(), bytes.data(), bytes.size()) == 0, "copy",
                "MakeCopyOf differs from its source (%zu bytes)", bytes.size());
        w.live.push_back({db, 1, bytes});
        c.ev("copies");
        break;
      }
      case 5: {
        if (w.live.empty()) break;
        size_t i = r.below(w.live.size());
        c.op("incref #%zu", i);
        w.live[i].db->IncRef();
        w.live[i].refs++;
        break;
      }
      case 6: case 7: case 8: {
        if (w.live.empty()) break;
        size_t i = r.below(w.live.size());
        c.op("decref #%zu (refs %d)", i, w.live[i].refs);
        w.drop(i);
        break;
      }
      case 9: {
        if (w.live.empty()) break;
        size_t i = r.below(w.live.size());
        c.op("typed #%zu", i);
        switch (r.below(6)) {
          case 0: SetGet<uint8_t>(w, w.live[i]); break;
          case 1: SetGet<uint16_t>(w, w.live[i]); break;
          case 2: SetGet<uint32_t>(w, w.live[i]); break;
          case 3: SetGet<uint64_t>(w, w.live[i]); break;
          case 4: SetGet<int32_t>(w, w.live[i]); break;
          default: SetGet<int64_t>(w, w.live[i]); break;
        }
        break;
      }
      case 10: {
        if (w.live.empty()) break;
        size_t i = r.below(w.live.size());
        // CopyTo must write exactly size bytes.
        auto n = w.live[i].bytes.size();
        std::vector<uint8_t> out(n + 8, 0xa5);
        w.live[i].db->CopyTo(out.data());
        c.check(std::equal(out.begin(), out.begin() + n, w.live[i].bytes.begin()), "copyto", "CopyTo differs");
        for (int k = 0; k < 8; ++k) c.check(out[n + k] == 0xa5, "copyto-overrun", "CopyTo wrote past the end");
        // buffer-to-buffer copy between equally sized live buffers
        for (size_t j = 0; j < w.live.size(); ++j)
          if (j != i && w.live[j].bytes.size() == n) {
            c.op("copyfrom #%zu <- #%zu", i, j);
            w.live[i].db->CopyFrom(w.live[j].db);
            w.live[i].bytes = w.live[j].bytes;
            break;
          }
        break;
      }
      case 11: {
        c.op("clear pool");
        w.f->Clear();
        for (auto& [k, v] : w.handed) {
          (void)k;
          v.clear();
        }
        w.peak.clear();
        for (auto& l : w.live) {
          w.handed[l.bytes.size()].insert(l.db);
        }
        for (auto& [k, v] : w.nlive) w.peak[k] = v;
        c.ev("pool_clears");
        break;
      }
      case 12: {
        // Submit with latency 0: the destination sees it once, now; one reference is used up.
        if (w.live.empty()) break;
        size_t i = r.below(w.live.size());
        Live& l = w.live[i];
        int which = (int)r.below(3);
        DataBufferDestination* d = which == 2 ? nullptr : &sinks[which];
        l.db->set_destination(d);
        l.db->set_latency(0);
        l.db->set_delay_line(nullptr);
        c.check(l.db->latency() == 0, "latency", "latency() is %d after set_latency(0)", l.db->latency());
        for (auto& sk : sinks) sk.got.clear();
        c.op("submit0 #%zu dest %d refs %d", i, which, l.refs);
        DataBuffer* db = l.db;
        int kept = (which == 1) ? 1 : 0;
        l.refs += kept;
        auto n = l.bytes.size();
        int form = (int)r.below(4);
        if (form >= 2 && n < 8) form = 0;
        if (form == 2) {
          uint64_t v = r.val();
          memcpy(l.bytes.data(), &v, 8);
          auto copy = l.bytes;
          bool last = --l.refs == 0;
          if (last) {
            w.nlive[n]--;
            w.live[i] = std::move(w.live.back());
            w.live.pop_back();
          }
          db->SetSubmit<uint64_t>(0, v);
        } else if (form == 3) {
          std::vector<uint32_t> v = {(uint32_t)r.next(), (uint32_t)r.next()};
          memcpy(l.bytes.data(), v.data(), 8);
          bool last = --l.refs == 0;
          if (last) {
            w.nlive[n]--;
            w.live[i] = std::move(w.live.back());
            w.live.pop_back();
          }
          db->SetSubmit<uint32_t>(absl::Span<const uint32_t>(v));
        } else {
          bool last = --l.refs == 0;
          if (last) {
            w.nlive[n]--;
            w.live[i] = std::move(w.live.back());
            w.live.pop_back();
          }
          if (form == 0) db->Submit(0);
          else db->Submit();
        }
        c.ev("submits");
        for (int k = 0; k < 2; ++k) {
          size_t want = k == which ? 1 : 0;
          c.check(sinks[k].got.size() == want, "submit", "destination %d was updated %zu times, expected %zu", k,
                  sinks[k].got.size(), want);
          if (want) c.check(sinks[k].got[0] == db, "submit", "destination got a different buffer");
        }
        break;
      }
      case 13: {
        if (w.live.empty()) break;
        size_t i = r.below(w.live.size());
        if (w.live[i].bytes.empty()) break;
        // write through the raw pointer: last byte (storage is really that large)
        auto n = w.live[i].bytes.size();
        ((uint8_t*)w.live[i].db->raw_ptr())[n - 1] = 0x5a;
        w.live[i].bytes[n - 1] = 0x5a;
        break;
      }
    }
    w.verify("step");
    uint64_t h = w.live.size();
    for (auto& l : w.live) h = vh::Comb(h, l.bytes.size() * 16 + l.refs);
    c.seen(h);
  }
  if (w.live.size() > 1) c.nontrivial();
  c.op("release all (%zu live), then destroy the pool", w.live.size());
  while (!w.live.empty()) w.drop(c.rng.below(w.live.size()));
  if (c.rng.coin()) w.f->Clear();
  if (c.rng.coin()) {
    // the pool is still usable after everything was freed
    DataBuffer* db = w.f->Allocate(8);
    c.check(db->ref_count() == 1, "refcount", "count %d", db->ref_count());
    db->Set<uint64_t>(0, 1);
    db->DecRef();
  }
  w.f.reset();
  c.ev("pool_destroyed");
}

// A buffer that was never given a destination is simply released when submitted.
VH_SCENARIO(C01, submit_without_destination, 40, 400) {
  DataBufferFactory f;
  int n = (int)c.rng.range(1, 12);
  c.op("submit %d fresh buffers that have no destination", n);
  std::vector<DataBuffer*> v;
  for (int i = 0; i < n; ++i) v.push_back(f.Allocate(PickSize(c.rng)));
  for (auto* db : v) {
    db->IncRef();
    db->Submit(0);
    c.check(db->ref_count() == 1, "no-destination", "ref_count %d after submit without destination", db->ref_count());
    db->DecRef();
    c.ev("submits_without_destination");
  }
  c.nontrivial();
}

// The reference count itself: the zero action runs exactly when the last reference goes.
VH_SCENARIO(C01, refcount, 1500, 60000) {
  struct Obj : ReferenceCount {
    int* zero;
    bool* dead;
    bool self_delete;
    Obj(int* z, bool* d, bool s) : zero(z), dead(d), self_delete(s) {}
    ~Obj() override { *dead = true; }
    void OnRefCountIsZero() override {
      ++*zero;
      if (self_delete) ReferenceCount::OnRefCountIsZero();
    }
  };
  int zero = 0;
  bool dead = false;
  bool self = c.rng.coin();
  auto* o = new Obj(&zero, &dead, self);
  c.check(o->ref_count() == 1, "initial", "initial count %d", o->ref_count());
  int64_t refs = 1;
  int steps = (int)c.rng.range(1, c.rng.chance(1, 50) ? 20000 : 200);
  c.op("self_delete=%d steps=%d", self, steps);
  int maxr = 1;
  for (int i = 0; i < steps && refs > 0; ++i) {
    if (c.rng.chance(52, 100)) {
      o->IncRef();
      refs++;
    } else {
      refs--;
      o->DecRef();
    }
    maxr = std::max<int>(maxr, (int)refs);
    c.mix(refs);
    c.ev("refcount_ops");
    c.check(zero == (refs == 0 ? 1 : 0), "zero-action", "zero action ran %d times with %ld references", zero, refs);
    c.check(dead == (self && refs == 0), "lifetime", "object destroyed=%d with %ld references", dead, refs);
    if (!dead) c.check(o->ref_count() == refs, "refcount", "ref_count %d expected %ld", o->ref_count(), refs);
    if (refs == 0 && !self) {
      // recycled object: counts reset, usable again
      o->ResetCounts();
      c.check(o->ref_count() == 1, "reset", "count after ResetCounts %d", o->ref_count());
      refs = 1;
      zero = 0;
      c.ev("resets");
    }
  }
  while (!dead && refs > 0) {
    refs--;
    o->DecRef();
  }
  c.check(zero == 1, "zero-action", "zero action ran %d times at the end", zero);
  c.check(dead == self, "lifetime", "destroyed=%d", dead);
  if (!dead) delete o;
  if (maxr > 2) c.nontrivial();
  c.seen(maxr);
}

// Volume: many references, many idle buffers of one size, large buffers.
VH_SCENARIO(C01, volume, 24, 1500) {
  auto& r = c.rng;
  DataBufferFactory f;
  switch (r.below(4)) {
    case 0: {  // a buffer with a long life
      int size = PickSize(r);
      auto* db = f.Allocate(size);
      auto* guard = f.Allocate(size);
      long refs = 1;
      long total = r.range(60000, 300000);
      bool high = r.coin();
      c.op("%ld reference operations on one buffer, %s", total, high ? "count grows" : "count stays low");
      for (long i = 0; i < total; ++i) {
        if (refs == 1 || (high ? r.chance(3, 4) : refs < 4 && r.coin())) {
          db->IncRef();
          ++refs;
        } else {
          db->DecRef();
          --refs;
        }
        if ((i & 63) == 0 || i > total - 3) c.check(db->ref_count() == refs, "refcount", "after %ld operations ref_count is %d, expected %ld", i + 1, db->ref_count(), refs);
      }
      auto* other = f.Allocate(size);
      c.check(other != db && other != guard, "alias", "a referenced buffer was handed out");
      other->DecRef();
      guard->DecRef();
      c.ev("refcount_ops", total);
      while (refs-- > 0) db->DecRef();
      break;
    }
    case 1: {  // many idle buffers of one size
      int size = PickSize(r), n = (int)r.range(100, size > 4000 ? 600 : 6000);
      c.op("%d buffers of %d", n, size);
      std::set<DataBuffer*> all;
      std::vector<DataBuffer*> v;
      for (int i = 0; i < n; ++i) {
        v.push_back(f.Allocate(size));
        c.check(all.insert(v.back()).second, "alias", "buffer %d was handed out twice", i);
      }
      for (int round = 0; round < 2; ++round) {
        for (auto* db : v) db->DecRef();
        v.clear();
        std::set<DataBuffer*> now;
        for (int i = 0; i < n; ++i) {
          auto* db = f.Allocate(size);
          v.push_back(db);
          c.check(all.count(db), "no-recycle", "a new buffer was made though %d idle ones were left", n - i);
          c.check(now.insert(db).second, "alias", "buffer handed out twice");
          c.check(db->ref_count() == 1, "refcount", "ref_count %d", db->ref_count());
        }
        c.ev("recycled_reuse", n);
      }
      for (auto* db : v) db->DecRef();
      break;
    }
    case 2: {  // large buffers
      int size = (int)r.range(60000, r.chance(1, 3) ? 5000000 : 200000);
      c.op("large buffer of %d", size);
      auto* db = f.Allocate(size);
      std::vector<uint8_t> b(size);
      uint64_t x = r.next();
      for (auto& e : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; e = (uint8_t)(x >> 56); }
      db->CopyFrom(b.data());
      auto* cp = f.MakeCopyOf(db);
      c.check(cp->size<uint8_t>() == size && db->size<uint64_t>() == size / 8, "size", "size %d", cp->size<uint8_t>());
      c.check(memcmp(cp->raw_ptr(), b.data(), size) == 0, "copy", "the copy of %d bytes differs", size);
      auto* third = f.Allocate(size);
      third->CopyFrom(cp);
      std::vector<uint8_t> out(size);
      third->CopyTo(out.data());
      c.check(out == b, "copy", "CopyFrom/CopyTo of %d bytes differ", size);
      int k = (int)r.below(size / 8);
      db->Set<uint64_t>(k, x);
      uint64_t before;
      memcpy(&before, &b[8 * k], 8);
      c.check(db->Get<uint64_t>(k) == x && cp->Get<uint64_t>(k) == before, "alias", "writing a buffer changed its copy");
      db->DecRef();
      auto* again = f.Allocate(size);
      c.check(again == db, "no-recycle", "the idle buffer of %d bytes was not used again", size);
      again->DecRef();
      cp->DecRef();
      third->DecRef();
      c.ev("large_copies");
      break;
    }
    default: {  // many sizes idle at the same time: only the exact size will do
      std::map<int, DataBuffer*> idle;
      int base = r.coin() ? (int)r.range(0, 3900) : (int)r.range(4090, 40000);
      int n = (int)r.range(20, 300), step = (int)r.range(1, 3);
      c.op("%d sizes from %d step %d", n, base, step);
      for (int i = 0; i < n; ++i) idle[base + i * step] = f.Allocate(base + i * step);
      for (auto& [k, db] : idle) db->DecRef();
      for (int i = 0; i < 100; ++i) {
        int size = base + (int)r.below(n * step + 3);
        auto* db = f.Allocate(size);
        c.check(db->size<uint8_t>() == size, "size", "asked for %d, got %d", size, db->size<uint8_t>());
        auto it = idle.find(size);
        if (it != idle.end()) c.check(db == it->second, "no-recycle", "the idle buffer of %d bytes was not used again", size);
        else idle[size] = db;
        db->DecRef();
        c.ev("alloc_exact");
      }
      break;
    }
  }
  c.nontrivial();
}
