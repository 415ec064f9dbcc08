// Shared by the memory harnesses: a state with a delay line, instructions and
// contexts whose execution and lifetime are watched, a byte-accurate reference
// memory, and a client that performs accesses and compares.
#ifndef VERIF_MEM_RIG_H_
#define VERIF_MEM_RIG_H_
#include <deque>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/ref_count.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/memory/tagged_memory_interface.h"
#include "vh.h"

namespace mem {
using mpact::sim::generic::ArchState;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::Instruction;
using mpact::sim::generic::ReferenceCount;
using mpact::sim::util::MemoryInterface;
using mpact::sim::util::TaggedMemoryInterface;
using Bytes = std::vector<uint8_t>;

struct State : ArchState {
  explicit State(absl::string_view id) : ArchState(id) {}
  ~State() override {}
};

struct Rec {  // one issued load
  int id = 0;
  bool has_inst = false, has_ctx = false;
  Instruction* inst = nullptr;
  ReferenceCount* ctx = nullptr;
  int client_inst = 0, client_ctx = 0;
  bool issued = false, executes = true;
  uint64_t due = 0;
  int execs = 0, inst_dead = 0, ctx_dead = 0;
  DataBuffer* db = nullptr;
  Bytes want;
};
struct TInst : Instruction {
  Rec* rec;
  TInst(ArchState* st, Rec* rec) : Instruction(0, st), rec(rec) {}
  ~TInst() override { ++rec->inst_dead; }
};
struct TCtx : ReferenceCount {
  Rec* rec;
  explicit TCtx(Rec* rec) : rec(rec) {}
  ~TCtx() override { ++rec->ctx_dead; }
};

struct Rig {
  vh::Case& c;
  vh::Rng& r;
  DataBufferFactory f;
  std::unique_ptr<State> st;
  uint64_t now = 0;
  std::vector<std::unique_ptr<Rec>> recs;
  std::vector<Rec*> open;  // not yet settled
  int executed = 0;
  explicit Rig(vh::Case& c) : c(c), r(c.rng), st(new State("st")) {}

  Rec* start(bool inst, bool ctx) {
    recs.emplace_back(new Rec);
    Rec* x = recs.back().get();
    x->id = (int)recs.size() - 1;
    x->has_inst = inst;
    x->has_ctx = ctx;
    if (inst) {
      x->inst = new TInst(st.get(), x);
      x->client_inst = 1;
      x->inst->set_semantic_function([this, x](Instruction* i) {
        c.check(i == x->inst && x->inst_dead == 0, "exec_inst", "load %d: executed with another or destroyed instruction", x->id);
        c.check(i->context() == x->ctx, "exec_context", "load %d: executed with the wrong context", x->id);
        c.check(x->ctx_dead == 0, "ctx_alive", "load %d: context destroyed before the execution", x->id);
        ++x->execs;
        ++executed;
        c.check(x->execs == 1, "exec_once", "load %d: executed %d times", x->id, x->execs);
        if (x->issued) c.check(x->due == now, "exec_time", "load %d: executed in cycle %lu, due in %lu", x->id, now, x->due);
      });
    }
    if (ctx) {
      x->ctx = new TCtx(x);
      x->client_ctx = 1;
    }
    return x;
  }
  // The load was issued with the given latency.
  void issued(Rec* x, int latency, bool executes = true) {
    x->issued = true;
    x->executes = executes && x->has_inst;
    x->due = now + latency;
    if (x->executes) {
      c.check(x->execs == (latency == 0 ? 1 : 0), "exec_when", "load %d with latency %d: executed %d times at issue", x->id, latency, x->execs);
      c.ev(latency ? "delayed_executions" : "immediate_executions");
    } else {
      c.check(x->execs == 0, "exec_none", "load %d: executed", x->id);
    }
    if (r.coin()) drop(x);
    open.push_back(x);
  }
  void drop(Rec* x) {
    if (x->client_inst) {
      x->client_inst = 0;
      x->inst->DecRef();
    }
    if (x->client_ctx) {
      x->client_ctx = 0;
      x->ctx->DecRef();
    }
  }
  void settle() {
    std::vector<Rec*> keep;
    for (Rec* x : open) {
      bool done = !x->executes || now >= x->due;
      c.check(x->execs == (x->executes && done ? 1 : 0), "executions", "cycle %lu: load %d (due %lu) executed %d times", now, x->id, x->due, x->execs);
      bool ri = x->client_inst || (x->executes && !done);
      bool rc = x->client_ctx || (x->executes && !done);
      if (x->has_inst) c.check(x->inst_dead == (ri ? 0 : 1), "inst_life", "load %d: instruction destroyed %d times, still referenced: %d", x->id, x->inst_dead, ri);
      if (x->has_ctx) c.check(x->ctx_dead == (rc ? 0 : 1), "ctx_life", "load %d: context destroyed %d times, still referenced: %d", x->id, x->ctx_dead, rc);
      if (x->has_inst && x->client_inst && done) c.check(x->inst->ref_count() == 1, "inst_refs", "load %d: %d references to the instruction remain", x->id, (int)x->inst->ref_count());
      if (x->has_ctx && x->client_ctx && done) c.check(x->ctx->ref_count() == 1, "ctx_refs", "load %d: %d references to the context remain", x->id, (int)x->ctx->ref_count());
      if (!done || x->client_inst || x->client_ctx) keep.push_back(x);
    }
    open.swap(keep);
  }
  void advance() {
    ++now;
    st->AdvanceDelayLines();
    settle();
  }
  void finish(int cycles = 48) {
    for (int i = 0; i < cycles; ++i) {
      if (r.coin() && !open.empty()) drop(r.pick(open));
      advance();
    }
    for (auto& x : recs) drop(x.get());
    settle();
    c.check(open.empty(), "unfinished", "%zu loads never finished", open.size());
    for (auto& x : recs) {
      if (x->has_inst) c.check(x->inst_dead == 1, "inst_leak", "load %d: instruction destroyed %d times at the end", x->id, x->inst_dead);
      if (x->has_ctx) c.check(x->ctx_dead == 1, "ctx_leak", "load %d: context destroyed %d times at the end", x->id, x->ctx_dead);
    }
  }
  DataBuffer* buf(const Bytes& b) {
    auto* d = f.Allocate((int)b.size());
    memcpy(d->raw_ptr(), b.data(), b.size());
    d->set_latency(0);
    return d;
  }
  Bytes bytes(DataBuffer* d) {
    auto* p = (uint8_t*)d->raw_ptr();
    return Bytes(p, p + d->size<uint8_t>());
  }
  Bytes rnd(int n) {
    Bytes b(n);
    for (auto& x : b) x = (uint8_t)r.next();
    return b;
  }
  DataBuffer* addr_buf(const std::vector<uint64_t>& a) {
    Bytes b(a.size() * 8);
    memcpy(b.data(), a.data(), b.size());
    return buf(b);
  }
  DataBuffer* mask_buf(const std::vector<uint8_t>& m) { return buf(Bytes(m.begin(), m.end())); }
};

// Reference memory, addressed in units of `unit` bytes.
struct Ref {
  unsigned unit = 1;
  uint8_t fill = 0;
  std::map<std::pair<uint64_t, unsigned>, uint8_t> m;
  uint8_t get(uint64_t a, uint64_t k) const {
    auto it = m.find({a + k / unit, (unsigned)(k % unit)});
    return it == m.end() ? fill : it->second;
  }
  void set(uint64_t a, uint64_t k, uint8_t v) { m[{a + k / unit, (unsigned)(k % unit)}] = v; }
  Bytes read(uint64_t a, int n) const {
    Bytes b(n);
    for (int i = 0; i < n; ++i) b[i] = get(a, i);
    return b;
  }
  void write(uint64_t a, const Bytes& b) {
    for (size_t i = 0; i < b.size(); ++i) set(a, i, b[i]);
  }
};

inline std::string hex(const Bytes& b, size_t max = 24) {
  std::string s;
  char t[4];
  for (size_t i = 0; i < b.size() && i < max; ++i) {
    snprintf(t, sizeof t, "%02x", b[i]);
    s += t;
  }
  if (b.size() > max) s += "..";
  return s;
}

struct Vec {  // a vector access
  int el, n;
  bool unit_stride;
  std::vector<uint64_t> addrs;  // given to the memory: 1 or n
  std::vector<uint8_t> mask;
  std::vector<uint64_t> at;  // effective address per element
};

struct Client {
  Rig& g;
  vh::Case& c;
  vh::Rng& r;
  unsigned unit = 1;
  int max_latency = 20;
  explicit Client(Rig& g) : g(g), c(g.c), r(g.r) {}
  int lat() { return r.chance(1, 2) ? 0 : (int)r.range(1, max_latency); }

  void store(MemoryInterface* m, uint64_t a, const Bytes& b) {
    auto* d = g.buf(b);
    c.op("store %lx %s", a, hex(b).c_str());
    m->Store(a, d);
    after(d, b);
  }
  void after(DataBuffer* d, const Bytes& b) {
    c.check(g.bytes(d) == b, "store_source", "the store changed its data buffer");
    c.check(d->ref_count() == 1, "db_refs", "%d references to the data buffer after the access", (int)d->ref_count());
    d->DecRef();
  }
  // Plain load; want is what must come back.
  void load(MemoryInterface* m, uint64_t a, const Bytes& want, const char* key = "load_data") {
    int l = lat();
    bool inst = r.chance(2, 3);
    Rec* x = g.start(inst, inst && r.coin());
    auto* d = g.buf(g.rnd(want.size()));
    d->set_latency(l);
    c.op("load %lx size %zu latency %d inst %d", a, want.size(), l, inst);
    m->Load(a, d, x->inst, x->ctx);
    g.issued(x, l);
    Bytes got = g.bytes(d);
    c.check(got == want, key, "load of %zu bytes at %lx gave %s, expected %s (first difference at byte %ld)", want.size(), a, hex(got).c_str(), hex(want).c_str(),
            (long)(std::mismatch(got.begin(), got.end(), want.begin()).first - got.begin()));
    c.check(d->latency() == l, "db_latency", "load changed the buffer latency from %d to %d", l, d->latency());
    c.check(d->ref_count() == 1, "db_refs", "%d references to the data buffer after the access", (int)d->ref_count());
    d->DecRef();
    c.ev("loads");
  }
  // pick(el) chooses an address for an element of el bytes; span(bytes) for a whole unit stride range.
  // big: with an occasional vector of up to that many elements.
  template <typename P>
  Vec vec(P pick, const std::vector<int>& els, int max_n = 9, int big = 0) {
    Vec v;
    v.el = r.pick(els);
    v.n = (int)r.range(1, max_n);
    if (big > max_n && r.chance(1, 8)) v.n = (int)r.range(max_n, big), c.ev("long_vectors");
    v.unit_stride = v.n == 1 || r.coin();
    if (v.unit_stride) {
      uint64_t a = pick(v.el * v.n);
      v.addrs = {a};
      for (int i = 0; i < v.n; ++i) v.at.push_back(a + (uint64_t)i * v.el / unit);
    } else {
      for (int i = 0; i < v.n; ++i) v.addrs.push_back(pick(v.el));
      if (r.chance(1, 4)) v.addrs[r.below(v.n)] = v.addrs[0];
      v.at = v.addrs;
    }
    int mode = r.below(5);
    for (int i = 0; i < v.n; ++i) v.mask.push_back(mode == 0 ? 0 : mode == 1 ? 1 : r.coin());
    return v;
  }
  std::string show(const Vec& v) {
    std::string s = "el " + std::to_string(v.el) + " n " + std::to_string(v.n) + (v.unit_stride ? " unit stride" : " indexed");
    char b[40];
    for (int i = 0; i < v.n; ++i) {
      snprintf(b, sizeof b, " %lx/%d", v.at[i], v.mask[i]);
      s += b;
    }
    return s;
  }
  void vload(MemoryInterface* m, const Vec& v, std::function<Bytes(uint64_t, int)> read, bool executes = true, bool transfers = true) {
    int l = lat();
    bool inst = r.chance(2, 3);
    Rec* x = g.start(inst, inst && r.coin());
    Bytes pre = g.rnd(v.el * v.n), want = pre;
    auto* d = g.buf(pre);
    d->set_latency(l);
    auto *ad = g.addr_buf(v.addrs), *md = g.mask_buf(v.mask);
    Bytes a0 = g.bytes(ad), m0 = g.bytes(md);
    c.op("vload %s latency %d inst %d", show(v).c_str(), l, inst);
    if (transfers)
      for (int i = 0; i < v.n; ++i)
        if (v.mask[i]) {
          Bytes b = read(v.at[i], v.el);
          std::copy(b.begin(), b.end(), want.begin() + i * v.el);
        }
    m->Load(ad, md, v.el, d, x->inst, x->ctx);
    g.issued(x, l, executes);
    Bytes got = g.bytes(d);
    c.check(got == want, "vload_data", "vector load gave %s, expected %s", hex(got, 80).c_str(), hex(want, 80).c_str());
    c.check(g.bytes(ad) == a0 && g.bytes(md) == m0, "vload_args", "vector load changed the addresses or masks");
    c.check(d->latency() == l, "db_latency", "load changed the buffer latency from %d to %d", l, d->latency());
    c.check(d->ref_count() == 1 && ad->ref_count() == 1 && md->ref_count() == 1, "db_refs", "references to the buffers after the access: %d %d %d", (int)d->ref_count(), (int)ad->ref_count(), (int)md->ref_count());
    d->DecRef();
    ad->DecRef();
    md->DecRef();
    c.ev(v.unit_stride ? "unit_stride_loads" : "gathers");
  }
  void vstore(MemoryInterface* m, const Vec& v, const Bytes& b) {
    auto *d = g.buf(b), *ad = g.addr_buf(v.addrs), *md = g.mask_buf(v.mask);
    Bytes a0 = g.bytes(ad), m0 = g.bytes(md);
    c.op("vstore %s data %s", show(v).c_str(), hex(b, 80).c_str());
    m->Store(ad, md, v.el, d);
    c.check(g.bytes(ad) == a0 && g.bytes(md) == m0, "vstore_args", "vector store changed the addresses or masks");
    c.check(ad->ref_count() == 1 && md->ref_count() == 1, "db_refs", "references to the buffers after the access");
    after(d, b);
    ad->DecRef();
    md->DecRef();
    c.ev(v.unit_stride ? "unit_stride_stores" : "scatters");
  }
  Bytes part(const Vec& v, const Bytes& b, int i) { return Bytes(b.begin() + i * v.el, b.begin() + (i + 1) * v.el); }
  void model(Ref& ref, const Vec& v, const Bytes& b) {
    for (int i = 0; i < v.n; ++i)
      if (v.mask[i]) ref.write(v.at[i], part(v, b, i));
  }
};
}  // namespace mem
#endif
