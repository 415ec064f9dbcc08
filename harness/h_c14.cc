// C14: instruction objects - ownership, hierarchy, execution - and the decode cache.
#include <memory>

#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/resource_operand_interface.h"
#include "vh.h"

using namespace mpact::sim::generic;

namespace {
struct Counts {
  std::map<int, int> inst_dead, op_dead;
};
struct TInst : Instruction {
  Counts* k;
  int id;
  TInst(Counts* k, int id, uint64_t a) : Instruction(a, nullptr), k(k), id(id) {}
  ~TInst() override { ++k->inst_dead[id]; }
};
struct TSrc : ImmediateOperand<uint32_t> {
  Counts* k;
  int id;
  TSrc(Counts* k, int id) : ImmediateOperand<uint32_t>(id), k(k), id(id) {}
  ~TSrc() override { ++k->op_dead[id]; }
};
struct TDst : DestinationOperandInterface {
  Counts* k;
  int id;
  TDst(Counts* k, int id) : k(k), id(id) {}
  ~TDst() override { ++k->op_dead[id]; }
  DataBuffer* AllocateDataBuffer() override { return nullptr; }
  DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return id; }
  void InitializeDataBuffer(DataBuffer*) override {}
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "d"; }
};
struct TRes : ResourceOperandInterface {
  Counts* k;
  int id;
  TRes(Counts* k, int id) : k(k), id(id) {}
  ~TRes() override { ++k->op_dead[id]; }
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return "r"; }
};
struct TPred : PredicateOperandInterface {
  Counts* k;
  int id;
  TPred(Counts* k, int id) : k(k), id(id) {}
  ~TPred() override { ++k->op_dead[id]; }
  bool Value() override { return true; }
  std::string AsString() const override { return "p"; }
};
struct Node {
  TInst* p = nullptr;
  int client = 1;  // references the client holds
  int first_child = -1, next = -1, parent = -1;
  bool linked = false;  // referenced by some list
  bool dead = false;
  std::vector<int> ops;
};
}  // namespace

VH_SCENARIO(C14, trees, 5000, 200000) {
  auto& r = c.rng;
  Counts k;
  std::vector<Node> n;
  int ops = 0, steps = (int)r.range(5, 60);
  auto refs = [&](int i) { return n[i].client + (n[i].linked ? 1 : 0); };
  std::function<void(int)> drop_link, reap;
  reap = [&](int i) {  // model: destroy i if no references remain
    if (n[i].dead || refs(i) > 0) return;
    n[i].dead = true;
    if (n[i].next >= 0) drop_link(n[i].next);
    for (int ch = n[i].first_child; ch >= 0 && !n[ch].dead; ch = n[ch].next)
      if (n[ch].parent == i) n[ch].parent = -1;
    if (n[i].first_child >= 0) drop_link(n[i].first_child);
  };
  drop_link = [&](int i) { n[i].linked = false; reap(i); };
  auto verify = [&](const char* after) {
    for (size_t i = 0; i < n.size(); ++i) {
      c.check(k.inst_dead[i] == (n[i].dead ? 1 : 0), "lifetime", "after %s: instruction %zu destroyed %d times, %d references (client %d)", after, i, k.inst_dead[i], refs(i), n[i].client);
      for (int o : n[i].ops) c.check(k.op_dead[o] == (n[i].dead ? 1 : 0), "operands", "after %s: operand %d of instruction %zu destroyed %d times", after, o, i, k.op_dead[o]);
    }
    for (size_t i = 0; i < n.size(); ++i) {
      if (n[i].dead) continue;
      auto at = [&](int j) -> Instruction* { return j < 0 ? nullptr : n[j].p; };
      c.check(n[i].p->child() == at(n[i].first_child), "child", "after %s: child of %zu", after, i);
      c.check(n[i].p->next() == at(n[i].next), "next", "after %s: next of %zu", after, i);
      c.check(n[i].p->parent() == at(n[i].parent), "parent", "after %s: parent of %zu", after, i);
      c.check((int)n[i].p->ref_count() == refs(i), "refs", "after %s: instruction %zu has %d references, expected %d", after, i, (int)n[i].p->ref_count(), refs(i));
    }
    c.ev("states_verified");
  };
  auto pick_live = [&]() {
    std::vector<int> v;
    for (size_t i = 0; i < n.size(); ++i) if (!n[i].dead && n[i].client > 0) v.push_back(i);
    return v.empty() ? -1 : r.pick(v);
  };
  for (int s = 0; s < steps; ++s) {
    int a = pick_live();
    switch (r.below(8)) {
      case 0: case 1: case 2: {  // a fresh instruction, maybe attached
        Node x;
        int id = n.size();
        x.p = new TInst(&k, id, r.val());
        int nops = r.below(5);
        for (int o = 0; o < nops; ++o) {
          int oid = ops++;
          switch (r.below(5)) {
            case 0: x.p->AppendSource(new TSrc(&k, oid)); break;
            case 1: x.p->AppendDestination(new TDst(&k, oid)); break;
            case 2: x.p->AppendResourceHold(new TRes(&k, oid)); break;
            case 3: x.p->AppendResourceAcquire(new TRes(&k, oid)); break;
            default:
              if (x.p->Predicate() != nullptr) { --ops; continue; }
              x.p->SetPredicate(new TPred(&k, oid));
          }
          x.ops.push_back(oid);
          c.ev("operands");
        }
        n.push_back(x);
        c.op("new %d", id);
        if (a < 0) break;
        if (r.chance(1, 6)) break;
        bool child = r.chance(2, 3);
        c.op("%s %d to %d", child ? "append child" : "append", id, a);
        if (child) {
          n[a].p->AppendChild(n[id].p);
          n[id].parent = a;
          if (n[a].first_child < 0) n[a].first_child = id;
          else { int t = n[a].first_child; while (n[t].next >= 0) t = n[t].next; n[t].next = id; }
          c.ev("children");
        } else {
          n[a].p->Append(n[id].p);
          int t = a;
          while (n[t].next >= 0) t = n[t].next;
          n[t].next = id;
          c.ev("nexts");
        }
        n[id].linked = true;
        if (r.coin()) {  // the usual pattern: hand over ownership
          c.op("release %d", id);
          n[id].p->DecRef();
          n[id].client = 0;
          c.ev("handed_over");
        }
        break;
      }
      case 3: {
        if (a < 0) break;
        n[a].p->AppendChild(nullptr);
        n[a].p->Append(nullptr);
        c.op("append null to %d", a);
        break;
      }
      case 4: {
        if (a < 0) break;
        c.op("incref %d", a);
        n[a].p->IncRef();
        ++n[a].client;
        break;
      }
      case 5: {
        if (a < 0) break;
        c.op("decref %d", a);
        --n[a].client;
        n[a].p->DecRef();
        reap(a);
        c.ev(n[a].dead ? "destroyed" : "outlives");
        break;
      }
      default: {  // re-acquire a reference through navigation
        if (a < 0) break;
        int b = r.coin() ? n[a].first_child : n[a].next;
        if (b < 0) break;
        c.op("incref %d through %d", b, a);
        Instruction* q = b == n[a].first_child ? n[a].p->child() : n[a].p->next();
        c.check(q == n[b].p, "navigate", "wrong instruction");
        q->IncRef();
        ++n[b].client;
        c.ev("navigated");
      }
    }
    verify("step");
  }
  if (n.size() > 2) c.nontrivial();
  // release everything in random order
  for (;;) {
    int a = pick_live();
    if (a < 0) break;
    c.op("final decref %d", a);
    --n[a].client;
    n[a].p->DecRef();
    reap(a);
    verify("final release");
  }
  for (size_t i = 0; i < n.size(); ++i) c.check(n[i].dead && k.inst_dead[i] == 1, "end", "instruction %zu still alive", i);
}

VH_SCENARIO(C14, execute, 3000, 100000) {
  auto& r = c.rng;
  uint64_t addr = r.val();
  auto* inst = r.coin() ? new Instruction(addr, nullptr) : new Instruction(nullptr);
  if (inst->address() != addr) { c.check(inst->address() == 0, "address", "default address"); inst->set_address(addr); }
  struct Ctx : ReferenceCount {};
  std::vector<int> attrs;
  int calls = 0;
  ReferenceCount* seen_ctx = nullptr;
  Instruction* seen_inst = nullptr;
  std::vector<SourceOperandInterface*> src;
  std::vector<DestinationOperandInterface*> dst;
  Counts k;
  int ops = 0, which = 0;
  inst->set_semantic_function([&](Instruction* i) { ++calls; which = 1; seen_ctx = i->context(); seen_inst = i; });
  int steps = (int)r.range(3, 30);
  int size = 0, opcode = 0;
  std::string dis;
  bool sz = false, oc = false;
  c.check(inst->Predicate() == nullptr && inst->SourcesSize() == 0 && inst->DestinationsSize() == 0 && inst->Attributes().empty() && inst->AsString().empty(), "fresh", "a new instruction is not empty");
  for (int s = 0; s < steps; ++s) {
    switch (r.below(9)) {
      case 0: {
        auto* ctx = new Ctx();
        c.op("execute with context");
        int before = calls;
        inst->Execute(ctx);
        c.check(calls == before + 1 && seen_ctx == ctx && seen_inst == inst, "execute", "the semantic function ran %d times, context %p", calls - before, (void*)seen_ctx);
        c.check(inst->context() == nullptr, "context", "the context stays set after execution");
        c.check(ctx->ref_count() == 1, "context", "context reference count changed");
        ctx->DecRef();
        c.ev("with_context");
        break;
      }
      case 1: {
        c.op("execute");
        int before = calls;
        inst->Execute();
        c.check(calls == before + 1 && seen_ctx == nullptr && seen_inst == inst, "execute", "the semantic function ran %d times, context %p", calls - before, (void*)seen_ctx);
        c.ev("without_context");
        break;
      }
      case 2: {
        int v = (int)r.range(2, 100000);
        c.op("set function %d", v);
        inst->set_semantic_function([&calls, &seen_ctx, &seen_inst, &which, v](Instruction* i) { ++calls; which = v; seen_ctx = i->context(); seen_inst = i; });
        inst->Execute(nullptr);
        c.check(which == v, "function", "the old semantic function ran");
        break;
      }
      case 3: {
        attrs.assign(r.below(9), 0);
        for (auto& x : attrs) x = (int)r.val();
        c.op("attributes %zu", attrs.size());
        std::vector<int> tmp = attrs;
        inst->SetAttributes(absl::MakeConstSpan(tmp));
        std::fill(tmp.begin(), tmp.end(), -77);
        c.ev("attributes");
        break;
      }
      case 4: {
        auto* o = new TSrc(&k, ops++);
        src.push_back(o);
        inst->AppendSource(o);
        break;
      }
      case 5: {
        auto* o = new TDst(&k, ops++);
        dst.push_back(o);
        inst->AppendDestination(o);
        break;
      }
      case 6: size = (int)r.val(); inst->set_size(size); sz = true; break;
      case 7: opcode = (int)r.val(); inst->set_opcode(opcode); oc = true; break;
      default: dis = r.ident(20); inst->SetDisassemblyString(dis);
    }
    c.check(inst->address() == addr, "address", "address changed");
    if (sz) c.check(inst->size() == size, "size", "size %d", inst->size());
    if (oc) c.check(inst->opcode() == opcode, "opcode", "opcode %d", inst->opcode());
    c.check(inst->AsString() == dis, "text", "disassembly");
    auto at = inst->Attributes();
    c.check(std::vector<int>(at.begin(), at.end()) == attrs, "attributes", "attribute array differs");
    c.check(inst->SourcesSize() == (int)src.size() && inst->DestinationsSize() == (int)dst.size(), "operands", "operand counts");
    for (size_t i = 0; i < src.size(); ++i) c.check(inst->Source(i) == src[i], "operands", "source %zu", i);
    for (size_t i = 0; i < dst.size(); ++i) c.check(inst->Destination(i) == dst[i], "operands", "destination %zu", i);
  }
  c.nontrivial();
  inst->DecRef();
  for (int i = 0; i < ops; ++i) c.check(k.op_dead[i] == 1, "operands", "operand %d destroyed %d times", i, k.op_dead[i]);
}

namespace {
struct Dec : DecoderInterface {
  Counts k;
  std::vector<std::pair<uint64_t, TInst*>> made;
  std::set<uint64_t> bad;
  uint64_t calls = 0;
  Instruction* DecodeInstruction(uint64_t a) override {
    ++calls;
    if (bad.count(a)) { made.push_back({a, nullptr}); return nullptr; }
    auto* p = new TInst(&k, (int)made.size(), a);
    made.push_back({a, p});
    return p;
  }
  int GetNumOpcodes() const override { return 0; }
  const char* GetOpcodeName(int) const override { return ""; }
};
}  // namespace

VH_SCENARIO(C14, cache, 5000, 200000) {
  auto& r = c.rng;
  Dec d;
  int shift = r.below(5);
  uint32_t inc = 1u << shift;
  uint32_t want = r.pick(std::vector<uint32_t>{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 300});
  uint32_t entries = 1;
  while (entries < want) entries *= 2;
  if (r.chance(1, 20)) {
    uint32_t odd = r.pick(std::vector<uint32_t>{3, 5, 6, 7, 12, 24});
    c.op("create with increment %u", odd);
    c.check(DecodeCache::Create({want, odd}, &d) == nullptr, "create", "a cache with increment %u was created", odd);
    c.ev("refused_create");
    return;
  }
  c.op("create %u entries inc %u", want, inc);
  std::unique_ptr<DecodeCache> dc(DecodeCache::Create({want, inc}, &d));
  c.check(dc != nullptr, "create", "no cache");
  c.check(dc->num_entries() == (int)entries && dc->address_inc() == (int)inc && dc->address_shift() == shift && dc->address_mask() == (uint64_t)(entries - 1) << shift, "properties", "cache properties");
  // addresses from a window that wraps the cache a few times, possibly at the top of memory
  uint64_t base = r.pick(std::vector<uint64_t>{0, 0x1000, (uint64_t)0 - (uint64_t)inc * entries * 3, 0xffffffff00000000ull, 0xfffffff0ull}) & ~(uint64_t)(inc - 1);
  // Sometimes also addresses that agree in all the low bits.
  bool far = r.chance(1, 3);
  auto addr = [&]() {
    uint64_t a = base + inc * r.below(entries * 3);
    if (far && r.coin()) a ^= 1ull << r.range(20, 63);
    return a;
  };
  if (r.coin()) for (int i = 0; i < 3; ++i) d.bad.insert(addr());
  std::map<uint32_t, int> slot;  // entry -> id
  std::set<int> held;            // ids we hold a reference to
  std::set<int> live;
  auto evict = [&](uint32_t e) {
    auto it = slot.find(e);
    if (it == slot.end()) return;
    if (!held.count(it->second)) live.erase(it->second);
    slot.erase(it);
  };
  auto entry = [&](uint64_t a) { return (uint32_t)((a >> shift) & (entries - 1)); };
  auto verify = [&]() {
    for (size_t i = 0; i < d.made.size(); ++i) {
      if (!d.made[i].second) continue;
      c.check(d.k.inst_dead[i] == (live.count(i) ? 0 : 1), "lifetime", "instruction %zu at %lx destroyed %d times (cached or held: %d)", i, d.made[i].first, d.k.inst_dead[i], (int)live.count(i));
    }
  };
  int steps = (int)r.range(5, 80);
  for (int s = 0; s < steps; ++s) {
    switch (r.below(9)) {
      default: {
        uint64_t a = addr();
        c.op("get %lx", a);
        uint64_t before = d.calls;
        auto* p = dc->GetDecodedInstruction(a);
        auto it = slot.find(entry(a));
        if (it != slot.end() && d.made[it->second].first == a) {
          c.check(d.calls == before, "redecode", "%lx was decoded again though cached and not invalidated", a);
          c.check(p == d.made[it->second].second, "identity", "a different instruction than cached was returned for %lx", a);
          c.ev("hits");
        } else {
          c.check(d.calls == before + 1 && d.made.back().first == a, "decode", "miss at %lx: %lu decodes", a, d.calls - before);
          c.check(p == d.made.back().second, "identity", "the decoded instruction was not returned for %lx", a);
          if (p) {
            bool ev = it != slot.end();
            evict(entry(a));
            slot[entry(a)] = (int)d.made.size() - 1;
            live.insert((int)d.made.size() - 1);
            c.ev(ev ? "conflict_misses" : "misses");
          } else {
            c.ev("undecodable");
          }
        }
        if (p) c.check(p->address() == a, "address", "got the instruction of %lx for %lx", p->address(), a);
        if (p && r.chance(1, 5) && !held.count(((TInst*)p)->id)) {
          p->IncRef();
          held.insert(((TInst*)p)->id);
          c.ev("held");
        }
        break;
      }
      case 5: {
        uint64_t a = addr();
        c.op("invalidate %lx", a);
        dc->Invalidate(a);
        auto it = slot.find(entry(a));
        if (it != slot.end() && d.made[it->second].first == a) evict(entry(a));
        c.ev("invalidate");
        break;
      }
      case 6: {
        uint64_t lo = addr(), hi = addr();
        if (r.chance(1, 4)) lo += r.below(inc);
        if (r.chance(1, 4)) hi += r.below(inc);
        if (r.chance(1, 6)) hi = ~0ull - r.below(8);
        if (r.chance(1, 8)) lo = 0;
        c.op("invalidate range %lx %lx", lo, hi);
        dc->InvalidateRange(lo, hi);
        std::vector<uint32_t> e;
        for (auto& [en, id] : slot) if (d.made[id].first >= lo && d.made[id].first < hi) e.push_back(en);
        for (auto en : e) evict(en);
        c.ev("ranges");
        if (!e.empty()) c.ev("range_evictions", e.size());
        if (lo % inc) c.ev("unaligned_ranges");
        break;
      }
      case 7: {
        if (!r.chance(1, 4)) break;
        c.op("invalidate all");
        dc->InvalidateAll();
        while (!slot.empty()) evict(slot.begin()->first);
        c.ev("invalidate_all");
        break;
      }
      case 8: {
        if (held.empty()) break;
        int id = *std::next(held.begin(), r.below(held.size()));
        c.op("release %d", id);
        held.erase(id);
        bool cached = false;
        for (auto& [e, i] : slot) cached |= i == id;
        if (!cached) live.erase(id);
        d.made[id].second->DecRef();
        c.ev("held_released");
      }
    }
    verify();
  }
  c.nontrivial();
  dc.reset();
  while (!slot.empty()) evict(slot.begin()->first);
  verify();
  for (int id : held) d.made[id].second->DecRef();
}
