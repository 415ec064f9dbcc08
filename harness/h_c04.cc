// C04: status registers and state item geometry.
#include <memory>

#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/state_item_base.h"
#include "mpact/sim/generic/status_register.h"
#include "vh.h"

using namespace mpact::sim::generic;

namespace {
template <typename T>
void Status(vh::Case& c, const char* tn) {
  auto& r = c.rng;
  constexpr int kBits = sizeof(T) * 8;
  std::string name = r.ident(10);
  StatusRegister<T> reg(nullptr, name);
  c.check(reg.name() == name, "name", "name");
  c.check(reg.size() == (int)sizeof(T) && reg.element_size() == (int)sizeof(T), "size", "size %d", reg.size());
  c.check(reg.shape() == std::vector<int>{1}, "shape", "shape");
  c.op("status register of %s", tn);
  struct Bit {
    bool installed = false, value = false;
    int calls = 0;
  };
  std::vector<Bit> bits(kBits);
  std::unique_ptr<SourceOperandInterface> op(r.coin() ? reg.CreateSourceOperand() : reg.CreateSourceOperand("opname"));
  int steps = (int)r.range(5, 60);
  for (int s = 0; s < steps; ++s) {
    int k = (int)r.below(4);
    if (k == 0) {
      int p = r.chance(1, 4) ? kBits - 1 : (int)r.below(kBits);
      c.op("install bit %d", p);
      bits[p].installed = true;
      auto* b = &bits[p];
      reg.SetEvaluateFunction(p, [b]() {
        b->calls++;
        return b->value;
      });
      c.ev("installs");
      continue;
    }
    if (k == 1) {
      uint64_t v = r.val();
      c.op("conditions %lx", v);
      for (int i = 0; i < kBits; ++i) bits[i].value = (v >> i) & 1;
      continue;
    }
    for (auto& b : bits) b.calls = 0;
    T want = 0;
    bool masked = r.coin();
    T mask = masked ? (T)r.val() : (T) ~(T)0;
    for (int i = 0; i < kBits; ++i)
      if (bits[i].installed && bits[i].value && ((mask >> i) & 1)) want = (T)(want | ((T)1 << i));
    if (masked || r.coin()) {
      T got = masked ? reg.Read(mask) : reg.Read();
      c.op("read mask %lx", (uint64_t)mask);
      c.check(got == want, "read", "read %lx, expected %lx (mask %lx)", (uint64_t)got, (uint64_t)want, (uint64_t)mask);
      c.ev(masked ? "masked_reads" : "reads");
      for (int i = 0; i < kBits; ++i) {
        int wc = bits[i].installed && ((mask >> i) & 1) ? 1 : 0;
        c.check(bits[i].calls == wc, "evaluations", "condition %d evaluated %d times, expected %d", i, bits[i].calls, wc);
      }
    } else {
      uint64_t w = want;
      c.op("operand read");
      switch (r.below(9)) {
        case 0: c.check(op->AsBool(0) == (w != 0), "operand", "AsBool"); break;
        case 1: c.check(op->AsInt8(0) == (int8_t)(uint8_t)w, "operand", "AsInt8"); break;
        case 2: c.check(op->AsUint8(0) == (uint8_t)w, "operand", "AsUint8"); break;
        case 3: c.check(op->AsInt16(0) == (int16_t)(uint16_t)w, "operand", "AsInt16"); break;
        case 4: c.check(op->AsUint16(0) == (uint16_t)w, "operand", "AsUint16"); break;
        case 5: c.check(op->AsInt32(0) == (int32_t)(uint32_t)w, "operand", "AsInt32"); break;
        case 6: c.check(op->AsUint32(0) == (uint32_t)w, "operand", "AsUint32"); break;
        case 7: c.check(op->AsInt64(0) == (int64_t)w, "operand", "AsInt64"); break;
        case 8: c.check(op->AsUint64(0) == w, "operand", "AsUint64"); break;
      }
      c.ev("operand_reads");
    }
    c.seen(vh::Comb(vh::Comb(kBits, want), mask));
    if (want) c.nontrivial();
  }
  c.check(op->shape() == std::vector<int>{1}, "shape", "operand shape");
  auto obj = op->GetObject();
  c.check(obj.has_value(), "object", "operand without object");
  std::string as = op->AsString();
  c.check(as == name || as == "opname", "name", "operand AsString '%s'", as.c_str());
}
}  // namespace

VH_SCENARIO(C04, status, 4000, 150000) {
  switch (c.rng.below(8)) {
    case 4: Status<int8_t>(c, "s8"); break;
    case 5: Status<int16_t>(c, "s16"); break;
    case 6: Status<int32_t>(c, "s32"); break;
    case 7: Status<int64_t>(c, "s64"); break;
    case 0: Status<uint8_t>(c, "u8"); break;
    case 1: Status<uint16_t>(c, "u16"); break;
    case 2: Status<uint32_t>(c, "u32"); break;
    default: Status<uint64_t>(c, "u64"); break;
  }
}

// A status register is read only: a buffer written to it is dropped, with correct accounting.
VH_SCENARIO(C04, readonly, 300, 5000) {
  auto& r = c.rng;
  DataBufferFactory f;
  DataBufferDelayLine dl(4);
  StatusRegister<uint32_t> reg(nullptr, "s");
  reg.SetEvaluateFunction(3, [] { return true; });
  int n = (int)r.range(1, 8);
  std::vector<DataBuffer*> held;
  for (int i = 0; i < n; ++i) {
    DataBuffer* db = f.Allocate<uint32_t>(1);
    for (auto* h : held) c.check(h != db, "alias", "a buffer that is still referenced was handed out again");
    db->Set<uint32_t>(0, (uint32_t)r.next());
    db->set_destination(&reg);
    db->set_delay_line(&dl);
    db->IncRef();  // our own reference
    held.push_back(db);
    int lat = (int)r.below(3);
    c.op("write to the read-only register, latency %d", lat);
    db->Submit(lat);
    for (int k = 0; k < lat; ++k) dl.Advance();
    c.check(db->ref_count() == 1, "refcount", "after the write the buffer has %d references, our one expected", db->ref_count());
    c.check(reg.Read() == 8, "read", "value %x changed by a write", reg.Read());
    c.ev("ignored_writes");
  }
  for (auto* db : held) db->DecRef();
  c.nontrivial();
}

namespace {
struct Item : StateItemBase {
  Item(absl::string_view n, const std::vector<int>& s, int e) : StateItemBase(nullptr, n, s, e) {}
  void SetDataBuffer(DataBuffer* db) override {}
};
}  // namespace
VH_SCENARIO(C04, geometry, 2000, 40000) {
  auto& r = c.rng;
  int dims = (int)r.range(0, 6);
  std::vector<int> shape;
  int es = 1 << r.below(5);
  int64_t total = es;
  for (int i = 0; i < dims; ++i) {
    shape.push_back(r.chance(1, 12) ? 0 : r.chance(1, 8) ? 1 : (int)r.range(1, dims > 4 ? 10 : 20));
    if (r.chance(1, 20) && total < 100000) shape.back() = (int)r.range(100, 1000);
    if (total * shape.back() > 0x7fffffff) shape.back() = 1;
    total *= shape.back();
  }
  std::string name = r.ident(20);
  Item it(name, shape, es);
  c.op("item %s dims %d element %d -> %ld bytes", name.c_str(), dims, es, total);
  c.check(it.size() == total, "size", "size %d, expected %ld", it.size(), total);
  c.check(it.shape() == shape, "shape", "shape differs");
  c.check(it.element_size() == es, "element", "element size %d, expected %d", it.element_size(), es);
  c.check(it.name() == name, "name", "name");
  c.check(it.arch_state() == nullptr, "state", "state");
  c.ev("items");
  if (dims > 1) c.nontrivial();
}
