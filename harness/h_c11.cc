// C11: registers, operands and architecture state write-back.
#include <any>
#include <deque>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/control_register.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/devnull_operand.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/simple_resource.h"
#include "vh.h"

using namespace mpact::sim::generic;
using Bytes = std::vector<uint8_t>;

namespace {
struct State : ArchState {
  State(absl::string_view id, SourceOperandInterface* pc) : ArchState(id, pc) {}
  explicit State(absl::string_view id) : ArchState(id) {}
  ~State() override {}
};

int64_t SExt(uint64_t v, int bytes) {
  if (bytes == 8) return (int64_t)v;
  int sh = 64 - bytes * 8;
  return (int64_t)(v << sh) >> sh;
}

struct Model {
  std::string name;
  RegisterBase* reg;
  int es;
  bool sgn;
  std::vector<int> shape;
  int elems;
  Bytes val;
  SimpleResource* res = nullptr;
  bool is_ctrl = false;
  std::vector<std::unique_ptr<SourceOperandInterface>> src;
  std::vector<std::string> src_names;
  std::function<SourceOperandInterface*(const std::string*)> mk_src;
  std::function<DestinationOperandInterface*(int, const std::string*)> mk_dst;
};

struct World {
  vh::Case& c;
  vh::Rng& r;
  std::unique_ptr<SimpleResourcePool> pool;
  std::unique_ptr<State> st;
  std::vector<std::unique_ptr<Model>> regs;
  uint64_t cycle = 0;
  struct Pend {
    Model* m;
    Bytes val;
    DataBuffer* db;
  };
  std::map<uint64_t, std::vector<Pend>> pend;
  int ctrl_calls = 0, ctrl_want = 0;
  uint64_t ctrl_mask = ~0ull;
  explicit World(vh::Case& c) : c(c), r(c.rng) {}

  template <typename R>
  void Wire(Model* m, R* reg) {
    m->reg = reg;
    m->mk_src = [reg](const std::string* n) { return n ? reg->CreateSourceOperand(*n) : reg->CreateSourceOperand(); };
    m->mk_dst = [reg](int lat, const std::string* n) {
      return n ? reg->CreateDestinationOperand(lat, *n) : reg->CreateDestinationOperand(lat);
    };
  }
  template <typename T>
  void Make(int kind) {
    auto m = std::make_unique<Model>();
    m->name = "r" + std::to_string(regs.size());
    m->es = sizeof(T);
    m->sgn = std::is_signed<T>::value;
    switch (kind) {
      case 0: m->shape = {1}; Wire(m.get(), st->AddRegister<Register<T>>(m->name)); break;
      case 1: m->shape = {8}; Wire(m.get(), st->AddRegister<VectorRegister<T, 8>>(m->name)); break;
      case 2: m->shape = {3, 5}; Wire(m.get(), st->AddRegister<MatrixRegister<T, 3, 5>>(m->name)); break;
      case 3: {
        m->shape = {1};
        m->res = pool->GetOrAddResource(m->name);
        Wire(m.get(), st->AddRegister<ReservedRegister<T>>(m->name, m->res));
        break;
      }
      case 4: {
        m->shape = {7};
        m->res = pool->GetOrAddResource(m->name);
        Wire(m.get(), st->AddRegister<ReservedVectorRegister<T, 7>>(m->name, m->res));
        break;
      }
      default: {
        m->shape = {1};
        m->is_ctrl = true;
        Model* mp = m.get();
        ControlRegisterBase::UpdateCallbackFunction cb = [this, mp](ControlRegisterBase* cr, DataBuffer* db) {
          ctrl_calls++;
          c.check(cr == mp->reg, "control", "update callback got another register");
          cr->RegisterBase::SetDataBuffer(db);
        };
        auto* reg = new ControlRegister<T>(st.get(), m->name, cb);
        st->AddRegister(reg);
        Wire(m.get(), reg);
        break;
      }
    }
    m->elems = 1;
    for (int d : m->shape) m->elems *= d;
    m->val.assign(m->elems * m->es, 0);
    c.check(m->reg->name() == m->name, "name", "register name");
    c.check(m->reg->shape() == m->shape, "shape", "register shape");
    c.check(m->reg->size() == m->elems * m->es, "size", "register size %d", m->reg->size());
    c.check(m->reg->arch_state() == st.get(), "state", "arch state");
    c.op("register %s kind %d of %d elements of %d bytes", m->name.c_str(), kind, m->elems, m->es);
    c.ev(kind == 3 || kind == 4 ? "reserved_registers" : kind == 5 ? "control_registers" : kind == 0 ? "scalars" : "vectors");
    regs.push_back(std::move(m));
    NewSrc(regs.back().get());
  }
  void MakeAny() {
    int kind = (int)r.below(6);
    switch (r.below(8)) {
      case 0: Make<uint8_t>(kind); break;
      case 1: Make<int8_t>(kind); break;
      case 2: Make<uint16_t>(kind); break;
      case 3: Make<int16_t>(kind); break;
      case 4: Make<uint32_t>(kind); break;
      case 5: Make<int32_t>(kind); break;
      case 6: Make<uint64_t>(kind); break;
      default: Make<int64_t>(kind); break;
    }
  }
  void NewSrc(Model* m) {
    std::string n = r.ident();
    bool named = r.coin();
    m->src.emplace_back(m->mk_src(named ? &n : nullptr));
    m->src_names.push_back(named ? n : m->name);
    auto& s = *m->src.back();
    c.check(s.AsString() == m->src_names.back(), "operand", "source operand name '%s'", s.AsString().c_str());
    c.check(s.shape() == m->shape, "operand", "source operand shape");
    auto* ob = std::any_cast<RegisterBase*>(s.GetObject());
    c.check(ob == m->reg, "operand", "source operand object");
  }
  Bytes RandVal(Model* m) {
    Bytes b(m->val.size());
    for (int i = 0; i < m->elems; ++i) {
      uint64_t v = r.val();
      memcpy(&b[i * m->es], &v, m->es);
    }
    return b;
  }
  void CheckAll() {
    for (auto& m : regs) {
      DataBuffer* db = m->reg->data_buffer();
      c.check(db != nullptr && db->size<uint8_t>() == (int)m->val.size(), "value", "%s has no buffer of its size", m->name.c_str());
      if (memcmp(db->raw_ptr(), m->val.data(), m->val.size()) != 0) {
        for (size_t i = 0; i < m->val.size(); ++i)
          c.check(((uint8_t*)db->raw_ptr())[i] == m->val[i], "value", "cycle %lu: %s byte %zu is %02x, last landed write has %02x",
                  cycle, m->name.c_str(), i, ((uint8_t*)db->raw_ptr())[i], m->val[i]);
      }
      c.check(db->ref_count() >= 1, "refcount", "%s: current buffer has no reference", m->name.c_str());
      for (auto& o : regs)
        c.check(o == m || o->reg->data_buffer() != db, "alias", "%s and %s share a buffer", m->name.c_str(), o->name.c_str());
      auto it = st->registers()->find(m->name);
      c.check(it != st->registers()->end() && it->second == m->reg, "table", "register %s not in the table", m->name.c_str());
    }
    for (auto& [t, v] : pend)
      for (auto& p : v) {
        c.check(p.db->ref_count() >= 1, "refcount", "pending write to %s lost its reference", p.m->name.c_str());
        c.check(memcmp(p.db->raw_ptr(), p.val.data(), p.val.size()) == 0, "pending", "pending write to %s changed", p.m->name.c_str());
      }
    c.check(ctrl_calls == ctrl_want, "control", "control register callback ran %d times, expected %d", ctrl_calls, ctrl_want);
    c.check(st->cycle() == cycle, "cycle", "cycle %lu, expected %lu", st->cycle(), cycle);
  }
  void Land(Model* m, const Bytes& v) {
    m->val = v;
    if (m->is_ctrl) ctrl_want++;
    if (m->res) {
      c.check(m->res->IsFree(), "resource", "resource of %s not released by the write", m->name.c_str());
      c.ev("resource_released");
    }
  }
  void Write(Model* m) {
    int lat = r.chance(1, 3) ? 0 : (int)r.range(1, r.chance(1, 6) ? 40 : 5);
    std::string nm = r.ident();
    bool named = r.coin();
    std::unique_ptr<DestinationOperandInterface> d(m->mk_dst(lat, named ? &nm : nullptr));
    c.check(d->latency() == lat, "operand", "destination latency %d, expected %d", d->latency(), lat);
    c.check(d->AsString() == (named ? nm : m->name), "operand", "destination name");
    c.check(d->shape() == m->shape, "operand", "destination shape");
    c.check(std::any_cast<RegisterBase*>(d->GetObject()) == m->reg, "operand", "destination object");
    bool copy = r.coin();
    DataBuffer* db = copy ? d->CopyDataBuffer() : d->AllocateDataBuffer();
    c.check(db->size<uint8_t>() == (int)m->val.size(), "size", "destination buffer of %d bytes for %s", db->size<uint8_t>(), m->name.c_str());
    c.check(db->ref_count() == 1, "refcount", "new destination buffer has %d references", db->ref_count());
    Bytes v;
    if (copy) {
      c.check(memcmp(db->raw_ptr(), m->val.data(), m->val.size()) == 0, "copy", "CopyDataBuffer of %s differs from its value", m->name.c_str());
      v = m->val;
      int e = (int)r.below(m->elems);
      uint64_t x = r.val();
      memcpy(&v[e * m->es], &x, m->es);
      switch (m->es) {
        case 1: db->Set<uint8_t>(e, (uint8_t)x); break;
        case 2: db->Set<uint16_t>(e, (uint16_t)x); break;
        case 4: db->Set<uint32_t>(e, (uint32_t)x); break;
        default: db->Set<uint64_t>(e, x); break;
      }
      c.ev("copy_writes");
    } else {
      v = RandVal(m);
      db->CopyFrom(v.data());
      c.ev("writes");
    }
    if (m->res) {
      m->res->Acquire();
    }
    c.op("cycle %lu: write %s latency %d copy %d", cycle, m->name.c_str(), lat, copy);
    if (lat == 0) {
      db->Submit();
      Land(m, v);
    } else {
      pend[cycle + lat].push_back({m, v, db});
      db->Submit();
      if (m->res) c.check(!m->res->IsFree(), "resource", "resource of %s released before the write landed", m->name.c_str());
      c.ev("delayed_writes");
    }
    c.seen(vh::Comb(vh::Comb(m->es, lat), vh::Comb(m->shape.size(), copy)));
  }
  void Advance() {
    ++cycle;
    auto it = pend.find(cycle);
    std::vector<Pend> now;
    if (it != pend.end()) {
      now = it->second;
      pend.erase(it);
    }
    c.op("advance to %lu", cycle);
    st->AdvanceDelayLines();
    for (auto& p : now) Land(p.m, p.val);
    c.ev("cycles");
  }
  void Read(Model* m) {
    auto& s = *m->src[r.below(m->src.size())];
    int e = (int)r.below(m->elems);
    uint64_t raw = 0;
    memcpy(&raw, &m->val[e * m->es], m->es);
    int64_t sv = SExt(raw, m->es);
    uint64_t uv = m->sgn ? (uint64_t)sv : raw;
    int k = (int)r.below(9);
    c.op("read %s[%d] accessor %d", m->name.c_str(), e, k);
    bool ok = true;
    switch (k) {
      case 0: ok = s.AsBool(e) == (raw != 0); break;
      case 1: ok = s.AsInt8(e) == (int8_t)sv; break;
      case 2: ok = s.AsUint8(e) == (uint8_t)uv; break;
      case 3: ok = s.AsInt16(e) == (int16_t)sv; break;
      case 4: ok = s.AsUint16(e) == (uint16_t)uv; break;
      case 5: ok = s.AsInt32(e) == (int32_t)sv; break;
      case 6: ok = s.AsUint32(e) == (uint32_t)uv; break;
      case 7: ok = s.AsInt64(e) == (int64_t)sv; break;
      case 8: ok = s.AsUint64(e) == uv; break;
    }
    c.check(ok, "read", "accessor %d of %s[%d] (raw %lx, %d bytes, %s)", k, m->name.c_str(), e, raw, m->es, m->sgn ? "signed" : "unsigned");
    c.ev("reads");
  }
};
}  // namespace

VH_SCENARIO(C11, registers, 2500, 60000) {
  World w(c);
  auto& r = c.rng;
  w.pool = std::make_unique<SimpleResourcePool>("pool", 64);
  w.st = std::make_unique<State>("state");
  int n = (int)r.range(1, 5);
  for (int i = 0; i < n; ++i) w.MakeAny();
  int aliases = 0;
  int steps = (int)r.range(10, 80);
  int writes = 0;
  for (int s = 0; s < steps; ++s) {
    Model* m = w.regs[r.below(w.regs.size())].get();
    switch (r.below(12)) {
      case 0: case 1: case 2: w.Write(m); ++writes; break;
      case 3: case 4: case 5: case 6: w.Read(m); break;
      case 7: {  // alias: same object, deleted once
        std::string a = "alias" + std::to_string(aliases++);
        w.st->AddRegister(a, m->reg);
        c.check((*w.st->registers())[a] == m->reg, "table", "alias");
        if (r.coin()) {
          w.st->RemoveRegister(a);
          c.check(!w.st->registers()->contains(a), "table", "removed alias still present");
        }
        w.st->RemoveRegister("nosuch");
        c.ev("aliases");
        c.op("alias of %s", m->name.c_str());
        break;
      }
      case 8: w.NewSrc(m); break;
      case 9: {  // write the register's own buffer back
        if (m->is_ctrl || m->res) break;
        c.op("rewrite %s with its own buffer", m->name.c_str());
        m->reg->SetDataBuffer(m->reg->data_buffer());
        DataBuffer* other = w.st->db_factory()->Allocate(m->reg->size());
        c.check(other != m->reg->data_buffer(), "alias", "buffer of %s handed out again while in the register", m->name.c_str());
        memset(other->raw_ptr(), 0x5a, m->reg->size());
        other->DecRef();
        c.ev("self_writes");
        break;
      }
      default: w.Advance(); break;
    }
    w.CheckAll();
  }
  if (writes > 1) c.nontrivial();
  if (r.coin())
    while (!w.pend.empty()) {
      w.Advance();
      w.CheckAll();
    }
  else if (!w.pend.empty())
    c.ev("destroyed_with_pending");
  for (auto& m : w.regs) m->src.clear();
}

// A null destination: gives buffers of the right size and swallows them.
VH_SCENARIO(C11, devnull, 400, 8000) {
  auto& r = c.rng;
  State st("s");
  std::vector<int> shape;
  int dims = (int)r.range(1, 3);
  int total = 4;
  for (int i = 0; i < dims; ++i) {
    shape.push_back((int)r.range(1, 9));
    total *= shape.back();
  }
  std::string nm = r.coin() ? r.ident() : "";
  auto d = nm.empty() ? std::make_unique<DevNullOperand<uint32_t>>(&st, shape)
                      : std::make_unique<DevNullOperand<uint32_t>>(&st, shape, nm);
  c.op("devnull of %d bytes", total);
  c.check(d->AsString() == nm && d->shape() == shape && d->latency() == 0 && !d->GetObject().has_value(), "devnull", "attributes");
  auto* reg = st.AddRegister<Register<uint32_t>>("r0");
  std::unique_ptr<DestinationOperandInterface> rd(reg->CreateDestinationOperand(2));
  for (int i = 0; i < 6; ++i) {
    // Leave a recycled buffer that was aimed at a register: devnull must not write there.
    if (r.coin()) {
      DataBuffer* x = st.db_factory()->Allocate(total);
      rd->InitializeDataBuffer(x);
      x->DecRef();
    }
    DataBuffer* db = r.coin() ? d->AllocateDataBuffer() : d->CopyDataBuffer();
    c.check(db->size<uint8_t>() == total, "devnull", "size %d, expected %d", db->size<uint8_t>(), total);
    memset(db->raw_ptr(), 0xff, total);
    DataBuffer* before = reg->data_buffer();
    db->IncRef();
    db->Submit();
    st.AdvanceDelayLines();
    st.AdvanceDelayLines();
    st.AdvanceDelayLines();
    c.check(db->ref_count() == 1, "devnull", "submitted buffer has %d references, ours expected", db->ref_count());
    db->DecRef();
    c.check(reg->data_buffer() == before && before->Get<uint32_t>(0) == 0, "devnull", "a null destination write changed a register");
    c.ev("devnull_writes");
  }
  c.nontrivial();
}

// All delay lines of the state advance once per cycle, including added ones.
VH_SCENARIO(C11, delay_lines, 600, 12000) {
  auto& r = c.rng;
  State st("s");
  struct Call {
    uint64_t due;
    bool done = false;
  };
  std::deque<Call> calls;
  std::vector<FunctionDelayLine*> lines{st.function_delay_line()};
  int extra = (int)r.below(3);
  for (int i = 0; i < extra; ++i) lines.push_back(st.CreateAndAddDelayLine<FunctionDelayLine>(1 + (int)r.below(8)));
  for (int s = 0; s < 40; ++s) {
    if (r.chance(2, 3)) {
      int lat = (int)r.range(1, 20);
      calls.push_back({st.cycle() + lat});
      Call* cp = &calls.back();
      lines[r.below(lines.size())]->Add(lat, [&c, &st, cp]() {
        c.check(!cp->done, "calls", "scheduled call ran twice");
        c.check(st.cycle() == cp->due, "calls", "call due at cycle %lu ran at %lu", cp->due, st.cycle());
        cp->done = true;
      });
    } else {
      uint64_t before = st.cycle();
      st.AdvanceDelayLines();
      c.check(st.cycle() == before + 1, "cycle", "advance moved the cycle from %lu to %lu", before, st.cycle());
      for (auto& x : calls) c.check(x.done == (x.due <= st.cycle()), "calls", "call due at %lu: done=%d at %lu", x.due, x.done, st.cycle());
      c.ev("state_cycles");
    }
  }
  c.op("%zu calls on %zu lines", calls.size(), lines.size());
  c.mix(st.cycle());
  c.nontrivial();
}
