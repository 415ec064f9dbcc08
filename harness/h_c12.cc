// C12: fifos, token fifos, notifications.
#include <any>
#include <deque>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/fifo_with_notify.h"
#include "mpact/sim/generic/program_error.h"
#include "mpact/sim/generic/token_fifo.h"
#include "mpact/sim/proto/component_data.pb.h"
#include "vh.h"

using namespace mpact::sim::generic;

namespace {
struct State : ArchState {
  explicit State(absl::string_view id) : ArchState(id, nullptr) {}
};

int64_t SExt(uint64_t v, int bytes) {
  if (bytes == 8) return (int64_t)v;
  int sh = 64 - bytes * 8;
  return (int64_t)(v << sh) >> sh;
}

struct Item {
  DataBuffer* db;
  std::vector<uint8_t> val;
};

// Reference model of a (token) fifo.
struct FM {
  std::string name;
  FifoBase* f = nullptr;
  int es, elems;
  bool sgn = false;
  unsigned cap;
  unsigned reserved = 0;
  std::deque<Item> q;
  bool token = false;
  int overflow = 0, underflow = 0;  // expected number of raised messages
  std::unique_ptr<SourceOperandInterface> src;
  std::unique_ptr<DestinationOperandInterface> dst[3];
  // notifications
  bool notify = false;
  int not_empty = 0, empty = 0, want_not_empty = 0, want_empty = 0;
};

struct World {
  vh::Case& c;
  vh::Rng& r;
  State st{"st"};
  std::unique_ptr<FifoTokenStore> tokens;
  unsigned tokens_held = 0;
  std::vector<std::unique_ptr<FM>> fs;
  std::map<DataBuffer*, int> ours;  // references we hold ourselves
  uint64_t cycle = 0;
  struct Pend {
    FM* m;
    Item it;
  };
  std::map<uint64_t, std::vector<Pend>> pend;
  explicit World(vh::Case& c) : c(c), r(c.rng) {}

  void Errors(FM* m) {
    auto* ctl = st.program_error_controller();
    for (int k = 0; k < 2; ++k) {
      std::string n = m->name + (k ? "_under" : "_over");
      ctl->AddProgramErrorName(n);
      auto e = ctl->GetProgramError(n);
      if (k) m->f->SetUnderflowProgramError(&e);
      else m->f->SetOverflowProgramError(&e);
    }
  }
  template <typename F>
  void Finish(std::unique_ptr<FM> m, F* f) {
    m->f = f;
    m->src.reset(r.coin() ? f->CreateSourceOperand() : f->CreateSourceOperand("s_op"));
    for (int i = 0; i < 3; ++i) m->dst[i].reset(r.coin() ? f->CreateDestinationOperand(i) : f->CreateDestinationOperand(i, "d_op"));
    c.check(m->src->shape() == f->shape() && m->dst[0]->shape() == f->shape(), "operand", "operand shape");
    for (int i = 0; i < 3; ++i) {
      c.check(m->dst[i]->latency() == i, "operand", "latency");
      c.check(std::any_cast<FifoBase*>(m->dst[i]->GetObject()) == m->f, "operand", "object");
      c.check(m->dst[i]->CopyDataBuffer() == nullptr, "operand", "copying a fifo destination");
    }
    c.check(f->Capacity() == m->cap, "capacity", "capacity %u, expected %u", f->Capacity(), m->cap);
    if (errors) Errors(m.get());
    c.op("%s fifo %s capacity %u element %d x %d", m->token ? "token" : m->notify ? "notify" : "plain", m->name.c_str(), m->cap, m->es, m->elems);
    fs.push_back(std::move(m));
  }
  bool errors = true;  // whether program errors are attached to the fifos
  unsigned Cap() {
    if (r.chance(1, 12)) return (unsigned)r.range(60, 300);
    return (unsigned)r.range(1, 6);
  }
  template <typename T>
  void Plain(int shape) {
    auto m = std::make_unique<FM>();
    m->name = "f" + std::to_string(fs.size());
    m->es = sizeof(T);
    m->sgn = false;
    m->elems = shape == 0 ? 1 : shape == 1 ? 4 : shape == 2 ? 6 : 67;
    m->cap = Cap();
    int cap = m->cap;
    std::string n = m->name;
    std::vector<int> want = shape == 0 ? std::vector<int>{1} : shape == 1 ? std::vector<int>{4} : shape == 2 ? std::vector<int>{3, 2} : std::vector<int>{67};
    if (shape == 0) Finish(std::move(m), st.AddFifo<Fifo<T>>(n, cap));
    else if (shape == 1) Finish(std::move(m), st.AddFifo<VectorFifo<T, 4>>(n, cap));
    else if (shape == 2) Finish(std::move(m), st.AddFifo<MatrixFifo<T, 3, 2>>(n, cap));
    else Finish(std::move(m), st.AddFifo<VectorFifo<T, 67>>(n, cap));
    c.check(fs.back()->f->shape() == want, "shape", "shape of %s", n.c_str());
    c.ev("plain_fifos");
  }
  void Token() {
    if (!tokens) tokens = std::make_unique<FifoTokenStore>(r.chance(1, 12) ? (unsigned)r.range(60, 300) : (unsigned)r.range(1, 8));
    auto m = std::make_unique<FM>();
    m->name = "f" + std::to_string(fs.size());
    m->es = 4;
    m->elems = 1;
    m->token = true;
    // Usually only the shared tokens limit it.
    m->cap = r.chance(1, 3) ? (unsigned)r.range(1, 8) : 600;
    std::string n = m->name;
    unsigned cap = m->cap;
    Finish(std::move(m), st.AddFifo<TokenFifo<uint32_t>>(n, cap, tokens.get()));
    c.ev("token_fifos");
  }
  void Notify() {
    auto m = std::make_unique<FM>();
    m->name = "f" + std::to_string(fs.size());
    m->es = 4;
    m->elems = 1;
    m->notify = true;
    m->cap = Cap();
    std::string n = m->name;
    int cap = m->cap;
    auto* f = st.AddFifo<FifoWithNotify<uint32_t>>(n, cap);
    FM* mp = m.get();
    f->SetOnNotEmpty([this, mp](FifoWithNotifyBase* x) {
      c.check(x == mp->f, "notify", "callback for another fifo");
      c.check(mp->f->Available() == 1, "notify", "not-empty notification with %u elements", mp->f->Available());
      mp->not_empty++;
    });
    f->SetOnEmpty([this, mp](FifoWithNotifyBase* x) {
      c.check(x == mp->f, "notify", "callback for another fifo");
      c.check(mp->f->Available() == 0, "notify", "empty notification with %u elements", mp->f->Available());
      mp->empty++;
    });
    Finish(std::move(m), f);
    c.ev("notify_fifos");
  }
  unsigned Avail() { return tokens->capacity() - tokens_held; }
  bool Full(FM* m) {
    if (m->token && (Avail() == 0 || m->reserved >= Avail())) return true;
    return m->q.size() + m->reserved >= m->cap;
  }
  // Applies a push to the model; returns whether it must be accepted.
  bool ModelPush(FM* m, const Item& it) {
    if (m->token && Avail() == 0) {
      m->overflow++;
      return false;
    }
    if (m->reserved > 0) m->reserved--;
    if (Full(m)) {
      m->overflow++;
      return false;
    }
    if (m->notify && m->q.empty() && m->reserved == 0) m->want_not_empty++;
    m->q.push_back(it);
    if (m->token) tokens_held++;
    return true;
  }
  Item Fresh(FM* m, DataBuffer* db) {
    Item it{db, std::vector<uint8_t>(m->es * m->elems)};
    for (auto& b : it.val) b = (uint8_t)(r.chance(1, 3) ? r.val() : r.next());
    db->CopyFrom(it.val.data());
    return it;
  }
  void Check() {
    for (auto& m : fs) {
      auto* f = m->f;
      c.check(f->Available() == m->q.size(), "count", "%s holds %u elements, expected %zu", m->name.c_str(), f->Available(), m->q.size());
      c.check(f->Reserved() == m->reserved, "reserved", "%s reserved %u, expected %u", m->name.c_str(), f->Reserved(), m->reserved);
      c.check(f->IsFull() == Full(m.get()), "full", "%s IsFull=%d with %zu held, %u reserved", m->name.c_str(), f->IsFull(), m->q.size(), m->reserved);
      c.check(f->IsEmpty() == (m->q.empty() && m->reserved == 0), "empty", "%s IsEmpty=%d", m->name.c_str(), f->IsEmpty());
      bool over = m->q.size() + m->reserved > m->cap || (m->token && m->reserved > Avail());
      c.check(f->IsOverSubscribed() == over, "oversubscribed", "%s IsOverSubscribed=%d", m->name.c_str(), f->IsOverSubscribed());
      if (!m->q.empty()) {
        c.check(f->Front() == m->q.front().db, "order", "%s: front is not the oldest element", m->name.c_str());
      }
      for (auto& it : m->q) {
        c.check(it.db->ref_count() >= 1, "refcount", "element of %s lost its reference", m->name.c_str());
        c.check(memcmp(it.db->raw_ptr(), it.val.data(), it.val.size()) == 0, "contents", "element of %s changed", m->name.c_str());
      }
      if (errors) {
      auto& om = st.program_error_controller()->GetErrorMessages(m->name + "_over");
      c.check((int)om.size() == m->overflow, "overflow", "%s: %zu overflow errors raised, expected %d", m->name.c_str(), om.size(), m->overflow);
      auto& um = st.program_error_controller()->GetErrorMessages(m->name + "_under");
      c.check((int)um.size() == m->underflow, "underflow", "%s: %zu underflow errors raised, expected %d", m->name.c_str(), um.size(), m->underflow);
      }
      if (m->notify) {
        c.check(m->not_empty == m->want_not_empty, "notify", "%s: %d not-empty notifications, expected %d", m->name.c_str(), m->not_empty, m->want_not_empty);
        c.check(m->empty == m->want_empty, "notify", "%s: %d empty notifications, expected %d", m->name.c_str(), m->empty, m->want_empty);
      }
      c.check((*st.fifos())[m->name] == f, "table", "fifo table");
    }
    if (tokens)
      c.check(tokens->available() == Avail(), "tokens", "%u tokens available, %u of %u are in use", tokens->available(), tokens_held, tokens->capacity());
    c.seen(vh::Comb(vh::Comb(fs[0]->q.size(), fs[0]->reserved), vh::Comb(fs.back()->q.size(), tokens_held)));
  }
  void Step(int bias) {
    FM* m = fs[r.below(fs.size())].get();
    int what = (int)r.below(10);
    if (bias == 1 && r.chance(3, 4)) what = (int)r.below(4);
    if (bias == 2 && r.chance(3, 4)) what = (int)r.range(4, 6);
    switch (what) {
      case 0: case 1: {  // direct push
        DataBuffer* db = st.db_factory()->Allocate(m->f->size());
        Item it = Fresh(m, db);
        unsigned before = m->reserved;
        (void)before;
        bool want = ModelPush(m, it);
        c.op("push %s -> %d", m->name.c_str(), want);
        bool got = m->f->Push(db);
        c.check(got == want, "push", "push to %s (%zu held, %u reserved) returned %d, expected %d", m->name.c_str(), m->q.size(), m->reserved, got, want);
        c.check(db->ref_count() == (want ? 2 : 1), "refcount", "after push %d references", db->ref_count());
        db->DecRef();
        c.ev(want ? "pushes" : "refused_pushes");
        break;
      }
      case 2: case 3: {  // through a destination operand
        int lat = (int)r.below(3);
        DataBuffer* db = m->dst[lat]->AllocateDataBuffer();
        c.check(db->size<uint8_t>() == m->es * m->elems, "size", "destination buffer size");
        Item it = Fresh(m, db);
        c.op("operand push %s latency %d", m->name.c_str(), lat);
        if (lat == 0) {
          ModelPush(m, it);
          db->Submit();
        } else {
          pend[cycle + lat].push_back({m, it});
          db->Submit();
        }
        c.ev("operand_pushes");
        break;
      }
      case 4: case 5: case 6: {
        c.op("pop %s", m->name.c_str());
        if (m->q.empty()) {
          m->underflow++;
          c.ev("underflow_pops");
        } else {
          m->q.pop_front();
          if (m->token) tokens_held--;
          if (m->notify && m->q.empty() && m->reserved == 0) m->want_empty++;
          c.ev("pops");
        }
        m->f->Pop();
        break;
      }
      case 7: {
        if (m->notify) break;  // what counts as a transition with reservations is not documented
        int n = (int)r.range(1, 3);
        c.op("reserve %d in %s", n, m->name.c_str());
        m->f->Reserve(n);
        m->reserved += n;
        c.ev("reserves");
        break;
      }
      case 8: {
        ++cycle;
        auto it = pend.find(cycle);
        std::vector<Pend> now;
        if (it != pend.end()) now = it->second;
        pend.erase(cycle);
        c.op("advance");
        for (auto& p : now) ModelPush(p.m, p.it);
        st.AdvanceDelayLines();
        c.ev("cycles");
        break;
      }
      default: {  // read the front
        int e = (int)r.below(m->elems);
        int k = (int)r.below(9);
        uint64_t raw = 0;
        if (m->q.empty()) m->underflow++;
        else memcpy(&raw, &m->q.front().val[e * m->es], m->es);
        int64_t sv = SExt(raw, m->es);
        auto& s = *m->src;
        bool ok = true;
        c.op("read %s accessor %d", m->name.c_str(), k);
        switch (k) {
          case 0: ok = s.AsBool(e) == (raw != 0); break;
          case 1: ok = s.AsInt8(e) == (int8_t)sv; break;
          case 2: ok = s.AsUint8(e) == (uint8_t)raw; break;
          case 3: ok = s.AsInt16(e) == (int16_t)sv; break;
          case 4: ok = s.AsUint16(e) == (uint16_t)raw; break;
          case 5: ok = s.AsInt32(e) == (int32_t)sv; break;
          case 6: ok = s.AsUint32(e) == (uint32_t)raw; break;
          case 7: ok = s.AsInt64(e) == sv; break;
          default: ok = s.AsUint64(e) == raw; break;
        }
        c.check(ok, "read", "accessor %d of the front of %s (raw %lx of %d bytes)", k, m->name.c_str(), raw, m->es);
        c.ev("reads");
      }
    }
  }
};
int Shape(vh::Rng& r) { return (int)r.below(8) < 4 ? 0 : (int)r.range(1, 3); }
}  // namespace

VH_SCENARIO(C12, fifos, 3000, 80000) {
  World w(c);
  auto& r = c.rng;
  w.errors = !r.chance(1, 8);
  int n = (int)r.range(1, 3);
  int mode = (int)r.below(4);
  for (int i = 0; i < n; ++i) {
    int k = mode == 3 ? (int)r.below(3) : mode;
    if (k == 0) switch (r.below(8)) {
        case 4: w.Plain<int8_t>(Shape(r)); break;
        case 5: w.Plain<int16_t>(Shape(r)); break;
        case 6: w.Plain<int32_t>(Shape(r)); break;
        case 7: w.Plain<int64_t>(Shape(r)); break;
        case 0: w.Plain<uint8_t>(Shape(r)); break;
        case 1: w.Plain<uint16_t>(Shape(r)); break;
        case 2: w.Plain<uint32_t>(Shape(r)); break;
        default: w.Plain<uint64_t>(Shape(r)); break;
      }
    else if (k == 1) w.Token();
    else w.Notify();
  }
  int steps = (int)r.range(10, 120);
  if (r.chance(1, 12)) steps = 500;
  // Phases in which pushes, reads or pops dominate, so that large fifos fill up and drain.
  int bias = 0;
  for (int s = 0; s < steps; ++s) {
    if (s % 60 == 0) bias = steps == 500 ? (int)r.below(3) : 0;
    w.Step(bias);
    if (steps < 500 || s % 7 == 0) w.Check();
  }
  w.Check();
  c.nontrivial();
  // The fifos are destroyed with the state: every element must be released (LSan, pool dtor).
  for (auto& m : w.fs) {
    m->src.reset();
    for (auto& d : m->dst) d.reset();
  }
}

// The configured depth takes effect.
VH_SCENARIO(C12, depth, 200, 4000) {
  auto& r = c.rng;
  State st("st");
  auto* f = st.AddFifo<Fifo<uint32_t>>("fifo", 3);
  mpact::sim::proto::ComponentData d;
  d.set_name("st");
  auto* cd = d.add_component_data();
  cd->set_name("fifo");
  unsigned depth = (unsigned)r.range(1, 40);
  // Some elements may be there already, possibly more than fit from now on.
  DataBuffer* db = st.db_factory()->Allocate(4);
  unsigned n = (unsigned)r.below(4), held = n;
  for (unsigned i = 0; i < n; ++i) c.check(f->Push(db), "depth", "element %u of 3 refused", i);
  auto* e = cd->add_configuration();
  e->set_name("depth");
  e->set_uint64_value(depth);
  c.op("import depth %u", depth);
  auto s = st.Import(d);
  c.check(s.ok(), "import", "import failed: %s", std::string(s.message()).c_str());
  c.check(f->Capacity() == depth, "depth", "capacity %u after importing depth %u", f->Capacity(), depth);
  while (n < 100 && f->Push(db)) ++n;
  c.check(n == std::max(depth, held), "depth", "%u elements held with depth %u, %u before", n, depth, held);
  while (f->Available()) f->Pop();
  n = 0;
  while (n < 100 && f->Push(db)) ++n;
  db->DecRef();
  c.check(n == depth, "depth", "%u elements accepted with depth %u", n, depth);
  mpact::sim::proto::ComponentData out;
  c.check(st.Export(&out).ok(), "export", "export failed");
  c.ev("depth_imports");
  c.nontrivial();
}
