// C32: the Renode bridge. A simulator that records every call sits behind the C
// interface; a model knows which instances live and what each call has to do.
#include <fstream>

#include "mem_rig.h"
#include "mpact/sim/util/renode/renode_mpact.h"
#include "vh.h"

using mem::Bytes;
using mem::Client;
using mem::Rig;
using mpact::sim::util::MemoryInterface;
using mpact::sim::util::renode::RenodeAgent;
using mpact::sim::util::renode::RenodeCpuRegister;
using mpact::sim::util::renode::RenodeDebugInterface;
using HR = RenodeDebugInterface::HaltReason;

namespace {
constexpr int kAborted = -1, kOkRes = 0, kAtBreakpoint = 3;

struct Out {  // scripted outcome of one Step
  int kind;   // 0: all steps, no halt; 1: some steps and a halt; 2: some steps, no halt; 3: error; 4: the reason cannot be had
  double part;
  HR why;
};

struct Sim : RenodeDebugInterface {
  using RenodeDebugInterface::ReadRegister;
  using RenodeDebugInterface::WriteRegister;
  std::string name, type;
  MemoryInterface* mem;
  std::map<uint32_t, uint64_t> regs;
  std::map<uint64_t, uint8_t> bytes;
  uint64_t mem_lo = 0, mem_hi = ~0ull;  // what may be written
  std::map<int, bool> irqs;
  std::vector<std::pair<std::string, std::string>> config;
  bool refuse = false;  // next call fails
  std::string loaded;
  bool loaded_symbols = false;
  int last_max_len = -1, last_index = -1;
  // stepping
  std::vector<Out> script;
  size_t at = 0;
  HR reason = HR::kNone;
  bool no_reason = false;
  uint64_t executed = 0;
  std::vector<int> asked;
  int calls = 0;
  bool touch_memory_at_end = false;

  Sim(std::string n, std::string t, MemoryInterface* m) : name(n), type(t), mem(m) {}
  ~Sim() override;
  absl::Status st() { ++calls; return refuse ? absl::InternalError("refused") : absl::OkStatus(); }
  absl::StatusOr<uint64_t> LoadExecutable(const char* f, bool sym) override {
    auto s = st();
    if (!s.ok()) return s;
    loaded = f;
    loaded_symbols = sym;
    return 0xabcdef0012345678ull;
  }
  absl::StatusOr<uint64_t> ReadRegister(uint32_t id) override {
    auto s = st();
    if (!s.ok()) return s;
    if (!regs.count(id)) return absl::NotFoundError("no such register");
    return regs[id];
  }
  absl::Status WriteRegister(uint32_t id, uint64_t v) override {
    auto s = st();
    if (!s.ok()) return s;
    if (!regs.count(id)) return absl::NotFoundError("no such register");
    regs[id] = v;
    return s;
  }
  int32_t GetRenodeRegisterInfoSize() const override { return (int32_t)regs.size(); }
  absl::Status GetRenodeRegisterInfo(int32_t index, int32_t max_len, char* nm, RenodeCpuRegister& info) override {
    auto s = st();
    if (!s.ok()) return s;
    last_max_len = max_len;
    last_index = index;
    if (index < 0 || index >= (int)regs.size()) return absl::OutOfRangeError("index");
    std::string t(max_len > 0 ? max_len - 1 : 0, 'x');
    memcpy(nm, t.c_str(), max_len > 0 ? max_len : 0);
    info = {index, 64, true, false};
    return s;
  }
  absl::Status SetConfig(const char* n[], const char* v[], int size) override {
    auto s = st();
    if (!s.ok()) return s;
    for (int i = 0; i < size; ++i) config.emplace_back(n[i], v[i]);
    return s;
  }
  absl::Status SetIrqValue(int32_t n, bool v) override {
    auto s = st();
    if (!s.ok()) return s;
    irqs[n] = v;
    return s;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    if (no_reason) return absl::InternalError("no reason");
    return static_cast<HaltReasonValueType>(reason);
  }
  absl::StatusOr<int> Step(int n) override {
    ++calls;
    asked.push_back(n);
    Out o = at < script.size() ? script[at] : Out{0, 1, HR::kNone};
    ++at;
    if (o.kind == 3) return absl::InternalError("step");
    int k = o.kind == 0 ? n : (int)(n * o.part);
    reason = o.kind == 1 ? o.why : HR::kNone;
    if (o.kind == 4) no_reason = true;
    executed += k;
    return k;
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    auto s = st();
    if (!s.ok()) return s;
    for (size_t i = 0; i < n; ++i) {
      auto it = bytes.find(a + i);
      ((uint8_t*)b)[i] = it == bytes.end() ? 0 : it->second;
    }
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    auto s = st();
    if (!s.ok()) return s;
    size_t i = 0;
    for (; i < n; ++i) {
      if (a + i < mem_lo || a + i >= mem_hi) break;
      bytes[a + i] = ((const uint8_t*)b)[i];
    }
    return i;
  }
};

std::map<std::string, int> g_names;  // names of living simulators
std::map<Sim*, bool> g_live;
bool g_refuse_create = false;
Sim* g_last = nullptr;
std::string g_dup;
int g_destroyed = 0;

Sim::~Sim() {
  ++g_destroyed;
  if (touch_memory_at_end) {  // the memory port is there as long as its simulator is
    mpact::sim::generic::DataBufferFactory f;
    auto* d = f.Allocate<uint32_t>(1);
    d->Set<uint32_t>(0, 1);
    mem->Store(0xfff0, d);
    d->DecRef();
  }
  if (--g_names[name] == 0) g_names.erase(name);
  g_live.erase(this);
}

// The system bus: two sets of callbacks with memories of their own.
struct Bus {
  std::map<uint64_t, uint8_t> m;
  int reads = 0, writes = 0;
  uint64_t last_addr = 0;
  int32_t last_size = -1;
} g_bus[2];
template <int B>
int32_t BusRead(uint64_t a, char* p, int32_t n) {
  ++g_bus[B].reads;
  g_bus[B].last_addr = a;
  g_bus[B].last_size = n;
  for (int i = 0; i < n; ++i) p[i] = (char)g_bus[B].m[a + i];
  return n;
}
template <int B>
int32_t BusWrite(uint64_t a, char* p, int32_t n) {
  ++g_bus[B].writes;
  g_bus[B].last_addr = a;
  g_bus[B].last_size = n;
  for (int i = 0; i < n; ++i) g_bus[B].m[a + i] = (uint8_t)p[i];
  return n;
}
using Fn = int32_t (*)(uint64_t, char*, int32_t);
const Fn kR[3] = {BusRead<0>, BusRead<1>, nullptr};
const Fn kW[3] = {BusWrite<0>, BusWrite<1>, nullptr};

struct Inst {
  Sim* s;
  int max_len;
  int rd, wr;  // 0, 1, or 2: none
  int calls_before = 0;
};
}  // namespace

RenodeDebugInterface* CreateMpactSim(std::string name, std::string type, MemoryInterface* mem) {
  if (g_refuse_create) return nullptr;
  if (++g_names[name] > 1) g_dup = name;
  g_last = new Sim(name, type, mem);
  g_live[g_last] = true;
  return g_last;
}

VH_SCENARIO(C32, bridge, 4000, 100000) {
  auto& r = c.rng;
  Rig g(c);
  Client cl(g);
  std::map<int, Inst> live;
  std::set<int> used;
  g_bus[0] = Bus();
  g_bus[1] = Bus();
  g_dup.clear();
  g_refuse_create = false;
  struct Guard {  // no instance outlives its case, whatever happens
    std::map<int, Inst>& l;
    ~Guard() {
      for (auto& [i, x] : l) destruct(i);
      for (int i = 0; i < 100000 && !g_live.empty(); ++i) destruct(i);
    }
  } guard{live};
  char probe[] = "probe";
  int near = construct(probe, 8);  // about where the numbers given out are
  c.check(near >= 0, "construct", "the first instance was refused");
  destruct(near);
  auto some_id = [&]() -> int {
    if (!live.empty() && r.chance(5, 6)) {
      auto it = live.begin();
      std::advance(it, r.below(live.size()));
      return it->first;
    }
    switch (r.below(3)) {
      case 0: return near + (int)r.range(-6, 6);
      case 1: return -1 - (int)r.below(3);
      default: return (int)r.below(1u << 31);
    }
  };
  int steps = (int)r.range(10, 60);
  for (int k = 0; k < steps; ++k) {
    int id = some_id();
    bool ok = live.count(id);
    Inst* in = ok ? &live[id] : nullptr;
    for (auto& [i, x] : live) x.calls_before = x.s->calls;
    bool refuse = ok && r.chance(1, 8);
    if (ok) in->s->refuse = refuse;
    bool want_ok = ok && !refuse;
    switch (r.below(16)) {
      case 0: {  // construct
        if (live.size() > 5) break;
        int b = (int)r.below(3), w = r.coin() ? b : (int)r.below(3);
        int ml = (int)r.range(1, 40);
        g_refuse_create = r.chance(1, 8);
        std::string t = r.ident();
        bool plain = b == 2 && w == 2 && r.coin();
        int got = plain ? construct(t.data(), ml) : construct_with_sysbus(t.data(), ml, kR[b], kW[w]);
        c.op("construct %s -> %d (refused %d)", t.c_str(), got, g_refuse_create);
        if (g_refuse_create) {
          c.check(got < 0, "construct", "construct returned %d although no simulator was made", got);
          c.ev("refused_constructs");
        } else {
          c.check(got >= 0 && !live.count(got), "construct", "construct returned %d, which is %s", got, got < 0 ? "an error" : "in use");
          live[got] = {g_last, ml, b, w};
          near = got;
          c.check(g_last->type == t, "cpu_type", "the simulator was made for '%s', asked for '%s'", g_last->type.c_str(), t.c_str());
          for (int i = 0; i < 4; ++i) g_last->regs[(uint32_t)r.below(100)] = r.val();
          c.ev("constructs");
        }
        g_refuse_create = false;
        break;
      }
      case 1: {  // connect
        int n = ok && r.coin() ? id : near + (int)r.range(0, 6);
        bool there = live.count(n);
        if (n < 0 || (!there && live.size() > 5)) break;
        int b = (int)r.below(3), w = r.coin() ? b : (int)r.below(3);
        int ml = (int)r.range(1, 40);
        g_refuse_create = !there && r.chance(1, 8);
        Sim* last = g_last;
        std::string t = r.ident();
        bool plain = b == 2 && w == 2 && r.coin();
        int got = plain ? connect(t.data(), n, ml) : connect_with_sysbus(t.data(), n, ml, kR[b], kW[w]);
        c.op("connect %d -> %d", n, got);
        if (g_refuse_create) {
          c.check(got < 0, "connect", "connect returned %d although no simulator was made", got);
        } else {
          c.check(got == n, "connect", "connect to %d returned %d", n, got);
          if (there) {
            c.check(g_last == last, "connect_twice", "a second simulator was made for instance %d", n);
            auto& x = live[n];
            if (x.rd == 2) x.rd = b;
            if (x.wr == 2) x.wr = w;
            c.ev("connects_again");
          } else {
            c.check(g_last != last, "connect", "no simulator was made for instance %d", n);
            live[n] = {g_last, ml, b, w};
            for (int i = 0; i < 4; ++i) g_last->regs[(uint32_t)r.below(100)] = r.val();
            if (used.count(n)) c.ev("connects_reused_number");
            c.ev("connects");
          }
        }
        g_refuse_create = false;
        break;
      }
      case 2: {  // destruct
        if (ok) in->s->touch_memory_at_end = r.coin();
        int gone = g_destroyed;
        Sim* s = ok ? in->s : nullptr;
        c.op("destruct %d", id);
        destruct(id);
        c.check(g_destroyed == gone + (ok ? 1 : 0), "destruct", "destruct(%d) destroyed %d simulators", id, g_destroyed - gone);
        if (ok) {
          c.check(!g_live.count(s), "destruct", "destruct(%d) destroyed another simulator", id);
          live.erase(id);
          used.insert(id);
          c.ev("destructs");
          destruct(id);
          c.check(g_destroyed == gone + 1, "destruct", "a second destruct destroyed a simulator");
        }
        continue;
      }
      case 3: {
        c.op("reset %d", id);
        c.check(reset(id) == (ok ? 0 : -1), "reset", "reset(%d)", id);
        break;
      }
      case 4: {
        int n = get_reg_info_size(id);
        c.op("info size %d -> %d", id, n);
        c.check(ok ? n == (int)in->s->regs.size() : n < 0, "reg_info_size", "get_reg_info_size(%d) gave %d", id, n);
        break;
      }
      case 5: {
        int idx = (int)r.range(0, 5);
        // As large as the caller said when it made this instance, and no larger.
        std::vector<char> nm(ok ? in->max_len : 64);
        char* p = new char[nm.size()];
        RenodeCpuRegister info{-7, -7, false, false};
        int res = get_reg_info(id, idx, p, &info);
        c.op("info %d[%d] -> %d", id, idx, res);
        bool w = want_ok && idx < (int)in->s->regs.size();
        c.check(w ? res == 0 : res < 0, "reg_info", "get_reg_info(%d, %d) gave %d", id, idx, res);
        if (want_ok) c.check(in->s->last_max_len == in->max_len && in->s->last_index == idx, "reg_info_len", "names of at most %d characters asked for, the instance was made with %d", in->s->last_max_len, in->max_len);
        if (w) c.check(info.index == idx && info.width == 64, "reg_info", "information about register %d", idx);
        delete[] p;
        c.check(get_reg_info(id, idx, nm.data(), nullptr) < 0, "reg_info", "no place for the information, no error");
        c.ev("register_infos");
        break;
      }
      case 6: {
        bool sym = r.coin();
        std::string f = r.ident() + ".elf";
        int32_t st = 77;
        bool null = r.chance(1, 4);
        uint64_t e = load_elf(id, f.c_str(), sym, null ? nullptr : &st);
        c.op("load %d %s -> %lx %d", id, f.c_str(), (unsigned long)e, st);
        if (!null) c.check(want_ok ? st == 0 : st < 0, "load_elf", "load_elf(%d) left status %d", id, st);
        c.check(e == (want_ok ? 0xabcdef0012345678ull : 0), "load_elf", "load_elf(%d) gave entry %lx", id, (unsigned long)e);
        if (want_ok) c.check(in->s->loaded == f && in->s->loaded_symbols == sym, "load_elf", "loaded another file or in another way");
        c.ev("programs");
        break;
      }
      case 7: {  // image
        const char* dir = getenv("VERIF_SCRATCH");
        std::string f = std::string(dir ? dir : "/tmp") + "/img" + std::to_string(getpid());
        static const int kN[] = {0, 1, 7, 4096, 65535, 65536, 65537, 131072, 140000};
        int n = r.chance(1, 4) ? kN[r.below(9)] : (int)r.range(0, 3000);
        Bytes data = g.rnd(n);
        { std::ofstream o(f, std::ios::binary); o.write((const char*)data.data(), n); }
        uint64_t a = r.val() & 0xffffffffff;
        int mode = (int)r.below(8);
        std::string path = mode == 0 ? f + ".not_there" : mode == 1 ? std::string(dir ? dir : "/tmp") : f;
        bool w = want_ok && mode > 1;
        if (ok) {
          in->s->bytes.clear();
          if (mode == 2 && n > 0) { in->s->mem_hi = a + r.below(n); w = false; c.ev("image_too_large"); }
        }
        c.op("image %d of %d bytes at %lx mode %d", id, n, (unsigned long)a, mode);
        int res = load_image(id, path.c_str(), a);
        c.check(w ? res == 0 : res < 0, mode == 1 && res == 0 ? "image_unreadable" : "load_image", "load_image(%d) of %d bytes, mode %d, gave %d", id, n, mode, res);
        if (w) {
          c.check((int)in->s->bytes.size() == n, "load_image", "%zu bytes were written for an image of %d", in->s->bytes.size(), n);
          for (int i = 0; i < n; ++i) {
            auto it = in->s->bytes.find(a + i);
            c.check(it != in->s->bytes.end() && it->second == data[i], "load_image", "byte %d of the image", i);
          }
          c.ev("images");
        }
        if (ok) { in->s->mem_hi = ~0ull; in->s->bytes.clear(); }
        remove(f.c_str());
        break;
      }
      case 8: {
        uint32_t rg = ok && r.chance(3, 4) ? std::next(in->s->regs.begin(), r.below(in->s->regs.size()))->first : (uint32_t)r.val();
        bool w = want_ok && in->s->regs.count(rg);
        if (r.coin()) {
          uint64_t v = 0x5555;
          int res = read_register(id, rg, &v);
          c.op("read %d.%u -> %d", id, rg, res);
          c.check(w ? res == 0 && v == in->s->regs[rg] : res < 0 && v == 0x5555, "read_register", "read_register(%d, %u) gave %d, %lx", id, rg, res, (unsigned long)v);
          c.check(read_register(id, rg, nullptr) < 0, "read_register", "nowhere to put the value, no error");
          c.ev("register_reads");
        } else {
          uint64_t v = r.val();
          auto old = ok ? in->s->regs : std::map<uint32_t, uint64_t>();
          int res = write_register(id, rg, v);
          c.op("write %d.%u -> %d", id, rg, res);
          if (w) old[rg] = v;
          c.check(w ? res == 0 : res < 0, "write_register", "write_register(%d, %u) gave %d", id, rg, res);
          if (ok) c.check(in->s->regs == old, "write_register", "registers of %d after a write", id);
          c.ev("register_writes");
        }
        break;
      }
      case 9: {
        uint64_t a = r.val();
        int n = r.chance(1, 50) ? (int)r.range(200, 70000) : (int)r.range(0, 40);
        a = std::min<uint64_t>(a, ~0ull - 1 - n);
        Bytes b = g.rnd(n);
        uint64_t got = write_memory(id, a, (const char*)b.data(), n);
        c.op("write memory %d %lx %d", id, (unsigned long)a, n);
        c.check(got == (want_ok ? (uint64_t)n : 0), "write_memory", "write_memory wrote %lu of %d", (unsigned long)got, n);
        if (want_ok) {
          Bytes x(n + 1, 0xee);
          got = read_memory(id, a, (char*)x.data(), n);
          c.check(got == (uint64_t)n && std::equal(b.begin(), b.end(), x.begin()) && x[n] == 0xee, "read_memory", "read_memory gave %lu bytes or others", (unsigned long)got);
        } else {
          Bytes x(n + 1, 0xee);
          got = read_memory(id, a, (char*)x.data(), n);
          c.check(got == 0 && x[0] == 0xee, "read_memory", "read_memory of no instance gave %lu", (unsigned long)got);
        }
        c.ev("memory_accesses");
        break;
      }
      case 10: {
        std::vector<std::string> n{r.ident(), r.ident(), ""}, v{r.ident(), "", r.ident()};
        int sz = (int)r.range(0, 3);
        if (r.chance(1, 10)) {
          sz = (int)r.range(3, 300);
          while ((int)n.size() < sz) n.push_back(r.ident(20)), v.push_back(r.coin() ? r.ident() : std::string(r.below(3000), '='));
        }
        std::vector<const char*> names, values;
        for (auto& s : n) names.push_back(s.c_str());
        for (auto& s : v) values.push_back(s.c_str());
        const char **pn = names.data(), **pv = values.data();
        if (ok) in->s->config.clear();
        int res = set_config(id, pn, pv, sz);
        c.op("config %d of %d", id, sz);
        c.check(want_ok ? res == 0 : res < 0, "set_config", "set_config(%d) gave %d", id, res);
        if (want_ok) {
          c.check((int)in->s->config.size() == sz, "set_config", "%zu items of %d", in->s->config.size(), sz);
          for (int i = 0; i < sz; ++i) c.check(in->s->config[i].first == n[i] && in->s->config[i].second == v[i], "set_config", "item %d", i);
        }
        c.ev("configurations");
        break;
      }
      case 11: {
        int irq = r.chance(1, 4) ? (int)r.val() : (int)r.range(-2, 40);
        bool v = r.coin();
        auto old = ok ? in->s->irqs : std::map<int, bool>();
        int res = set_irq_value(id, irq, v);
        c.op("irq %d.%d=%d", id, irq, v);
        if (want_ok) old[irq] = v;
        c.check(want_ok ? res == 0 : res < 0, "irq", "set_irq_value(%d) gave %d", id, res);
        if (ok) c.check(in->s->irqs == old, "irq", "interrupt lines of %d", id);
        c.ev("irqs");
        break;
      }
      case 12: case 13: {  // the simulator uses its memory port
        if (!ok) break;
        int sz = r.chance(1, 50) ? (int)r.range(200, 70000) : (int)r.range(1, 16);
        if (sz > 32768) c.ev("large_bus_accesses");
        uint64_t a = r.val();
        if (r.coin()) {
          Bus* b = in->wr < 2 ? &g_bus[in->wr] : nullptr;
          int w0 = g_bus[0].writes, w1 = g_bus[1].writes;
          Bytes d = g.rnd(sz);
          cl.store(in->s->mem, a, d);
          c.check(g_bus[0].writes - w0 == (in->wr == 0) && g_bus[1].writes - w1 == (in->wr == 1), "bus_writes", "a store made %d and %d writes on the buses", g_bus[0].writes - w0, g_bus[1].writes - w1);
          if (b) {
            c.check(b->last_addr == a && b->last_size == sz, "bus_write", "store of %d bytes at %lx became %d at %lx", sz, (unsigned long)a, b->last_size, (unsigned long)b->last_addr);
            for (int i = 0; i < sz; ++i) c.check(b->m[a + i] == d[i], "bus_write", "byte %d of a store", i);
            c.ev("bus_writes");
          } else c.ev("stores_without_bus");
        } else {
          Bus* b = in->rd < 2 ? &g_bus[in->rd] : nullptr;
          int r0 = g_bus[0].reads, r1 = g_bus[1].reads;
          Bytes want(sz, 0);
          if (b)
            for (int i = 0; i < sz; ++i) b->m[a + i] = want[i] = (uint8_t)r.next();
          cl.load(in->s->mem, a, want);
          c.check(g_bus[0].reads - r0 == (in->rd == 0) && g_bus[1].reads - r1 == (in->rd == 1), "bus_reads", "a load made %d and %d reads on the buses", g_bus[0].reads - r0, g_bus[1].reads - r1);
          if (b) {
            c.check(b->last_addr == a && b->last_size == sz, "bus_read", "load of %d bytes at %lx became %d at %lx", sz, (unsigned long)a, b->last_size, (unsigned long)b->last_addr);
            c.ev("bus_reads");
          } else c.ev("loads_without_bus");
        }
        break;
      }
      default: {  // step
        if (ok) in->s->refuse = false;
        uint64_t n = r.chance(1, 8) ? 0 : r.chance(1, 4) ? (uint64_t)r.range(1, 5) * 0x7fffffffull + (uint64_t)r.range(-2, 2) : r.chance(1, 6) ? 0x100000000ull + r.below(100) : (uint64_t)r.range(1, 1000);
        int32_t st = 77, want_st = kOkRes;
        bool null = r.chance(1, 5);
        uint64_t want = 0;
        if (ok) {
          Sim* s = in->s;
          s->script.clear();
          s->at = 0;
          s->asked.clear();
          s->executed = 0;
          s->no_reason = r.chance(1, 12);
          s->reason = r.chance(1, 8) ? HR::kSemihostHaltRequest : r.coin() ? HR::kNone : HR::kSoftwareBreakpoint;
          for (int i = 0; i < 4; ++i) {
            static const HR kH[] = {HR::kProgramDone, HR::kSemihostHaltRequest, HR::kSoftwareBreakpoint, HR::kUserRequest, HR::kSimulatorError};
            s->script.push_back({r.chance(2, 3) ? 0 : (int)r.below(5), (double)r.below(1000) / 1000, kH[r.below(5)]});
            if (r.chance(1, 5)) s->script.back().part = 1;
          }
          // What has to happen.
          uint64_t left = n;
          if (n == 0) {
          } else if (s->no_reason || s->reason == HR::kSemihostHaltRequest) {
            want_st = kAborted;
          } else {
            for (size_t i = 0; left > 0; ++i) {
              int q = left > 0x7fffffff ? 0x7fffffff : (int)left;
              Out o = i < s->script.size() ? s->script[i] : Out{0, 1, HR::kNone};
              if (o.kind == 3) { want_st = kAborted; break; }
              int did = o.kind == 0 ? q : (int)(q * o.part);
              want += did;
              left -= did;
              if (o.kind == 4) { want_st = kAborted; break; }
              HR h = o.kind == 1 ? o.why : HR::kNone;
              if (h == HR::kProgramDone || h == HR::kSemihostHaltRequest) { want_st = kAborted; break; }
              if (h == HR::kSoftwareBreakpoint) { want_st = kAtBreakpoint; break; }
              if (did < q) break;
            }
          }
        } else want_st = kAborted;
        c.op("step %d by %lu (status %s)", id, (unsigned long)n, null ? "not wanted" : "wanted");
        uint64_t got = step(id, n, null ? nullptr : &st);
        c.check(got == want, "step", "step(%d, %lu) returned %lu, %lu were taken", id, (unsigned long)n, (unsigned long)got, (unsigned long)want);
        if (!null) c.check(st == want_st, "step_status", "step(%d, %lu) gave status %d, expected %d", id, (unsigned long)n, st, want_st);
        if (ok) {
          c.check(in->s->executed == want, "step", "%lu instructions were executed, expected %lu", (unsigned long)in->s->executed, (unsigned long)want);
          for (int q : in->s->asked) c.check(q > 0, "step_count", "the simulator was asked for %d steps", q);
          in->s->no_reason = false;
          in->s->reason = HR::kNone;
          if (want > 0xffffffffull) c.ev("steps_beyond_32_bits");
          c.ev("steps");
          if (want_st == kAborted) c.ev("steps_aborted");
          if (want_st == kAtBreakpoint) c.ev("steps_to_breakpoint");
        }
      }
    }
    // A call concerns one instance only.
    for (auto& [i, x] : live) {
      c.check(i == id || x.s->calls == x.calls_before, "other_instance", "a call for instance %d reached instance %d", id, i);
      x.s->refuse = false;
    }
    c.check(g_live.size() == live.size(), "instances", "%zu simulators live, expected %zu", g_live.size(), live.size());
    c.check(g_dup.empty(), "names", "two simulators live with the name %s", g_dup.c_str());
    for (auto& [i, x] : live) c.check(RenodeAgent::Instance()->core_dbg(i) == x.s, "instances", "instance %d leads to another simulator", i);
    if (!ok && id >= 0 && !live.count(id)) c.check(RenodeAgent::Instance()->core_dbg(id) == nullptr, "instances", "instance %d leads somewhere", id);
    if (r.coin()) g.advance();
    c.seen(vh::Comb(live.size(), used.size()));
  }
  g.finish();
  for (auto& [i, x] : live) destruct(i);
  live.clear();
  c.check(g_live.empty(), "leak", "%zu simulators remain", g_live.size());
  c.nontrivial();
}
