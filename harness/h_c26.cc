// C26: loading a program puts exactly its segments in memory and finds its symbols.
#include "elf_make.h"
#include "mem_rig.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"

using namespace mem;
using namespace mpact::sim::util;

namespace {
struct Write {
  int mem;
  uint64_t at;
  std::string data;
  bool operator==(const Write& o) const { return mem == o.mem && at == o.at && data == o.data; }
};
struct Log {
  std::vector<Write> w;
  int fail = -1;  // which write of the debug interface fails, and how
  int how = 0;
};
struct Mem : MemoryInterface {
  Log* log;
  int id;
  Mem(Log* l, int i) : log(l), id(i) {}
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override { abort(); }
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override { abort(); }
  void Store(uint64_t a, DataBuffer* d) override { log->w.push_back({id, a, std::string((char*)d->raw_ptr(), d->size<uint8_t>())}); }
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override { abort(); }
};
struct Dbg : mpact::sim::generic::CoreDebugInterface {
  Log* log;
  explicit Dbg(Log* l) : log(l) {}
  absl::Status Halt() override { abort(); }
  absl::Status Halt(HaltReason) override { abort(); }
  absl::Status Halt(HaltReasonValueType) override { abort(); }
  absl::StatusOr<int> Step(int) override { abort(); }
  absl::Status Run() override { abort(); }
  absl::Status Wait() override { abort(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { abort(); }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { abort(); }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { abort(); }
  absl::Status WriteRegister(const std::string&, uint64_t) override { abort(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { abort(); }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t) override { abort(); }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    if ((int)log->w.size() == log->fail) {
      if (log->how) return absl::InternalError("injected");
      return n - 1;
    }
    log->w.push_back({0, a, std::string((const char*)b, n)});
    return n;
  }
  bool HasBreakpoint(uint64_t) override { abort(); }
  absl::Status SetSwBreakpoint(uint64_t) override { abort(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { abort(); }
  absl::Status ClearAllSwBreakpoints() override { abort(); }
  absl::StatusOr<mpact::sim::generic::Instruction*> GetInstruction(uint64_t) override { abort(); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { abort(); }
};
}  // namespace

VH_SCENARIO(C26, load, 8000, 300000) {
  auto& r = c.rng;
  Log log;
  Mem m0(&log, 0), m1(&log, 1), m2(&log, 2);
  Dbg dbg(&log);
  int kind = r.below(4);
  uint64_t delta = r.val();
  std::vector<MemoryDescriptor> ms;
  std::unique_ptr<ElfProgramLoader> l;
  switch (kind) {
    case 0: l.reset(new ElfProgramLoader(&m0)); break;
    case 1: l.reset(new ElfProgramLoader(&m0, &m1)); break;
    case 2: {
      MemoryDescriptor a, b;
      a.memory = &m1;
      a.predicate_fcn = [](const ELFIO::segment& s) { return (s.get_flags() & 2) != 0; };
      a.address_fcn = [delta](uint64_t x) { return x + delta; };
      b.memory = &m2;
      b.predicate_fcn = [](const ELFIO::segment& s) { return s.get_virtual_address() % 3 != 0; };
      ms.push_back(std::move(a));
      ms.push_back(std::move(b));
      l.reset(new ElfProgramLoader(ms));
      break;
    }
    default: l.reset(new ElfProgramLoader(&dbg));
  }
  uint64_t scale = 1;
  if (r.chance(1, 4)) l->set_text_size_scale(scale = r.range(1, 4));
  c.check(!l->GetSymbol("x").ok() && !l->GetFcnSymbolName(0).ok() && !l->GetFunctionName(0).ok() && !l->GetStackSize().ok(), "nothing", "results before anything was loaded");
  elf::Elf e;
  for (int round = 0, n = r.chance(1, 3) ? 2 + r.below(2) : 1; round < n; ++round) {
    // Make a file.
    e.segs.clear();
    e.symtabs.clear();
    e.bits64 = r.coin();
    uint64_t top = e.bits64 ? ~0ull : 0xffffffff;
    e.entry = r.val() & top;
    uint64_t stack = 0;
    for (int i = 0, k = r.chance(1, 12) ? r.below(60) : r.below(6); i < k; ++i) {
      elf::Seg s;
      s.type = r.chance(1, 5) ? r.pick(std::vector<uint32_t>{0, 2, 4, 0x6474e551}) : 1;
      s.flags = r.below(8);
      s.vaddr = r.val() & top;
      s.paddr = r.coin() ? 0 : r.val() & top;
      int len = r.chance(1, 5) ? 0 : r.chance(1, 8) ? r.below(9000) : r.below(64);
      if (r.chance(1, 60)) len = r.chance(1, 12) ? r.range(1 << 20, 3 << 20) : r.range(0xfff0, 200000), c.ev("large_segments");
      uint64_t word = 0;
      s.data.reserve(len);
      for (int j = 0; j < len; ++j) {
        if (j % 8 == 0) word = r.next();
        s.data += (char)(word >> (j % 8 * 8));
      }
      s.memsz = len + (r.coin() ? 0 : r.below(100));
      if (s.type == 0x6474e551) {
        if (r.chance(1, 3)) s.memsz = r.val() & top;
        if (stack) s.type = 4;
        else stack = s.memsz;
      }
      e.segs.push_back(s);
    }
    // Functions do not overlap, but for exact aliases.
    uint64_t at = r.below(1000);
    if (r.chance(1, 3)) at = r.coin() ? top / 2 + r.below(1000) : r.below(top - 100000000);
    std::vector<elf::Sym> all;
    for (int t = 0, k = r.chance(1, 4) ? r.below(6) : r.below(3); t < k; ++t) {
      std::vector<elf::Sym> tab;
      for (int i = 0, q = r.chance(1, 16) ? r.below(300) : r.below(12); i < q; ++i) {
        elf::Sym s;
        s.name = r.ident(6);
        s.type = r.chance(1, 3) ? r.below(4) : 2;
        s.bind = r.below(3);
        if (s.type == 2) {
          if (!tab.empty() && tab.back().type == 2 && r.chance(1, 6)) {
            s.value = tab.back().value;
            s.size = tab.back().size;
          } else {
            at += r.coin() ? 0 : r.below(40);
            s.value = at;
            s.size = r.chance(1, 4) ? 0 : r.below(50);
            if (r.chance(1, 20)) s.size = r.chance(1, 3) && e.bits64 && at < top / 2 ? 1ull << r.range(20, 40) : r.below(200000);
            at += s.size;
          }
        } else {
          s.value = r.val() & top;
          s.size = r.val() & top;
        }
        tab.push_back(s);
        all.push_back(s);
      }
      if (r.coin()) std::reverse(tab.begin(), tab.end());
      e.symtabs.push_back(tab);
    }
    bool program = r.chance(3, 4);
    // Broken files are refused.
    if (r.chance(1, 5)) {
      std::string b = e.bytes();
      switch (r.below(4)) {
        case 0: b.resize(r.below(30)); break;
        case 1: b[r.below(4)] ^= 1; break;
        case 2: b[4] = 9; break;
        default: b.clear();
      }
      std::string path = r.chance(1, 4) ? "/proc/self/fd/nonexistent" : e.file(b);
      log.w.clear();
      c.op("load broken file");
      auto st = program ? l->LoadProgram(path) : l->LoadSymbols(path);
      c.check(!st.ok() && log.w.empty(), "broken", "a broken file was loaded");
      c.ev("broken_refused");
      // Nothing can be looked up, but nothing may crash either.
      (void)l->GetSymbol("a");
      (void)l->GetFunctionName(at);
      continue;
    }
    std::string path = e.file();
    log.w.clear();
    log.fail = -1;
    std::vector<Write> want;
    for (auto& s : e.segs) {
      if (s.type != 1 || s.data.empty()) continue;
      uint64_t a = s.paddr ? s.paddr : s.vaddr;
      if (kind == 0 || kind == 3) want.push_back({0, a, s.data});
      else if (kind == 1) want.push_back({s.flags & 1 ? 0 : 1, a, s.data});
      else if (s.flags & 2) want.push_back({1, a + delta, s.data});
      else if (s.vaddr % 3) want.push_back({2, a, s.data});
    }
    if (!program) want.clear();
    bool fails = kind == 3 && !want.empty() && r.chance(1, 6);
    if (fails) log.fail = r.below(want.size()), log.how = r.coin(), want.resize(log.fail);
    c.op("load %s kind %d, %zu segments", program ? "program" : "symbols", kind, e.segs.size());
    auto st = program ? l->LoadProgram(path) : l->LoadSymbols(path);
    c.check(st.ok() == !fails, "status", "loading returned %s", st.ok() ? "ok" : st.status().ToString().c_str());
    c.check(log.w == want, "written", "%zu writes, expected %zu, or their contents differ", log.w.size(), want.size());
    c.ev("segments", want.size());
    if (fails) {
      c.ev("write_errors");
      continue;
    }
    c.check(*st == e.entry, "entry", "entry %lx, expected %lx", *st, e.entry);
    auto ss = l->GetStackSize();
    c.check(program && stack ? ss.ok() && *ss == stack : !ss.ok(), "stack", "stack size: %s", ss.ok() ? "found" : "not found");
    if (program && stack) c.ev("stacks");
    for (auto& s : all) {
      auto v = l->GetSymbol(s.name);
      c.check(v.ok(), "symbol", "symbol %s not found", s.name.c_str());
      bool any = false;
      for (auto& o : all) any |= o.name == s.name && o.value == v->first && o.size == v->second;
      c.check(any, "symbol", "symbol %s has value %lx", s.name.c_str(), v->first);
      c.ev("symbols");
    }
    c.check(!l->GetSymbol("no.such").ok(), "symbol", "an unknown symbol was found");
    for (int i = 0; i < 40; ++i) {
      uint64_t a = r.below(at + 10);
      if (!all.empty() && !r.chance(1, 5)) {
        auto& s = r.pick(all);
        a = s.value + r.below(3) - 1;
        if (r.chance(1, 3)) a = s.value + s.size / scale + r.below(3) - 1;
        if (r.chance(1, 3)) a = s.value + (s.size ? r.below(s.size) : 0);
        if (r.chance(1, 8)) a ^= 1ull << r.below(64);
      }
      std::set<std::string> starts, covers;
      for (auto& s : all) {
        if (s.type != 2) continue;
        if (s.value == a) starts.insert(s.name);
        if (a >= s.value && a - s.value < s.size / scale) covers.insert(s.name);
      }
      auto x = l->GetFcnSymbolName(a);
      c.check(starts.empty() ? !x.ok() : x.ok() && starts.count(*x), "function", "function at %lx: %s", a, x.ok() ? x->c_str() : "none");
      auto y = l->GetFunctionName(a);
      c.check(covers.empty() ? !y.ok() : y.ok() && covers.count(*y), "function_range", "function covering %lx: %s, %zu expected", a, y.ok() ? y->c_str() : "none", covers.size());
      c.ev(covers.empty() ? "no_function" : "functions");
      c.seen(vh::Comb(starts.size(), covers.size()));
    }
    if (!want.empty()) c.nontrivial();
  }
  c.mix(vh::Comb(kind, e.entry));
  for (auto& s : e.segs) c.mix(vh::Comb(s.vaddr, s.data.size()));
}
