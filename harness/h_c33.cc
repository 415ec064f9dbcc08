// C33: Renode and the command line share one simulator. Two or three real threads
// drive the arbiter; the simulator behind it is unprotected (so that the race
// detector sees every unordered access) and checks, call by call, who may use it.
#include <atomic>
#include <memory>
#include <thread>

#include "mpact/sim/util/renode/cli_forwarder.h"
#include "mpact/sim/util/renode/renode_cli_top.h"
#include "vh.h"

using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::Instruction;
using mpact::sim::util::renode::CLIForwarder;
using mpact::sim::util::renode::RenodeCLITop;
using HR = CoreDebugInterface::HaltReason;
using HRV = CoreDebugInterface::HaltReasonValueType;
using RS = CoreDebugInterface::RunStatus;

namespace {
enum Role { kRenode, kCli, kHalter, kMain };
thread_local Role t_role = kMain;
thread_local vh::Rng* t_rng = nullptr;
thread_local std::vector<std::pair<std::string, std::string>>* t_bad = nullptr;
thread_local uint64_t t_steps = 0;  // taken by this thread since it last looked

void Bad(const char* key, const std::string& what) {
  if (t_bad && t_bad->size() < 4) t_bad->emplace_back(key, what);
}

std::atomic<bool> g_in_quantum{false};  // Renode is inside RenodeStep
std::atomic<bool> g_cli_owns{false};    // the command line has halted the core and not let it go

struct Top : CoreDebugInterface {
  // Nothing here is protected: the arbiter is what keeps users apart.
  uint64_t pc = 0, end = 0;
  std::set<uint64_t> bps;
  std::map<std::string, uint64_t> regs;
  std::map<uint64_t, uint8_t> mem;
  HR reason = HR::kNone;
  std::atomic<bool> done{false};
  uint64_t quantum = 0, quantum_taken = 0;
  std::vector<uint8_t> log;  // order of the calls: (who, what)
  int cli_errors = 0, renode_errors = 0;
  bool clear_halt_at_start = false;
  std::atomic<bool> halt{false};
  std::atomic<int> halts{0}, waits{0};
  std::atomic<int> inside{0};
  std::atomic<uint32_t> last_halt{0};

  struct In {
    Top* t;
    bool only;
    In(Top* t, int what) : t(t) {
      if (t->inside.fetch_add(1, std::memory_order_relaxed) != 0) Bad("overlap", "two threads used the core at once");
      t->log.push_back((uint8_t)(t_role * 16 + what));
      if (t_role == kCli && !t->done && !g_in_quantum.load(std::memory_order_relaxed))
        Bad("outside", "the command line used the core (call " + std::to_string(what) + ") while Renode was outside its step");
    }
    ~In() { t->inside.fetch_sub(1, std::memory_order_relaxed); }
  };

  absl::Status Halt() override { return Halt(HR::kUserRequest); }
  absl::Status Halt(HR r) override { return Halt(static_cast<HRV>(r)); }
  absl::Status Halt(HRV r) override {
    last_halt.store(r, std::memory_order_relaxed);
    halt.store(true, std::memory_order_relaxed);
    halts.fetch_add(1, std::memory_order_relaxed);
    return absl::OkStatus();
  }
  absl::StatusOr<int> Step(int n) override {
    In in(this, 1);
    if (n < 0 || (n == 0 && !done)) Bad("step_count", "the core was asked for " + std::to_string(n) + " steps");
    if (t_role == kRenode && !done && g_cli_owns.load(std::memory_order_relaxed))
      Bad("stolen", "Renode stepped the core while the command line held it");
    if (t_role == kCli && cli_errors > 0 && t_rng->chance(1, 4)) {
      --cli_errors;
      return absl::InternalError("step");
    }
    if (t_role == kMain && renode_errors > 0 && t_rng->chance(1, 4)) {
      --renode_errors;
      return absl::InternalError("step");
    }
    if (clear_halt_at_start) halt.store(false, std::memory_order_relaxed);
    int k = 0;
    reason = HR::kNone;
    while (k < n) {
      if (pc >= end) break;
      if (halt.exchange(false, std::memory_order_relaxed)) {
        reason = HR::kUserRequest;
        break;
      }
      ++pc;
      ++k;
      if (t_rng->chance(1, 64)) std::this_thread::yield();
      if (bps.count(pc)) {
        reason = HR::kSoftwareBreakpoint;
        break;
      }
    }
    if (pc >= end) {
      reason = HR::kProgramDone;
      done = true;
    }
    quantum_taken += k;
    t_steps += k;
    if (!done && quantum_taken > quantum) Bad("quantum", std::to_string(quantum_taken) + " steps were taken in a quantum of " + std::to_string(quantum));
    return k;
  }
  absl::Status Run() override { Bad("run", "the core was set running by itself"); return absl::OkStatus(); }
  absl::Status Wait() override { waits.fetch_add(1, std::memory_order_relaxed); return absl::OkStatus(); }
  absl::StatusOr<RS> GetRunStatus() override { In in(this, 2); return RS::kHalted; }
  absl::StatusOr<HRV> GetLastHaltReason() override {
    // Also asked by the arbiter itself, under its lock, when it decides whether to go on.
    return static_cast<HRV>(reason);
  }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override {
    In in(this, 3);
    auto it = regs.find(n);
    if (it == regs.end()) return absl::NotFoundError(n);
    return it->second;
  }
  absl::Status WriteRegister(const std::string& n, uint64_t v) override {
    In in(this, 4);
    if (n == "none") return absl::NotFoundError(n);
    regs[n] = v;
    return absl::OkStatus();
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& n) override {
    In in(this, 5);
    if (n == "none") return absl::NotFoundError(n);
    return reinterpret_cast<DataBuffer*>(0x1000 + n.size());
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    In in(this, 6);
    for (size_t i = 0; i < n; ++i) ((uint8_t*)b)[i] = mem[a + i];
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    In in(this, 7);
    for (size_t i = 0; i < n; ++i) mem[a + i] = ((const uint8_t*)b)[i];
    return n;
  }
  bool HasBreakpoint(uint64_t a) override { In in(this, 8); return bps.count(a) != 0; }
  absl::Status SetSwBreakpoint(uint64_t a) override { In in(this, 9); return bps.insert(a).second ? absl::OkStatus() : absl::AlreadyExistsError("bp"); }
  absl::Status ClearSwBreakpoint(uint64_t a) override { In in(this, 10); return bps.erase(a) ? absl::OkStatus() : absl::NotFoundError("bp"); }
  absl::Status ClearAllSwBreakpoints() override { In in(this, 11); bps.clear(); return absl::OkStatus(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t a) override { In in(this, 12); return reinterpret_cast<Instruction*>(0x2000 + a * 8); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t a) override { In in(this, 13); return "insn " + std::to_string(a); }
};

struct Fwd : CLIForwarder {
  RenodeCLITop* t;
  explicit Fwd(RenodeCLITop* t) : CLIForwarder(t), t(t) {}
  using CLIForwarder::Halt;
  absl::Status Halt(HR r) override { t->CLIRequestHalt(r, nullptr); return absl::OkStatus(); }
  absl::Status Halt(HRV r) override { t->CLIRequestHalt(r, nullptr); return absl::OkStatus(); }
};

struct Log {
  std::vector<std::pair<std::string, std::string>> bad;
  std::map<std::string, uint64_t> ev;
};
}  // namespace

void VhSchedulePoint() {
  if (!t_rng) return;
  switch (t_rng->below(16)) {
    case 0: case 1: case 2: std::this_thread::yield(); break;
    case 3: usleep((useconds_t)t_rng->below(120)); break;
    default: break;
  }
}

VH_SCENARIO(C33, arbitration, 12000, 250000) {
  auto& r = c.rng;
  Top top;
  bool wait_for_cli = r.coin();
  top.end = r.chance(1, 3) ? (uint64_t)r.range(1, 400) : 1000000000ull;
  top.clear_halt_at_start = r.coin();
  top.cli_errors = r.chance(1, 4) ? (int)r.range(1, 3) : 0;
  top.regs["r"] = 5;
  top.regs["c"] = 6;
  int nbp = (int)r.below(5);
  for (int i = 0; i < nbp; ++i) top.bps.insert((uint64_t)r.range(1, 300));
  g_in_quantum = false;
  g_cli_owns = false;
  RenodeCLITop arb(&top, wait_for_cli);
  Fwd fwd(&arb);
  const bool end_near = top.end < 1000;
  int qmax = r.coin() ? 4 : 60;
  int cli_ops = (int)r.range(2, 40);
  bool halter_on = r.coin();
  uint64_t seeds[3] = {r.next(), r.next(), r.next()};
  c.op("end %lu, %zu breakpoints, %d commands, quanta up to %d, wait %d, halter %d, errors %d", (unsigned long)top.end, top.bps.size(), cli_ops, qmax, wait_for_cli, halter_on, top.cli_errors);
  Log logs[3];
  std::atomic<bool> cli_gone{false}, running{false};
  std::atomic<bool> renode_gone{false};

  std::thread renode([&] {
    t_role = kRenode;
    vh::Rng rng(seeds[0]);
    t_rng = &rng;
    t_bad = &logs[0].bad;
    auto& ev = logs[0].ev;
    uint64_t extra = 0;
    while (true) {
      // Renode goes on for a while after the command line has left.
      if (cli_gone.load(std::memory_order_relaxed) && ++extra > 3) break;
      int n = rng.chance(1, 10) ? 0 : (int)rng.range(1, qmax);
      // Between steps the core is Renode's own.
      top.quantum = n;
      top.quantum_taken = 0;
      if (rng.coin()) {
        uint64_t v = rng.next();
        if (!arb.RenodeWriteRegister("r", v).ok()) Bad("renode_register", "write refused");
        auto x = arb.RenodeReadRegister("r");
        if (!x.ok() || *x != v) Bad("renode_register", "register written by Renode reads otherwise");
        if (arb.RenodeReadRegister("none").ok()) Bad("renode_register", "an unknown register was read");
        ++ev["renode_registers"];
      }
      if (rng.chance(1, 4)) {
        uint64_t v = rng.next(), w = 0;
        auto a = arb.RenodeWriteMemory(0x100, &v, 8);
        auto b = arb.RenodeReadMemory(0x100, &w, 8);
        if (!a.ok() || !b.ok() || *a != 8 || *b != 8 || v != w) Bad("renode_memory", "memory written by Renode reads otherwise");
        ++ev["renode_memory"];
      }
      g_in_quantum.store(true, std::memory_order_relaxed);
      auto res = arb.RenodeStep(n);
      g_in_quantum.store(false, std::memory_order_relaxed);
      ++ev["quanta"];
      if (!res.ok()) {
        Bad("renode_step", "a step by Renode failed: " + std::string(res.status().message()));
        continue;
      }
      if (top.done) {  // the command line may look at the core from now on
        ++ev["program_done"];
        if (*res > n) Bad("renode_step", "more steps than asked for");
        break;
      }
      if (*res != n) Bad("renode_step", "RenodeStep(" + std::to_string(n) + ") returned " + std::to_string(*res));
      if (top.quantum_taken != (uint64_t)n) Bad("conservation", "RenodeStep(" + std::to_string(n) + ") returned after " + std::to_string(top.quantum_taken) + " steps");
      auto h = arb.RenodeGetLastHaltReason();
      if (!h.ok()) Bad("renode_reason", "no halt reason");
    }
    renode_gone.store(true, std::memory_order_relaxed);
  });
  std::thread halter([&] {
    t_role = kHalter;
    vh::Rng rng(seeds[2]);
    t_rng = &rng;
    t_bad = &logs[2].bad;
    auto& ev = logs[2].ev;
    while (!cli_gone.load(std::memory_order_relaxed)) {
      if (halter_on && running.load(std::memory_order_relaxed)) {
        // Someone asks for the core back, again and again until it is.
        if (rng.coin()) {
          if (!arb.CLIHalt().ok()) Bad("halt", "halt refused");
        } else if (rng.coin()) {
          arb.CLIRequestHalt(HR::kUserRequest, nullptr);
        } else {
          fwd.Halt(static_cast<HRV>(HR::kUserRequest)).IgnoreError();
        }
        ++ev["halt_requests"];
      }
      usleep((useconds_t)rng.below(400));
    }
  });
  std::thread cli([&] {
    t_role = kCli;
    vh::Rng rng(seeds[1]);
    t_rng = &rng;
    t_bad = &logs[1].bad;
    auto& ev = logs[1].ev;
    if (rng.coin()) usleep((useconds_t)rng.below(500));
    int sessions = (int)rng.range(1, 3);
    uint64_t creg = 6;
    bool terminated = false;
    for (int s = 0; s < sessions; ++s) {
      arb.SetConnected(true);
      if (!terminated) g_cli_owns.store(true, std::memory_order_relaxed);
      if (rng.chance(1, 4)) arb.SetConnected(true);
      ++ev["sessions"];
      for (int i = 0; i < cli_ops / sessions + 1; ++i) {
        CoreDebugInterface* f = &fwd;
        switch (rng.below(12)) {
          case 0: case 1: case 2: {
            int n = rng.chance(1, 8) ? 0 : (int)rng.range(1, rng.coin() ? 3 : 100);
            t_steps = 0;
            auto x = rng.coin() ? arb.CLIStep(n) : f->Step(n);
            if (!x.ok()) {
              if (absl::IsUnavailable(x.status())) {
                if (!top.done) Bad("terminated", "the program was called terminated");
                terminated = true;
                ++ev["refused_after_end"];
              } else ++ev["failed_steps"];
            } else {
              if ((uint64_t)*x != t_steps) Bad("cli_step", "CLIStep returned " + std::to_string(*x) + " after " + std::to_string(t_steps) + " steps");
              if (*x > n) Bad("cli_step", "CLIStep(" + std::to_string(n) + ") took " + std::to_string(*x));
              ++ev["cli_steps"];
              if (*x < n) {
                auto h = arb.CLIGetLastHaltReason();
                if (!h.ok() || *h == static_cast<HRV>(HR::kNone)) Bad("cli_step", "CLIStep(" + std::to_string(n) + ") stopped after " + std::to_string(*x) + " for no reason");
                else if (*h == static_cast<HRV>(HR::kProgramDone)) { terminated = true; g_cli_owns.store(false, std::memory_order_relaxed); ++ev["cli_steps_to_end"]; }
                else if (*h == static_cast<HRV>(HR::kSoftwareBreakpoint)) ++ev["cli_steps_to_breakpoint"];
              }
            }
            break;
          }
          case 3: case 4: {
            // Only where something will stop it: a person, or the end.
            if (!halter_on && !end_near) break;
            g_cli_owns.store(false, std::memory_order_relaxed);
            running.store(true, std::memory_order_relaxed);
            auto st = rng.coin() ? arb.CLIRun() : f->Run();
            running.store(false, std::memory_order_relaxed);
            if (st.ok()) {
              ++ev["runs"];
              if (!terminated) g_cli_owns.store(true, std::memory_order_relaxed);
            } else {
              if (!absl::IsUnavailable(st)) Bad("cli_run", "run failed");
              terminated = true;
              ++ev["refused_after_end"];
            }
            break;
          }
          case 5: {
            uint64_t v = rng.next();
            if (!(rng.coin() ? arb.CLIWriteRegister("c", v) : f->WriteRegister("c", v)).ok()) Bad("cli_register", "write refused");
            creg = v;
            if (f->WriteRegister("none", v).ok()) Bad("cli_register", "an unknown register was written");
            ++ev["cli_registers"];
            break;
          }
          case 6: {
            auto x = rng.coin() ? arb.CLIReadRegister("c") : f->ReadRegister("c");
            if (!x.ok() || *x != creg) Bad("cli_register", "register written by the command line reads otherwise");
            if (f->ReadRegister("none").ok()) Bad("cli_register", "an unknown register was read");
            auto d = rng.coin() ? arb.CLIGetRegisterDataBuffer("abc") : f->GetRegisterDataBuffer("abc");
            if (!d.ok() || *d != reinterpret_cast<DataBuffer*>(0x1003)) Bad("cli_register", "another data buffer");
            if (f->GetRegisterDataBuffer("none").ok()) Bad("cli_register", "data buffer of an unknown register");
            ++ev["cli_registers"];
            break;
          }
          case 7: {
            uint64_t v = rng.next(), w = 0;
            size_t n = rng.below(9);
            auto a = rng.coin() ? arb.CLIWriteMemory(0x200, &v, n) : f->WriteMemory(0x200, &v, n);
            auto b = rng.coin() ? arb.CLIReadMemory(0x200, &w, n) : f->ReadMemory(0x200, &w, n);
            if (!a.ok() || !b.ok() || *a != n || *b != n || memcmp(&v, &w, n)) Bad("cli_memory", "memory written by the command line reads otherwise");
            ++ev["cli_memory"];
            break;
          }
          case 8: {
            uint64_t a = 1000000 + rng.below(4);
            bool had = rng.coin() ? arb.CLIHasBreakpoint(a) : f->HasBreakpoint(a);
            bool ok = (rng.coin() ? arb.CLISetSwBreakpoint(a) : f->SetSwBreakpoint(a)).ok();
            if (ok == had || !f->HasBreakpoint(a)) Bad("cli_breakpoint", "breakpoint");
            ++ev["cli_breakpoints"];
            break;
          }
          case 9: {
            uint64_t a = 1000000 + rng.below(4);
            if (rng.chance(1, 6)) {
              if (!(rng.coin() ? arb.CLIClearAllSwBreakpoints() : f->ClearAllSwBreakpoints()).ok() || f->HasBreakpoint(a)) Bad("cli_breakpoint", "breakpoints remain");
            } else {
              bool had = arb.CLIHasBreakpoint(a);
              bool ok = (rng.coin() ? arb.CLIClearSwBreakpoint(a) : f->ClearSwBreakpoint(a)).ok();
              if (ok != had || f->HasBreakpoint(a)) Bad("cli_breakpoint", "breakpoint remains");
            }
            ++ev["cli_breakpoints"];
            break;
          }
          case 10: {
            uint64_t a = rng.below(1000);
            auto x = rng.coin() ? arb.CLIGetInstruction(a) : f->GetInstruction(a);
            auto y = rng.coin() ? arb.CLIGetDisassembly(a) : f->GetDisassembly(a);
            if (!x.ok() || *x != reinterpret_cast<Instruction*>(0x2000 + a * 8)) Bad("cli_instruction", "another instruction");
            if (!y.ok() || *y != "insn " + std::to_string(a)) Bad("cli_instruction", "another text");
            ++ev["cli_instructions"];
            break;
          }
          default: {
            auto x = rng.coin() ? arb.CLIGetRunStatus() : f->GetRunStatus();
            auto y = rng.coin() ? arb.CLIGetLastHaltReason() : f->GetLastHaltReason();
            if (!x.ok() || *x != RS::kHalted || !y.ok()) Bad("cli_status", "status");
            int w = top.waits.load(std::memory_order_relaxed);
            if (!(rng.coin() ? arb.CLIWait() : f->Wait()).ok() || top.waits.load(std::memory_order_relaxed) != w + 1) Bad("cli_wait", "wait");
            ++ev["cli_status"];
          }
        }
      }
      g_cli_owns.store(false, std::memory_order_relaxed);
      arb.SetConnected(false);
      if (rng.chance(1, 4)) arb.SetConnected(false);
      if (rng.coin()) usleep((useconds_t)rng.below(300));
    }
    cli_gone.store(true, std::memory_order_relaxed);
    // A core that halts for a breakpoint waits for a command line: one comes along now and then.
    while (!renode_gone.load(std::memory_order_relaxed)) {
      usleep(200);
      arb.SetConnected(true);
      arb.SetConnected(false);
    }
  });
  cli.join();
  renode.join();
  halter.join();
  for (auto& l : logs) {
    for (auto& [k, v] : l.ev) c.ev(k.c_str(), v);
    for (auto& [k, w] : l.bad) c.check(false, k.c_str(), "%s", w.c_str());
  }
  uint64_t h = 0;
  for (uint8_t b : top.log) h = vh::Comb(h, b);
  c.seen(h);
  c.ev("core_calls", top.log.size());
  int switches = 0;
  for (size_t i = 1; i < top.log.size(); ++i) switches += top.log[i] / 16 != top.log[i - 1] / 16;
  c.ev("changes_of_control", switches);
  if (switches > 1) c.nontrivial();
}

// Renode alone: no command line is waited for and none comes.
VH_SCENARIO(C33, alone, 1000, 20000) {
  auto& r = c.rng;
  t_rng = &r;
  std::vector<std::pair<std::string, std::string>> bad;
  t_bad = &bad;
  g_cli_owns = false;
  Top top;
  top.end = r.coin() ? (uint64_t)r.range(1, 200) : 1000000000ull;
  top.renode_errors = (int)r.below(4);
  RenodeCLITop arb(&top, false);
  arb.SetConnected(false);
  for (int i = 0; i < 20 && !top.done; ++i) {
    int n = r.chance(1, 8) ? 0 : (int)r.range(1, 50);
    int err = top.renode_errors;
    uint64_t pc = top.pc;
    top.quantum = n;
    top.quantum_taken = 0;
    g_in_quantum = true;
    auto res = arb.RenodeStep(n);
    g_in_quantum = false;
    c.op("step %d", n);
    if (top.renode_errors != err) {
      c.check(!res.ok() && absl::IsInternal(res.status()), "alone_error", "the core failed to step and Renode was not told");
      c.ev("failed_renode_steps");
    } else {
      c.check(res.ok(), "alone", "RenodeStep(%d) failed", n);
      c.check((uint64_t)*res == top.pc - pc && (top.done ? *res <= n : *res == n), "alone", "RenodeStep(%d) returned %d, the core took %lu", n, *res, (unsigned long)(top.pc - pc));
      auto h = arb.RenodeGetLastHaltReason();
      c.check(h.ok() && *h == static_cast<HRV>(top.reason), "alone_reason", "another halt reason");
      c.ev("renode_steps");
    }
  }
  t_rng = nullptr;
  t_bad = nullptr;
  for (auto& [k, w] : bad) c.check(false, k.c_str(), "%s", w.c_str());
  c.nontrivial();
}
