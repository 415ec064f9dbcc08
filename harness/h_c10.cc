// C10: action points and breakpoints - the trap instruction is in memory exactly while
// at least one action is enabled there, and the right actions run.
#include <memory>

#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"
#include "vh.h"

using namespace mpact::sim::generic;

namespace {
// Program memory: knows which addresses hold the trap, and can be told to fail.
struct Mem : ActionPointMemoryInterface {
  std::map<uint64_t, bool> trap;  // addresses ever touched
  std::set<uint64_t> unwritable;
  std::set<uint64_t> stuck;  // the original cannot be written back
  int writes = 0;
  absl::Status WriteOriginalInstruction(uint64_t a) override {
    ++writes;
    if (stuck.count(a)) return absl::UnavailableError("injected");
    trap[a] = false;
    return absl::OkStatus();
  }
  absl::Status WriteBreakpointInstruction(uint64_t a) override {
    ++writes;
    if (unwritable.count(a)) return absl::UnavailableError("not writable");
    trap[a] = true;
    return absl::OkStatus();
  }
  bool has(uint64_t a) const {
    auto it = trap.find(a);
    return it != trap.end() && it->second;
  }
};
struct Act {
  bool enabled = true;
  int tag;
};
}  // namespace

VH_SCENARIO(C10, actions, 5000, 200000) {
  auto& r = c.rng;
  Mem mem;
  auto mgr = std::make_unique<ActionPointManagerBase>(&mem);
  c.check(mgr->ap_memory_interface() == &mem, "accessor", "memory interface");
  std::map<uint64_t, std::map<int, Act>> model;  // address -> id -> action
  std::map<uint64_t, std::set<int>> ever;
  std::vector<uint64_t> addrs;
  for (int i = 0; i < 5; ++i) addrs.push_back(r.chance(1, 3) ? r.val() : 0x1000 + 4 * i);
  mem.unwritable.insert(addrs[4]);
  std::set<uint64_t> stale;  // the trap could not be removed
  std::vector<std::tuple<int, uint64_t, int>> ran;  // tag, address, id
  int tag = 0, steps = (int)r.range(5, 90);
  auto verify = [&](const char* after) {
    for (uint64_t a : addrs) {
      int active = 0;
      for (auto& [id, x] : model[a]) active += x.enabled;
      if (active > 0) stale.erase(a);
      if (!stale.count(a)) c.check(mem.has(a) == (active > 0), "trap", "after %s: trap present=%d at %lx with %d enabled actions", after, mem.has(a), a, active);
      c.check(mgr->IsActionPointActive(a) == (active > 0), "active", "after %s: IsActionPointActive(%lx)=%d with %d enabled", after, a, mgr->IsActionPointActive(a), active);
      for (int id : ever[a]) {
        bool want = model[a].count(id) && model[a][id].enabled;
        c.check(mgr->IsActionEnabled(a, id) == want, "enabled", "after %s: IsActionEnabled(%lx, %d)=%d", after, a, id, mgr->IsActionEnabled(a, id));
      }
      if (!model[a].empty()) c.check(mgr->HasActionPoint(a), "has", "action point at %lx is gone", a);
      if (ever[a].empty()) c.check(!mgr->HasActionPoint(a), "has", "action point at %lx that was never set", a);
    }
    c.ev("states_verified");
  };
  for (int s = 0; s < steps; ++s) {
    uint64_t a = r.pick(addrs);
    int id = ever[a].empty() || r.chance(1, 8) ? (int)r.range(-1, 6) : *std::next(ever[a].begin(), r.below(ever[a].size()));
    bool known = model[a].count(id);
    int others = 0;  // enabled besides this one
    for (auto& [i, x] : model[a]) others += x.enabled && i != id;
    bool on = known && model[a][id].enabled;
    // Memory that cannot be written for a while.
    if (r.chance(1, 12)) {
      uint64_t b = addrs[3 + r.below(2)];
      if (!mem.unwritable.erase(b)) mem.unwritable.insert(b);
    }
    if (r.chance(1, 20)) {
      uint64_t b = addrs[r.below(2)];
      if (!mem.stuck.erase(b)) mem.stuck.insert(b);
    }
    switch (r.below(10)) {
      case 0: case 1: case 2: {
        int t = tag++;
        c.op("set %lx", a);
        auto res = mgr->SetAction(a, [&ran, t](uint64_t ad, int i) { ran.push_back({t, ad, i}); });
        if (mem.unwritable.count(a) && !others && !on) {
          c.check(!res.ok(), "set", "SetAction succeeded though the trap could not be written");
          c.ev("set_refused");
          break;
        }
        c.check(res.ok(), "set", "SetAction failed");
        c.check(!model[a].count(res.value()), "id", "SetAction reused the id %d of a live action", res.value());
        model[a][res.value()] = Act{true, t};
        ever[a].insert(res.value());
        c.ev("set");
        break;
      }
      case 3: case 4: {
        c.op("clear %lx %d", a, id);
        auto st = mgr->ClearAction(a, id);
        bool fails = mem.stuck.count(a) && known && !others;
        if (fails) c.ev("restore_failed");
        // Whether the original is written again for an action that was disabled does not matter.
        if (fails && !on) fails = !st.ok();
        c.check(st.ok() == (known && !fails), "clear", "ClearAction of %s action returned %d", known ? "a live" : "an unknown", st.ok());
        if (!known) c.check(absl::IsNotFound(st), "clear", "unknown action is not reported as not found");
        if (!fails) model[a].erase(id);
        c.ev(known ? "cleared" : "clear_unknown");
        break;
      }
      case 5: case 6: {
        c.op("disable %lx %d", a, id);
        auto st = mgr->DisableAction(a, id);
        bool fails = mem.stuck.count(a) && on && !others;
        if (fails) c.ev("restore_failed");
        c.check(st.ok() == (known && !fails), "disable", "DisableAction returned %d", st.ok());
        if (known && !fails) model[a][id].enabled = false;
        c.ev("disabled");
        break;
      }
      case 7: {
        c.op("enable %lx %d", a, id);
        auto st = mgr->EnableAction(a, id);
        bool fails = mem.unwritable.count(a) && known && !on && !others;
        if (fails) c.ev("enable_failed");
        c.check(st.ok() == (known && !fails), "enable", "EnableAction returned %d", st.ok());
        if (known && !fails) model[a][id].enabled = true;
        c.ev("enabled");
        break;
      }
      case 8: {
        c.op("perform %lx", a);
        ran.clear();
        mgr->PerformActions(a);
        std::vector<std::tuple<int, uint64_t, int>> want;
        for (auto& [i, x] : model[a])
          if (x.enabled) want.push_back({x.tag, a, i});
        auto got = ran;
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        c.check(got == want, "perform", "at %lx %zu actions ran, expected %zu (or the wrong ones)", a, got.size(), want.size());
        c.ev("performed", want.size());
        c.ev(model[a].empty() ? "perform_without_point" : "perform");
        break;
      }
      case 9: {
        if (!r.chance(1, 4)) break;
        c.op("clear all");
        mgr->ClearAllActionPoints();
        for (uint64_t x : addrs)
          if (mem.stuck.count(x)) stale.insert(x);
        model.clear();
        for (auto& [x, e] : ever) {
          (void)x;
          e.clear();
        }
        for (uint64_t x : addrs) c.check(!mgr->HasActionPoint(x), "clear-all", "action point at %lx survives ClearAll", x);
        c.ev("clear_all");
        break;
      }
    }
    verify("step");
    uint64_t h = 0;
    for (auto& [x, m] : model)
      for (auto& [i, y] : m) h = vh::Comb(h, x + i * 2 + y.enabled);
    c.seen(h);
  }
  if (tag > 1) c.nontrivial();
}

// Breakpoints (a client of action points): at most one per address, enable/disable/clear
// by address; several clients share an address without disturbing each other.
VH_SCENARIO(C10, breakpoints, 3000, 100000) {
  auto& r = c.rng;
  Mem mem;
  ActionPointManagerBase mgr(&mem);
  int halts = 0;
  BreakpointManager bm(&mgr, [&halts]() { ++halts; });
  struct Bp { bool enabled; };
  std::map<uint64_t, Bp> bps;
  std::map<uint64_t, std::set<int>> acts;  // another client's enabled actions
  int other_ran = 0;
  uint64_t last = bm.last_breakpoint_address();
  std::vector<uint64_t> addrs = {0x1000, 0x1004, 0x2000, 0xffffffffffffff00ull, 0x0};
  mem.unwritable.insert(addrs[3]);
  int steps = (int)r.range(5, 80);
  if (r.chance(1, 20)) {  // many of them
    int n = (int)r.range(20, 200);
    for (int i = 0; i < n; ++i) addrs.push_back(r.coin() ? 0x3000 + 4 * i : r.next());
    std::sort(addrs.begin() + 5, addrs.end());
    addrs.erase(std::unique(addrs.begin() + 5, addrs.end()), addrs.end());
    steps = (int)r.range(200, 800);
  }
  for (int s = 0; s < steps; ++s) {
    uint64_t a = r.pick(addrs);
    bool known = bps.count(a);
    bool on = known && bps[a].enabled;
    bool others = !acts[a].empty();
    if (r.chance(1, 12)) {
      uint64_t b = addrs[2 + r.below(2)];
      if (!mem.unwritable.erase(b)) mem.unwritable.insert(b);
    }
    if (r.chance(1, 16)) {
      uint64_t b = addrs[r.below(2)];
      if (!mem.stuck.erase(b)) mem.stuck.insert(b);
    }
    switch (r.below(9)) {
      case 0: case 1: {
        c.op("set %lx", a);
        auto st = bm.SetBreakpoint(a);
        bool want = !known && (others || !mem.unwritable.count(a));
        c.check(st.ok() == want, "set", "SetBreakpoint(%lx) returned %d, expected %d", a, st.ok(), want);
        if (want) bps[a] = {true};
        c.ev(want ? "bp_set" : "bp_set_refused");
        break;
      }
      case 2: {
        c.op("clear %lx", a);
        auto st = bm.ClearBreakpoint(a);
        bool fails = known && !others && mem.stuck.count(a);
        if (fails && !on) fails = !st.ok();
        c.check(st.ok() == (known && !fails), "clear", "ClearBreakpoint(%lx) returned %d", a, st.ok());
        if (!fails) bps.erase(a);
        else c.ev("bp_clear_failed");
        c.ev("bp_clear");
        break;
      }
      case 3: {
        c.op("disable %lx", a);
        auto st = bm.DisableBreakpoint(a);
        bool fails = on && !others && mem.stuck.count(a);
        c.check(st.ok() == (known && !fails), "disable", "DisableBreakpoint returned %d", st.ok());
        if (known && !fails) bps[a].enabled = false;
        c.ev("bp_disable");
        break;
      }
      case 4: {
        c.op("enable %lx", a);
        auto st = bm.EnableBreakpoint(a);
        bool fails = known && !on && !others && mem.unwritable.count(a);
        c.check(st.ok() == (known && !fails), "enable", "EnableBreakpoint returned %d", st.ok());
        if (known && !fails) bps[a].enabled = true;
        c.ev("bp_enable");
        break;
      }
      case 5: {
        if (mem.unwritable.count(a) && !others && !on) break;
        c.op("other client sets %lx", a);
        auto res = mgr.SetAction(a, [&other_ran](uint64_t, int) { ++other_ran; });
        c.check(res.ok(), "other", "SetAction failed");
        acts[a].insert(res.value());
        break;
      }
      case 6: {
        if (acts[a].empty() || mem.stuck.count(a)) break;
        int id = *acts[a].begin();
        c.op("other client clears %lx %d", a, id);
        c.check(mgr.ClearAction(a, id).ok(), "other", "ClearAction failed");
        acts[a].erase(id);
        break;
      }
      case 7: {
        c.op("hit %lx", a);
        halts = other_ran = 0;
        mgr.PerformActions(a);
        c.check(halts == (known && bps[a].enabled ? 1 : 0), "halt", "at %lx halted %d times", a, halts);
        c.check(other_ran == (int)acts[a].size(), "other", "%d actions of the other client ran, expected %zu", other_ran, acts[a].size());
        if (halts) {
          last = a;
        }
        c.check(bm.last_breakpoint_address() == last, "last", "last breakpoint address %lx, expected %lx", bm.last_breakpoint_address(), last);
        c.ev("bp_hit", halts);
        break;
      }
      case 8: {
        if (!r.chance(1, 5)) break;
        c.op("clear all breakpoints");
        mem.stuck.clear();
        bm.ClearAllBreakpoints();
        bps.clear();
        c.ev("bp_clear_all");
        break;
      }
    }
    for (uint64_t x : addrs) {
      bool k = bps.count(x), en = k && bps[x].enabled;
      c.check(bm.HasBreakpoint(x) == k, "has", "HasBreakpoint(%lx)=%d, expected %d", x, bm.HasBreakpoint(x), k);
      c.check(bm.IsBreakpoint(x) == en, "is", "IsBreakpoint(%lx)=%d, expected %d", x, bm.IsBreakpoint(x), en);
      bool want = en || !acts[x].empty();
      c.check(mem.has(x) == want, "trap", "trap at %lx is %d, expected %d", x, mem.has(x), want);
      if (!k && r.chance(1, addrs.size() > 5 ? 100 : 6)) {
        // What a cleared breakpoint used is not to be enabled again by its number.
        int id = (int)r.below(10);
        if (!acts[x].count(id)) {
          c.check(!mgr.EnableAction(x, id).ok(), "stale", "an action %d at %lx that does not exist (any more) was enabled", id, x);
          c.check(mem.has(x) == want, "stale", "the attempt changed the memory at %lx", x);
          c.ev("stale_ids_refused");
        }
      }
    }
    c.ev("states_verified");
  }
  if (!bps.empty()) c.nontrivial();
  uint64_t h = 0;
  for (auto& [x, b] : bps) h = vh::Comb(h, x + b.enabled);
  c.seen(h);
}
