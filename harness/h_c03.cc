// C03: program errors - masked/unmasked bookkeeping of raised errors.
#include <memory>

#include "mpact/sim/generic/program_error.h"
#include "vh.h"

using mpact::sim::generic::ProgramError;
using mpact::sim::generic::ProgramErrorController;

namespace {
struct Err {
  bool masked = false;
  bool active = false;
  std::vector<std::string> msgs;   // expected; "\1" prefix: text not fixed, only counted
};
struct Model {
  std::map<std::string, Err> e;
  Model() { e[ProgramErrorController::kInternalErrorName]; }
  Err& internal() { return e[ProgramErrorController::kInternalErrorName]; }
  void raise_internal(const std::string& suffix = "") {
    internal().active = true;
    internal().msgs.push_back("\1" + suffix);
  }
  void raise(const std::string& n, const std::string& m) {
    auto it = e.find(n);
    if (it == e.end()) {
      raise_internal(m);
      return;
    }
    it->second.active = true;
    it->second.msgs.push_back(m);
  }
};
bool SameMsgs(const std::vector<std::string>& got, const std::vector<std::string>& want) {
  if (got.size() != want.size()) return false;
  for (size_t i = 0; i < got.size(); ++i) {
    if (!want[i].empty() && want[i][0] == 1) {
      // An internal error: it must say something, and carry the message it reports on.
      if (got[i].empty()) return false;
      auto sfx = want[i].substr(1);
      if (got[i].size() < sfx.size() || got[i].find(sfx) == std::string::npos) return false;
    } else if (got[i] != want[i]) {
      return false;
    }
  }
  return true;
}
void Verify(vh::Case& c, ProgramErrorController& pc, Model& m) {
  bool anym = false, anyu = false;
  std::multiset<std::string> wm, wu;
  for (auto& [n, e] : m.e)
    if (e.active) {
      (e.masked ? anym : anyu) = true;
      (e.masked ? wm : wu).insert(n);
    }
  c.check(pc.HasError() == (anym || anyu), "has-error", "HasError()=%d, expected %d", pc.HasError(), anym || anyu);
  c.check(pc.HasMaskedError() == anym, "has-masked", "HasMaskedError()=%d, expected %d", pc.HasMaskedError(), anym);
  c.check(pc.HasUnmaskedError() == anyu, "has-unmasked", "HasUnmaskedError()=%d, expected %d", pc.HasUnmaskedError(), anyu);
  auto gm = pc.GetMaskedErrorNames();
  auto gu = pc.GetUnmaskedErrorNames();
  c.check(std::multiset<std::string>(gm.begin(), gm.end()) == wm, "masked-names", "%zu masked names, expected %zu", gm.size(), wm.size());
  c.check(std::multiset<std::string>(gu.begin(), gu.end()) == wu, "unmasked-names", "%zu unmasked names, expected %zu", gu.size(), wu.size());
  for (auto& [n, e] : m.e) {
    c.check(pc.HasProgramErrorName(n), "has-name", "a registered name is unknown");
    c.check(pc.IsMasked(n) == e.masked, "is-masked", "IsMasked(%s)=%d, expected %d", n.c_str(), pc.IsMasked(n), e.masked);
    c.check(SameMsgs(pc.GetErrorMessages(n), e.msgs), "messages", "messages of %s: %zu, expected %zu (or different text)", n.c_str(),
            pc.GetErrorMessages(n).size(), e.msgs.size());
  }
  c.ev("states_verified");
}
}  // namespace

VH_SCENARIO(C03, controller, 6000, 250000) {
  auto& r = c.rng;
  int npc = r.chance(1, 4) ? 2 : 1;
  std::vector<std::unique_ptr<ProgramErrorController>> pcs;
  std::vector<Model> ms(npc);
  std::vector<std::vector<std::unique_ptr<ProgramError>>> handles(npc);
  for (int i = 0; i < npc; ++i) {
    pcs.emplace_back(new ProgramErrorController("pc" + std::to_string(i)));
    c.check(pcs[i]->name() == "pc" + std::to_string(i), "name", "controller name");
  }
  std::vector<std::string> pool = {"overflow", "Overflow", "trap", "", "div_by_zero", std::string("a\0b", 3),
                                   ProgramErrorController::kInternalErrorName, "x", "y", "z"};
  int npool = (int)r.range(3, pool.size());
  int steps = (int)r.range(5, 80);
  int transitions = 0;
  for (int s = 0; s < steps; ++s) {
    int i = (int)r.below(npc);
    auto& pc = *pcs[i];
    auto& m = ms[i];
    std::string n = pool[r.below(npool)];
    bool known = m.e.count(n);
    switch (r.below(9)) {
      case 0: case 1: {
        c.op("%d add '%s'", i, n.c_str());
        bool ok = pc.AddProgramErrorName(n);
        c.check(ok == !known, "add", "AddProgramErrorName returned %d for a%s name", ok, known ? " known" : " new");
        if (known) m.raise_internal();
        else m.e[n];
        break;
      }
      case 2: {
        c.op("%d get '%s'", i, n.c_str());
        auto h = pc.GetProgramError(n);
        c.check((h != nullptr) == known, "get", "GetProgramError returned %s for a%s name", h ? "a handle" : "null", known ? " known" : "n unknown");
        if (h) {
          c.check(h->name() == n, "get", "handle has another name");
          handles[i].push_back(std::move(h));
        }
        break;
      }
      case 3: {
        std::string msg = r.chance(1, 8) ? "" : r.ident(12);
        c.op("%d raise '%s' msg '%s'", i, n.c_str(), msg.c_str());
        pc.Raise(n, msg);
        m.raise(n, msg);
        c.ev(known ? "raised" : "raised_unknown");
        ++transitions;
        break;
      }
      case 4: {
        if (handles[i].empty()) break;
        auto& h = handles[i][r.below(handles[i].size())];
        std::string msg = r.ident(12);
        c.op("%d handle raise '%s' msg '%s'", i, std::string(h->name()).c_str(), msg.c_str());
        h->Raise(msg);
        m.raise(std::string(h->name()), msg);
        c.ev("raised_by_handle");
        ++transitions;
        break;
      }
      case 5: {
        c.op("%d mask '%s'", i, n.c_str());
        pc.Mask(n);
        if (n == ProgramErrorController::kInternalErrorName || !known) m.raise_internal();
        else m.e[n].masked = true;
        c.ev("mask");
        ++transitions;
        break;
      }
      case 6: {
        c.op("%d unmask '%s'", i, n.c_str());
        pc.Unmask(n);
        if (!known) m.raise_internal();
        else m.e[n].masked = false;
        c.ev("unmask");
        break;
      }
      case 7: {
        if (r.chance(1, 4)) {
          c.op("%d clear all", i);
          pc.ClearAll();
          for (auto& [k, e] : m.e) {
            (void)k;
            e.active = false;
            e.msgs.clear();
          }
          c.ev("clear_all");
        } else {
          c.op("%d clear '%s'", i, n.c_str());
          pc.Clear(n);
          if (!known) m.raise_internal();
          else {
            m.e[n].active = false;
            m.e[n].msgs.clear();
          }
          c.ev("clear");
        }
        break;
      }
      case 8: {
        // queries with unknown names raise the internal error
        c.check(pc.HasProgramErrorName(n) == known, "has-name", "HasProgramErrorName");
        if (known) break;
        if (r.coin()) {
          c.op("%d is-masked of unknown", i);
          c.check(!pc.IsMasked(n), "is-masked", "unknown name is masked");
          m.raise_internal();
        } else {
          c.op("%d messages of unknown", i);
          auto msgs = pc.GetErrorMessages(n);
          m.raise_internal();
          c.check(SameMsgs(msgs, m.internal().msgs), "messages", "messages of an unknown name are not the internal error's");
        }
        break;
      }
    }
    for (int k = 0; k < npc; ++k) Verify(c, *pcs[k], ms[k]);
    uint64_t h = 0;
    for (auto& [k, e] : m.e) h = vh::Comb(h, vh::HashStr(k.c_str()) + e.masked * 2 + e.active + 16 * e.msgs.size());
    c.seen(h);
  }
  if (transitions > 2) c.nontrivial();
}

// Volume: many errors, many messages, long histories without checks in between.
VH_SCENARIO(C03, volume, 60, 2000) {
  auto& r = c.rng;
  ProgramErrorController pc("volume");
  Model m;
  int names = (int)r.range(1, r.coin() ? 4 : 300);
  std::vector<std::string> pool;
  for (int i = 0; i < names; ++i) {
    std::string n = "error_" + std::to_string(i);
    if (r.chance(1, 10)) n += std::string(r.range(1, 300), 'e');
    pool.push_back(n);
    c.check(pc.AddProgramErrorName(n), "add", "refused");
    m.e[n];
  }
  pool.push_back(ProgramErrorController::kInternalErrorName);
  int steps = (int)r.range(500, 6000);
  c.op("%d errors, %d operations", names, steps);
  for (int s = 0; s < steps; ++s) {
    const std::string& n = r.pick(pool);
    uint64_t k = r.below(100);
    if (k < 70) {
      std::string msg = r.chance(1, 4) ? "same" : r.ident(8);
      if (r.chance(1, 200)) msg = std::string(r.range(1000, 20000), 'm');
      pc.Raise(n, msg);
      m.raise(n, msg);
      c.ev("raised");
    } else if (k < 80) {
      pc.Mask(n);
      if (n == ProgramErrorController::kInternalErrorName) m.raise_internal();
      else m.e[n].masked = true;
      c.ev("mask");
    } else if (k < 90) {
      pc.Unmask(n);
      m.e[n].masked = false;
      c.ev("unmask");
    } else if (k < 91 || names < 5) {
      if (r.chance(1, 20)) {
        pc.Clear(n);
        m.e[n].active = false;
        m.e[n].msgs.clear();
        c.ev("clear");
      }
    } else {
      pc.Clear(n);
      m.e[n].active = false;
      m.e[n].msgs.clear();
      c.ev("clear");
    }
    if (r.chance(1, 300)) Verify(c, pc, m);
  }
  Verify(c, pc, m);
  c.nontrivial();
}
