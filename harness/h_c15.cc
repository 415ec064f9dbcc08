// C15: component hierarchy, configuration import and statistics export.
#include <memory>

#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/proto/component_data.pb.h"
#include "vh.h"

using namespace mpact::sim::generic;
using mpact::sim::proto::ComponentData;
using mpact::sim::proto::ComponentValueEntry;
namespace pb = mpact::sim::proto;

namespace {
const pb::SIPrefix kPrefix[] = {pb::PREFIX_NONE, pb::PREFIX_PICO, pb::PREFIX_NANO, pb::PREFIX_MICRO, pb::PREFIX_MILLI, pb::PREFIX_KILO, pb::PREFIX_MEGA, pb::PREFIX_GIGA, pb::PREFIX_TERA};
const pb::SIUnit kUnit[] = {pb::UNIT_NONE, pb::UNIT_SECOND, pb::UNIT_HERTZ, pb::UNIT_VOLT, pb::UNIT_AMPERE, pb::UNIT_WATT};

// A value of one of the six kinds, as text for comparison.
ConfigValue RandomValue(vh::Rng& r, int kind) {
  switch (kind) {
    case 0: return r.coin();
    case 1: return (int64_t)r.val();
    case 2: return (uint64_t)r.val();
    case 3: return (double)(int64_t)r.val() / 8;
    case 4: return r.ident(10);
    default: return PhysicalValue((double)(int64_t)r.next() / 1024, kPrefix[r.below(9)], kUnit[r.below(6)]);
  }
}
std::string Text(const ConfigValue& v) {
  char b[200];
  switch (v.index()) {
    case 0: return std::get<bool>(v) ? "b1" : "b0";
    case 1: snprintf(b, sizeof b, "i%ld", std::get<int64_t>(v)); return b;
    case 2: snprintf(b, sizeof b, "u%lu", std::get<uint64_t>(v)); return b;
    case 3: snprintf(b, sizeof b, "d%a", std::get<double>(v)); return b;
    case 4: return "s" + std::get<std::string>(v);
    default: {
      auto& p = std::get<PhysicalValue>(v);
      snprintf(b, sizeof b, "p%a/%d/%d", p.value, p.si_prefix, p.si_unit);
      return b;
    }
  }
}
std::string Text(const ComponentValueEntry& e) {
  switch (e.value_case()) {
    case ComponentValueEntry::kBoolValue: return Text(ConfigValue(e.bool_value()));
    case ComponentValueEntry::kSint64Value: return Text(ConfigValue((int64_t)e.sint64_value()));
    case ComponentValueEntry::kUint64Value: return Text(ConfigValue((uint64_t)e.uint64_value()));
    case ComponentValueEntry::kDoubleValue: return Text(ConfigValue(e.double_value()));
    case ComponentValueEntry::kStringValue: return Text(ConfigValue(e.string_value()));
    case ComponentValueEntry::kPhysicalValue: return Text(ConfigValue(PhysicalValue(e.physical_value().value(), e.physical_value().si_prefix(), e.physical_value().si_unit())));
    default: return "-";
  }
}
void Fill(ComponentValueEntry* e, const ConfigValue& v) {
  switch (v.index()) {
    case 0: e->set_bool_value(std::get<bool>(v)); break;
    case 1: e->set_sint64_value(std::get<int64_t>(v)); break;
    case 2: e->set_uint64_value(std::get<uint64_t>(v)); break;
    case 3: e->set_double_value(std::get<double>(v)); break;
    case 4: e->set_string_value(std::get<std::string>(v)); break;
    default: {
      auto& p = std::get<PhysicalValue>(v);
      e->mutable_physical_value()->set_value(p.value);
      e->mutable_physical_value()->set_si_prefix(p.si_prefix);
      e->mutable_physical_value()->set_si_unit(p.si_unit);
    }
  }
}
struct Cfg {
  std::unique_ptr<ConfigBase> cfg;
  int kind;
  std::string value;
  bool known = true;  // false: constructed without a value
  bool set = false;
  int writes = 0, seen = 0;
};
template <typename T>
void Hook(ConfigBase* c, int* n, int k = 1) {
  // k callbacks, the last of which counts only if all others ran before it.
  auto others = std::make_shared<int>(0);
  for (int i = 1; i < k; ++i) static_cast<Config<T>*>(c)->AddValueWrittenCallback([others, i]() { if (*others == i - 1) ++*others; });
  static_cast<Config<T>*>(c)->AddValueWrittenCallback([n, k, others]() { if (*others == k - 1) ++*n; *others = 0; });
}
template <typename T>
ConfigBase* Make(const std::string& name, const ConfigValue& v) { return new Config<T>(name, std::get<T>(v)); }
template <typename T>
ConfigBase* Make0(const std::string& name) { return new Config<T>(name); }
void SetTyped(ConfigBase* c, const ConfigValue& v) {
  std::visit([&](auto& x) { static_cast<Config<std::decay_t<decltype(x)>>*>(c)->SetValue(x); }, v);
}
struct Comp {
  std::unique_ptr<Component> comp;
  std::map<std::string, Cfg> cfg;
  std::map<std::string, Comp*> child;
  Comp* parent = nullptr;
  int cbs = 0;
  int done = 0;
  std::map<std::string, std::string> counters;  // name -> exported text (filled before export)
  std::map<std::string, std::string> about;
};
void Count(Comp* k, int& n) { ++n; for (auto& [x, ch] : k->child) Count(ch, n); }
}  // namespace

VH_SCENARIO(C15, import_export, 3000, 100000) {
  auto& r = c.rng;
  std::vector<std::unique_ptr<Comp>> all;
  const std::vector<std::string> names = {"a", "b", "core", "mem", "A", "a1", "z_z"};
  std::vector<std::unique_ptr<CounterBaseInterface>> counters;
  std::vector<Comp*> done_order;
  int n = r.chance(1, 20) ? (int)r.range(9, 40) : (int)r.range(1, 8);
  auto make_cfg = [&](Comp* k) {
    std::string name = r.pick(names);
    int kind = r.below(6);
    ConfigValue v = RandomValue(r, kind);
    Cfg g;
    g.kind = kind;
    bool with = kind == 5 || r.chance(3, 4);
    switch (kind) {
      case 0: g.cfg.reset(with ? Make<bool>(name, v) : Make0<bool>(name)); break;
      case 1: g.cfg.reset(with ? Make<int64_t>(name, v) : Make0<int64_t>(name)); break;
      case 2: g.cfg.reset(with ? Make<uint64_t>(name, v) : Make0<uint64_t>(name)); break;
      case 3: g.cfg.reset(with ? Make<double>(name, v) : Make0<double>(name)); break;
      case 4: g.cfg.reset(with ? Make<std::string>(name, v) : Make0<std::string>(name)); break;
      default: g.cfg.reset(Make<PhysicalValue>(name, v));
    }
    g.value = Text(v);
    g.known = with;
    c.op("config %s kind %d in %s", name.c_str(), kind, k->comp->component_name().c_str());
    bool dup = k->cfg.count(name);
    auto st = k->comp->AddConfig(g.cfg.get());
    c.check(st.ok() == !dup, "addconfig", "AddConfig of a %s name returned %d", dup ? "taken" : "new", st.ok());
    if (dup) { c.ev("duplicates_refused"); return; }
    c.check(g.cfg->name() == name && !g.cfg->HasConfigValue(), "config", "fresh config");
    auto& slot = k->cfg[name];
    slot = std::move(g);
    int hooks = r.chance(1, 10) ? (int)r.range(2, 40) : 1;
    if (kind == 0) Hook<bool>(slot.cfg.get(), &slot.seen, hooks);
    if (kind == 1) Hook<int64_t>(slot.cfg.get(), &slot.seen, hooks);
    if (kind == 2) Hook<uint64_t>(slot.cfg.get(), &slot.seen, hooks);
    if (kind == 3) Hook<double>(slot.cfg.get(), &slot.seen, hooks);
    if (kind == 4) Hook<std::string>(slot.cfg.get(), &slot.seen, hooks);
    if (kind == 5) Hook<PhysicalValue>(slot.cfg.get(), &slot.seen, hooks);
  };
  for (int i = 0; i < n; ++i) {
    auto k = std::make_unique<Comp>();
    std::string name = r.pick(names);
    Comp* par = all.empty() ? nullptr : r.pick(all).get();
    bool dup = par && par->child.count(name);
    c.op("component %s under %s", name.c_str(), par ? par->comp->component_name().c_str() : "-");
    if (par && r.coin()) {
      k->comp = std::make_unique<Component>(name, par->comp.get());
    } else {
      k->comp = std::make_unique<Component>(name);
      if (par) {
        auto st = par->comp->AddChildComponent(*k->comp);
        c.check(st.ok() == !dup, "addchild", "AddChildComponent returned %d", st.ok());
      }
    }
    c.check(k->comp->component_name() == name, "name", "component name");
    if (par && !dup) { par->child[name] = k.get(); k->parent = par; }
    if (dup) c.ev("duplicates_refused");
    Comp* kp = k.get();
    int cbs = r.chance(1, 10) ? (int)r.range(3, 40) : (int)r.below(3);
    kp->cbs = cbs;
    for (int j = 0; j < cbs; ++j) k->comp->AddImportDoneCallback([kp, &done_order, j]() { ++kp->done; if (j == 0) done_order.push_back(kp); });
    int nc = r.below(4);
    for (int j = 0; j < nc; ++j) make_cfg(kp);
    // counters
    int nk = r.below(4);
    for (int j = 0; j < nk; ++j) {
      std::string cn = r.pick(names);
      std::string about = r.coin() ? r.ident(6) : "";
      bool cdup = k->counters.count(cn);
      absl::Status st;
      std::string text;
      switch (r.below(4)) {
        case 0: { auto p = std::make_unique<SimpleCounter<uint64_t>>(cn, about, (uint64_t)r.val()); text = Text(ConfigValue(p->GetValue())); st = k->comp->AddCounter(p.get()); counters.push_back(std::move(p)); break; }
        case 1: { auto p = std::make_unique<SimpleCounter<int64_t>>(cn, (int64_t)r.val()); p->SetAbout(about); text = Text(ConfigValue(p->GetValue())); st = k->comp->AddCounter(p.get()); counters.push_back(std::move(p)); break; }
        case 2: {
          auto p = std::make_unique<SimpleCounter<double>>();
          c.check(!k->comp->AddCounter(p.get()).ok(), "uninit", "an uninitialized counter was accepted");
          c.check(k->comp->GetCounter(cn) == nullptr || cdup, "uninit", "an uninitialized counter is registered");
          p->Initialize(cn, (double)(int64_t)r.val());
          p->SetAbout(about);
          text = Text(ConfigValue(p->GetValue()));
          st = k->comp->AddCounter(p.get());
          counters.push_back(std::move(p));
          c.ev("uninitialized_refused");
          break;
        }
        default: { auto p = std::make_unique<FunctionCounter<uint64_t, double>>(cn, (double)(int64_t)r.val()); p->SetAbout(about); text = Text(ConfigValue(p->GetValue())); st = k->comp->AddCounter(p.get()); counters.push_back(std::move(p)); }
      }
      c.check(st.ok() == !cdup, "addcounter", "AddCounter returned %d for a %s name", st.ok(), cdup ? "taken" : "new");
      if (cdup) { c.ev("duplicates_refused"); continue; }
      // A counter that does not count is exported all the same.
      if (r.chance(1, 4)) counters.back()->SetIsEnabled(false);
      k->counters[cn] = text;
      k->about[cn] = about;
      c.check(k->comp->GetCounter(cn) == counters.back().get(), "lookup", "counter lookup");
    }
    all.push_back(std::move(k));
  }
  if (r.chance(1, 10)) {
    c.check(!all[0]->comp->AddConfig(nullptr).ok(), "null", "null config accepted");
    c.check(!all[0]->comp->AddCounter(nullptr).ok(), "null", "null counter accepted");
    c.check(!all[0]->comp->Export(nullptr).ok(), "null", "null export accepted");
    c.ev("nulls_refused");
  }
  auto check_all = [&]() {
    for (auto& k : all) {
      c.check(k->comp->parent() == (k->parent ? k->parent->comp.get() : nullptr), "parent", "parent of %s", k->comp->component_name().c_str());
      c.check(k->comp->child_map().size() == k->child.size() && k->comp->config_map().size() == k->cfg.size() && k->comp->counter_map().size() == k->counters.size(), "maps", "sizes");
      for (auto& nm : names) {
        auto it = k->child.find(nm);
        c.check(k->comp->GetChildComponent(nm) == (it == k->child.end() ? nullptr : it->second->comp.get()), "lookup", "child %s", nm.c_str());
        auto ic = k->cfg.find(nm);
        c.check(k->comp->GetConfig(nm) == (ic == k->cfg.end() ? nullptr : ic->second.cfg.get()), "lookup", "config %s", nm.c_str());
      }
      for (auto& [nm, g] : k->cfg) {
        if (g.known) c.check(Text(g.cfg->GetConfigValue()) == g.value, "value", "config %s is %s, expected %s", nm.c_str(), Text(g.cfg->GetConfigValue()).c_str(), g.value.c_str());
        c.check(g.cfg->HasConfigValue() == g.set, "has", "HasConfigValue of %s is %d", nm.c_str(), g.cfg->HasConfigValue());
        c.check(g.seen == g.writes, "callbacks", "config %s: %d callbacks for %d writes", nm.c_str(), g.seen, g.writes);
      }
    }
  };
  check_all();
  auto wrote = [&](Cfg& g, const ConfigValue& v) { g.value = Text(v); g.known = true; g.set = true; ++g.writes; };
  int steps = (int)r.range(2, 16);
  for (int s = 0; s < steps; ++s) {
    Comp* k = r.pick(all).get();
    switch (r.below(6)) {
      case 0: {  // direct writes
        if (k->cfg.empty()) break;
        auto it = std::next(k->cfg.begin(), r.below(k->cfg.size()));
        int kind = r.chance(3, 4) ? it->second.kind : (int)r.below(6);
        ConfigValue v = RandomValue(r, kind);
        c.op("set config %s to %s", it->first.c_str(), Text(v).c_str());
        if (kind == it->second.kind && r.coin()) {
          SetTyped(it->second.cfg.get(), v);
          wrote(it->second, v);
        } else {
          auto st = it->second.cfg->SetConfigValue(v);
          c.check(st.ok() == (kind == it->second.kind), "settype", "SetConfigValue of kind %d into kind %d returned %d", kind, it->second.kind, st.ok());
          if (st.ok()) wrote(it->second, v);
          else c.ev("wrong_type_refused");
        }
        c.ev("writes");
        break;
      }
      case 1: case 2: {  // import a proto tree derived from the hierarchy with noise
        bool bad = false;
        std::vector<std::tuple<Cfg*, ConfigValue>> expect;
        std::function<void(Comp*, ComponentData*)> build = [&](Comp* q, ComponentData* d) {
          d->set_name(q->comp->component_name());
          int m = r.below(5);
          for (int j = 0; j < m; ++j) {
            auto* e = d->add_configuration();
            std::string nm = r.pick(names);
            auto it = q->cfg.find(nm);
            bool ok_type = r.chance(14, 15);
            int kind = it != q->cfg.end() && ok_type ? it->second.kind : (int)r.below(6);
            ConfigValue v = RandomValue(r, kind);
            if (!r.chance(1, 40)) e->set_name(nm);
            else { bad = true; continue; }
            if (r.chance(1, 40)) { if (it != q->cfg.end()) bad = true; continue; }  // no value
            Fill(e, v);
            if (it == q->cfg.end()) { c.ev("unknown_entries"); continue; }
            if (kind != it->second.kind) bad = true;
            expect.push_back({&it->second, v});
          }
          for (auto& [nm, ch] : q->child) {
            if (r.chance(1, 6)) { auto* cd = d->add_component_data(); cd->set_name("nobody"); cd->add_configuration(); c.ev("unknown_children"); }
            if (r.chance(1, 4)) continue;
            auto* cd = d->add_component_data();
            build(ch, cd);
            if (r.chance(1, 40)) { cd->clear_name(); bad = true; }
          }
          if (r.chance(1, 6)) { auto* cd = d->add_component_data(); cd->set_name("nobody"); cd->add_configuration(); }
        };
        ComponentData d;
        build(k, &d);
        if (r.chance(1, 12)) { bad = true; if (r.coin()) d.set_name("zzz"); else d.clear_name(); expect.clear(); }
        c.op("import into %s%s", k->comp->component_name().c_str(), bad ? " (malformed)" : "");
        auto st = k->comp->Import(d);
        c.check(st.ok() == !bad, "import", "Import of a %s description returned %d", bad ? "malformed" : "good", st.ok());
        if (bad) {
          c.ev("malformed_refused");
          // parts before the malformed entry may have been taken over: resynchronise, but nothing else may change
          for (auto& q : all)
            for (auto& [nm, g] : q->cfg) {
              std::string now = Text(g.cfg->GetConfigValue());
              bool allowed = g.known ? now == g.value : true;
              for (auto& [t, v] : expect) if (t == &g && Text(v) == now) allowed = true;
              c.check(allowed, "partial", "config %s took the value %s from nowhere", nm.c_str(), now.c_str());
              if (g.seen != g.writes) { g.value = now; g.known = true; g.set = true; }
              g.writes = g.seen;
            }
        } else {
          for (auto& [g, v] : expect) wrote(*g, v);
          c.ev("imports");
          c.ev("imported_values", expect.size());
        }
        break;
      }
      case 3: {
        for (auto& q : all) q->done = 0;
        done_order.clear();
        c.op("import done at %s", k->comp->component_name().c_str());
        k->comp->ImportDone();
        std::set<Comp*> below;
        std::function<void(Comp*)> rec = [&](Comp* q) { below.insert(q); for (auto& [x, ch] : q->child) rec(ch); };
        rec(k);
        std::map<Comp*, size_t> pos;
        for (size_t i = 0; i < done_order.size(); ++i) pos[done_order[i]] = i;
        c.check(pos.size() == done_order.size(), "done", "a callback ran twice");
        for (auto& q : all) {
          c.check(below.count(q.get()) || q->done == 0, "done", "callback of a component outside the subtree ran");
          c.check(!below.count(q.get()) || q->done == q->cbs, "done", "%d callbacks of a component in the subtree ran, %d are registered", q->done, q->cbs);
          if (below.count(q.get()) && q->parent && pos.count(q.get()) && pos.count(q->parent))
            c.check(pos[q.get()] < pos[q->parent], "done_order", "a parent was notified before its child");
        }
        c.ev("import_done");
        break;
      }
      case 4: {
        if (k->child.empty() || !r.chance(1, 3)) {
          c.check(!k->comp->RemoveChildComponent("nobody").ok(), "remove", "removing an unknown child succeeded");
          break;
        }
        auto it = std::next(k->child.begin(), r.below(k->child.size()));
        c.op("remove child %s", it->first.c_str());
        c.check(k->comp->RemoveChildComponent(it->first).ok(), "remove", "RemoveChildComponent failed");
        it->second->parent = nullptr;
        k->child.erase(it);
        c.ev("removed");
        break;
      }
      default: {
        // every exported value must be known
        std::function<bool(Comp*)> known = [&](Comp* q) {
          for (auto& [x, g] : q->cfg) if (!g.known) c.ev("exports_unset");
          for (auto& [x, ch] : q->child) known(ch);
          return true;
        };
        known(k);
        ComponentData d;
        c.op("export %s", k->comp->component_name().c_str());
        c.check(k->comp->Export(&d).ok(), "export", "Export failed");
        std::function<void(Comp*, const ComponentData&)> cmp = [&](Comp* q, const ComponentData& e) {
          c.check(e.name() == q->comp->component_name(), "export_name", "exported component name %s", e.name().c_str());
          c.check((size_t)e.configuration_size() == q->cfg.size() && (size_t)e.statistics_size() == q->counters.size() && (size_t)e.component_data_size() == q->child.size(), "export_size", "exported %d/%d/%d entries", e.configuration_size(), e.statistics_size(), e.component_data_size());
          int i = 0;
          for (auto& [nm, g] : q->cfg) {
            auto& en = e.configuration(i++);
            c.check(en.name() == nm, "export_order", "configuration entry %s where %s was expected", en.name().c_str(), nm.c_str());
            if (g.known) c.check(Text(en) == g.value, "export_value", "configuration %s exported as %s, is %s", nm.c_str(), Text(en).c_str(), g.value.c_str());
            else c.check(Text(en)[0] == Text(g.cfg->GetConfigValue())[0], "export_value", "configuration %s exported with another type", nm.c_str());
          }
          i = 0;
          for (auto& [nm, t] : q->counters) {
            auto& en = e.statistics(i++);
            c.check(en.name() == nm && Text(en) == t, "export_counter", "counter %s exported as %s=%s, is %s", nm.c_str(), en.name().c_str(), Text(en).c_str(), t.c_str());
            c.check(en.about() == q->about[nm] && en.has_about() == !q->about[nm].empty(), "export_about", "about text of %s", nm.c_str());
          }
          i = 0;
          for (auto& [nm, ch] : q->child) cmp(ch, e.component_data(i++));
        };
        cmp(k, d);
        // importing the export changes nothing
        if (r.coin()) {
          c.check(k->comp->Import(d).ok(), "reimport", "the exported description cannot be imported");
          std::function<void(Comp*)> mark = [&](Comp* q) { for (auto& [x, g] : q->cfg) { g.set = true; ++g.writes; } for (auto& [x, ch] : q->child) mark(ch); };
          mark(k);
          c.ev("reimports");
        }
        c.ev("exports");
        c.nontrivial();
      }
    }
    check_all();
  }
}

namespace {
template <typename T>
struct Lst : CounterValueSetInterface<T> {
  std::vector<T> got;
  CounterValueOutputBase<T>* of = nullptr;  // the counter listened to
  int stale = 0;                            // notifications before the counter had the value
  void SetValue(const T& v) override {
    got.push_back(v);
    if (of && of->GetValue() != v) ++stale;
  }
};
template <typename T>
T RV(vh::Rng& r) {
  if constexpr (std::is_same_v<T, double>) return (double)(int64_t)r.range(-100000, 100000) / 4;
  else if constexpr (std::is_same_v<T, int64_t>) return r.range(-(1ll << 40), 1ll << 40);
  else return (T)r.val();
}
template <typename T>
void Counters(vh::Case& c) {
  auto& r = c.rng;
  T m = r.coin() ? RV<T>(r) : T();
  SimpleCounter<T> k("k", "about", m);
  std::vector<std::unique_ptr<Lst<T>>> ls;
  std::vector<std::vector<T>> want;
  // chain: a function counter listening to k keeps the maximum, and a second counter follows it
  int fcalls = 0;
  FunctionCounter<T> mx("max", m, [&](const T& in, T* out) { ++fcalls; if (in > mx.GetValue()) { *out = in; return true; } return false; });
  T mmx = m;
  SimpleCounter<T> follow("f");
  T mfollow = T();
  mx.AddListener(&follow);
  k.AddListener(&mx);
  bool ek = true, emx = true, ef = true;
  int mcalls = 0;
  auto model = [&](T v) {
    m = v;
    for (size_t i = 0; i < want.size(); ++i) want[i].push_back(v);
    if (emx) {
      ++mcalls;
      if (v > mmx) { mmx = v; if (ef) mfollow = v; }
    }
  };
  int steps = (int)r.range(5, 60);
  size_t max_ls = r.chance(1, 8) ? 40 : 3;
  for (int s = 0; s < steps; ++s) {
    T v = RV<T>(r);
    switch (r.below(7)) {
      case 0: case 1: c.op("increment"); k.Increment(v); if (ek) model(m + v); c.ev("increments"); break;
      case 2: c.op("decrement"); k.Decrement(v); if (ek) model(m - v); c.ev("decrements"); break;
      case 3: c.op("set"); k.SetValue(v); if (ek) model(v); c.ev("sets"); break;
      case 4: ek = r.chance(2, 3); c.op("enable %d", ek); k.SetIsEnabled(ek); if (!ek) c.ev("disabled"); break;
      case 5: if (r.coin()) { emx = r.coin(); mx.SetIsEnabled(emx); } else { ef = r.coin(); follow.SetIsEnabled(ef); } break;
      default:
        if (ls.size() > max_ls) break;
        ls.push_back(std::make_unique<Lst<T>>());
        want.push_back({});
        ls.back()->of = &k;
        k.AddListener(ls.back().get());
        c.ev("listeners");
    }
    c.check(k.GetValue() == m && std::get<T>(k.GetCounterValue()) == m, "counter", "counter value");
    c.check(k.ToString() == absl::StrCat(m), "counter_text", "counter text %s", k.ToString().c_str());
    c.check(k.IsEnabled() == ek && k.IsInitialized(), "enabled", "enabled");
    c.check(mx.GetValue() == mmx && fcalls == mcalls, "function_counter", "function counter value or calls (%d, expected %d)", fcalls, mcalls);
    c.check(follow.GetValue() == mfollow, "follow", "chained counter");
    for (auto& l : ls) c.check(l->stale == 0, "listener", "a listener was told a value the counter did not have");
    for (size_t i = 0; i < ls.size(); ++i) c.check(ls[i]->got == want[i], "listener", "listener %zu saw %zu values, expected %zu", i, ls[i]->got.size(), want[i].size());
  }
  c.nontrivial();
}
}  // namespace
// A function counter without a function never updates; a function set later decides from then on.
VH_SCENARIO(C15, late_function, 600, 20000) {
  auto& r = c.rng;
  int64_t m = r.coin() ? (int64_t)r.val() : 0;
  auto k = m == 0 && r.coin() ? std::make_unique<FunctionCounter<uint64_t, int64_t>>("k") : std::make_unique<FunctionCounter<uint64_t, int64_t>>("k", m);
  Lst<int64_t> l;
  k->AddListener(&l);
  std::vector<int64_t> want;
  int64_t mul = 0, calls = 0, mcalls = 0;
  uint64_t odd = 0;
  bool on = true;
  for (int i = (int)r.range(4, 30); i > 0; --i) {
    switch (r.below(5)) {
      case 0: {
        mul = r.range(1, 9);
        odd = r.below(2);
        int64_t f = mul;
        uint64_t o = odd;
        c.op("function *%ld for %% 2 == %lu", (long)f, (unsigned long)o);
        k->SetFunction([f, o, &calls](const uint64_t& in, int64_t* out) { ++calls; *out = (int64_t)(in * (uint64_t)f); return in % 2 == o; });
        c.ev("late_functions");
        break;
      }
      case 1: on = r.chance(2, 3); k->SetIsEnabled(on); c.op("enable %d", on); break;
      default: {
        uint64_t v = r.val();
        c.op("value %lu", (unsigned long)v);
        k->SetValue(v);
        if (on && mul) {
          ++mcalls;
          if (v % 2 == odd) { m = (int64_t)(v * (uint64_t)mul); want.push_back(m); }
        }
        c.ev("function_values");
      }
    }
    c.check(k->GetValue() == m && calls == mcalls, "late_function", "function counter is %ld after %ld calls, expected %ld after %ld", (long)k->GetValue(), (long)calls, (long)m, (long)mcalls);
    c.check(l.got == want, "listener", "listener of the function counter saw %zu values, expected %zu", l.got.size(), want.size());
  }
  c.nontrivial();
}

// A configuration entry takes a value only from a description of its own name and kind.
VH_SCENARIO(C15, config_import, 600, 20000) {
  auto& r = c.rng;
  std::string nm = r.ident();
  Config<int64_t> k(nm);
  int calls = 0, mcalls = 0;
  k.AddValueWrittenCallback([&] { ++calls; });
  bool has = false;
  int64_t m = 0;
  for (int i = 0; i < 12; ++i) {
    mpact::sim::proto::ComponentValueEntry e;
    bool ok = true;
    int64_t v = (int64_t)r.val();
    int mode = (int)r.below(6);
    if (mode == 0) ok = false;                                              // no name
    else if (mode == 1) { e.set_name(nm + "x"); ok = false; }
    else if (mode == 2) { e.set_name(""); ok = nm.empty(); }
    else e.set_name(nm);
    int kind = (int)r.below(6);
    if (kind == 0) ok = false;                                              // no value
    else if (kind == 1) { e.set_uint64_value((uint64_t)v); ok = false; }
    else if (kind == 2) { e.set_string_value(std::to_string(v)); ok = false; }
    else e.set_sint64_value(v);
    c.op("import name mode %d value kind %d", mode, kind);
    bool got = k.Import(&e).ok();
    c.check(got == ok, "config_import", "import (name mode %d, value kind %d) returned %d", mode, kind, got);
    if (ok) { m = v; has = true; ++mcalls; c.ev("config_imports"); } else c.ev("refused_imports");
    c.check(k.HasConfigValue() == has && (!has || k.GetValue() == m) && calls == mcalls, "config_import", "entry after an import: value %ld calls %d, expected %ld, %d", (long)k.GetValue(), calls, (long)m, mcalls);
  }
  c.check(!k.Import(nullptr).ok(), "config_import", "a null entry was imported");
  c.nontrivial();
}
VH_SCENARIO(C15, counters, 3000, 100000) {
  switch (c.rng.below(3)) {
    case 0: Counters<uint64_t>(c); break;
    case 1: Counters<int64_t>(c); break;
    default: Counters<double>(c);
  }
}
