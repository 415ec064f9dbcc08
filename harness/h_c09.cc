// C09: naming and the single resource registry of the description compiler.
#include <cctype>

#include "mpact/sim/decoder/format_name.h"
#include "mpact/sim/decoder/resource.h"
#include "vh.h"

using namespace mpact::sim::machine_description::instruction_set;

namespace {
std::string RefPascal(const std::string& n) {
  // Each run between underscores starts with an upper case letter, the rest is kept.
  std::string o;
  size_t i = 0;
  while (i < n.size()) {
    if (n[i] == '_') { ++i; continue; }
    size_t b = i;
    while (i < n.size() && n[i] != '_') ++i;
    std::string w = n.substr(b, i - b);
    w[0] = (char)toupper((unsigned char)w[0]);
    o += w;
  }
  return o;
}
std::string RefSnake(const std::string& n) {
  std::string o;
  for (size_t i = 0; i < n.size(); ++i) {
    if (i && isupper((unsigned char)n[i])) o += '_';
    o += (char)tolower((unsigned char)n[i]);
  }
  return o;
}
std::string RefGuard(const std::string& n) {
  std::string o;
  for (char ch : n) o += (ch == '/' || ch == '.') ? '_' : (char)toupper((unsigned char)ch);
  return o;
}
std::string Name(vh::Rng& r) {
  static const char al[] = "abcxyzABCXYZ019___";
  std::string s;
  int n = (int)r.range(0, 14);
  for (int i = 0; i < n; ++i) s += al[r.below(sizeof(al) - 1)];
  return s;
}
}  // namespace

VH_SCENARIO(C09, names, 8000, 300000) {
  std::string n = Name(c.rng);
  c.op("name '%s'", n.c_str());
  c.check(ToPascalCase(n) == RefPascal(n), "pascal", "ToPascalCase('%s') = '%s', expected '%s'", n.c_str(), ToPascalCase(n).c_str(), RefPascal(n).c_str());
  c.check(ToSnakeCase(n) == RefSnake(n), "snake", "ToSnakeCase('%s') = '%s', expected '%s'", n.c_str(), ToSnakeCase(n).c_str(), RefSnake(n).c_str());
  std::string lower;
  for (char ch : n) lower += (char)tolower((unsigned char)ch);
  c.check(ToLowerCase(n) == lower, "lower", "ToLowerCase('%s') = '%s'", n.c_str(), ToLowerCase(n).c_str());
  std::string path = n + "/" + Name(c.rng) + "." + (c.rng.coin() ? "h" : "inc");
  c.check(ToHeaderGuard(path) == RefGuard(path), "guard", "ToHeaderGuard('%s') = '%s'", path.c_str(), ToHeaderGuard(path).c_str());
  c.check(Indent(n) == std::string(n.size(), ' '), "indent", "Indent(text)");
  int k = (int)c.rng.below(40);
  c.check(Indent(k) == std::string(k, ' '), "indent", "Indent(%d)", k);
  c.ev("names");
  if (n.size() > 2) c.nontrivial();
}
// Distinct snake_case identifiers (lower case words joined by single underscores, words
// starting with a letter) stay distinct as generated type names.
VH_SCENARIO(C09, injective, 300, 5000) {
  std::map<std::string, std::string> seen;
  for (int i = 0; i < 200; ++i) {
    std::string n;
    int w = (int)c.rng.range(1, 3);
    for (int k = 0; k < w; ++k) {
      if (k) n += '_';
      int len = (int)c.rng.range(1, 3);
      for (int j = 0; j < len; ++j) n += (char)('a' + c.rng.below(3));
    }
    auto p = ToPascalCase(n);
    auto it = seen.find(p);
    c.check(it == seen.end() || it->second == n, "collision", "'%s' and '%s' both become '%s'", n.c_str(), it == seen.end() ? "" : it->second.c_str(), p.c_str());
    seen[p] = n;
    c.check(ToSnakeCase(p) == n, "roundtrip", "'%s' -> '%s' -> '%s'", n.c_str(), p.c_str(), ToSnakeCase(p).c_str());
    if (i < 5) c.op("%s -> %s", n.c_str(), p.c_str());
    c.ev("roundtrips");
  }
  c.nontrivial();
}
VH_SCENARIO(C09, registry, 3000, 100000) {
  ResourceFactory f;
  std::map<std::string, Resource*> model;
  struct Fl { bool s = true, m = false, a = false; };
  std::map<std::string, Fl> flags;
  int steps = (int)c.rng.range(5, 60);
  for (int i = 0; i < steps; ++i) {
    std::string n = c.rng.chance(1, 2) ? std::string(1, (char)('a' + c.rng.below(6))) : Name(c.rng);
    if (c.rng.chance(1, 8)) n = c.rng.coin() ? "gp_reg" : "gp_Reg";
    bool known = model.count(n);
    if (c.rng.coin()) {
      c.op("create '%s'", n.c_str());
      auto r = f.CreateResource(n);
      c.check(r.ok() == !known, "create", "CreateResource('%s') ok=%d, known=%d", n.c_str(), r.ok(), known);
      c.ev(known ? "duplicate_refused" : "created");
      if (r.ok()) model[n] = r.value();
    } else {
      c.op("get '%s'", n.c_str());
      auto* r = f.GetOrInsertResource(n);
      c.check(r != nullptr, "get", "GetOrInsertResource returned null");
      if (known) c.check(r == model[n], "identity", "'%s' resolved to another object", n.c_str());
      for (auto& [k, v] : model)
        if (k != n) c.check(v != r, "identity", "'%s' and '%s' share one resource", k.c_str(), n.c_str());
      model[n] = r;
      c.ev(known ? "resolved" : "inserted");
    }
    Resource* r = model[n];
    c.check(r->name() == n && r->pascal_name() == RefPascal(n), "name", "resource name '%s' / '%s'", r->name().c_str(), r->pascal_name().c_str());
    if (!flags.count(n)) {
      c.check(r->is_simple() && !r->is_multi_valued() && !r->is_array(), "defaults", "new resource has wrong attributes");
      flags[n];
    }
    switch (c.rng.below(4)) {
      case 0: flags[n].s = c.rng.coin(); r->set_is_simple(flags[n].s); break;
      case 1: flags[n].m = c.rng.coin(); r->set_is_multi_valued(flags[n].m); break;
      case 2: flags[n].a = c.rng.coin(); r->set_is_array(flags[n].a); break;
    }
    c.check(f.resource_map().size() == model.size(), "registry", "registry has %zu resources, expected %zu", f.resource_map().size(), model.size());
    for (auto& [k, v] : f.resource_map()) {
      c.check(model.count(k) && model[k] == v, "registry", "registry entry '%s' is wrong", k.c_str());
      c.check(v->is_simple() == flags[k].s && v->is_multi_valued() == flags[k].m && v->is_array() == flags[k].a, "attributes", "attributes of '%s' changed", k.c_str());
    }
  }
  if (model.size() > 2) c.nontrivial();
  c.seen(model.size() * 100 + steps);
}
