// Random descriptions of protobuf encoded instructions, with a model of what they mean (C37, C38).
#pragma once
#include <google/protobuf/struct.pb.h>

#include <cmath>
#include <limits>
#include <memory>

#include "bin_rig.h"
#include "mpact/sim/decoder/proto_constraint_expression.h"
#include "mpact/sim/decoder/proto_constraint_value_set.h"
#include "mpact/sim/decoder/proto_format_visitor.h"
#include "mpact/sim/decoder/proto_instruction_encoding.h"

using std::map;
using std::set;
using std::string;
using std::to_string;
using std::vector;
namespace pf = mpact::sim::decoder::proto_fmt;

namespace {

enum Kind { kI32, kI64, kU32, kU64, kBool, kEnum, kMsg };
const char* kKindName[] = {"int32", "int64", "uint32", "uint64", "bool", "", ""};

struct MsgT;
struct FieldT {
  string name;
  Kind kind = kI32;
  int num = 0;
  int oneof = -1;
  bool optional = false;
  MsgT* msg = nullptr;     // of kMsg
  int en = -1;             // of kEnum
  MsgT* owner = nullptr;
  int style = 0;           // of literals
  bool scalar() const { return kind != kMsg; }
};
struct MsgT {
  string name, full;
  vector<std::unique_ptr<FieldT>> fields;
  vector<string> oneofs;
  FieldT* from = nullptr;  // the only field of this type
  int nested_in_root = 0;
};
struct EnumT {
  string name;
  vector<std::pair<string, int>> values;
  bool in_root = false;
};
struct Value {  // a message
  map<const FieldT*, int64_t> v;
  map<const FieldT*, std::unique_ptr<Value>> m;
};
struct ConT {
  const FieldT* f = nullptr;
  string op;  // empty: HAS
  int64_t v = 0;
};
struct SetT {
  string name;
  const FieldT* f = nullptr;
  bool has_def = false;
  int64_t def = 0;
};
struct InstT {
  string name;
  vector<ConT> cons;
  map<string, SetT> setters;
  vector<string> refs;
  int group = 0;
  vector<SetT> local;
};
struct GroupT {
  string name;
  vector<string> children;  // names, if a parent
  MsgT* root = nullptr;
  vector<InstT> insts;
  map<string, vector<SetT>> setter_groups;
  bool defs_in_include = false;
};
struct DescT {
  string id, package;
  vector<EnumT> enums;
  vector<std::unique_ptr<MsgT>> msgs;
  vector<GroupT> groups;
  map<string, int> opnum;
  vector<string> setter_names;
  map<string, int> setter_kind;
  string proto, text, include;
};

// Oneof members on the way to the field, outermost first, with the field itself.
vector<const FieldT*> Chain(const FieldT* f) {
  vector<const FieldT*> c;
  for (; f; f = f->owner->from) c.insert(c.begin(), f);
  return c;
}
string Path(const FieldT* f) {
  string s;
  for (auto* x : Chain(f)) s += (s.empty() ? "" : ".") + x->name;
  return s;
}
using Key = std::pair<const MsgT*, int>;
using State = map<Key, const FieldT*>;  // members the oneofs must have
bool Compatible(const State& st, const FieldT* f) {
  for (auto* x : Chain(f)) {
    if (x->oneof < 0) continue;
    auto it = st.find({x->owner, x->oneof});
    if (it != st.end() && it->second != x) return false;
  }
  return true;
}
void Require(State& st, const FieldT* f) {
  for (auto* x : Chain(f))
    if (x->oneof >= 0) st[{x->owner, x->oneof}] = x;
}

const Value* Holder(const Value& top, const FieldT* f) {  // message with field f, or null
  const Value* v = &top;
  auto ch = Chain(f);
  for (size_t i = 0; i + 1 < ch.size(); ++i) {
    auto it = v->m.find(ch[i]);
    if (it == v->m.end()) return nullptr;
    v = it->second.get();
  }
  return v;
}
bool Has(const Value& top, const FieldT* f) {
  const Value* v = Holder(top, f);
  if (!v) return false;
  return f->kind == kMsg ? v->m.count(f) > 0 : v->v.count(f) > 0;
}
int64_t Get(const Value& top, const FieldT* f) {
  const Value* v = Holder(top, f);
  if (!v) return 0;
  auto it = v->v.find(f);
  return it == v->v.end() ? 0 : it->second;
}
bool OneofsHold(const Value& top, const FieldT* f) {
  for (auto* x : Chain(f))
    if (x->oneof >= 0 && !Has(top, x)) return false;
  return true;
}
bool Cmp(const FieldT* f, int64_t a, const string& op, int64_t b) {
  bool lt = f->kind == kU64 ? (uint64_t)a < (uint64_t)b : a < b;
  if (op == "==") return a == b;
  if (op == "!=") return a != b;
  if (op == "<") return lt;
  if (op == "<=") return lt || a == b;
  if (op == ">") return !lt && a != b;
  return !lt;
}
bool HoldsC(const Value& top, const ConT& k) {
  if (!OneofsHold(top, k.f)) return false;
  if (k.op.empty()) return Has(top, k.f);
  return Cmp(k.f, Get(top, k.f), k.op, k.v);
}

int64_t Fit(Kind k, int64_t v) {
  switch (k) {
    case kI32: case kEnum: return (int32_t)v;
    case kU32: return (uint32_t)v;
    case kBool: return v & 1;
    default: return v;
  }
}

// Writing messages.
Value* Holder(Value& top, const FieldT* f) {
  Value* v = &top;
  auto ch = Chain(f);
  for (size_t i = 0; i + 1 < ch.size(); ++i) {
    if (ch[i]->oneof >= 0)
      for (auto& o : ch[i]->owner->fields)
        if (o->oneof == ch[i]->oneof && o.get() != ch[i]) v->v.erase(o.get()), v->m.erase(o.get());
    auto& p = v->m[ch[i]];
    if (!p) p.reset(new Value);
    v = p.get();
  }
  return v;
}
void SetF(Value& top, const FieldT* f, int64_t x) {
  Value* v = Holder(top, f);
  if (f->oneof >= 0)
    for (auto& o : f->owner->fields)
      if (o->oneof == f->oneof && o.get() != f) v->v.erase(o.get()), v->m.erase(o.get());
  if (f->kind == kMsg) {
    if (!v->m[f]) v->m[f].reset(new Value);
  } else {
    v->v[f] = Fit(f->kind, x);
  }
}
void Varint(string& o, uint64_t v) {
  while (v >= 128) {
    o += (char)(v | 128);
    v >>= 7;
  }
  o += (char)v;
}
string Wire(const Value& v) {
  string o;
  for (auto& [f, x] : v.v) {
    Varint(o, f->num << 3);
    Varint(o, (uint64_t)x);
  }
  for (auto& [f, m] : v.m) {
    Varint(o, f->num << 3 | 2);
    string s = Wire(*m);
    Varint(o, s.size());
    o += s;
  }
  return o;
}
string ShowV(const Value& v) {
  string o;
  for (auto& [f, x] : v.v) o += f->name + ":" + to_string(x) + " ";
  for (auto& [f, m] : v.m) o += f->name + "{" + ShowV(*m) + "} ";
  return o;
}

struct Maker {
  vh::Rng& r;
  DescT& d;
  int names = 0;
  string Fresh() { return r.pick(bin::Words()) + "_" + string(1, (char)('a' + names / 26 % 26)) + string(1, (char)('a' + names++ % 26)); }

  MsgT* NewMsg(FieldT* from, int depth, bool root) {
    d.msgs.emplace_back(new MsgT);
    MsgT* m = d.msgs.back().get();
    m->from = from;
    m->name = string(r.coin() ? "M" : "Msg") + (char)('A' + d.msgs.size() / 26 % 26) + (char)('a' + d.msgs.size() % 26);
    m->full = d.package + "." + m->name;
    int num = (int)r.range(1, 6);
    auto add = [&](Kind k, int oneof) {
      m->fields.emplace_back(new FieldT);
      FieldT* f = m->fields.back().get();
      f->name = Fresh();
      f->kind = k;
      f->num = num;
      num += r.chance(1, 5) ? (int)r.range(2, 40) : 1;
      f->oneof = oneof;
      f->owner = m;
      f->style = (int)r.below(3);
      if (k == kEnum) f->en = (int)r.below(d.enums.size());
      return f;
    };
    auto scalar = [&]() -> Kind {
      static const Kind ks[] = {kI32, kI64, kU32, kU64, kBool, kEnum, kEnum, kU32};
      return ks[r.below(8)];
    };
    if (root) add(kEnum, -1);
    int n = (int)r.range(root ? 1 : 1, root ? 4 : 4);
    for (int i = 0; i < n; ++i) {
      FieldT* f = add(scalar(), -1);
      if (r.chance(1, 4)) f->optional = true;
    }
    if (depth < 2) {
      int no = (int)r.below(root ? 3 : 2);
      if (root && no == 0 && r.coin()) no = 1;
      for (int o = 0; o < no; ++o) {
        m->oneofs.push_back(Fresh());
        int k = (int)r.range(1, 5);
        for (int i = 0; i < k; ++i) {
          if (r.chance(1, 3)) {
            add(scalar(), o);
          } else {
            FieldT* f = add(kMsg, o);
            f->msg = NewMsg(f, depth + 1, false);
          }
        }
      }
      if (r.chance(1, 3)) {
        FieldT* f = add(kMsg, -1);
        f->msg = NewMsg(f, depth + 1, false);
      }
    }
    return m;
  }
  void All(MsgT* m, vector<FieldT*>& out) {
    for (auto& f : m->fields) {
      out.push_back(f.get());
      if (f->msg) All(f->msg, out);
    }
  }
  // Largest literal for the field.
  int64_t Limit(const FieldT* f) {
    if (f->kind == kBool) return 1;
    if (f->kind == kI32 || f->kind == kEnum) return INT32_MAX;
    if (f->style == 2) return f->kind == kU32 ? (int64_t)UINT32_MAX : INT64_MAX;
    return INT32_MAX;
  }
  // n distinct increasing values
  vector<int64_t> Values(const FieldT* f, int n) {
    set<int64_t> s;
    if (f->kind == kEnum) {
      auto& e = d.enums[f->en];
      set<int64_t> have;
      for (auto& [nm, v] : e.values) have.insert(v);
      vector<int64_t> hv(have.begin(), have.end());
      for (int tries = 0; (int)s.size() < n && tries < 60; ++tries) s.insert(r.pick(hv));
      return {s.begin(), s.end()};
    }
    int64_t lim = Limit(f), base = r.chance(1, 3) ? 0 : (int64_t)r.below(30);
    if (r.chance(1, 5)) base = lim - 40;
    int mode = (int)r.below(3);
    for (int tries = 0; (int)s.size() < n && tries < 100; ++tries) {
      int64_t v;
      if (mode == 0) v = (int64_t)((uint64_t)base + s.size());
      else if (mode == 1) v = (int64_t)((uint64_t)base + r.below(n + 2));
      else v = r.coin() ? (int64_t)(r.next() >> r.range(1, 63)) : (int64_t)((uint64_t)base + r.below(100));
      if (v < 0 || v > lim) continue;
      s.insert(v);
    }
    return {s.begin(), s.end()};
  }
  void Split(vector<FieldT*>& fields, vector<ConT> cons, State st, set<const FieldT*> used, int n, vector<InstT>& out) {
    auto leaf = [&] {
      InstT x;
      for (int k = (int)r.below(3), guard = 0; k > 0 || (cons.empty() && guard < 200); --k, ++guard) {
        FieldT* f = r.pick(fields);
        if (used.count(f) || !Compatible(st, f)) continue;
        bool has = f->kind == kMsg || f->optional || (f->oneof >= 0 && r.coin());
        if (!has && f->optional) continue;
        ConT q;
        q.f = f;
        if (!has) {
          q.op = f->kind == kBool ? r.pick(vector<string>{"==", "!="}) : r.pick(vector<string>{"==", "!=", "<", "<=", ">", ">="});
          auto v = Values(f, 1);
          if (v.empty()) continue;
          q.v = v[0];
        }
        used.insert(f);
        Require(st, f);
        cons.push_back(q);
      }
      if (cons.empty()) {  // an instruction has at least one
        ConT q;
        q.f = fields[0];
        if (q.f->kind != kMsg && !q.f->optional) q.op = "==", q.v = 0;
        if (q.f->kind == kEnum) q.v = Values(q.f, 1).at(0);
        cons.push_back(q);
      }
      x.cons = cons;
      // Each instruction lists its constraints in its own order.
      for (size_t i = 1; i < x.cons.size(); ++i) std::swap(x.cons[i], x.cons[r.below(i + 1)]);
      out.push_back(x);
    };
    if (n <= 1) return leaf();
    for (int tries = 0; tries < 30; ++tries) {
      FieldT* f = r.coin() && !cons.empty() ? r.pick(fields) : (r.chance(1, 3) ? fields[0] : r.pick(fields));
      if (used.count(f) || f->optional || !Compatible(st, f)) continue;
      vector<vector<ConT>> parts;
      State base = st;
      vector<State> states;
      if (f->oneof >= 0 && (f->kind == kMsg || r.coin())) {
        if (st.count({f->owner, f->oneof})) continue;
        vector<FieldT*> mem;
        for (auto& o : f->owner->fields)
          if (o->oneof == f->oneof) mem.push_back(o.get());
        if (mem.size() < 2) continue;
        bool clash = false;
        for (auto* o : mem) clash |= used.count(o) > 0;
        if (clash) continue;
        for (size_t i = 1; i < mem.size(); ++i) std::swap(mem[i], mem[r.below(i + 1)]);
        size_t k = std::min<size_t>({mem.size(), (size_t)n, (size_t)r.range(2, 6)});
        for (size_t i = 0; i < k; ++i) {
          ConT q;
          q.f = mem[i];
          parts.push_back({q});
          states.push_back(base);
          Require(states.back(), mem[i]);
        }
      } else if (f->kind == kMsg) {
        continue;
      } else {
        auto con = [&](const char* op, int64_t v) {
          ConT q;
          q.f = f;
          q.op = op;
          q.v = v;
          return q;
        };
        Require(base, f);
        if (f->kind == kBool) {
          if (r.coin()) parts = {{con("==", 1)}, {con("==", 0)}};
          else parts = {{con("!=", 1)}, {con("==", 1)}};
        } else if (r.chance(2, 3)) {
          auto v = Values(f, (int)r.range(2, std::min(n, 9)));
          if (v.size() < 2) continue;
          for (auto x : v) parts.push_back({con("==", x)});
        } else {
          auto v = Values(f, (int)r.range(1, 3));
          if (v.empty()) continue;
          switch (r.below(4)) {
            case 0: parts = {{con("==", v[0])}, {con("!=", v[0])}}; break;
            case 1: parts = {{con("<", v[0])}, {con("==", v[0])}, {con(">", v[0])}}; break;
            case 2: parts = {{con("<=", v[0])}, {con(">", v[0])}}; break;
            default:
              if (r.coin()) parts.push_back({con("<", v[0])});
              for (size_t i = 0; i + 1 < v.size(); ++i) parts.push_back({con(">=", v[i]), con("<", v[i + 1])});
              parts.push_back({con(">=", v.back())});
          }
          if ((int)parts.size() > n) parts.resize(n);
        }
        states.assign(parts.size(), base);
      }
      if (parts.empty()) continue;
      auto u2 = used;
      u2.insert(f);
      if (f->oneof >= 0)
        for (auto& o : f->owner->fields)
          if (o->oneof == f->oneof && parts[0][0].op.empty()) u2.insert(f);
      int left = n;
      for (size_t i = 0; i < parts.size(); ++i) {
        int share = i + 1 == parts.size() ? left : std::max<int>(1, (int)r.range(1, std::max<int>(1, left - (int)(parts.size() - i - 1))));
        left -= share;
        auto c2 = cons;
        c2.insert(c2.end(), parts[i].begin(), parts[i].end());
        auto u3 = u2;
        for (auto& q : parts[i]) u3.insert(q.f);
        Split(fields, c2, states[i], u3, share, out);
      }
      return;
    }
    leaf();
  }
  string Lit(const FieldT* f, int64_t v) {
    if (f->kind == kBool) return v ? "true" : "false";
    if (f->kind == kEnum) {
      auto& e = d.enums[f->en];
      vector<string> c;
      for (auto& [n, x] : e.values)
        if (x == v) c.push_back(n);
      return r.pick(c);
    }
    char b[64];
    string s;
    if (r.chance(1, 3)) {
      snprintf(b, sizeof b, "0x%lx", v);
      s = b;
      if (s.size() > 5 && r.chance(1, 3)) s.insert(s.size() - 2, "'");
    } else {
      s = to_string(v);
      if (s.size() > 3 && r.chance(1, 3)) s.insert(s.size() - 3, "'");
    }
    bool u = f->kind == kU32 || f->kind == kU64;
    if (f->style == 1) return s == "0" ? s = "0x0", s + (u ? "U" : "") : s + (u ? r.pick(vector<string>{"u", "U"}) : "");
    if (f->style == 2) {
      if (s == "0") s = "0x0";
      return s + (u ? (r.coin() ? "ull" : "UL") : (r.coin() ? "ll" : "L"));
    }
    return s;
  }
  string Con(const ConT& k) {
    if (k.op.empty()) return "HAS" + bin::Ws(r) + "(" + Path(k.f) + ")";
    return Path(k.f) + bin::Ws(r) + k.op + bin::Ws(r) + Lit(k.f, k.v);
  }
  void Message(MsgT* m, const string& ind, string& o) {
    o += ind + "message " + m->name + " {\n";
    for (auto& e : d.enums)
      if (e.in_root && m == d.msgs[0].get()) Enum(e, ind + "  ", o);
    for (int k = -1; k < (int)m->oneofs.size(); ++k) {
      if (k >= 0) o += ind + "  oneof " + m->oneofs[k] + " {\n";
      for (auto& f : m->fields) {
        if (f->oneof != k) continue;
        string t = f->kind == kMsg ? f->msg->name : f->kind == kEnum ? (d.enums[f->en].in_root ? d.msgs[0]->name + "." : "") + d.enums[f->en].name : kKindName[f->kind];
        if (f->kind == kI32 && f->num % 3 == 0) t = "int32";
        o += ind + "  " + (f->optional ? "optional " : "") + t + " " + f->name + " = " + to_string(f->num) + ";\n";
      }
      if (k >= 0) o += ind + "  }\n";
    }
    o += ind + "}\n";
  }
  void Enum(EnumT& e, const string& ind, string& o) {
    o += ind + "enum " + e.name + " {\n";
    for (auto& [n, v] : e.values) o += ind + "  " + n + " = " + to_string(v) + ";\n";
    o += ind + "}\n";
  }
  string Setter(const SetT& s) {
    return s.name + bin::Ws(r) + "= " + Path(s.f) + (s.has_def ? " || " + (s.f->kind == kBool ? string(s.def ? "true" : "false") : to_string(s.def)) : "") + ";";
  }
  void Make() {
    int ne = (int)r.range(1, 3);
    for (int i = 0; i < ne; ++i) {
      EnumT e;
      e.name = string("En") + (char)('A' + i);
      e.in_root = r.chance(1, 4);
      set<int> used;
      int n = (int)r.range(4, 14), mode = (int)r.below(3);
      for (int k = 0; k < n; ++k) {
        int v = k == 0 ? 0 : mode == 0 ? k : mode == 1 ? (int)r.below(40) : (r.chance(1, 6) ? -(int)r.range(1, 5) : (int)r.below(5000));
        if (!used.insert(v).second) continue;
        e.values.push_back({string("E") + (char)('A' + i) + "_" + bin::Words()[k % bin::Words().size()], v});
      }
      d.enums.push_back(e);
    }
    int nroots = r.chance(1, 3) ? 2 : 1;
    vector<MsgT*> roots;
    for (int i = 0; i < nroots; ++i) roots.push_back(NewMsg(nullptr, 0, true));
    int ng = (int)r.range(1, 2);
    if (nroots > ng) ng = nroots;
    int inst_no = 0;
    set<string> gnames;
    static const vector<vector<Kind>> sets = {{kI32, kEnum}, {kI64, kI32, kU32}, {kU32}, {kU64, kU32}, {kBool}, {kI32, kBool}, {kI32, kU32}};
    int ns = (int)r.range(1, 5);
    for (int i = 0; i < ns; ++i) {
      d.setter_names.push_back("val_" + string(1, (char)('a' + i)));
      d.setter_kind[d.setter_names.back()] = (int)r.below(sets.size());
    }
    set<string> touched;
    for (int gi = 0; gi < ng; ++gi) {
      GroupT g;
      g.name = "grp_" + string(1, (char)('a' + gi));
      g.root = roots[gi % nroots];
      vector<FieldT*> fields;
      All(g.root, fields);
      int n = r.chance(1, 8) ? 1 : (int)r.range(2, 24);
      Split(fields, {}, {}, {}, n, g.insts);
      for (size_t i = 1; i < g.insts.size(); ++i) std::swap(g.insts[i], g.insts[r.below(i + 1)]);
      auto make = [&](const State& st, bool defaults, const string& name, SetT* s) {
        auto& ks = sets[d.setter_kind[name]];
        vector<FieldT*> cand;
        for (auto* f : fields)
          if (f->scalar() && std::count(ks.begin(), ks.end(), f->kind) && Compatible(st, f)) cand.push_back(f);
        if (cand.empty()) return false;
        s->name = name;
        s->f = r.pick(cand);
        if (defaults && s->f->optional && r.chance(3, 4)) {
          bool ok = true;
          for (auto* x : Chain(s->f))
            if (x->oneof >= 0) ok &= st.count({x->owner, x->oneof}) > 0;
          if (ok || r.coin()) {
            s->has_def = true;
            s->def = s->f->kind == kBool ? r.below(2) : r.below(1000);
          }
        }
        return true;
      };
      int nsg = (int)r.below(3);
      for (int k = 0; k < nsg; ++k) {
        vector<SetT> v;
        for (auto& nm : d.setter_names) {
          SetT s;
          if (r.coin() && make({}, true, nm, &s)) v.push_back(s);
        }
        if (!v.empty()) g.setter_groups["set_" + string(1, (char)('a' + k))] = v;
      }
      int kids = r.chance(1, 3) ? (int)r.range(2, 3) : 0;
      for (int k = 0; k < kids; ++k) g.children.push_back(g.name + "_k" + string(1, (char)('a' + k)));
      for (auto& x : g.insts) {
        x.name = "ins_" + string(1, (char)('a' + inst_no / 26 % 26)) + string(1, (char)('a' + inst_no % 26)) + (r.chance(1, 6) ? to_string(inst_no) : "");
        d.opnum[x.name] = ++inst_no;
        if (kids) x.group = (int)r.below(kids);
        State st;
        for (auto& q : x.cons) Require(st, q.f);
        for (auto& [nm, v] : g.setter_groups) {
          if (!r.chance(1, 3)) continue;
          bool ok = true;
          for (auto& s : v) ok &= !x.setters.count(s.name) && Compatible(st, s.f);
          if (!ok) continue;
          x.refs.push_back(nm);
          for (auto& s : v) x.setters[s.name] = s;
        }
        for (auto& nm : d.setter_names) {
          SetT s;
          if (x.setters.count(nm) || !r.coin() || !make(st, true, nm, &s)) continue;
          x.setters[nm] = s;
          x.local.push_back(s);
        }
      }
      for (auto& [nm, v] : g.setter_groups)
        for (auto& s : v) touched.insert(s.name);
      for (auto& x : g.insts)
        for (auto& [nm, s] : x.setters) touched.insert(nm);
      d.groups.push_back(std::move(g));
    }
    d.setter_names.assign(touched.begin(), touched.end());
    // Texts.
    d.proto = "syntax = \"proto3\";\npackage " + d.package + ";\n";
    for (auto& e : d.enums)
      if (!e.in_root) Enum(e, "", d.proto);
    for (auto& m : d.msgs) Message(m.get(), "", d.proto);
    vector<string> decl;
    string dec = "decoder Dec" + d.id + " {\n";
    vector<string> attr;
    attr.push_back("  namespace " + d.id + "_ns" + (r.coin() ? "::inner" : "") + ";\n");
    attr.push_back("  opcode_enum = \"" + d.id + "_isa::Opc\";\n");
    attr.push_back("  includes {\n    #include \"" + d.id + "_enums.h\"\n  }\n");
    for (auto& g : d.groups) {
      if (g.children.empty()) attr.push_back("  " + g.name + ";\n");
      else {
        string s;
        for (auto& k : g.children) s += (s.empty() ? "" : ", ") + k;
        string m = "  " + g.name + " = {" + s + "};\n";
        if (r.chance(1, 4)) m += "  " + g.name + "_again = {" + s + "};\n";
        attr.push_back(m);
      }
    }
    for (size_t i = 1; i < attr.size(); ++i) std::swap(attr[i], attr[r.below(i + 1)]);
    for (auto& a : attr) dec += a;
    dec += r.coin() ? "};\n" : "}\n";
    decl.push_back(dec);
    map<MsgT*, string> mname;
    for (size_t i = 0; i < roots.size(); ++i) {
      auto* m = roots[i];
      switch (r.below(3)) {
        case 0: mname[m] = m->full; break;
        case 1: decl.push_back("using " + m->full + ";\n"); mname[m] = m->name; break;
        default: {
          string a = "Alias" + string(1, (char)('A' + i));
          decl.push_back("using " + a + " = " + m->full + ";\n");
          mname[m] = a;
        }
      }
    }
    for (auto& g : d.groups) {
      int parts = std::max<int>(1, (int)g.children.size());
      for (int k = 0; k < parts; ++k) {
        string t = "instruction group " + (g.children.empty() ? g.name : g.children[k]) + " : " + mname[g.root] + " {\n";
        vector<string> items;
        for (auto& [nm, v] : g.setter_groups) {
          string s = "  setter " + nm + ":\n";
          for (auto& x : v) s += "    " + Setter(x) + "\n";
          items.push_back(s);
        }
        for (auto& x : g.insts) {
          if (!g.children.empty() && x.group != k) continue;
          string s = "  " + x.name + bin::Ws(r) + ": ";
          bool first = true;
          for (auto& q : x.cons) {
            s += (first ? "" : "," + bin::Ws(r)) + Con(q);
            first = false;
          }
          s += ";\n";
          vector<string> ss = x.refs;
          for (auto& y : ss) y += ";";
          for (auto& y : x.local) ss.push_back(Setter(y));
          for (size_t i = 1; i < ss.size(); ++i) std::swap(ss[i], ss[r.below(i + 1)]);
          for (auto& y : ss) s += "    " + y + "\n";
          items.push_back(s);
        }
        for (auto& s : items) t += s;
        t += r.coin() ? "};\n" : "}\n";
        decl.push_back(t);
      }
    }
    for (size_t i = 1; i < decl.size(); ++i) std::swap(decl[i], decl[r.below(i + 1)]);
    bool inc = r.chance(1, 3);
    for (auto& x : decl) (inc && r.coin() ? d.include : d.text) += x + bin::Ws(r);
    if (!d.include.empty()) d.text = "#include \"" + d.id + "_inc.proto_fmt\"\n" + d.text;
  }
};

// Every instruction must have constraints: a group of one without any is fine too, but is decoded always.
}  // namespace

