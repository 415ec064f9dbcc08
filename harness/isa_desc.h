// Random instruction set descriptions and what the decoder generated from one must build.
#ifndef VERIF_ISA_DESC_H_
#define VERIF_ISA_DESC_H_
#include <algorithm>
#include <cctype>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/str_format.h"
#include "vh.h"

namespace isa {
using std::map;
using std::set;
using std::string;
using std::to_string;
using std::vector;
using vh::Rng;

inline string Pascal(const string& s) {
  string o;
  bool up = true;
  for (char c : s) {
    if (c == '_') {
      up = true;
      continue;
    }
    o += up ? (char)toupper(c) : c;
    up = false;
  }
  return o;
}
inline string Snake(const string& s) {
  string o;
  for (char c : s) {
    if (!o.empty() && isupper(c)) o += '_';
    o += (char)tolower(c);
  }
  return o;
}
// The values operands of that name have (the glue code has the same function).
inline uint64_t Hash(const string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  return h ^ h >> 32;
}
inline int64_t ValueOf(const string& n) {
  uint64_t h = Hash(n);
  switch (h % 4) {
    case 0: return (int64_t)(h >> 8 & 0x3ff);
    case 1: return -(int64_t)(h >> 8 & 0x3ff) - 1;
    case 2: return (int64_t)(h >> 8 & 0x7fffffff);
  }
  return (int64_t)h;
}
inline int ListLen(const string& n) { return (int)(Hash("l" + n) % 4); }
inline bool NullResource(const string& n) { return Hash("r" + n) % 5 == 0; }
inline int WildLatency(const string& n, int no) { return 1000 + (int)(Hash("w" + n) % 500) + no; }

struct Ex {
  char o = 'n';
  int64_t v = 0;
  string id;
  vector<Ex> k;
};
using Env = map<string, int64_t>;
inline int64_t Eval(const Ex& e, const Env& env) {
  switch (e.o) {
    case 'n': return e.v;
    case 'i': return env.at(e.id);
    case '+': return Eval(e.k[0], env) + Eval(e.k[1], env);
    case '*': return Eval(e.k[0], env) * Eval(e.k[1], env);
    case '/': return Eval(e.k[0], env) / Eval(e.k[1], env);
    case '-': return Eval(e.k[0], env) - Eval(e.k[1], env);
    case '~': return -Eval(e.k[0], env);
    case 'a': {
      int64_t x = Eval(e.k[0], env);
      return x < 0 ? -x : x;
    }
  }
  return 0;
}
inline string Num(Rng& r, int64_t v) {
  string s;
  switch (r.below(7)) {
    case 0: s = absl::StrFormat("0x%x", v); break;
    case 1: s = absl::StrFormat("0x%X", v); break;
    case 2: s = absl::StrFormat("0%o", v); break;
    case 3: {
      string b;
      for (int64_t x = v; x; x >>= 1) b.insert(b.begin(), (char)('0' + (x & 1)));
      s = "0b" + (b.empty() ? "0" : b);
      break;
    }
    default: s = to_string(v);
  }
  // Digit separators anywhere behind the first digit.
  size_t from = s.size() > 2 && (s[1] == 'x' || s[1] == 'b') ? 3 : 1;
  if (r.chance(1, 5) && from <= s.size() && s != "0") s.insert(r.range((int64_t)from, (int64_t)s.size()), "'");
  return s;
}
inline string Print(Rng& r, const Ex& e) {
  auto sub = [&](const Ex& x) { return x.k.empty() || x.o == 'a' ? Print(r, x) : "(" + Print(r, x) + ")"; };
  string sp = r.coin() ? " " : "";
  switch (e.o) {
    case 'n': return Num(r, e.v);
    case 'i': return e.id;
    case '~': return "-" + sub(e.k[0]);
    case 'a': return "abs(" + Print(r, e.k[0]) + ")";
  }
  return sub(e.k[0]) + sp + e.o + sp + sub(e.k[1]);
}
inline Ex N(int64_t v) {
  Ex e;
  e.v = v;
  return e;
}
inline Ex Id(const string& s) {
  Ex e;
  e.o = 'i';
  e.id = s;
  return e;
}
inline Ex Op(char o, Ex a, Ex b) {
  Ex e;
  e.o = o;
  e.k = {std::move(a), std::move(b)};
  return e;
}
inline Ex Un(char o, Ex a) {
  Ex e;
  e.o = o;
  e.k = {std::move(a)};
  return e;
}
// A small expression over the names that is never negative.
inline Ex MakeEx(Rng& r, const vector<string>& ids, int depth = 2) {
  if (depth == 0 || r.chance(2, 5)) {
    if (!ids.empty() && r.coin()) return Id(r.pick(ids));
    return N(r.chance(1, 8) ? r.below(2000) : r.below(8));
  }
  switch (r.below(5)) {
    case 0: {  // small, so that no value leaves the range of int
      Ex x = MakeEx(r, ids, 0), y = N(r.below(4));
      return r.coin() ? Op('*', x, y) : Op('*', y, x);
    }
    case 1: return Op('/', MakeEx(r, ids, depth - 1), N(1 + r.below(4)));
    case 2: return Un('a', Op('-', MakeEx(r, ids, depth - 1), MakeEx(r, ids, depth - 1)));
    case 3: return Un('a', Un('~', MakeEx(r, ids, depth - 1)));
  }
  return Op('+', MakeEx(r, ids, depth - 1), MakeEx(r, ids, depth - 1));
}

struct Opn {
  string n;
  bool arr = false, rel = false;
  int lk = 0;  // destinations: 0 default latency, 1 expression, 2 '*'
  Ex lat;
};
struct Grp {
  string pred;
  vector<Opn> s, d;
};
struct Item {
  string n;
  bool arr = false, range = false, hb = false, dots = false, he = false;
  Ex b, e;
};
struct Res {
  vector<Item> use, acq, hold;
};
struct Piece {
  string lit;      // literal text as it appears in the output
  string op;       // or an operand
  bool formatted = false, at = false, opt = false;
  char sign = 0;
  bool left = false;
  int shift = -1;
  string num;      // number format without '%'
};
using Disasm = vector<vector<Piece>>;
struct Attr {
  string n;
  bool has = false;
  Ex e;
};
struct Attrs {  // what may follow an instruction's operands
  bool hasdis = false, hassem = false, hasres = false, hasattr = false;
  Disasm dis;
  vector<int> sem;
  Res res;
  string resname;
  vector<Attr> attrs;
};
struct Inst {
  string name;
  int size = -1;
  vector<Grp> g;
  Attrs a;
};
struct Over {
  string name;
  Attrs a;
};
// What an instruction of a slot amounts to.
struct FDest {
  string n;
  bool arr, wild;
  int lat;
};
struct FGrp {
  string pred;
  vector<Opn> s;
  vector<FDest> d;
};
struct FRes {
  string n;
  bool arr;
  int b, e;
};
struct Flat {
  string name;
  int size = 1;
  vector<FGrp> g;
  Disasm dis;
  vector<int> sem;  // -1: the slot's default
  vector<FRes> use, acq;
  map<string, int> attrs;
  set<string> vague;  // attributes whose value is not settled
};
struct Slot {
  string name, text;
  bool final = false, included = false;
  vector<string> params;
  vector<std::pair<int, vector<Ex>>> bases;
  vector<std::pair<string, Ex>> consts;
  bool haslat = false, hasdef = false;
  Ex lat;
  int size = -1, instances = 1;
  bool sized = false;
  Disasm defdis;
  int defsem = -1;
  vector<Attr> defattrs;
  vector<std::pair<string, Res>> named;
  vector<Inst> own;
  vector<string> deletes;
  vector<Over> overs;
  set<int> ancestors;       // slots it inherits from, with itself
  set<string> ops;          // names of all its instructions
  set<string> attr_names;   // of this slot and what it inherits
};
struct Use {
  int slot, entry;
};
struct Desc {
  string id, name, text, include_name, include_text, second_text;
  vector<string> ns;
  unsigned version = 1;
  vector<int> widths;
  vector<std::pair<string, Ex>> globals;
  Env genv;
  vector<Slot> slots;
  vector<Use> uses;
  int nsem = 0;
  // Filled in from the above.
  vector<int> finals;
  map<int, map<string, Flat>> flat;
};

struct Gen {
  Rng& r;
  Desc& d;
  set<string> taken;  // Pascal names of instructions
  vector<string> opnames;
  string Fresh(set<string>& used, const char* prefix = "") {
    static const char* stems[] = {"add", "sub", "ld", "st", "b", "x", "mul", "f", "v", "jmp", "csr", "a", "op"};
    static const char* mids[] = {"", "_", "_i", "1", "_1", "w", "_w", "_W", "X", "_a5", "a5", "32", "_64", "__r"};
    for (;;) {
      string s = string(prefix) + stems[r.below(13)] + mids[r.below(14)];
      if (r.chance(2, 3)) s += string(r.coin() ? "_" : "") + (r.coin() ? to_string(r.below(30)) : string(1, (char)('a' + r.below(26))));
      if (r.chance(1, 12)) s = (char)toupper(s[0]) + s.substr(1);
      string p = Pascal(s);
      if (p == "None" || p == "PastMaxValue" || p.empty() || isdigit((unsigned char)p[0])) continue;
      if (used.insert(p).second) return s;
    }
  }
  vector<string> ConstNames(const Slot& s) {
    vector<string> v = s.params;
    for (auto& c : s.consts) v.push_back(c.first);
    for (auto& g : d.globals) {
      bool hidden = false;
      for (auto& x : v) hidden |= x == g.first;
      if (!hidden) v.push_back(g.first);
    }
    return v;
  }
  string Lit(bool first) {
    static const char* ls[] = {", ", " ", "(", ")", "[", "]", " + ", "-", ".x", "#", "!", "$", "*", "=>", "|", "{", "}", "^ ", "'", "/", ",", ";", "<", "&", "~", "@", ":", " \t", "%", "\\", "\""};
    string s = ls[r.below(r.chance(1, 4) ? 31 : 28)];
    if (first && r.coin()) s = r.coin() ? "insn" : "x.y_" + to_string(r.below(9));
    if (r.chance(1, 3)) s += r.coin() ? "w" : "0x";
    return s;
  }
  string EscLit(const string& s) {  // as written in the description
    string o;
    for (char c : s) {
      if (c == '%' || c == '\\' || c == '"') o += '\\';
      else if (ispunct((unsigned char)c) && r.chance(1, 8)) o += '\\';
      o += c;
    }
    return o;
  }
  string NumFmt() {
    string s;
    if (r.coin()) s = "0";
    if (!s.empty() || r.coin()) s += to_string(r.chance(1, 3) ? r.range(10, 24) : r.range(1, 9));
    return s + "odxX"[r.below(4)];
  }
  static int Digits(const string& num) {
    size_t i = 0;
    while (i < num.size() && !isdigit((unsigned char)num[i])) ++i;
    int v = 0;
    for (; i < num.size() && isdigit((unsigned char)num[i]); ++i) v = v * 10 + (num[i] - '0');
    return v;
  }
  static int64_t Narrow(int64_t v, const string& num) {
    int w = Digits(num);
    return w == 0 ? v : w <= 2 ? (int8_t)v : w <= 4 ? (int16_t)v : w <= 8 ? (int32_t)v : v;
  }
  vector<Piece> DisStr(const vector<string>& any, const vector<string>& src) {
    vector<Piece> v;
    int n = 1 + r.below(4);
    bool lit = r.coin();
    for (int i = 0; i < n; ++i, lit = r.chance(2, 3)) {
      Piece p;
      if (any.empty() && !r.chance(1, 3)) lit = true;
      if (!v.empty() && !v.back().lit.empty()) lit = false;
      if (lit || (any.empty() && src.empty() && r.coin())) {
        if (!v.empty() && !v.back().lit.empty()) continue;
        p.lit = Lit(v.empty());
        if (!v.empty()) {
          char c = p.lit[0];
          if (isalnum((unsigned char)c) || c == '_' || c == '?') p.lit = "," + p.lit;
        }
        v.push_back(p);
        continue;
      }
      bool fmt = src.empty() ? true : r.coin();
      if (!fmt && any.empty()) fmt = true;
      if (!fmt) {
        p.op = r.pick(any);
        p.opt = r.chance(1, 10);
        v.push_back(p);
        continue;
      }
      p.formatted = true;
      if (r.chance(2, 3)) p.num = NumFmt();
      if (src.empty() || r.chance(1, 6)) {
        p.at = true;
      } else {
        p.op = r.pick(src);
        if (r.chance(1, 3)) {
          p.at = true;
          p.sign = r.coin() ? '+' : '-';
        }
        if (r.chance(1, 3)) {
          p.shift = r.below(9);
          int64_t x = Narrow(ValueOf(p.op), p.num);
          p.left = r.coin() && x >= 0 && x < (1 << 20);
        }
      }
      p.opt = r.chance(1, 12);
      v.push_back(p);
    }
    if (v.empty()) {
      Piece p;
      p.lit = "q";
      v.push_back(p);
    }
    return v;
  }
  string DisText(const vector<Piece>& v) {
    string s;
    auto sp = [&] { return string(r.chance(1, 4) ? " " : ""); };
    for (auto& p : v) {
      if (!p.lit.empty()) {
        s += EscLit(p.lit);
        continue;
      }
      if (!p.formatted) {
        s += "%" + p.op + (p.opt ? "?" : "");
        continue;
      }
      string e;
      if (p.at) e += sp() + "@" + sp();
      if (p.sign) e += string(1, p.sign) + sp();
      if (!p.op.empty()) {
        if (p.shift >= 0) e += "(" + sp() + p.op + sp() + (p.left ? "<<" : ">>") + sp() + to_string(p.shift) + sp() + ")";
        else e += p.op;
      }
      s += "%(" + e + (p.num.empty() ? "" : ":" + p.num) + ")" + (p.opt ? "?" : "");
    }
    return s;
  }
  Item MakeItem(const Slot& s, const string& n, bool arr, const vector<string>& dests, const set<string>& alldest) {
    Item it;
    it.n = n;
    it.arr = arr;
    if (r.chance(1, 3)) return it;
    it.range = true;
    auto ids = ConstNames(s);
    string ref;
    bool isdest = alldest.count(n);
    if (isdest) {
      for (auto& x : dests)
        if (x == n) ref = n;
    } else if (!dests.empty() && r.chance(1, 2)) {
      ref = r.pick(dests);
    }
    // A destination is mentioned in one of the expressions at most, under its own name.
    auto ex = [&] {
      vector<string> v = ids;
      if (!ref.empty() && std::find(v.begin(), v.end(), ref) == v.end()) {
        v.push_back(ref);
        v.push_back(ref);
      }
      return MakeEx(r, v, 1);
    };
    it.hb = r.chance(2, 3);
    if (it.hb) it.b = r.coin() ? N(0) : ex();
    it.dots = !it.hb || r.chance(3, 4);
    it.he = it.dots && r.chance(3, 4);
    if (it.he) it.e = ex();
    return it;
  }
  Res MakeRes(const Slot& s, const Inst* in) {
    Res x;
    vector<string> dests;
    set<string> alldest;
    if (in)
      for (auto& g : in->g)
        for (auto& o : g.d) alldest.insert(o.n);
    if (in)
      for (auto& n : alldest) {  // those whose first definition has an expression
        for (auto& g : in->g) {
          bool f = false;
          for (auto& o : g.d)
            if (o.n == n) {
              if (o.lk != 2) dests.push_back(n);
              f = true;
              break;
            }
          if (f) break;
        }
      }
    auto list = [&](vector<Item>& v) {
      set<string> used;
      for (int k = r.below(4); k > 0; --k) {
        string n;
        bool arr = false;
        if (r.chance(1, 6)) {
          n = "ra" + to_string(r.below(3));
          arr = true;
        } else if (in && r.coin() && !in->g[0].s.empty() && !r.pick(in->g[0].s).arr) {
          auto& o = r.pick(in->g[0].s);
          if (o.arr) continue;
          n = o.n;
        } else if (!alldest.empty() && r.coin()) {
          n = *std::next(alldest.begin(), r.below(alldest.size()));
          bool a = false;
          for (auto& g : in->g)
            for (auto& o : g.d) a |= o.n == n && o.arr;
          if (a) continue;
        } else {
          n = "unit" + to_string(r.below(4));
        }
        if (used.insert(n).second) v.push_back(MakeItem(s, n, arr, dests, alldest));
      }
    };
    list(x.use);
    list(x.acq);
    if (r.chance(1, 2)) list(x.hold);
    return x;
  }
  string ItemText(const Item& i) {
    string t = i.arr ? "[" + i.n + "]" : i.n;
    if (i.range) t += "[" + (i.hb ? Print(r, i.b) : "") + (i.dots ? (r.coin() ? " .. " : " ..") : "") + (i.he ? Print(r, i.e) : "") + "]";
    return t;
  }
  string ResText(const Res& x) {
    auto list = [&](const vector<Item>& v) {
      string t;
      for (auto& i : v) t += (t.empty() ? "" : ", ") + ItemText(i);
      return t;
    };
    string t = "{" + list(x.use);
    if (!x.acq.empty() || !x.hold.empty() || r.coin()) t += " : " + list(x.acq);
    else return t + "}";
    if (!x.hold.empty() || r.coin()) t += " : " + list(x.hold);
    return t + "}";
  }
  string AttrText(const vector<Attr>& v) {
    string t;
    for (auto& a : v) t += (t.empty() ? "" : ", ") + a.n + (a.has ? " = " + Print(r, a.e) : "");
    return "{" + t + "}";
  }
  vector<Attr> MakeAttrs(const vector<string>& ids, int max) {
    vector<Attr> v;
    set<string> used;
    for (int k = 1 + r.below(max); k > 0; --k) {
      Attr a;
      static const char* names[] = {"is_branch", "mem", "p", "Q", "w_2", "a_b"};
      a.n = names[r.below(6)];
      if (!used.insert(a.n).second) continue;
      a.has = r.chance(3, 4);
      a.e = r.chance(1, 5) ? Un('~', MakeEx(r, ids, 1)) : MakeEx(r, ids, 1);
      v.push_back(a);
    }
    return v;
  }
  string SemText(const vector<int>& v) {
    string t;
    for (int i : v) t += (t.empty() ? "" : ", ") + string("\"") + (r.coin() ? "SEM(" + to_string(i) + ")" : "&SemFn<" + to_string(i) + ">") + "\"";
    return t;
  }
  string AttrsText(const Attrs& a) {
    vector<string> parts;
    if (a.hasdis) {
      string t;
      for (auto& s : a.dis) t += (t.empty() ? "" : ", ") + string("\"") + DisText(s) + "\"";
      parts.push_back("disasm: " + t);
    }
    if (a.hassem) parts.push_back("semfunc: " + SemText(a.sem));
    if (a.hasres) parts.push_back("resources: " + (a.resname.empty() ? ResText(a.res) : a.resname));
    if (a.hasattr) parts.push_back("attributes: " + AttrText(a.attrs));
    for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
    string t;
    for (auto& p : parts) t += (t.empty() ? "" : ",\n        ") + p;
    return t;
  }
  // Operands a disassembly string may name: those ahead of any array of their list.
  static void Nameable(const Inst& in, vector<string>* any, vector<string>* src) {
    set<string> seen;
    auto add = [&](const string& n, bool ok, bool s) {
      if (!seen.insert(n).second) return;  // the first operand of a name is the one that counts
      if (!ok) return;
      any->push_back(n);
      if (s) src->push_back(n);
    };
    for (auto& g : in.g) {
      if (!g.pred.empty()) add(g.pred, true, false);
      bool arr = false;
      for (auto& o : g.s) {
        arr |= o.arr;
        add(o.n, !arr, true);
      }
      arr = false;
      for (auto& o : g.d) {
        arr |= o.arr;
        add(o.n, !arr, false);
      }
    }
  }
  Disasm MakeDisasm(const Inst& in) {
    vector<string> any, src;
    Nameable(in, &any, &src);
    Disasm dd;
    for (int k = 1 + r.below(3); k > 0; --k) dd.push_back(DisStr(any, src));
    return dd;
  }
  void MakeAttrsFor(const Slot& s, const Inst& in, Attrs& a) {
    if (r.chance(3, 4)) {
      a.hasdis = true;
      a.dis = MakeDisasm(in);
    }
    if (r.chance(3, 4)) {
      a.hassem = true;
      for (size_t k = in.g.size() + (r.chance(1, 8) ? 1 : 0); k > 0; --k) a.sem.push_back(1 + r.below(40));
    }
    if (r.chance(2, 3)) {
      a.hasres = true;
      if (!s.named.empty() && r.chance(1, 2)) {
        auto& n = r.pick(s.named);
        a.resname = n.first;
        a.res = n.second;
      } else {
        a.res = MakeRes(s, &in);
      }
    }
    if (r.chance(1, 2)) {
      a.hasattr = true;
      a.attrs = MakeAttrs(ConstNames(s), 4);
    }
  }
  Inst MakeInst(const Slot& s) {
    Inst in;
    in.name = Fresh(taken);
    if (r.chance(1, 3)) in.size = r.chance(1, 4) ? r.range(0, 70000) : r.range(1, 16);
    int ng = r.chance(1, 3) ? 1 + r.below(4) : 1;
    auto ids = ConstNames(s);
    for (int k = 0; k < ng; ++k) {
      Grp g;
      if (r.chance(1, 3)) g.pred = "p" + to_string(r.below(3));
      set<string> used;
      for (int j = r.below(4); j > 0; --j) {
        Opn o;
        o.arr = r.chance(1, 7);
        o.n = (o.arr ? "vs" : r.coin() ? "rs" : "I_imm") + to_string(r.below(4));
        if (!o.arr && r.chance(1, 8)) o.n = "rd" + to_string(r.below(3));
        o.rel = !o.arr && r.chance(1, 8);
        if (used.insert(o.n).second) g.s.push_back(o);
      }
      used.clear();
      vector<string> lats = ids;
      for (int j = r.below(4); j > 0; --j) {
        Opn o;
        o.arr = r.chance(1, 7);
        o.n = (o.arr ? "vd" : "rd") + to_string(r.below(4));
        o.rel = !o.arr && r.chance(1, 12);
        if (!used.insert(o.n).second) continue;
        o.lk = r.below(3);
        if (o.lk == 1) o.lat = MakeEx(r, lats);
        g.d.push_back(o);
        if (o.lk != 2 && r.chance(1, 4)) lats.push_back(o.n);
      }
      in.g.push_back(g);
    }
    MakeAttrsFor(s, in, in.a);
    return in;
  }
  string GrpText(const Grp& g) {
    string sp = r.coin() ? " " : "";
    auto opn = [&](const Opn& o) { return o.arr ? "[" + o.n + "]" : o.rel ? "%reloc(" + o.n + ")" : o.n; };
    string t = g.pred;
    if (g.s.empty() && g.d.empty() && r.coin()) return t;
    t += sp + ":" + sp;
    for (size_t i = 0; i < g.s.size(); ++i) t += (i ? ", " : "") + opn(g.s[i]);
    if (g.d.empty() && r.coin()) return t;
    t += " :" + sp;
    for (size_t i = 0; i < g.d.size(); ++i) {
      auto& o = g.d[i];
      t += (i ? ", " : "") + opn(o);
      if (o.lk == 1) t += "(" + Print(r, o.lat) + ")";
      if (o.lk == 2) t += "(*)";
    }
    return t;
  }
  string InstText(const Inst& in) {
    string t = in.name;
    if (in.size >= 0) t += string(r.coin() ? " " : "") + "[" + Num(r, in.size) + "]";
    t += " {";
    if (in.g.size() == 1 && r.chance(3, 4)) {
      t += GrpText(in.g[0]);
    } else {
      for (size_t i = 0; i < in.g.size(); ++i) t += string(i ? ", " : "") + "(" + GrpText(in.g[i]) + ")";
    }
    t += "}";
    string a = AttrsText(in.a);
    if (!a.empty()) t += ",\n        " + a;
    return t + ";";
  }
  // A GENERATE construct and the instructions it stands for.
  static void Subst(string& s, const map<string, string>& m) {
    for (auto& [k, v] : m) {
      string key = "$(" + k + ")";
      for (size_t p; (p = s.find(key)) != string::npos;) s.replace(p, key.size(), v);
    }
  }
  string Generated(const Slot& s, vector<Inst>* out) {
    // Variables: x is part of the name, y appears elsewhere, z is bound together with x.
    bool tuple = r.coin(), second = r.coin();
    int n = 1 + r.below(3), m = second ? 1 + r.below(3) : 1;
    vector<string> xs, ys, zs;
    set<string> px;
    while ((int)xs.size() < n) {
      string x = string(1, (char)('a' + r.below(26))) + to_string(r.below(100));
      if (px.insert(x).second) xs.push_back(x);
    }
    px.clear();
    while ((int)ys.size() < m) {
      string y = r.coin() ? to_string(r.below(40)) : string(1, (char)('A' + r.below(26)));
      if (px.insert(y).second) ys.push_back(y);
    }
    for (int i = 0; i < n; ++i) zs.push_back(r.coin() ? "." + to_string(r.below(9)) : "z" + to_string(r.below(9)));
    Inst t;
    string stem;
    for (;;) {
      stem = string(r.coin() ? "gen" : "q") + to_string(r.below(1000));
      bool clash = false;
      for (auto& x : xs)
        for (auto& y : ys) clash |= taken.count(Pascal(second ? stem + "_" + x + "_v" + y : stem + "_" + x));
      if (!clash) break;
    }
    for (auto& x : xs)
      for (auto& y : ys) taken.insert(Pascal(second ? stem + "_" + x + "_v" + y : stem + "_" + x));
    t.name = second ? stem + "_$(x)_v$(y)" : stem + "_$(x)";
    if (r.coin()) t.size = r.range(1, 12);
    Grp g;
    if (r.chance(1, 3)) g.pred = r.coin() ? "p$(x)" : "p1";
    int ns = r.below(3);
    for (int i = 0; i < ns; ++i) {
      Opn o;
      o.n = i == 0 ? (r.coin() ? "s_$(x)" : "rs0") : "rs1";
      g.s.push_back(o);
    }
    if (r.coin()) {
      Opn o;
      o.n = r.coin() ? "d_$(x)" : "rd1";
      o.lk = r.below(3);
      if (o.lk == 1) o.lat = MakeEx(r, ConstNames(s));
      g.d.push_back(o);
    }
    t.g.push_back(g);
    t.a.hasdis = true;
    vector<Piece> ps;
    auto lit = [&](const string& x) {
      Piece p;
      p.lit = x;
      ps.push_back(p);
    };
    lit("g $(x)" + string(tuple ? "<$(z)>" : "") + (second ? " $(y)," : ","));
    if (!g.s.empty()) {
      Piece p;
      p.op = g.s[0].n;
      ps.push_back(p);
      lit(";");
    }
    t.a.dis = {ps};
    t.a.hassem = true;
    t.a.sem = {(int)(1 + r.below(40))};
    if (r.coin()) {
      t.a.hasattr = true;
      t.a.attrs = MakeAttrs(ConstNames(s), 3);
    }
    // Text.
    string sp = r.coin() ? " " : "";
    string text = "GENERATE(";
    if (tuple) {
      text += "[x, z] = [";
      for (int i = 0; i < n; ++i) text += string(i ? ", " : "") + "{" + xs[i] + ", \"" + zs[i] + "\"}";
    } else {
      text += "x = [";
      for (int i = 0; i < n; ++i) text += string(i ? ", " : "") + (r.coin() ? "\"" + xs[i] + "\"" : xs[i]);
    }
    text += "]";
    if (second) {
      text += ", y = [";
      for (int i = 0; i < m; ++i) text += string(i ? "," : "") + ys[i];
      text += "]";
    }
    text += ") {\n      ";
    text += t.name + (t.size >= 0 ? "[" + to_string(t.size) + "]" : "") + sp + "{" + sp + g.pred + " : ";
    for (size_t i = 0; i < g.s.size(); ++i) text += (i ? ", " : "") + g.s[i].n;
    if (!g.d.empty()) {
      auto& o = g.d[0];
      text += " : " + o.n + (o.lk == 1 ? "(" + Print(r, o.lat) + ")" : o.lk == 2 ? "(*)" : "");
    }
    string dis;
    for (auto& p : ps) dis += p.lit.empty() ? "%" + p.op : p.lit;
    text += "}, disasm: \"" + dis + "\", semfunc: " + SemText(t.a.sem);
    if (t.a.hasattr) text += ", attributes: " + AttrText(t.a.attrs);
    text += ";\n    };";
    // The instructions.
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < m; ++j) {
        Inst x = t;
        map<string, string> mm{{"x", xs[i]}, {"z", zs[i]}, {"y", ys[j]}};
        Subst(x.name, mm);
        for (auto& gg : x.g) {
          Subst(gg.pred, mm);
          for (auto& o : gg.s) Subst(o.n, mm);
          for (auto& o : gg.d) Subst(o.n, mm);
        }
        for (auto& ds : x.a.dis)
          for (auto& p : ds) {
            Subst(p.lit, mm);
            Subst(p.op, mm);
          }
        out->push_back(x);
      }
    return text;
  }

  void MakeSlot(int idx, bool final, set<string>& slot_names) {
    Slot s;
    s.final = final;
    for (;;) {
      s.name = Fresh(slot_names, r.coin() ? "slot_" : "s");
      bool clash = false;  // namespaces and members are named after the slot
      for (auto& o : d.slots) clash |= Snake(o.name) == Snake(s.name);
      if (!clash) break;
    }
    s.ancestors = {idx};
    if (!final && r.coin())
      for (int k = 1 + r.below(2); k > 0; --k) s.params.push_back(string("t_") + (char)('a' + k));
    auto outer = ConstNames(s);
    for (int k = r.below(3); k > 0; --k) {
      auto ids = ConstNames(s);
      string n = "c" + to_string(k);
      if (r.chance(1, 6) && !d.globals.empty()) {  // hides a global
        n = r.pick(d.globals).first;
        ids.erase(std::remove(ids.begin(), ids.end(), n), ids.end());
      }
      bool dup = false;
      for (auto& c : s.consts) dup |= c.first == n;
      if (!dup) s.consts.push_back({n, Op('+', MakeEx(r, ids, 0), N(r.below(5)))});
    }
    auto ids = ConstNames(s);
    // Bases whose ancestries do not meet.
    for (int k = r.below(4); k > 0 && idx > 0; --k) {
      int b = r.below(idx);
      bool meet = false;
      for (int x : d.slots[b].ancestors) meet |= s.ancestors.count(x);
      if (meet) continue;
      vector<Ex> args;  // the slot's own constants are not known yet
      for (size_t j = 0; j < d.slots[b].params.size(); ++j) args.push_back(MakeEx(r, outer, 1));
      s.bases.push_back({b, args});
      s.ancestors.insert(d.slots[b].ancestors.begin(), d.slots[b].ancestors.end());
      s.ops.insert(d.slots[b].ops.begin(), d.slots[b].ops.end());
    }
    if (r.coin()) {
      s.haslat = true;
      s.lat = MakeEx(r, ids, 1);
    }
    if (r.coin()) s.size = r.range(1, 9);
    if (s.params.empty() && (final ? r.chance(1, 3) : r.chance(1, 6))) {
      s.sized = true;
      s.instances = 1 + r.below(4);
    }
    if (final || r.coin()) {
      s.hasdef = true;
      s.defsem = 100 + idx;
      if (r.chance(2, 3))
        for (int k = 1 + r.below(2); k > 0; --k) s.defdis.push_back(DisStr({}, {}));
    }
    if (r.chance(1, 3)) s.defattrs = MakeAttrs(ids, 3);
    for (int k = r.below(3); k > 0; --k) s.named.push_back({"res" + to_string(k), MakeRes(s, nullptr)});
    string body;
    // Inherited instructions left out or changed.
    vector<string> lines;
    set<string> touched;
    for (auto& n : set<string>(s.ops)) {
      if (r.chance(1, 8)) {
        s.deletes.push_back(n);
        s.ops.erase(n);
        lines.push_back(n + " = delete;");
      } else if (r.chance(1, 5)) {
        Over o;
        o.name = n;
        const Inst* in = Find(idx, s, n);
        Slot plain = s;  // expressions of the override are the deriving slot's
        do MakeAttrsFor(plain, *in, o.a);
        while (!o.a.hasdis && !o.a.hassem && !o.a.hasres && !o.a.hasattr);
        s.overs.push_back(o);
        lines.push_back(n + " = override, " + AttrsText(o.a) + ";");
      }
    }
    for (int k = r.below(final ? 6 : 5); k > 0; --k) {
      if (r.chance(1, 6)) {
        lines.push_back(Generated(s, &s.own));
      } else {
        s.own.push_back(MakeInst(s));
        lines.push_back(InstText(s.own.back()));
      }
    }
    for (auto& i : s.own) s.ops.insert(i.name);
    auto note = [&](const vector<Attr>& v) {
      for (auto& a : v) s.attr_names.insert(a.n);
    };
    note(s.defattrs);
    for (auto& i : s.own) note(i.a.attrs);
    for (auto& o : s.overs) note(o.a.attrs);
    for (size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[r.below(i)]);
    // Text.
    string t;
    if (!s.params.empty()) {
      t += "template <";
      for (size_t i = 0; i < s.params.size(); ++i) t += (i ? ", int " : "int ") + s.params[i];
      t += ">\n";
    }
    t += "slot " + s.name;
    if (s.sized) t += "[" + Num(r, s.instances) + "]";
    for (size_t i = 0; i < s.bases.size(); ++i) {
      t += (i ? ", " : " : ") + d.slots[s.bases[i].first].name;
      auto& args = s.bases[i].second;
      for (size_t j = 0; j < args.size(); ++j) t += (j ? ", " : "<") + Print(r, args[j]);
      if (!args.empty()) t += ">";
    }
    t += " {\n";
    for (auto& c : s.consts) t += "  int " + c.first + " = " + Print(r, c.second) + ";\n";
    vector<string> decls;
    if (s.haslat) decls.push_back("default latency = " + Print(r, s.lat) + ";");
    if (s.size >= 0) decls.push_back("default size = " + Num(r, s.size) + ";");
    if (s.hasdef) {
      string dis;
      for (auto& x : s.defdis) dis += (dis.empty() ? "disasm: \"" : ", \"") + DisText(x) + "\"";
      string sem = "semfunc: \"SEM(" + to_string(s.defsem) + ")\"";
      decls.push_back("default opcode = " + (dis.empty() ? sem : r.coin() ? dis + ", " + sem : sem + ", " + dis) + ";");
    }
    if (!s.defattrs.empty()) decls.push_back("default attributes = " + AttrText(s.defattrs) + ";");
    for (auto& n : s.named) decls.push_back("resources " + n.first + " = " + ResText(n.second) + ";");
    if (r.chance(1, 4)) decls.push_back("includes { #include \"glue.h\" }");
    for (size_t i = decls.size(); i > 1; --i) std::swap(decls[i - 1], decls[r.below(i)]);
    for (auto& x : decls) t += "  " + x + "\n";
    if (!lines.empty() || r.coin()) {
      t += "  opcodes {\n";
      for (auto& x : lines) t += "    " + x + "\n";
      t += "  }\n";
    }
    s.text = t + "}\n";
    d.slots.push_back(s);
  }
  const Inst* Find(int, const Slot& s, const string& n) {
    for (auto& b : s.bases)
      for (int a : d.slots[b.first].ancestors)
        for (auto& i : d.slots[a].own)
          if (i.name == n) return &i;
    return nullptr;
  }

  void Make() {
    d.name = string(r.coin() ? "isa_" : "Isa") + string(1, (char)('a' + r.below(26))) + d.id;
    d.ns = {d.id + "n"};
    for (int k = r.below(3); k > 0; --k) d.ns.push_back(r.coin() ? "isa" : "x" + to_string(k));
    d.version = 1 + r.below(2);
    for (int k = r.below(4); k > 0; --k) {
      vector<string> ids;
      for (auto& g : d.globals) ids.push_back(g.first);
      string n = "g_" + to_string(d.globals.size());
      d.globals.push_back({n, r.chance(1, 3) ? Op('+', MakeEx(r, ids, 0), N(r.below(5))) : N(r.below(9))});
      d.genv[n] = Eval(d.globals.back().second, d.genv);
    }
    if (r.chance(2, 3))
      for (int k = r.below(4); k > 0; --k) d.widths.push_back((int)r.range(-20, 20));
    int nf = 1 + r.below(3), nb = r.below(5);
    set<string> slot_names;
    slot_names.insert(Pascal(d.name));
    vector<int> fin;
    for (int i = 0; i < nb; ++i) fin.push_back(false);
    for (int i = 0; i < nf; ++i) fin.push_back(true);
    if (r.chance(1, 4))
      for (size_t i = fin.size(); i > 1; --i) std::swap(fin[i - 1], fin[r.below(i)]);
    for (size_t i = 0; i < fin.size(); ++i) MakeSlot((int)i, fin[i], slot_names);
    for (size_t i = 0; i < fin.size(); ++i)
      if (fin[i]) d.finals.push_back((int)i);
    vector<int> order = d.finals;
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    string slots;
    for (int i : order) {
      Slot& s = d.slots[i];
      slots += " " + s.name;
      if (s.sized && r.chance(3, 4)) {
        string rs;
        vector<int> ent;
        if (r.coin()) {
          int lo = r.below(s.instances), hi = r.range(lo, s.instances - 1);
          rs = to_string(lo) + (lo == hi && r.coin() ? "" : ".." + to_string(hi));
          for (int e = lo; e <= hi; ++e) ent.push_back(e);
        } else {
          for (int e = s.instances - 1; e >= 0; --e)
            if (r.coin()) {
              rs += (rs.empty() ? "" : ", ") + to_string(e);
              ent.push_back(e);
            }
        }
        if (!ent.empty()) {
          slots += "[" + rs + "];";
          for (int e : ent) d.uses.push_back({i, e});
          continue;
        }
      }
      slots += ";";
      d.uses.push_back({i, 0});
    }
    // Put the files together.
    vector<string> decls;
    string nsd = d.ns[0];
    for (size_t i = 1; i < d.ns.size(); ++i) nsd += (r.coin() ? "::" : " :: ") + d.ns[i];
    decls.push_back("isa " + d.name + " {\n  namespace " + nsd + ";\n  slots {" + slots + " }\n}\n");
    string inc, second;
    bool have_inc = r.chance(1, 4), have_second = r.chance(1, 5);
    for (auto& s : d.slots) {
      if (have_inc && r.coin()) inc += s.text;
      else if (have_second && r.coin()) second += s.text;
      else decls.push_back(s.text);
    }
    if (!d.widths.empty()) {
      string w;
      for (int x : d.widths) w += (w.empty() ? "" : ", ") + string(x < 0 ? "-" : "") + Num(r, x < 0 ? -x : x);
      decls.push_back("disasm widths = {" + w + "};\n");
    }
    if (have_inc) {
      d.include_name = d.id + "_inc.isa";
      d.include_text = inc;
      decls.push_back("#include \"" + d.include_name + "\"\n");
    }
    d.second_text = second;
    decls.push_back("includes {\n  #include \"glue.h\"\n}\n");
    // An isa of another name is none of our business.
    if (r.chance(1, 6)) decls.push_back("isa other_" + d.name + " { namespace o; slots { nowhere; } }\n");
    for (size_t i = decls.size(); i > 1; --i) std::swap(decls[i - 1], decls[r.below(i)]);
    for (auto& g : d.globals) d.text += "int " + g.first + " = " + Print(r, g.second) + ";\n";
    for (auto& x : decls) d.text += x + (r.chance(1, 4) ? "// comment\n" : "") + (r.chance(1, 8) ? "/* more\n comment */\n" : "");
    for (int i : d.finals) {
      d.flat[i] = Flatten(i, {});
      for (auto& [n, f] : d.flat[i]) {
        for (auto& a : f.attrs)
          if (!f.vague.count(a.first)) d.slots[i].attr_names.insert(a.first);
      }
    }
  }

  Env SlotEnv(const Slot& s, const vector<int64_t>& args) {
    Env e = d.genv;
    for (size_t i = 0; i < s.params.size(); ++i) e[s.params[i]] = args[i];
    // A constant may be named like the global it is made from.
    for (auto& c : s.consts) e[c.first] = Eval(c.second, e);
    return e;
  }
  // The slot's constants and parameters hide destinations of the same name, those hide global constants.
  void Apply(const Slot& s, const Env& env, const Attrs& a, bool over, Flat& f) {
    if (a.hasdis) f.dis = a.dis;
    if (a.hassem)
      for (size_t i = 0; i < f.g.size(); ++i) f.sem[i] = a.sem[i];
    if (a.hasres) {
      Env re = env;
      map<string, FDest> first;
      for (auto& g : f.g)
        for (auto& x : g.d) first.emplace(x.n, x);
      for (auto& [n, x] : first)
        if (!x.wild && !Local(s, n)) re[n] = x.lat;
      auto conv = [&](const Item& i) {
        FRes q{i.n, i.arr, 0, 0};
        if (i.hb) q.b = (int)Eval(i.b, re);
        string dest;
        if (first.count(i.n)) dest = i.n;
        if (i.hb) Mentions(i.b, s, first, &dest);
        if (i.he) q.e = (int)Eval(i.e, re);
        else if (!dest.empty() && !first.at(dest).wild) q.e = first.at(dest).lat;
        return q;
      };
      f.use.clear();
      f.acq.clear();
      for (auto& i : a.res.use) f.use.push_back(conv(i));
      for (auto& i : a.res.acq) {
        FRes q = conv(i);
        bool have = false;
        for (auto& u : f.use) have |= u.n == q.n;
        if (!have) f.use.push_back(q);
        f.acq.push_back(q);
      }
      for (auto& i : a.res.hold) f.acq.push_back(conv(i));
    }
    if (a.hasattr) {
      // Attributes with a default that the list leaves out may keep it or not.
      for (auto& [n, v] : f.attrs) f.vague.insert(n);
      if (over) {
        auto keep = f.vague;
        f.attrs.clear();
        f.vague = keep;
      }
      for (auto& x : a.attrs) {
        f.attrs[x.n] = x.has ? (int)Eval(x.e, env) : 1;
        f.vague.erase(x.n);
      }
    }
  }
  static bool Local(const Slot& s, const string& n) {
    for (auto& p : s.params)
      if (p == n) return true;
    for (auto& c : s.consts)
      if (c.first == n) return true;
    return false;
  }
  static void Mentions(const Ex& e, const Slot& s, const map<string, FDest>& first, string* dest) {
    if (e.o == 'i' && !Local(s, e.id) && first.count(e.id)) *dest = e.id;
    for (auto& k : e.k) Mentions(k, s, first, dest);
  }
  map<string, Flat> Flatten(int idx, const vector<int64_t>& args) {
    const Slot& s = d.slots[idx];
    Env env = SlotEnv(s, args), outer = d.genv;
    for (size_t i = 0; i < s.params.size(); ++i) outer[s.params[i]] = args[i];
    map<string, Flat> m;
    for (auto& [b, ex] : s.bases) {
      vector<int64_t> v;
      for (auto& e : ex) v.push_back(Eval(e, outer));
      for (auto& [n, f] : Flatten(b, v))
        if (std::find(s.deletes.begin(), s.deletes.end(), n) == s.deletes.end()) m[n] = f;
    }
    for (auto& o : s.overs) Apply(s, env, o.a, true, m.at(o.name));
    for (auto& in : s.own) {
      Flat f;
      f.name = in.name;
      f.size = in.size >= 0 ? in.size : s.size >= 0 ? s.size : 1;
      for (auto& g : in.g) {
        FGrp fg;
        fg.pred = g.pred;
        fg.s = g.s;
        Env le = env;
        for (auto& o : g.d) {
          FDest x{o.n, o.arr, o.lk == 2, 0};
          if (o.lk == 1) x.lat = (int)Eval(o.lat, le);
          if (o.lk == 0) x.lat = s.haslat ? (int)Eval(s.lat, env) : 1;
          if (o.lk != 2 && !Local(s, o.n)) le[o.n] = x.lat;
          fg.d.push_back(x);
        }
        f.g.push_back(fg);
        f.sem.push_back(-1);
      }
      for (auto& x : s.defattrs) f.attrs[x.n] = x.has ? (int)Eval(x.e, env) : 1;
      Apply(s, env, in.a, false, f);
      m[in.name] = f;
    }
    return m;
  }
};

// Resources with a hold that does not begin at once: must be complex / may be.
inline void Complex(Gen& g, set<string>* must, set<string>* may) {
  for (auto& [i, m] : g.d.flat)
    for (auto& [n, f] : m)
      for (auto& q : f.acq)
        if (q.b != 0) must->insert(q.n);
  for (auto& s : g.d.slots) {
    auto look = [&](const Res& x) {
      for (auto* l : {&x.acq, &x.hold})
        for (auto& i : *l)
          if (i.hb && !(i.b.o == 'n' && i.b.v == 0)) may->insert(i.n);
    };
    for (auto& i : s.own) look(i.a.res);
    for (auto& o : s.overs) look(o.a.res);
  }
}
}  // namespace isa
#endif
