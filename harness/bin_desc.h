// Random well-formed bin_fmt descriptions with a model of their meaning.
#ifndef VERIF_BIN_DESC_H_
#define VERIF_BIN_DESC_H_
#include "bin_rig.h"
#include "mpact/sim/decoder/bin_format_visitor.h"
using namespace bin;
using mpact::sim::decoder::bin_format::BinFormatVisitor;

namespace {
struct Group {
  std::string name;
  std::vector<Enc> encs;
  std::vector<int> children;  // merged
  bool listed = true;
};
struct Desc {
  std::string id;
  int width = 0;
  std::vector<FormatM> formats;  // 0 is the base
  std::vector<Group> groups;
  std::set<std::string> opcodes;
  std::map<std::string, int> opcode_num;
  std::string text, include_text, include_name;
};

bool Signed(const FormatM& f, const std::string& n) {
  if (auto* x = f.Field(n)) return x->sgn;
  return f.Overlay(n)->sgn;
}
int Width(const FormatM& f, const std::string& n) {
  if (auto* x = f.Field(n)) return x->width;
  return f.Overlay(n)->width;
}

// A constraint the witness satisfies (most of the time).
bool MakeCon(vh::Rng& r, const FormatM& f, const Bits& wit, bool eq_only, int* eq_bits, Con* out) {
  std::vector<std::string> names;
  for (auto& x : f.fields)
    if (x.width < 64) names.push_back(x.name);
  for (auto& o : f.overlays)
    if (o.width < 64) names.push_back(o.name);
  if (names.empty()) return false;
  Con k;
  k.lhs = r.pick(names);
  int w = Width(f, k.lhs);
  U128 v = Operand(f, k.lhs, wit);
  bool sgn = Signed(f, k.lhs);
  int kind = eq_only ? 0 : (int)r.below(6);
  if (kind <= 2) {
    if (w > *eq_bits) return false;
    if (sgn && (v >> (w - 1))) return false;
    *eq_bits -= w;
    k.op = "==";
    k.value = v;
  } else if (kind == 3 && !sgn) {
    static const std::vector<std::string> ops = {"!=", "<", "<=", ">", ">="};
    k.op = r.pick(ops);
    k.value = r.coin() ? (uint64_t)(r.next() & (uint64_t)Mask(w)) : (uint64_t)((v + r.range(-1, 1)) & Mask(w));
    if (!Holds(f, k, wit) && r.chance(9, 10)) {
      if (k.op == "<") k.op = ">=";
      else if (k.op == "<=") k.op = ">";
      else if (k.op == ">") k.op = "<=";
      else if (k.op == ">=") k.op = "<";
      else k.op = "==";
      if (k.op == "==") return false;
    }
  } else if (kind == 4) {
    k.op = "!=";
    k.value = r.next() & (uint64_t)Mask(sgn ? w - 1 : w);
    if (k.value == v) return false;
  } else {
    if (sgn) return false;
    std::vector<std::string> rn;
    for (auto& n : names)
      if (n != k.lhs && !Signed(f, n)) rn.push_back(n);
    if (rn.empty()) return false;
    k.rhs = r.pick(rn);
    static const std::vector<std::string> ops = {"==", "!=", "<", "<=", ">", ">="};
    int n = 0;
    do {
      k.op = r.pick(ops);
    } while (!Holds(f, k, wit) && ++n < 50);
    if (!Holds(f, k, wit)) return false;
  }
  *out = k;
  return true;
}

// Bits and values fixed by equality with values over plain bits.
void EqMask(const FormatM& f, const std::vector<Con>& cs, uint64_t* mask, uint64_t* value, bool* conflict = nullptr) {
  *mask = *value = 0;
  for (auto& k : cs) {
    if (k.op != "==" || !k.rhs.empty()) continue;
    auto put = [&](int high, int low, uint64_t v) {
      uint64_t m = (uint64_t)Mask(high - low + 1) << low;
      v = (v << low) & m;
      if (conflict && ((*value ^ v) & m & *mask)) *conflict = true;
      *mask |= m;
      *value |= v;
    };
    if (auto* x = f.Field(k.lhs)) {
      put(x->high(), x->low, k.value);
    } else {
      auto* o = f.Overlay(k.lhs);
      if (o->has_const) continue;
      int pos = o->width;
      for (auto& m : o->comps) {
        pos -= m.width;
        put(m.high, m.low, (k.value >> pos) & (uint64_t)Mask(m.width));
      }
    }
  }
}

std::string ConText(vh::Rng& r, const Con& k) {
  return k.lhs + Ws(r) + k.op + Ws(r) + (!k.rhs.empty() ? k.rhs : !k.text.empty() ? k.text : Num(r, k.value));
}
std::string ConList(vh::Rng& r, const std::vector<Con>& cs) {
  std::string t;
  for (auto& k : cs) t += (t.empty() ? "" : ", ") + ConText(r, k);
  return t;
}

void MakeGroup(vh::Rng& r, Desc& d, Group& g, std::string* body, int* counter, std::vector<std::pair<uint64_t, uint64_t>>* masks) {
  // A few format bits that many instructions of the group pin down, so that decode tables get deep.
  uint64_t home = r.next();
  bool disjoint = r.chance(2, 3);  // no word has the fixed bits of two instructions
  int n = (int)r.range(1, r.chance(1, 4) ? 24 : 9) * (disjoint ? 3 : 1);
  auto fits = [&](const std::vector<Con>& cs, const FormatM& f) {
    uint64_t m, v;
    bool conflict = false;
    EqMask(f, cs, &m, &v, &conflict);
    if (conflict) return false;
    if (disjoint)
      for (auto& [m2, v2] : *masks)
        if (((v ^ v2) & m & m2) == 0) return false;
    // The decode table of any set of encodings has one entry per value of the bits all of them fix and in which two differ.
    // The first level of a group sees subsets that share bits: keep the worst case small.
    uint64_t vary = 0;
    for (auto& [m2, v2] : *masks) vary |= (v ^ v2) & m & m2;
    for (auto& [m1, v1] : *masks)
      for (auto& [m2, v2] : *masks) vary |= (v1 ^ v2) & m1 & m2;
    if (__builtin_popcountll(vary) > 11) return false;
    masks->push_back({m, v});
    return true;
  };
  while (n-- > 0) {
    Enc e;
    e.format = d.formats.size() > 1 ? (int)r.range(r.chance(1, 6) ? 0 : 1, d.formats.size() - 1) : 0;
    const FormatM& f = d.formats[e.format];
    uint64_t wit = r.coin() ? home ^ (r.next() & r.next() & r.next()) : r.next();
    Bits w = FromWord(wit, d.width);
    int eq_bits = r.chance(1, 6) ? 48 : 9;
    int nc = (int)r.range(1, 4);
    for (int i = 0; i < nc; ++i) {
      Con k;
      if (!MakeCon(r, f, w, i == 0, &eq_bits, &k)) continue;
      bool again = false;
      for (auto& o : e.cons) again |= o.lhs == k.lhs && o.op == k.op && o.rhs == k.rhs;
      if (!again) e.cons.push_back(k);
    }
    if (e.cons.empty() || !fits(e.cons, f)) continue;
    e.name = "in_" + std::to_string((*counter)++);
    if (!g.encs.empty() && r.chance(1, 10)) {
      e.name = r.pick(g.encs).name;
      e.dup = true;
    }
    // A family produced by a generator?
    if (!e.dup && r.chance(1, 6)) {
      const Con* var = nullptr;
      for (auto& k : e.cons)
        if (k.op == "==" && k.rhs.empty() && Width(f, k.lhs) <= 6 && Width(f, k.lhs) >= 2 && f.Field(k.lhs) && !Signed(f, k.lhs)) var = &k;
      if (var) {
        std::string lhs = var->lhs;
        std::set<uint64_t> vals = {var->value};
        for (int i = 0; i < 3; ++i) vals.insert(r.below((uint64_t)Mask(Width(f, lhs)) + 1));
        std::string names, values, tuples;
        std::vector<Enc> fam;
        bool tuple = r.coin();
        for (uint64_t v : vals) {
          Enc q = e;
          for (auto& k : q.cons)
            if (k.lhs == lhs && k.op == "==" && k.rhs.empty()) k.value = v;
          if (!fits(q.cons, f)) continue;
          std::string tail = tuple ? std::string(1, (char)('a' + fam.size())) : std::to_string(v);
          q.name = e.name + "_v" + tail;
          fam.push_back(q);
          names += (names.empty() ? "" : ", ") + tail;
          values += (values.empty() ? "" : ", ") + std::to_string(v);
          std::string num = Num(r, v);
          if (r.chance(1, 3)) num = "\"" + num + "\"";
          std::string id = r.chance(1, 3) ? "\"" + tail + "\"" : tail;
          tuples += (tuples.empty() ? "" : ", ") + std::string("{") + id + ", " + num + "}";
        }
        if (!fam.empty()) {
          std::string t = "  GENERATE(";
          std::string cons;
          for (auto& k : e.cons) {
            std::string one = k.lhs == lhs && k.op == "==" && k.rhs.empty() ? k.lhs + " == $(" + (tuple ? "val" : "v") + ")" : "";
            if (one.empty()) {
              if (!k.rhs.empty()) goto plain;  // generators take numbers only
              one = ConText(r, k);
            }
            cons += (cons.empty() ? "" : ", ") + one;
          }
          if (tuple)
            t += "[nm, val] = [" + tuples + "]) {\n    " + e.name + "_v$(nm) : " + f.name + ": " + cons + ";\n  };\n";
          else
            t += "v = [" + values + "]) {\n    " + e.name + "_v$(v) : " + f.name + " : " + cons + ";\n  };\n";
          *body += t;
          for (auto& q : fam) {
            d.opcodes.insert(q.name);
            g.encs.push_back(q);
          }
          continue;
        }
      }
    }
  plain:
    *body += "  " + std::string(e.dup ? "!" : "") + e.name + Ws(r) + ":" + Ws(r) + f.name + ": " + ConList(r, e.cons) + ";\n";
    d.opcodes.insert(e.name);
    // Specializations.
    if (!e.dup && r.chance(1, 5)) {
      int ns = (int)r.range(1, 3);
      for (int i = 0; i < ns; ++i) {
        Enc s;
        s.format = e.format;
        s.name = e.name + "_s" + std::to_string(i);
        int eb = 12, m = (int)r.range(1, 2);
        uint64_t w2 = wit;
        for (int b = 0; b < d.width; ++b) {
          uint64_t em, ev;
          EqMask(f, e.cons, &em, &ev);
          if (!((em >> b) & 1) && r.coin()) w2 ^= 1ull << b;
        }
        for (int j = 0; j < m; ++j) {
          Con k;
          if (MakeCon(r, f, FromWord(w2, d.width), false, &eb, &k)) s.cons.push_back(k);
        }
        if (s.cons.empty()) continue;
        *body += "  " + s.name + " : specializes " + e.name + ": " + ConList(r, s.cons) + ";\n";
        d.opcodes.insert(s.name);
        e.specs.push_back(s);
      }
    }
    g.encs.push_back(e);
  }
}

void MakeDesc(vh::Rng& r, Desc& d) {
  static const std::vector<int> ws = {8, 16, 32, 64};
  d.width = r.chance(1, 2) ? r.pick(ws) : r.chance(1, 2) ? (int)r.range(5, 14) : (int)r.range(3, 64);
  int nf = (int)r.range(1, 4);
  FormatM base;
  base.name = "base_fmt";
  base.width = d.width;
  FillFormat(r, base, {}, std::min(d.width, 24), false, 2, true);
  d.formats.push_back(base);
  for (int i = 0; i < nf; ++i) {
    FormatM f;
    f.name = "fmt_" + std::string(1, 'a' + i);
    f.width = d.width;
    f.base = r.chance(1, 3) ? (int)r.below(d.formats.size()) : 0;
    f.say_width = r.coin();
    int n = 0;
    do {
      f.items.clear();
      f.fields.clear();
      f.overlays.clear();
      FillFormat(r, f, {}, std::min(d.width, 24), false, 3, true);
    } while (f.fields.size() < 2 && ++n < 5);
    d.formats.push_back(f);
  }
  int ng = r.chance(1, 3) ? (int)r.range(2, 3) : 1;
  int counter = 0;
  std::vector<std::string> decls;
  std::vector<std::pair<uint64_t, uint64_t>> masks;
  bool merge = ng > 1 && r.coin();
  std::string attr;
  for (int i = 0; i < ng; ++i) {
    Group g;
    g.name = "Grp" + std::to_string(i);
    std::string body;
    if (!merge) masks.clear();
    MakeGroup(r, d, g, &body, &counter, &masks);
    decls.push_back("instruction group " + g.name + "[" + Num(r, d.width) + "]" + Ws(r) + ": " + d.formats[0].name + " {\n" + body + "}" + (r.coin() ? ";\n" : "\n"));
    d.groups.push_back(g);
  }
  if (merge) {
    Group m;
    m.name = "Merged";
    std::string list;
    for (int i = 0; i < ng; ++i) {
      m.children.push_back(i);
      list += (i ? ", " : "") + d.groups[i].name;
      for (auto& e : d.groups[i].encs) m.encs.push_back(e);
    }
    if (r.coin()) list += ",";
    if (r.coin()) {
      decls.push_back("instruction group Merged = {" + list + "};\n");
      attr += "  Merged;\n";
      for (int i = 0; i < ng; ++i) {
        d.groups[i].listed = r.coin();
        if (d.groups[i].listed) attr = (r.coin() ? "" : attr) + "  " + d.groups[i].name + ";\n" + (attr.empty() ? "" : "");
      }
      // attr may have lost entries above; rebuild it plainly.
      attr = "  Merged;\n";
      for (int i = 0; i < ng; ++i)
        if (d.groups[i].listed) attr = r.coin() ? attr + "  " + d.groups[i].name + ";\n" : "  " + d.groups[i].name + ";\n" + attr;
    } else {
      attr += "  Merged = {" + list + "};\n";
      for (int i = 0; i < ng; ++i) d.groups[i].listed = false;
    }
    d.groups.push_back(m);
  } else {
    for (auto& g : d.groups) attr += "  " + g.name + ";\n";
  }
  std::string ns = r.coin() ? "  namespace " + d.id + "::code;\n" : "  namespace " + d.id + "::decoder::code;\n";
  std::string inc = "  includes {\n    #include \"" + d.id + "_enums.h\"\n  }\n";
  std::string en = "  opcode_enum = \"" + d.id + "_isa::OpcodeEnum\";\n";
  std::vector<std::string> attrs = {ns, inc, en, attr};
  for (size_t i = 3; i > 0; --i) std::swap(attrs[i], attrs[r.below(i + 1)]);
  decls.push_back("decoder Dec {\n" + attrs[0] + attrs[1] + attrs[2] + attrs[3] + "};\n");
  if (r.chance(1, 4)) decls.push_back("decoder Other { namespace none; opcode_enum = \"X\"; Nowhere; }\n");
  for (auto& f : d.formats) decls.push_back(FormatText(r, f, d.formats));
  for (size_t i = decls.size() - 1; i > 0; --i) std::swap(decls[i], decls[r.below(i + 1)]);
  if (r.chance(1, 3)) {
    size_t n = r.below(decls.size());
    std::string inc_text = r.coin() ? "# once\n" : "";
    bool once = !inc_text.empty();
    for (size_t i = 0; i < n; ++i) inc_text += decls[i];
    decls.erase(decls.begin(), decls.begin() + n);
    d.include_name = d.id + ".inc";
    d.include_text = inc_text;
    std::string line = "#include \"" + d.include_name + "\"\n";
    decls.insert(decls.begin() + r.below(decls.size() + 1), line);
    if (once) decls.insert(decls.begin() + r.below(decls.size() + 1), line);
  }
  d.text = "// Generated description.\n";
  for (auto& t : decls) d.text += t + "\n";
  d.opcodes.erase("none");
  int i = 1;
  for (auto& o : d.opcodes) d.opcode_num[o] = i++;
}

std::string NsOf(const Desc& d) { return d.text.find("::decoder::code") != std::string::npos || d.include_text.find("::decoder::code") != std::string::npos ? d.id + "::decoder::code" : d.id + "::code"; }
}  // namespace
#endif
