// Random binary format descriptions, their text, and what they mean.
#ifndef VERIF_BIN_RIG_H_
#define VERIF_BIN_RIG_H_
#include <map>
#include <set>
#include <string>
#include <vector>

#include "gen_rig.h"
#include "vh.h"

namespace bin {
using U128 = unsigned __int128;
using S128 = __int128;
using Bits = std::vector<uint8_t>;  // one element per bit, least significant first

inline U128 Mask(int w) { return w >= 128 ? ~(U128)0 : (((U128)1 << w) - 1); }
inline U128 GetBits(const Bits& b, int high, int low) {
  U128 v = 0;
  for (int i = high; i >= low; --i) v = v << 1 | (b[i] & 1);
  return v;
}
inline void SetBits(Bits& b, int high, int low, U128 v) {
  for (int i = low; i <= high; ++i) {
    b[i] = v & 1;
    v >>= 1;
  }
}
inline Bits FromWord(uint64_t w, int width) {
  Bits b(width);
  for (int i = 0; i < width; ++i) b[i] = (w >> i) & 1;
  return b;
}
inline U128 SignExtend(U128 v, int w) {
  if (w < 128 && (v >> (w - 1)) & 1) v |= ~Mask(w);
  return v;
}

struct FieldM {
  std::string name;
  bool sgn = false;
  int width = 0, low = 0;
  int high() const { return low + width - 1; }
};
struct Comp {
  bool is_const = false;
  U128 value = 0;
  int width = 0;
  int high = 0, low = 0;  // in the format
  std::string text;
};
struct OverlayM {
  std::string name;
  bool sgn = false;
  int width = 0;
  bool has_const = false;
  std::vector<Comp> comps;
  U128 Value(const Bits& b) const {
    U128 v = 0;
    for (auto& k : comps) v = v << k.width | (k.is_const ? k.value : GetBits(b, k.high, k.low));
    return v;
  }
  // Bits of the format it uses, each at most once?
  bool Injective() const {
    std::set<int> s;
    for (auto& k : comps)
      if (!k.is_const)
        for (int i = k.low; i <= k.high; ++i)
          if (!s.insert(i).second) return false;
    return true;
  }
  void Insert(Bits& b, U128 v) const {
    int pos = width;
    for (auto& k : comps) {
      pos -= k.width;
      if (!k.is_const) SetBits(b, k.high, k.low, (v >> pos) & Mask(k.width));
    }
  }
};
struct SubM {
  std::string alias;
  int format = 0;
  int count = 1, width = 0, high = 0;
};
struct Item {
  bool is_sub = false;
  int index = 0;
};
struct FormatM {
  std::string name;
  int width = 0;
  int base = -1;
  bool packed = false;
  bool say_width = true;
  std::vector<Item> items;
  std::vector<FieldM> fields;
  std::vector<SubM> subs;
  std::vector<OverlayM> overlays;
  const FieldM* Field(const std::string& n) const {
    for (auto& f : fields)
      if (f.name == n) return &f;
    return nullptr;
  }
  const OverlayM* Overlay(const std::string& n) const {
    for (auto& f : overlays)
      if (f.name == n) return &f;
    return nullptr;
  }
};

inline std::string Num(vh::Rng& r, uint64_t v, bool allow_bin = true) {
  char b[64];
  std::string s;
  switch (r.below(allow_bin ? 6 : 4)) {
    default:
      s = std::to_string(v);
      if (s.size() > 3 && r.chance(1, 3)) s.insert(s.size() - 3, "'");
      return s;
    case 1:
    case 2:
      snprintf(b, sizeof b, "0x%lx", v);
      s = b;
      if (s.size() > 4 && r.chance(1, 3)) s.insert(s.size() - 2, "'");
      return s;
    case 3:
      snprintf(b, sizeof b, "0%lo", v);
      return b;
    case 4:
    case 5: {
      std::string d;
      do {
        d.insert(d.begin(), '0' + (v & 1));
        v >>= 1;
        if (v && r.chance(1, 8)) d.insert(d.begin(), '\'');
      } while (v);
      return "0b" + d;
    }
  }
}
inline std::string BinText(vh::Rng& r, U128 v, int width) {
  std::string d = "0b";
  for (int i = width - 1; i >= 0; --i) {
    d += '0' + (int)((v >> i) & 1);
    if (i && r.chance(1, 10)) d += '\'';
  }
  return d;
}
// White space or a comment.
inline std::string Ws(vh::Rng& r) {
  switch (r.below(14)) {
    case 0: return "\n";
    case 1: return " /* fields: { */ ";
    case 2: return " // note ;\n";
    case 3: return "\t";
    default: return " ";
  }
}

inline std::string Pascal(const std::string& n) {  // names here are lower case words joined by '_'
  std::string o;
  bool up = true;
  for (char ch : n) {
    if (ch == '_') {
      up = true;
      continue;
    }
    o += up ? (char)toupper(ch) : ch;
    up = false;
  }
  return o;
}

inline const std::vector<std::string>& Words() {
  static const std::vector<std::string> w = {"alpha", "op", "func", "rs1", "rd", "imm", "bits", "mode", "size_sel", "sub_op", "cc", "tag", "hi_part", "lo_part", "x", "y2", "zed", "flag"};
  return w;
}

// Picks n distinct names.
inline std::vector<std::string> Names(vh::Rng& r, int n, const std::set<std::string>& avoid = {}) {
  std::vector<std::string> out;
  std::set<std::string> used = avoid;
  int k = 0;
  while ((int)out.size() < n) {
    std::string s = r.pick(Words());
    if (++k > 40) s += "_" + std::to_string(k);
    if (used.insert(s).second) out.push_back(s);
  }
  return out;
}

// Fills a format of the given width with fields (and sub-formats from `all`).
inline void FillFormat(vh::Rng& r, FormatM& f, const std::vector<FormatM>& all, int max_field, bool allow_subs, int max_overlays, bool allow_signed, int max_ovl = 64) {
  int left = f.width;
  std::vector<std::pair<bool, int>> plan;
  std::vector<SubM> subs;
  std::vector<int> widths;
  while (left > 0) {
    if (allow_subs && r.chance(1, 4)) {
      std::vector<int> cand;
      for (int i = 0; i < (int)all.size(); ++i)
        if (all[i].width <= left && all[i].width < f.width && (!f.packed || all[i].width <= 64)) cand.push_back(i);
      if (!cand.empty()) {
        SubM s;
        s.format = r.pick(cand);
        s.width = all[s.format].width;
        s.count = f.packed ? 1 : (int)r.range(1, std::min(5, left / s.width));
        left -= s.width * s.count;
        plan.push_back({true, (int)subs.size()});
        subs.push_back(s);
        continue;
      }
    }
    int w = r.chance(1, 4) ? (int)r.range(1, max_field) : (int)r.range(1, std::min(max_field, 12));
    if (r.chance(1, 8)) w = r.pick(std::vector<int>{1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128});
    w = std::min({w, left, max_field});
    left -= w;
    plan.push_back({false, (int)widths.size()});
    widths.push_back(w);
  }
  if (plan.size() > 1 && r.coin())
    for (size_t i = plan.size() - 1; i > 0; --i) std::swap(plan[i], plan[r.below(i + 1)]);
  int nov = max_overlays ? (int)r.below(max_overlays + 1) : 0;
  auto names = Names(r, (int)plan.size() + nov);
  int at = f.width, ni = 0;
  for (auto& [is_sub, idx] : plan) {
    if (is_sub) {
      SubM s = subs[idx];
      s.alias = names[ni++];
      s.high = at - 1;
      at -= s.width * s.count;
      f.items.push_back({true, (int)f.subs.size()});
      f.subs.push_back(s);
    } else {
      FieldM x;
      x.name = names[ni++];
      x.width = widths[idx];
      at -= x.width;
      x.low = at;
      x.sgn = allow_signed && r.chance(1, 3);
      f.items.push_back({false, (int)f.fields.size()});
      f.fields.push_back(x);
    }
  }
  for (int i = 0; i < nov; ++i) {
    OverlayM o;
    o.name = names[ni++];
    o.sgn = allow_signed && r.chance(1, 3);
    int nc = (int)r.range(1, 4);
    for (int k = 0; k < nc; ++k) {
      int room = max_ovl - o.width;
      if (room <= 0) break;
      Comp m;
      int kind = (int)r.below(5);
      if (kind == 0) {
        m.is_const = true;
        m.width = (int)r.range(1, std::min(room, r.chance(1, 8) ? 60 : 8));
        m.value = r.next() & (uint64_t)Mask(m.width);
        m.text = BinText(r, m.value, m.width);
        o.has_const = true;
        o.comps.push_back(m);
        o.width += m.width;
      } else if (kind <= 2 && !f.fields.empty()) {
        const FieldM& x = r.pick(f.fields);
        if (r.coin()) {
          if (x.width > room) continue;
          m.high = x.high();
          m.low = x.low;
          m.width = x.width;
          m.text = x.name;
          o.comps.push_back(m);
          o.width += m.width;
        } else {
          int nr = (int)r.range(1, 3);
          std::string text;
          for (int q = 0; q < nr; ++q) {
            room = max_ovl - o.width;
            if (room <= 0) break;
            Comp n;
            int hi = (int)r.below(x.width), lo = r.coin() ? hi : (int)r.below(hi + 1);
            if (hi - lo + 1 > room) lo = hi - room + 1;
            n.high = x.low + hi;
            n.low = x.low + lo;
            n.width = hi - lo + 1;
            text += (text.empty() ? "" : ",") + Num(r, hi) + (lo == hi && r.coin() ? "" : " .. " + Num(r, lo));
            o.comps.push_back(n);
            o.width += n.width;
          }
          if (!text.empty()) o.comps.back().text = x.name + "[" + text + "]";
        }
      } else {
        int hi = (int)r.below(f.width), lo = r.coin() ? hi : (int)r.below(hi + 1);
        if (hi - lo + 1 > room) lo = hi - room + 1;
        m.high = hi;
        m.low = lo;
        m.width = hi - lo + 1;
        m.text = "[" + Num(r, hi) + (lo == hi && r.coin() ? "" : ".." + Num(r, lo)) + "]";
        o.comps.push_back(m);
        o.width += m.width;
      }
    }
    bool any_bits = false;
    for (auto& k : o.comps) any_bits |= !k.is_const;
    if (!any_bits) continue;
    f.overlays.push_back(o);
  }
}

inline std::string FormatText(vh::Rng& r, const FormatM& f, const std::vector<FormatM>& all) {
  std::string t = "format" + Ws(r) + f.name;
  if (f.base < 0 || f.say_width) t += "[" + Num(r, f.width) + "]";
  if (f.base >= 0) t += Ws(r) + ": " + all[f.base].name;
  t += Ws(r) + "{\n";
  if (f.packed) t += "  layout: packed_struct;\n";
  else if (r.chance(1, 8)) t += "  layout : default ;\n";
  t += "  fields:\n";
  for (auto& it : f.items) {
    if (it.is_sub) {
      auto& s = f.subs[it.index];
      t += "    format " + all[s.format].name + Ws(r) + s.alias + (s.count > 1 || r.chance(1, 8) ? "[" + Num(r, s.count) + "]" : "") + ";\n";
    } else {
      auto& x = f.fields[it.index];
      t += "    " + std::string(x.sgn ? "signed" : "unsigned") + Ws(r) + x.name + "[" + Num(r, x.width) + "];\n";
    }
  }
  if (!f.overlays.empty() || r.chance(1, 6)) {
    t += "  overlays:\n";
    for (auto& o : f.overlays) {
      t += "    " + std::string(o.sgn ? "signed " : "unsigned ") + o.name + "[" + Num(r, o.width) + "]" + Ws(r) + "= ";
      bool first = true;
      for (auto& k : o.comps) {
        if (k.text.empty()) continue;
        t += (first ? "" : ", ") + k.text;
        first = false;
      }
      t += ";\n";
    }
  }
  t += r.coin() ? "};\n" : "}\n";
  return t;
}

// One constraint of an instruction.
struct Con {
  std::string lhs, op, rhs;  // rhs: field name, or empty for a value
  uint64_t value = 0;
  std::string text;  // of the value, if fixed
};
struct Enc {
  std::string name;
  int format = 0;
  bool dup = false;
  std::vector<Con> cons;
  std::vector<Enc> specs;
  std::string var_text;  // set for members of a GENERATE family
};
inline U128 Operand(const FormatM& f, const std::string& n, const Bits& w) {
  if (auto* x = f.Field(n)) return GetBits(w, x->high(), x->low);
  return f.Overlay(n)->Value(w);
}
inline bool Holds(const FormatM& f, const Con& c, const Bits& w) {
  U128 a = Operand(f, c.lhs, w);
  U128 b = c.rhs.empty() ? (U128)c.value : Operand(f, c.rhs, w);
  if (c.op == "==") return a == b;
  if (c.op == "!=") return a != b;
  if (c.op == "<") return a < b;
  if (c.op == "<=") return a <= b;
  if (c.op == ">") return a > b;
  return a >= b;
}
inline bool Matches(const FormatM& f, const std::vector<Con>& cs, const Bits& w) {
  for (auto& k : cs)
    if (!Holds(f, k, w)) return false;
  return true;
}
}  // namespace bin
#endif
