// C29: generated extractors and inserters read and write exactly the bits of their field, overlay or sub-format.
#include "bin_rig.h"
#include "mpact/sim/decoder/bin_format_visitor.h"

using namespace bin;
using mpact::sim::decoder::bin_format::BinFormatVisitor;

namespace {
struct ItemRef {
  int fmt = 0, kind = 0, idx = 0;  // 0 field, 1 overlay, 2 sub-format
  int num = 0;                     // in the driver
};
const char* kPrelude = R"foo(
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include "absl/base/attributes.h"
#include "absl/numeric/int128.h"
typedef unsigned __int128 U128;
struct Arg {
  U128 v;
  template <typename T, typename = std::enable_if_t<std::is_integral<T>::value>> operator T() const { return static_cast<T>(v); }
  operator absl::uint128() const { return absl::MakeUint128((uint64_t)(v >> 64), (uint64_t)v); }
};
template <typename T> std::enable_if_t<std::is_integral<T>::value> Out(T x, uint8_t* out) {
  __int128 y = x;
  memcpy(out, &y, 16);
}
inline void Out(absl::uint128 x, uint8_t* out) { uint64_t l = absl::Uint128Low64(x), h = absl::Uint128High64(x); memcpy(out, &l, 8); memcpy(out + 8, &h, 8); }
inline void Out(absl::int128 x, uint8_t* out) { uint64_t l = absl::Int128Low64(x), h = absl::Int128High64(x); memcpy(out, &l, 8); memcpy(out + 8, &h, 8); }
template <typename T> T In(const uint8_t* le) { T v; memcpy(&v, le, sizeof(T)); return v; }
template <> inline absl::uint128 In<absl::uint128>(const uint8_t* le) { uint64_t l, h; memcpy(&l, le, 8); memcpy(&h, le + 8, 8); return absl::MakeUint128(h, l); }
)foo";

std::string WordType(int w) {
  if (w > 64) return "absl::uint128";
  return w > 32 ? "uint64_t" : w > 16 ? "uint32_t" : w > 8 ? "uint16_t" : "uint8_t";
}
}  // namespace

VH_SCENARIO(C29, fields, 160, 4000) {
  auto& r = c.rng;
  std::string dir = gen::Dir(c);
  std::vector<FormatM> fs;
  auto pick_width = [&]() -> int {
    switch (r.below(8)) {
      case 0: return r.pick(std::vector<int>{8, 16, 32, 64, 128, 256});
      case 1: return r.pick(std::vector<int>{63, 65, 127, 129, 120, 136, 72});
      case 2: return (int)r.range(1, 16);
      case 3:
      case 4: return (int)r.range(17, 64);
      case 5:
      case 6: return (int)r.range(65, 128);
      default: return (int)r.range(129, 300);
    }
  };
  int nf = (int)r.range(5, 9);
  for (int i = 0; i < nf; ++i) {
    FormatM f;
    f.name = "fm_" + std::string(1, 'a' + i) + (r.coin() ? "_type" : "");
    f.width = pick_width();
    if (i && r.chance(2, 5)) {
      f.base = (int)r.below(i);
      f.width = fs[f.base].width;
      f.say_width = r.coin();
    }
    f.packed = r.chance(1, 4);
    FillFormat(r, f, fs, f.packed ? 64 : 128, true, 4, true, 64);
    // A format must not contain one derived from it or the like: only earlier formats are used, which cannot refer back.
    fs.push_back(f);
  }
  std::vector<std::string> decls;
  for (auto& f : fs) decls.push_back(FormatText(r, f, fs));
  // Formats matter only if they are reachable from the decoder, for instance by containing one that is, or being part of such.
  for (int i = 0; i < nf; ++i)
    decls.push_back("format hub_" + std::to_string(i) + "[" + std::to_string(fs[i].width + 8) + "] {\n  fields:\n    format dfmt dd;\n    format " + fs[i].name + " ff;\n};\n");
  decls.push_back("format dfmt[8] {\n  fields:\n    unsigned opx[8];\n};\n");
  decls.push_back("instruction group Grp[8] : dfmt {\n  nop : dfmt : opx == 0;\n};\n");
  decls.push_back("decoder Dec {\n  namespace d0::code;\n  opcode_enum = \"d0_isa::OpcodeEnum\";\n  includes {\n    #include \"d0_enums.h\"\n  }\n  Grp;\n};\n");
  for (size_t i = decls.size() - 1; i > 0; --i) std::swap(decls[i], decls[r.below(i + 1)]);
  std::string text;
  for (auto& t : decls) text += t + "\n";
  c.text(text);
  gen::Put(dir + "/d0.bin_fmt", text);
  gen::Put(dir + "/d0_enums.h", "#ifndef E_D0\n#define E_D0\nnamespace d0_isa { enum class OpcodeEnum { kNone = 0, kNop = 1 }; }\n#endif\n");
  {
    BinFormatVisitor v;
    auto st = v.Process({dir + "/d0.bin_fmt"}, "Dec", "d0", {}, dir);
    c.check(st.ok(), "valid description refused", "%s", std::string(st.message()).c_str());
  }
  c.ev("descriptions");

  // The driver.
  std::string drv = kPrelude;
  drv += "#include \"d0_bin_decoder.cc\"\n#include \"d0_bin_encoder.cc\"\nusing namespace d0::code;\n";
  std::vector<ItemRef> items;
  std::string ext, ins, promo;
  auto name_of = [&](const ItemRef& it) -> std::string {
    auto& f = fs[it.fmt];
    return it.kind == 0 ? f.fields[it.idx].name : it.kind == 1 ? f.overlays[it.idx].name : f.subs[it.idx].alias;
  };
  for (int fi = 0; fi < nf; ++fi) {
    auto& f = fs[fi];
    bool bytes = f.packed ? f.width > 64 : f.width > 128;
    bool le_bytes = f.packed;
    auto add = [&](int kind, int idx, bool indexed, int width) {
      ItemRef it{fi, kind, idx, (int)items.size()};
      items.push_back(it);
      std::string pas = Pascal(name_of(it)), key = std::to_string(it.num);
      std::string arg = bytes ? (le_bytes ? "le" : "be") : "In<" + WordType(f.width) + ">(le)";
      std::string ix = indexed ? ", index" : "";
      bool can_extract = width <= 128;
      if (can_extract) {
        ext += "    case " + key + " * 4: Out(" + f.name + "::Extract" + pas + "(" + arg + ix + "), out); return 1;\n";
        ext += "    case " + key + " * 4 + 1: Out(Extractors::" + Pascal(f.name) + "::Extract" + pas + "(" + arg + ix + "), out); return 1;\n";
        if (!f.packed && kind != 1 && f.width <= 128 && (f.width & (f.width - 1)))
          ext += "    case " + key + " * 4 + 2: Out(" + f.name + "::Extract" + pas + "(be" + ix + "), out); return 1;\n";
      }
      std::string call = "Encoder::" + Pascal(f.name) + "::Insert" + pas + "(" + (indexed ? "index, " : "") + "Arg{v}, ";
      if (can_extract) {
        if (bytes)
          ins += "    case " + key + ": " + call + (le_bytes ? "le" : "be") + "); return " + (le_bytes ? "1" : "2") + ";\n";
        else
          ins += "    case " + key + ": { auto w = " + call + "In<" + WordType(f.width) + ">(le)); memset(le, 0, 40); " +
                 (f.width > 64 ? "Out(w, le)" : "memcpy(le, &w, sizeof w)") + "; return 1; }\n";
      }
    };
    for (size_t i = 0; i < f.fields.size(); ++i) add(0, i, false, f.fields[i].width);
    for (size_t i = 0; i < f.overlays.size(); ++i) add(1, i, false, f.overlays[i].width);
    for (size_t i = 0; i < f.subs.size(); ++i) add(2, i, f.subs[i].count > 1, f.subs[i].width);
  }
  // Extractors that a base format offers for what its derived formats define.
  struct Promo {
    int base, num;
    std::string name;
  };
  std::vector<Promo> promos;
  auto derives = [&](int d, int b) {
    for (; d >= 0; d = fs[d].base)
      if (d == b) return true;
    return false;
  };
  std::string probes;
  for (int b = 0; b < nf; ++b) {
    if (fs[b].packed) continue;
    std::set<std::string> own, names;
    for (auto& it : items)
      if (it.fmt == b) own.insert(name_of(it));
    for (auto& it : items)
      if (it.fmt != b && derives(it.fmt, b) && !fs[it.fmt].packed && !own.count(name_of(it))) names.insert(name_of(it));
    for (auto& n : names) {
      int num = (int)promos.size();
      std::string k = std::to_string(num);
      bool bytes = fs[b].width > 128;
      std::string vt = bytes ? "const uint8_t*" : WordType(fs[b].width);
      drv += "template <typename C> auto Pr" + k + "(int, " + vt + " v, int index, uint8_t* out) -> decltype(Out(C::Extract" + Pascal(n) + "(v), out), 1) { Out(C::Extract" + Pascal(n) + "(v), out); return 1; }\n";
      drv += "template <typename C> auto Pr" + k + "(long, " + vt + " v, int index, uint8_t* out) -> decltype(Out(C::Extract" + Pascal(n) + "(v, index), out), 1) { Out(C::Extract" + Pascal(n) + "(v, index), out); return 2; }\n";
      drv += "template <typename C> int Pr" + k + "(...) { return 0; }\n";
      promo += "    case " + k + ": return Pr" + k + "<Extractors::" + Pascal(fs[b].name) + ">(0, " + (bytes ? std::string("be") : "In<" + WordType(fs[b].width) + ">(le)") + ", index, out);\n";
      promos.push_back({b, num, n});
    }
  }
  drv += "extern \"C\" int do_ext(int key, int index, const uint8_t* le, const uint8_t* be, uint8_t* out) {\n  switch (key) {\n" + ext + "  }\n  return 0;\n}\n";
  drv += "extern \"C\" int do_ins(int key, int index, U128 v, uint8_t* le, uint8_t* be) {\n  switch (key) {\n" + ins + "  }\n  return 0;\n}\n";
  drv += "extern \"C\" int do_promo(int key, int index, const uint8_t* le, const uint8_t* be, uint8_t* out) {\n  switch (key) {\n" + promo + "  }\n  return 0;\n}\n";
  drv += "extern \"C\" int do_size(int f) {\n  switch (f) {\n";
  for (int i = 0; i < nf; ++i) drv += "    case " + std::to_string(i) + ": return " + fs[i].name + "::k" + Pascal(fs[i].name) + "Size;\n";
  drv += "  }\n  return -1;\n}\n";
  gen::Put(dir + "/driver.cc", drv);
  void* h = gen::Load(c, dir, "driver.cc");
  auto do_ext = gen::Sym<int (*)(int, int, const uint8_t*, const uint8_t*, uint8_t*)>(c, h, "do_ext");
  auto do_ins = gen::Sym<int (*)(int, int, U128, uint8_t*, uint8_t*)>(c, h, "do_ins");
  auto do_promo = gen::Sym<int (*)(int, int, const uint8_t*, const uint8_t*, uint8_t*)>(c, h, "do_promo");
  auto do_size = gen::Sym<int (*)(int)>(c, h, "do_size");

  auto to_le = [](const Bits& b, uint8_t* le) {
    memset(le, 0, 40);
    for (size_t i = 0; i < b.size(); ++i)
      if (b[i]) le[i / 8] |= 1 << (i % 8);
  };
  auto model = [&](const ItemRef& it, const Bits& b, int index, bool* sgn) -> U128 {
    auto& f = fs[it.fmt];
    *sgn = false;
    if (it.kind == 0) {
      auto& x = f.fields[it.idx];
      *sgn = x.sgn;
      U128 v = GetBits(b, x.high(), x.low);
      return x.sgn ? SignExtend(v, x.width) : v;
    }
    if (it.kind == 1) {
      auto& o = f.overlays[it.idx];
      *sgn = o.sgn;
      U128 v = o.Value(b);
      return o.sgn ? SignExtend(v, o.width) : v;
    }
    auto& s = f.subs[it.idx];
    int hi = s.high - index * s.width;
    return GetBits(b, hi, hi - s.width + 1);
  };
  auto hex = [](U128 v) {
    char t[48];
    snprintf(t, sizeof t, "0x%lx'%016lx", (uint64_t)(v >> 64), (uint64_t)v);
    return std::string(t);
  };
  auto rand_bits = [&](int w) {
    Bits b(w);
    int style = (int)r.below(5);
    for (int i = 0; i < w; ++i) b[i] = style == 0 ? 0 : style == 1 ? 1 : r.coin();
    if (style < 2)
      for (int k = 0; k < 3; ++k) b[r.below(w)] ^= 1;
    return b;
  };
  int rounds = c.thorough ? 60 : 25;
  for (int i = 0; i < nf; ++i) c.check(do_size(i) == fs[i].width, "format size", "%s: %d", fs[i].name.c_str(), do_size(i));
  for (int round = 0; round < rounds; ++round) {
    for (auto& it : items) {
      auto& f = fs[it.fmt];
      int n = (f.width + 7) / 8;
      Bits b = rand_bits(f.width);
      uint8_t le[40], be[40], out[16];
      to_le(b, le);
      // Exact size so that ASan sees any access beyond.
      std::vector<uint8_t> bev(n), lev(std::max(n, f.width <= 64 ? 8 : 16));
      for (int i = 0; i < n; ++i) bev[i] = le[n - 1 - i];
      memcpy(lev.data(), le, n);
      int index = it.kind == 2 ? (int)r.below(f.subs[it.idx].count) : 0;
      bool sgn;
      U128 want = model(it, b, index, &sgn);
      for (int var = 0; var < 3; ++var) {
        memset(out, 0xee, 16);
        if (!do_ext(it.num * 4 + var, index, lev.data(), bev.data(), out)) continue;
        U128 got;
        memcpy(&got, out, 16);
        c.check(got == want, "extracted value", "%s.%s[%d] variant %d: got %s want %s", f.name.c_str(), name_of(it).c_str(), index, var, hex(got).c_str(), hex(want).c_str());
        c.ev(it.kind == 0 ? "field_extracts" : it.kind == 1 ? "overlay_extracts" : "format_extracts");
        if (sgn && (want >> 127)) c.ev("negative");
        if (f.width > 128) c.ev("wide");
        if (f.packed) c.ev("packed");
      }
      // Insertion.
      if (it.kind == 1 && !f.overlays[it.idx].Injective()) continue;
      int w = it.kind == 0 ? f.fields[it.idx].width : it.kind == 1 ? f.overlays[it.idx].width : f.subs[it.idx].width;
      U128 v = ((U128)r.next() << 64 | r.next());
      if (r.chance(1, 4)) v = r.coin() ? ~(U128)0 : 0;
      if (r.chance(3, 4)) v &= Mask(w);
      std::vector<uint8_t> lew(40), bew = bev;
      memcpy(lew.data(), le, 40);
      if (f.packed && f.width > 64) lew.resize(n);
      int how = do_ins(it.num, index, v, lew.data(), bew.data());
      if (!how) continue;
      Bits e = b;
      if (it.kind == 0) SetBits(e, f.fields[it.idx].high(), f.fields[it.idx].low, v);
      else if (it.kind == 1) f.overlays[it.idx].Insert(e, v);
      else SetBits(e, f.subs[it.idx].high - index * w, f.subs[it.idx].high - index * w - w + 1, v);
      uint8_t ele[40];
      to_le(e, ele);
      bool same = true;
      for (int i = 0; i < n; ++i) same &= (how == 1 ? lew[i] : bew[n - 1 - i]) == ele[i];
      std::string g, x;
      for (int i = n - 1; i >= 0; --i) {
        char t[4];
        snprintf(t, 4, "%02x", how == 1 ? lew[i] : bew[n - 1 - i]);
        g += t;
        snprintf(t, 4, "%02x", ele[i]);
        x += t;
      }
      c.check(same, "inserted value", "%s.%s[%d] value %s: got %s want %s", f.name.c_str(), name_of(it).c_str(), index, hex(v).c_str(), g.c_str(), x.c_str());
      c.ev(it.kind == 0 ? "field_inserts" : it.kind == 1 ? "overlay_inserts" : "format_inserts");
      c.nontrivial();
      c.seen((uint64_t)it.kind << 40 ^ (uint64_t)f.width << 24 ^ (uint64_t)w << 8 ^ how << 4 ^ index);
    }
    // What a base format offers must be right for all formats derived from it that have it.
    for (auto& p : promos) {
      int w = fs[p.base].width, n = (w + 7) / 8;
      Bits b = rand_bits(w);
      uint8_t le[40], out[16];
      to_le(b, le);
      std::vector<uint8_t> bev(n);
      for (int i = 0; i < n; ++i) bev[i] = le[n - 1 - i];
      for (auto& it : items) {
        if (it.fmt == p.base || !derives(it.fmt, p.base) || name_of(it) != p.name || fs[it.fmt].packed) continue;
        // A format between the two that has the name too comes first.
        bool hidden = false;
        for (auto& o : items) hidden |= o.fmt != it.fmt && o.fmt != p.base && derives(it.fmt, o.fmt) && derives(o.fmt, p.base) && name_of(o) == p.name;
        if (hidden) continue;
        int index = it.kind == 2 ? (int)r.below(fs[it.fmt].subs[it.idx].count) : 0;
        memset(out, 0xee, 16);
        if (!do_promo(p.num, index, le, bev.data(), out)) {
          c.ev("not_promoted");
          continue;
        }
        bool sgn;
        U128 want = model(it, b, index, &sgn), got;
        memcpy(&got, out, 16);
        c.check(got == want, "promoted extractor", "%s.%s for %s: got %s want %s", fs[p.base].name.c_str(), p.name.c_str(), fs[it.fmt].name.c_str(), hex(got).c_str(), hex(want).c_str());
        c.ev("promoted");
      }
    }
  }
  gen::Drop(dir);
}
