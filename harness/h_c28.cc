// C28: generated binary decoders return exactly what the description says.
#include "bin_rig.h"
#include "mpact/sim/decoder/bin_format_visitor.h"

using namespace bin;
using mpact::sim::decoder::bin_format::BinFormatVisitor;
#include "bin_desc.h"

VH_SCENARIO(C28, decode, 160, 4000) {
  auto& r = c.rng;
  std::string dir = gen::Dir(c);
  int nd = c.thorough ? 5 : 4;
  std::vector<Desc> ds(nd);
  std::string drv = "#include <cstdint>\n#include <utility>\n#include <algorithm>\n";
  for (int i = 0; i < nd; ++i) {
    Desc& d = ds[i];
    d.id = "d" + std::to_string(i);
    MakeDesc(r, d);
    gen::Put(dir + "/" + d.id + ".bin_fmt", d.text);
    c.text(d.text);
    if (!d.include_name.empty()) {
      gen::Put(dir + "/" + d.include_name, d.include_text);
      c.text("-- include:\n" + d.include_text);
    }
    std::string en = "#ifndef E_" + d.id + "\n#define E_" + d.id + "\n#include <cstdint>\nnamespace " + d.id + "_isa {\nenum class OpcodeEnum { kNone = 0,\n";
    for (auto& [n, v] : d.opcode_num) en += "  k" + Pascal(n) + " = " + std::to_string(v) + ",\n";
    en += "};\n}\n#endif\n";
    gen::Put(dir + "/" + d.id + "_enums.h", en);
    {
      BinFormatVisitor v;
      auto st = v.Process({dir + "/" + d.id + ".bin_fmt"}, "Dec", d.id, {}, dir);
      c.check(st.ok(), "valid description refused", "%s: %s", d.id.c_str(), std::string(st.message()).c_str());
    }
    c.ev("descriptions");
    drv += "#include \"" + d.id + "_bin_decoder.cc\"\n#include \"" + d.id + "_bin_encoder.cc\"\n";
    std::string ns = NsOf(d);
    drv += "static int fmt_" + d.id + "(" + ns + "::FormatEnum f) {\n  switch (f) {\n    case " + ns + "::FormatEnum::kNone: return -1;\n";
    std::set<int> used;
    for (auto& g : d.groups)
      for (auto& e : g.encs) used.insert(e.format);
    for (int k : used) drv += "    case " + ns + "::FormatEnum::k" + Pascal(d.formats[k].name) + ": return " + std::to_string(k) + ";\n";
    drv += "    default: return -2;\n  }\n}\n";
    drv += "extern \"C\" int " + d.id + "_dec(int g, uint64_t w, int* plain, int* fmt) {\n  switch (g) {\n";
    for (size_t g = 0; g < d.groups.size(); ++g)
      if (d.groups[g].listed && !d.groups[g].encs.empty())
        drv += "    case " + std::to_string(g) + ": { *plain = (int)" + ns + "::Decode" + d.groups[g].name + "(w); auto p = " + ns + "::Decode" + d.groups[g].name +
               "WithFormat(w); *fmt = fmt_" + d.id + "(p.second); return (int)p.first; }\n";
    drv += "  }\n  return -9;\n}\n";
    drv += "extern \"C\" int " + d.id + "_enc(int op, uint64_t* v) {\n  auto it = " + ns + "::kOpcodeEncodings->find((" + d.id + "_isa::OpcodeEnum)op);\n  if (it == " + ns +
           "::kOpcodeEncodings->end()) return -1;\n  *v = std::get<0>(it->second);\n  return std::get<1>(it->second);\n}\n";
  }
  gen::Put(dir + "/driver.cc", drv);
  void* h = gen::Load(c, dir, "driver.cc");
  for (auto& d : ds) {
    auto dec = gen::Sym<int (*)(int, uint64_t, int*, int*)>(c, h, (d.id + "_dec").c_str());
    auto enc = gen::Sym<int (*)(int, uint64_t*)>(c, h, (d.id + "_enc").c_str());
    uint64_t all = d.width == 64 ? ~0ull : (1ull << d.width) - 1;
    std::map<int, std::string> opname;
    for (auto& [n, v] : d.opcode_num) opname[v] = n;
    opname[0] = "none";
    for (size_t gi = 0; gi < d.groups.size(); ++gi) {
      Group& g = d.groups[gi];
      if (!g.listed || g.encs.empty()) continue;
      c.nontrivial();
      auto test = [&](uint64_t w) {
        Bits b = FromWord(w, d.width);
        std::set<std::pair<int, int>> want;
        for (auto& e : g.encs) {
          if (!Matches(d.formats[e.format], e.cons, b)) continue;
          bool spec = false;
          for (auto& s : e.specs)
            if (Matches(d.formats[s.format], s.cons, b)) {
              spec = true;
              want.insert({d.opcode_num[s.name], s.format});
            }
          if (!spec) want.insert({d.opcode_num[e.name], e.format});
          else c.ev("specialized");
        }
        if (want.empty()) {
          want.insert({0, -1});
          c.ev("undecodable");
        } else {
          c.ev("decoded");
          if (want.size() > 1) c.ev("ambiguous");
        }
        int plain = -7, fmt = -7;
        int op = dec((int)gi, w, &plain, &fmt);
        auto show = [&] {
          std::string s;
          for (auto& [o, f] : want) s += " " + opname[o] + "/" + std::to_string(f);
          return s;
        };
        c.check(want.count({op, fmt}), "wrong instruction", "%s %s word 0x%lx: got %s/%d, expected one of%s", d.id.c_str(), g.name.c_str(), w, opname.count(op) ? opname[op].c_str() : "?", fmt, show().c_str());
        bool ok = false;
        for (auto& [o, f] : want) ok |= o == plain;
        c.check(ok, "wrong instruction without format", "%s %s word 0x%lx: got %s, expected one of%s", d.id.c_str(), g.name.c_str(), w, opname.count(plain) ? opname[plain].c_str() : "?", show().c_str());
      };
      if (d.width <= 14) {
        for (uint64_t w = 0; w <= all; ++w) test(w);
        c.ev("exhaustive_groups");
      }
      int n = c.thorough ? 6000 : 2500;
      std::vector<uint64_t> good;
      for (int i = 0; i < n; ++i) {
        uint64_t w = r.next();
        if (i % 8 != 7) {
          // Make the word satisfy an instruction as far as its fixed bits go, then perhaps spoil it a little.
          auto& e = r.pick(g.encs);
          uint64_t m, v;
          EqMask(d.formats[e.format], e.cons, &m, &v);
          if (!e.specs.empty() && r.coin()) {
            uint64_t m2, v2;
            EqMask(d.formats[e.format], r.pick(e.specs).cons, &m2, &v2);
            w = (w & ~m2) | v2;
          }
          w = (w & ~m) | v;
          for (auto& k : e.cons) {  // help comparisons along
            if (!r.chance(1, 4)) continue;
            auto* x = d.formats[e.format].Field(k.lhs);
            if (!x) continue;
            Bits b = FromWord(w, d.width);
            U128 target = k.rhs.empty() ? (U128)k.value : Operand(d.formats[e.format], k.rhs, b);
            uint64_t t = ((uint64_t)target + (uint64_t)r.range(-1, 1)) & (uint64_t)Mask(x->width);
            w = (w & ~((uint64_t)Mask(x->width) << x->low)) | t << x->low;
          }
          for (uint64_t k = r.below(3); k > 0 && r.coin(); --k) w ^= 1ull << r.below(d.width);
        }
        test(w & all);
      }
      // The recorded encoding of each instruction.
      for (auto& e : g.encs) {
        uint64_t got = ~0ull;
        int width = enc(d.opcode_num[e.name], &got);
        c.check(width == d.width, "encoding width", "%s %s: width %d", d.id.c_str(), e.name.c_str(), width);
        bool ok = false;
        for (auto& g2 : d.groups)
          for (auto& e2 : g2.encs) {
            uint64_t m, v;
            EqMask(d.formats[e2.format], e2.cons, &m, &v);
            ok |= e2.name == e.name && got == v;
          }
        c.check(ok, "encoding value", "%s %s: value 0x%lx is not that of its fixed bits", d.id.c_str(), e.name.c_str(), got);
        c.ev("encodings");
      }
    }
  }
  gen::Drop(dir);
}
