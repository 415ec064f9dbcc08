// C30: descriptions that are wrong are refused, and no description makes the generator misbehave.
#include <cctype>
#include <iostream>
#include <sstream>

#include "bin_desc.h"

namespace {
// Adds text after the first "{\n" following the key, in the text or the included file.
bool AddAfter(Desc& d, const std::string& key, const std::string& add) {
  for (std::string* t : {&d.text, &d.include_text}) {
    auto p = t->find(key);
    if (p == std::string::npos) continue;
    p = t->find("{\n", p);  // not the brace in a comment
    if (p == std::string::npos) continue;
    t->insert(p + 1, "\n" + add);
    return true;
  }
  return false;
}

struct Defect {
  std::string what;
  bool refuse = true;
  std::string decoder = "Dec";
};

// Adds one well-formed or broken piece to a well-formed description.
Defect Break(vh::Rng& r, Desc& d) {
  Defect x;
  int W = d.width;
  std::string w = std::to_string(W), w1 = std::to_string(W - 1);
  std::string base = d.formats[0].name;
  // A new format and an instruction that uses it.
  std::string fields = "    unsigned zz1[1];\n    unsigned zz2[" + w1 + "];\n", overlays, head = "format zz_f[" + w + "] : " + base, layout;
  std::string inst = "  zz_in : zz_f : zz1 == 0;\n", extra, dec;
  bool use = true;
  int kind = (int)r.below(58);
  auto set = [&](const char* what) { x.what = what; };
  std::string big = r.pick(std::vector<std::string>{"99999999999999999999", "0xffffffffffffffffff", "9223372036854775808", "077777777777777777777777777",
                                                     "0b11111111111111111111111111111111111111111111111111111111111111111", "0b1000000000000000000000000000000000000000000000000000000000000000"});
  std::string bigint = r.pick(std::vector<std::string>{big, "2147483648", "0x1'0000'0000", "4294967297"});
  switch (kind) {
    case 0: case 1: case 2: case 3:
      x.what = "nothing";
      x.refuse = false;
      if (kind == 1) overlays = "    unsigned zo[2] = zz1, zz1;\n";
      if (kind == 2) overlays = "    signed zo[3] = 0b01, [0];\n";
      if (kind == 3) inst = "  zz_in : zz_f : zz1 == 0, zz1 != 1;\n  !zz_in : zz_f : zz1 == 1, zz2 < 1;\n";
      break;
    case 4: set("instruction format undefined"); inst = "  zz_in : zz_none : zz1 == 0;\n"; break;
    case 5: set("constraint field undefined"); inst = "  zz_in : zz_f : zz_none " + r.pick(std::vector<std::string>{"==", "!=", "<", ">="}) + " 0;\n"; break;
    case 6: set("constraint right side undefined"); inst = "  zz_in : zz_f : zz1 " + r.pick(std::vector<std::string>{"==", "!=", "<", ">="}) + " zz_none;\n"; break;
    case 7: set("constraint value too large"); inst = "  zz_in : zz_f : zz1 " + r.pick(std::vector<std::string>{"==", "!=", "<", "<=", ">", ">="}) + " 2;\n"; break;
    case 8: set("format too narrow"); fields = "    unsigned zz1[1];\n    unsigned zz2[" + std::to_string(W - 2) + "];\n"; break;
    case 9: set("format too wide"); fields = "    unsigned zz1[1];\n    unsigned zz2[" + w + "];\n"; break;
    case 10: set("field twice"); fields = "    unsigned zz1[1];\n    unsigned zz1[" + w1 + "];\n"; break;
    case 11: set("overlay twice"); overlays = "    unsigned zo[1] = zz1;\n    signed zo[1] = [0];\n"; break;
    case 12: set("overlay named as field"); overlays = "    unsigned zz1[1] = [0];\n"; break;
    case 13: set("overlay of undefined field"); overlays = r.coin() ? "    unsigned zo[1] = zz_none;\n" : "    unsigned zo[1] = zz_none[0];\n"; break;
    case 14: set("overlay bits beyond the field"); overlays = r.coin() ? "    unsigned zo[1] = zz1[1];\n" : "    unsigned zo[2] = zz1[1..0];\n"; break;
    case 15: set("overlay bits beyond the format"); overlays = r.coin() ? "    unsigned zo[1] = [" + w + "];\n" : "    unsigned zo[2] = [" + w + ".." + w1 + "];\n"; break;
    case 16: set("overlay bit range reversed"); overlays = r.coin() ? "    unsigned zo[2] = [0..1];\n" : "    unsigned zo[2] = zz2[0..1];\n"; break;
    case 17: set("overlay width differs"); overlays = "    unsigned zo[" + std::to_string(r.coin() ? 1 : 3) + "] = zz1, [0];\n"; break;
    case 18: {
      set("overlay wider than 64 bits");
      overlays = "    unsigned zo[65] = ";
      for (int i = 0; i < 65; ++i) overlays += i ? ", [0]" : "zz1";
      overlays += ";\n";
      break;
    }
    case 19: set("base format undefined"); head = "format zz_f[" + w + "] : zz_none"; break;
    case 20: set("width differs from base format"); head = "format zz_f[" + std::to_string(W + 1) + "] : " + base; fields = "    unsigned zz1[1];\n    unsigned zz2[" + w + "];\n"; break;
    case 21: set("format derives from itself"); head = r.coin() ? "format zz_f[" + w + "] : zz_f" : "format zz_f : zz_f"; break;
    case 22:
      set("formats derive from each other");
      head = r.coin() ? "format zz_f[" + w + "] : zz_g" : "format zz_f : zz_g";
      extra = "format zz_g[" + w + "] : zz_f {\n  fields:\n    unsigned zz3[" + w + "];\n}\n";
      break;
    case 23: set("part format undefined"); fields = "    format zz_none zz1" + std::string(r.coin() ? "" : "[1]") + ";\n    unsigned zz2[" + w1 + "];\n"; inst = "  zz_in : zz_f : zz2 == 0;\n"; break;
    case 24: set("format contains itself"); fields = "    format zz_f zz1;\n    unsigned zz2[" + w1 + "];\n"; inst = "  zz_in : zz_f : zz2 == 0;\n"; break;
    case 25:
      set("formats contain each other");
      fields = "    format zz_g zz1;\n    unsigned zz2[1];\n";
      extra = "format zz_g[" + w1 + "] {\n  fields:\n    format zz_f zz3;\n}\n";
      inst = "  zz_in : zz_f : zz2 == 0;\n";
      break;
    case 26: set("format twice"); extra = "format zz_f[" + w + "] { fields: unsigned q[" + w + "]; }\n"; break;
    case 27: set("group twice"); extra = "instruction group Grp0[" + w + "] : " + base + " { }\n"; break;
    case 28: set("decoder twice"); extra = "decoder Dec { namespace a; Grp0; }\n"; break;
    case 29: set("instruction format of another family"); head = "format zz_f[" + w + "]"; break;
    case 30: set("group not defined"); dec = "  Nowhere;\n"; break;
    case 31: set("group listed twice"); dec = "  Grp0;\n  Grp0;\n"; break;
    case 32: set("group named as a format"); extra = "instruction group zz_f[" + w + "] : " + base + " { }\n"; dec = "  zz_f;\n"; break;
    case 33: set("two namespaces"); dec = "  namespace other;\n"; break;
    case 34: set("two opcode enums"); dec = "  opcode_enum = \"Other\";\n"; break;
    case 35: set("decoder not defined"); x.decoder = r.coin() ? "Nope" : ""; break;
    case 36: set("include missing"); extra = "#include \"zz_none.inc\"\n"; break;
    case 37: set("binding variable twice"); inst += "  GENERATE([a, a] = [{1, 0}, {2, 0}]) {\n    zz_g$(a) : zz_f : zz1 == 0;\n  };\n"; break;
    case 38: set("tuple of another size"); inst += r.coin() ? "  GENERATE([a, b] = [{1, 0}, {2}]) {\n    zz_g$(a) : zz_f : zz1 == $(b);\n  };\n" : "  GENERATE([a, b] = [{1, 0, 7}]) {\n    zz_g$(a) : zz_f : zz1 == $(b);\n  };\n"; break;
    case 39: set("binding variable undefined"); inst += "  GENERATE(a = [0, 1]) {\n    zz_g$(a) : zz_f : zz1 == $(b);\n  };\n"; break;
    case 40: set("generated text wrong"); inst += "  GENERATE(a = [\"x y\", \"; ;\"]) {\n    zz_g$(a) : zz_f : zz1 == 0;\n  };\n"; break;
    case 41: set("generated value too large"); inst += "  GENERATE(a = [0, 1, 2]) {\n    zz_g$(a) : zz_f : zz1 == $(a);\n  };\n"; break;
    case 42: set("constraint number out of range"); inst = "  zz_in : zz_f : zz2 == " + big + ";\n"; break;
    case 43: set("width out of range"); fields = "    unsigned zz1[1];\n    unsigned zz2[" + bigint + "];\n"; break;
    case 44: set("format width out of range"); head = "format zz_f[" + bigint + "]"; break;
    case 45: set("bit index out of range"); overlays = "    unsigned zo[1] = [" + bigint + "];\n"; break;
    case 46: set("constant too wide"); overlays = "    unsigned zo[64] = 0b" + std::string(65, '1') + ";\n"; break;
    case 47: set("group width differs"); extra = "instruction group ZzGrp[" + std::to_string(W + 1) + "] : " + base + " {\n  zz_b : zz_f : zz1 == 0;\n}\n"; dec = "  ZzGrp;\n"; break;
    case 48: set("group format undefined"); extra = "instruction group ZzGrp[" + w + "] : zz_none {\n  zz_b : zz_f : zz1 == 0;\n}\n"; dec = "  ZzGrp;\n"; break;
    case 49: set("group wider than 64 bits"); extra = "format zz_w[65] { fields: unsigned a[1]; unsigned b[64]; }\ninstruction group ZzGrp[65] : zz_w {\n  zz_b : zz_w : a == 0;\n}\n"; dec = "  ZzGrp;\n"; break;
    case 50: set("merged group undefined"); dec = r.coin() ? "  ZzM = {Nowhere};\n" : "  ZzM = {ZzA, Nowhere};\n"; extra = "instruction group ZzA[" + w + "] : " + base + " {\n  zz_b : zz_f : zz1 == 0;\n}\n"; break;
    case 51: set("group of another format merged"); extra = "instruction group ZzA[" + w + "] : " + base + " {\n  zz_b : zz_f : zz1 == 0;\n}\ninstruction group ZzB[" + w + "] : zz_f {\n  zz_c : zz_f : zz1 == 1;\n}\n"; dec = "  ZzM = {ZzA, ZzB};\n"; break;
    case 52: set("group merged with itself"); extra = "instruction group ZzM = {ZzM};\n"; dec = "  ZzM;\n"; break;
    case 53: set("groups merged with each other"); extra = "instruction group ZzM = {ZzN};\ninstruction group ZzN = {ZzM};\n"; dec = "  ZzM;\n"; break;
    case 54: set("number of instances out of range"); fields = "    unsigned zz1[1];\n    format zz_g zz2[" + (r.coin() ? bigint : std::string("0")) + "];\n"; extra = "format zz_g[" + w1 + "] { fields: unsigned q[" + w1 + "]; }\n"; break;
    case 55: set("part format named as field"); fields = "    unsigned zz1[1];\n    format zz_g zz1;\n"; extra = "format zz_g[" + w1 + "] { fields: unsigned q[" + w1 + "]; }\n"; break;
    case 56: set("packed struct with wide parts"); use = false; extra = "format zz_p[" + std::to_string(W + 65) + "] {\n  layout: packed_struct;\n  fields:\n    format " + base + " zz1;\n" +
             (r.coin() ? "    unsigned zz2[65];\n" : "    format zz_w zz2;\n") + "}\nformat zz_w[65] { fields: unsigned q[65]; }\n"; break;
    case 57: set("packed struct with replicated parts"); use = false; extra = "format zz_p[" + std::to_string(2 * W) + "] {\n  layout: packed_struct;\n  fields:\n    format " + base + " zz1[2];\n}\n"; break;
  }
  std::string decls = head + " {\n" + layout + "  fields:\n" + fields + (overlays.empty() ? "" : "  overlays:\n" + overlays) + "}\n";
  if (use) AddAfter(d, "instruction group Grp0", inst);
  if (use || r.coin()) extra = r.coin() ? decls + extra : extra + decls;
  if (!dec.empty()) AddAfter(d, "decoder Dec", dec);
  if (r.coin() || d.include_text.empty()) d.text += extra;
  else d.include_text += extra;
  return x;
}

std::vector<std::string> Tokens(const std::string& t) {
  std::vector<std::string> v;
  for (size_t i = 0; i < t.size();) {
    size_t j = i + 1;
    auto word = [](char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '\''; };
    if (isspace((unsigned char)t[i])) {
      while (j < t.size() && isspace((unsigned char)t[j])) ++j;
    } else if (word(t[i])) {
      while (j < t.size() && word(t[j])) ++j;
    } else if (t[i] == '"') {
      while (j < t.size() && t[j] != '"') ++j;
      ++j;
    } else if (t.compare(i, 2, "//") == 0) {
      while (j < t.size() && t[j] != '\n') ++j;
    } else if (t.compare(i, 2, "/*") == 0) {
      j = t.find("*/", i);
      j = j == std::string::npos ? t.size() : j + 2;
    } else if (t.compare(i, 2, "$(") == 0 || t.compare(i, 2, "..") == 0 || t.compare(i, 2, "==") == 0 || t.compare(i, 2, "!=") == 0 || t.compare(i, 2, "::") == 0) {
      j = i + 2;
    }
    v.push_back(t.substr(i, j - i));
    i = j;
  }
  return v;
}
bool Blank(const std::string& s) { return isspace((unsigned char)s[0]) || s.compare(0, 2, "//") == 0 || s.compare(0, 2, "/*") == 0; }
}  // namespace

VH_SCENARIO(C30, refuse, 4000, 120000) {
  auto& r = c.rng;
  std::string dir = gen::Dir(c);
  Desc d;
  d.id = "d";
  MakeDesc(r, d);
  Defect x = Break(r, d);
  bool by_stdin = d.include_name.empty() && r.chance(1, 8);
  c.op("defect: %s%s", x.what.c_str(), by_stdin ? " (standard input)" : "");
  c.text(d.text);
  gen::Put(dir + "/d.bin_fmt", d.text);
  if (!d.include_name.empty()) {
    gen::Put(dir + "/" + d.include_name, d.include_text);
    c.text("-- include:\n" + d.include_text);
  }
  absl::Status st;
  {
    BinFormatVisitor v;
    if (by_stdin) {
      std::istringstream in(d.text);
      auto* old = std::cin.rdbuf(in.rdbuf());
      st = v.Process({}, x.decoder, "d", {}, dir);
      std::cin.rdbuf(old);
      c.ev("standard_input");
    } else {
      st = v.Process({dir + "/d.bin_fmt"}, x.decoder, "d", {}, dir);
    }
  }
  c.nontrivial();
  c.seen(std::hash<std::string>()(x.what));
  if (x.refuse) {
    c.check(!st.ok(), "wrong description accepted", "%s", x.what.c_str());
    bool out = !gen::Get(dir + "/d_bin_decoder.cc").empty();
    c.check(!out, "code written for a refused description", "%s", x.what.c_str());
    c.ev("refused");
  } else {
    c.check(st.ok(), "valid description refused", "%s: %s", x.what.c_str(), std::string(st.message()).c_str());
    c.check(!gen::Get(dir + "/d_bin_decoder.cc").empty(), "no code written", "%s", x.what.c_str());
    c.ev("accepted");
  }
  gen::Drop(dir);
}

// Random edits: whatever the verdict, the generator stays well-behaved.
VH_SCENARIO(C30, edited, 6000, 200000) {
  auto& r = c.rng;
  std::string dir = gen::Dir(c);
  Desc d;
  d.id = "d";
  MakeDesc(r, d);
  for (int k = (int)r.below(2); k > 0; --k) Break(r, d);
  std::string* t = !d.include_text.empty() && r.coin() ? &d.include_text : &d.text;
  auto v = Tokens(*t);
  std::vector<size_t> idents, nums, all;
  for (size_t i = 0; i < v.size(); ++i) {
    if (Blank(v[i])) continue;
    all.push_back(i);
    if (isdigit((unsigned char)v[i][0])) nums.push_back(i);
    else if (isalpha((unsigned char)v[i][0])) idents.push_back(i);
  }
  static const std::vector<std::string> nasty = {"0", "1", "2", "7", "31", "32", "33", "63", "64", "65", "127", "128", "129", "255", "256", "0b0", "0b1", "0b00000", "0x7fffffff", "2147483647", "2147483648"};
  int n = r.coin() ? 1 : (int)r.range(1, 3);
  for (int k = 0; k < n && !idents.empty() && !nums.empty(); ++k) {
    switch (r.below(16)) {
      case 0: case 1: case 2: case 3: v[r.pick(idents)] = v[r.pick(idents)]; break;
      default: v[r.pick(nums)] = r.coin() ? v[r.pick(nums)] : r.pick(nasty); break;
      case 6: v[r.pick(all)] = ""; break;
      case 7: {
        size_t i = r.pick(all);
        v[i] = v[i] + " " + v[i];
        break;
      }
      case 8: std::swap(v[r.pick(all)], v[r.pick(all)]); break;
      case 9: {  // leave out a stretch up to the next semicolon
        size_t i = r.pick(all);
        while (i < v.size() && v[i] != ";") v[i++] = "";
        break;
      }
    }
  }
  t->clear();
  for (auto& s : v) *t += s;
  c.text(d.text);
  gen::Put(dir + "/d.bin_fmt", d.text);
  if (!d.include_name.empty()) {
    gen::Put(dir + "/" + d.include_name, d.include_text);
    c.text("-- include:\n" + d.include_text);
  }
  absl::Status st;
  {
    BinFormatVisitor vis;
    st = vis.Process({dir + "/d.bin_fmt"}, "Dec", "d", {}, dir);
  }
  c.nontrivial();
  c.ev(st.ok() ? "edited_accepted" : "edited_refused");
  gen::Drop(dir);
}
