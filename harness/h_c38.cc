// C38: descriptions of protobuf encoded instructions that are wrong are refused, and no description makes the generator misbehave.
#include <signal.h>
#include <sys/wait.h>

#include "pf_desc.h"

namespace {
// Runs the generator in a process of its own. Returns 0 (accepted), 1 (refused) or -1 (it crashed or hung).
int Generate(const string& dir, const string& id, const string& decoder, const vector<string>& protos) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    freopen((dir + "/gen.log").c_str(), "w", stderr);
    setvbuf(stderr, nullptr, _IONBF, 0);
    setenv("VERIF_LOG", "1", 1);
    signal(SIGALRM, SIG_DFL);
    alarm(40);
    int rc;
    {
      pf::ProtoFormatVisitor v;
      try {
        rc = v.Process({dir + "/" + id + ".proto_fmt"}, decoder, id, {dir}, {dir}, protos, dir).ok() ? 0 : 1;
      } catch (std::exception& e) {
        fprintf(stderr, "exception: %s\n", e.what());
        fflush(stderr);
        _exit(97);
      }
    }
    fflush(nullptr);
    _exit(rc);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) gen::Put(dir + "/gen.log", "no end within 40 s\n");
  return WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1) ? WEXITSTATUS(st) : -1;
}
struct Defect {
  string what, decoder;
  bool refuse = true;
  vector<string> protos;
};
// Adds one well-formed or broken group to a well-formed description.
Defect Break(vh::Rng& r, DescT& d) {
  Defect x;
  x.decoder = "Dec" + d.id;
  x.protos = {d.id + ".proto"};
  string msg = d.package + ".ZzMsg", head, groups, attr = "  zz_g;\n", cons, setters, more, top, end = "}\n", lead;
  auto pick = [&](vector<string> v) { return r.pick(v); };
  auto set = [&](const char* w) { x.what = w; };
  auto ok = [&](const char* w) { x.what = w; x.refuse = false; };
  d.proto += "enum ZzE {\n  ZZ_A = 0;\n  ZZ_B = 3;\n}\n"
             "message ZzSub {\n  int32 zz_q = 1;\n  oneof zz_uni {\n    int32 zz_u1 = 2;\n    ZzE zz_u2 = 3;\n  }\n}\n"
             "message ZzMsg {\n  int32 zz_i = 1;\n  bool zz_f = 2;\n  ZzE zz_e = 3;\n  optional int32 zz_o = 4;\n  oneof zz_one {\n    ZzSub zz_s1 = 5;\n    int32 zz_s2 = 6;\n  }\n"
             "  uint32 zz_v = 7;\n  string zz_t = 8;\n  ZzSub zz_p = 9;\n}\n"
             "message ZzOther {\n  int32 zz_i = 1;\n}\n";
  string op = pick({"==", "!=", "<", "<=", ">", ">="});
  string other = "instruction group zz_h : " + d.package + ".ZzOther {\n  zz_ih : zz_i == 1;\n}\n";
  string same = "instruction group zz_k : " + d.package + ".ZzMsg {\n  zz_ik : zz_i == 7;\n}\n";
  switch (r.below(75)) {
    case 0: case 1: ok("plain"); break;
    case 2: ok("presence"); cons = ", HAS(" + pick({"zz_s1", "zz_s2", "zz_o", "zz_p"}) + ")"; break;
    case 3: ok("field of a oneof member"); cons = ", zz_s1." + pick({"zz_q", "zz_u1"}) + " " + op + " 4"; break;
    case 4: ok("optional field"); cons = ", zz_o " + op + " 4"; break;
    case 5: ok("default"); setters = "    zz_w = zz_o || 5;\n"; break;
    case 6: ok("alias"); top = "using " + msg + ";\n"; msg = "ZzMsg"; break;
    case 7: ok("named alias"); top = "using ZzAl = " + msg + ";\n"; msg = "ZzAl"; break;
    case 8: ok("setter group"); setters = "    zz_set;\n"; break;
    case 9: ok("enumerator"); cons = ", zz_e " + op + " " + pick({"ZZ_A", "ZZ_B"}); break;
    case 10: ok("merged"); groups = same; attr = "  zz_m = {zz_g, zz_k};\n"; break;
    case 11: ok("merged twice"); groups = same; attr = "  zz_m = {zz_g, zz_k};\n  zz_n = {zz_k, zz_g};\n"; break;
    case 12: ok("merged and alone"); groups = same; attr = "  zz_m = {zz_g, zz_k};\n  zz_k;\n"; break;
    case 13: ok("two groups"); groups = other; attr += "  zz_h;\n"; break;
    case 14: ok("unused group"); groups = other; break;
    case 20: set("group undefined"); attr += "  zz_none;\n"; break;
    case 21: set("group listed twice"); attr += "  zz_g;\n"; break;
    case 22: set("group listed alone and merged"); attr = "  zz_g;\n  zz_m = {zz_g};\n"; break;
    case 23: set("merged group undefined"); groups = same; attr = "  zz_m = {" + pick({"zz_none", "zz_g, zz_none", "zz_none, zz_g", "zz_g, zz_none, zz_k", "zz_g, zz_k, zz_none, zz_none"}) + "};\n"; break;
    case 24: set("merged groups of different messages"); groups = other + same; attr = "  zz_m = {" + pick({"zz_g, zz_h", "zz_h, zz_g", "zz_g, zz_k, zz_h"}) + "};\n"; break;
    case 25: set("group merged twice in one"); groups = same; attr = "  zz_m = {" + pick({"zz_g, zz_g", "zz_g, zz_k, zz_g"}) + "};\n"; break;
    case 26: set("merged group named as a group"); groups = same; attr = pick({"  zz_g = {zz_g, zz_k};\n", "  zz_g;\n  zz_g = {zz_k};\n", "  zz_m = {zz_g};\n  zz_m = {zz_k};\n"}); break;
    case 27: set("message undefined"); msg = pick({"ZzNone", d.package + ".ZzNone", "zz.ZzMsg", d.package, d.package + ".ZzE", msg + ".zz_i"}); break;
    case 28: set("group twice"); groups = "instruction group zz_g : " + msg + " {\n  zz_y : zz_i == 3;\n}\n"; break;
    case 29: set("decoder twice"); top = "decoder " + x.decoder + " {\n  namespace q;\n  opcode_enum = \"a::B\";\n  zz_g;\n}\n"; break;
    case 30: set("decoder undefined"); x.decoder = pick({"DecZz", "", "zz_g"}); break;
    case 31: set("decoder without groups"); x.decoder = "DecZz"; top = "decoder DecZz {\n  namespace q;\n  opcode_enum = \"a::B\";\n}\n"; break;
    case 32: set("namespace twice"); attr += "  namespace q::r;\n"; break;
    case 33: set("opcode enumeration twice"); attr += "  opcode_enum = \"a::B\";\n"; break;
    case 34: set("opcode enumeration empty"); x.decoder = "DecZz"; top = "decoder DecZz {\n  namespace q;\n  opcode_enum = \"\";\n  zz_g;\n}\n"; break;
    case 35: set("field undefined"); cons = ", " + pick({"zz_none", "zz_s1.zz_none", "zz_none.zz_q", "zz_p.zz_none.zz_q", "ZzMsg.zz_i"}) + " " + op + " 1"; break;
    case 36: set("field of a scalar"); cons = ", " + pick({"zz_i.zz_q", "zz_e.zz_q", "zz_s2.zz_q", "zz_p.zz_q.zz_q", "zz_t.zz_q"}) + " " + op + " 1"; break;
    case 37: set("presence of an undefined field"); cons = ", HAS(" + pick({"zz_none", "zz_s1.zz_none", "zz_i.zz_q", "zz_one"}) + ")"; break;
    case 38: set("presence of a field that has none"); cons = ", HAS(" + pick({"zz_v", "zz_f", "zz_e", "zz_t", "zz_p.zz_q"}) + ")"; break;
    case 39: set("setter of an undefined field"); setters = "    zz_w = " + pick({"zz_none", "zz_s1.zz_none", "zz_i.zz_q"}) + ";\n"; break;
    case 40: set("setter group with an undefined field"); lead = "  setter zz_se2:\n    zz_w = " + pick({"zz_none", "zz_s1.zz_none", "zz_i.zz_q"}) + ";\n"; setters = pick({"    zz_se2;\n", ""}); break;
    case 41: set("enumerator undefined"); cons = ", zz_e " + op + " " + pick({"ZZ_C", "zz_i", "ZzE.ZZ_A"}); break;
    case 42: set("enumerator for a plain field"); cons = ", " + pick({"zz_v", "zz_f", "zz_t"}) + " " + op + " ZZ_A"; break;
    case 43: set("number too large"); cons = ", zz_v " + op + " " + pick({"18446744073709551616", "0x10000000000000000", "99999999999999999999999u", "0x1ffffffffffffffffffu"}); break;
    case 44: set("contradictory members"); cons = ", HAS(zz_s1), " + pick({"HAS(zz_s2)", "zz_s2 == 1", "zz_s2 > 1"}); break;
    case 45: set("setter twice"); setters = "    zz_w = zz_i;\n    zz_w = zz_v;\n"; break;
    case 46: set("setter group undefined"); setters = "    zz_none;\n"; break;
    case 47: set("setter of different types"); setters = "    zz_val = " + pick({"zz_t", "zz_p", "zz_s1"}) + ";\n"; break;
    case 48: set("setter of a message"); setters = "    zz_w = " + pick({"zz_p", "zz_s1"}) + ";\n"; break;
    case 49: set("setter against a constraint"); cons = ", HAS(zz_s2)"; setters = "    zz_w = zz_s1.zz_q;\n"; break;
    case 50: set("the same constraints twice"); more = "  zz_in3 : zz_i == 1;\n"; break;
    case 51: set("overlapping ranges"); cons = ", zz_v " + pick({"> 3", ">= 4", "!= 1"}); more = "  zz_in3 : zz_i == 1, zz_v " + pick({"> 5", "== 9", "<= 60"}) + ";\n"; break;
    case 52: set("an instruction covered by another"); more = "  zz_in3 : zz_i == 1, zz_v == 3;\n"; break;
    case 53: set("include file missing"); top = "#include \"zz_none.proto_fmt\"\n"; break;
    case 54: set("proto file missing"); x.protos.push_back("zz_none.proto"); break;
    case 55: set("proto file broken"); d.proto += pick({"message {\n", "message ZzMsg { }\n", "message ZzA { NoType x = 1; }\n"}); break;
    case 56: set("binding variable undefined"); more = "  GENERATE(zz_x = [1, 2]) {\n    zz_g$(zz_x) : : zz_i == $(zz_y);\n  };\n"; break;
    case 57: set("binding variable twice"); more = "  GENERATE(zz_x = [1, 2], zz_x = [3]) {\n    zz_g$(zz_x) : : zz_i == $(zz_x);\n  };\n"; break;
    case 58: set("wrong number of values"); more = "  GENERATE([zz_x, zz_y] = [{1, 2}, " + pick({"{3}", "{3, 4, 5}"}) + "]) {\n    zz_g$(zz_x) : : zz_i == $(zz_y);\n  };\n"; break;
    case 59: set("instruction without constraints"); more = "  zz_in3 : ;\n"; break;
    case 60: set("constraint without value"); cons = ", zz_v " + op; break;
    case 61: set("constraint without operator"); cons = ", zz_v 3"; break;
    case 62: set("unknown operator"); cons = ", zz_v " + pick({"=", "=>", "<>"}) + " 3"; break;
    case 63: set("closing brace missing"); end = ""; break;
    case 64: set("semicolon missing"); more = "  zz_in3 : zz_i == 3\n"; break;
    case 65: set("superfluous token"); top = pick({"}\n", "zz\n", "12\n"}); break;
    case 66: set("reserved word as a name"); more = "  " + pick({"group", "decoder", "HAS", "GENERATE", "setter"}) + " : zz_i == 3;\n"; break;

    case 68: set("group without message"); groups = "instruction group zz_h {\n  zz_ih : zz_i == 1;\n}\n"; break;
    case 69: set("text for a number"); cons = ", zz_i != \"abc\""; more = "  zz_in3 : zz_i == 1, zz_i < 5, zz_v == 4;\n"; break;
    default: ok("plain"); break;
  }
  string grp = "instruction group zz_g : " + msg + " {\n  setter zz_set:\n    zz_va2 = zz_v;\n" + lead + "  zz_in1 : zz_i == 1" + cons + ";\n    zz_val = zz_i;\n" + setters + "  zz_in2 : zz_i == 2;\n    zz_val = zz_v;\n    zz_set;\n" + more + end;
  string key = "decoder Dec" + d.id + " {\n";
  string& t = d.text.find(key) != string::npos ? d.text : d.include;
  size_t at = t.find(key);
  if (at == string::npos) abort();
  t.insert(at + key.size(), attr);
  string add = r.coin() ? top + groups + grp : grp + groups + top;
  if (end.empty()) d.text += "\n" + top + groups + grp;
  else if (r.coin() && top.find("#include") == string::npos) d.text += "\n" + add;
  else d.text = add + d.text;
  return x;
}
vector<string> Tokens(const string& t) {
  vector<string> v;
  for (size_t i = 0; i < t.size();) {
    size_t j = i + 1;
    auto word = [](char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '\''; };
    if (isspace((unsigned char)t[i])) {
      while (j < t.size() && isspace((unsigned char)t[j])) ++j;
    } else if (word(t[i])) {
      while (j < t.size() && word(t[j])) ++j;
    } else if (t.compare(i, 2, "//") == 0) {
      while (j < t.size() && t[j] != '\n') ++j;
    } else if (t.compare(i, 2, "/*") == 0) {
      j = t.find("*/", i);
      j = j == string::npos ? t.size() : j + 2;
    } else if (t[i] == '"') {
      j = t.find('"', i + 1);
      j = j == string::npos ? t.size() : j + 1;
    } else if (t.compare(i, 2, "==") == 0 || t.compare(i, 2, "!=") == 0 || t.compare(i, 2, "::") == 0 || t.compare(i, 2, "||") == 0 || t.compare(i, 2, "<=") == 0 || t.compare(i, 2, ">=") == 0) {
      j = i + 2;
    }
    v.push_back(t.substr(i, j - i));
    i = j;
  }
  return v;
}
bool Blank(const string& s) { return isspace((unsigned char)s[0]) || s.compare(0, 2, "//") == 0 || s.compare(0, 2, "/*") == 0; }
void Put(vh::Case& c, const string& dir, const DescT& d) {
  gen::Put(dir + "/d.proto", d.proto);
  gen::Put(dir + "/d.proto_fmt", d.text);
  if (!d.include.empty()) gen::Put(dir + "/d_inc.proto_fmt", d.include);
  c.text("-- d.proto\n" + d.proto + "-- d.proto_fmt\n" + d.text + (d.include.empty() ? "" : "-- include\n" + d.include));
}
bool Written(const string& dir) { return !gen::Get(dir + "/d_proto_decoder.cc").empty() || !gen::Get(dir + "/d_proto_decoder.h").empty(); }
void MakeD(vh::Rng& r, DescT& d) {
  d.id = "d";
  d.package = r.coin() ? "pkd" : "pkd.sub_p";
  Maker{r, d}.Make();
}
}  // namespace

VH_SCENARIO(C38, planted, 1600, 40000) {
  auto& r = c.rng;
  string dir = gen::Dir(c);
  DescT d;
  MakeD(r, d);
  Defect x = Break(r, d);
  Put(c, dir, d);
  c.op("defect %s", x.what.c_str());
  int rc = Generate(dir, d.id, x.decoder, x.protos);
  string log = gen::Get(dir + "/gen.log").substr(0, 3000);
  c.nontrivial();
  c.seen(std::hash<string>()(x.what));
  c.check(rc >= 0, ("generator crashed: " + x.what).c_str(), "%s", log.c_str());
  if (x.refuse) {
    c.check(rc == 1, ("wrong description accepted: " + x.what).c_str(), "it was not refused");
    c.check(!Written(dir), "code written for a refused description", "%s", x.what.c_str());
    c.ev("refused");
  } else {
    c.check(rc == 0, ("valid description refused: " + x.what).c_str(), "%s", log.c_str());
    c.check(Written(dir), "no code written", "%s", x.what.c_str());
    c.ev("accepted");
  }
  gen::Drop(dir);
}

// Random edits: whatever the verdict, the generator stays well-behaved.
VH_SCENARIO(C38, edited, 2400, 60000) {
  auto& r = c.rng;
  string dir = gen::Dir(c);
  DescT d;
  MakeD(r, d);
  if (r.coin()) Break(r, d);
  string* t = !d.include.empty() && r.chance(1, 3) ? &d.include : &d.text;
  auto v = Tokens(*t);
  vector<size_t> idents, nums, all;
  for (size_t i = 0; i < v.size(); ++i) {
    if (Blank(v[i])) continue;
    all.push_back(i);
    if (isdigit((unsigned char)v[i][0])) nums.push_back(i);
    else if (isalpha((unsigned char)v[i][0])) idents.push_back(i);
  }
  static const vector<string> nasty = {"0", "1", "7", "255", "0x7fffffff", "2147483647", "2147483648", "4294967295u", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615u", "0xffffffffffffffffull", "1.5", "true", "\"text\""};
  int n = r.coin() ? 1 : (int)r.range(1, 4);
  for (int k = 0; k < n && !idents.empty() && !nums.empty(); ++k) {
    switch (r.below(16)) {
      case 0: case 1: case 2: case 3: v[r.pick(idents)] = v[r.pick(idents)]; break;
      case 4: case 5: v[r.pick(nums)] = v[r.pick(idents)]; break;
      default: v[r.pick(nums)] = r.coin() ? v[r.pick(nums)] : r.pick(nasty); break;
      case 10: case 11: v[r.pick(all)] = ""; break;
      case 12: {
        size_t i = r.pick(all);
        v[i] = v[i] + " " + v[i];
        break;
      }
      case 13: std::swap(v[r.pick(all)], v[r.pick(all)]); break;
      case 14: v[r.pick(all)] = v[r.pick(all)]; break;
      case 15: {  // leave out a stretch up to the next semicolon
        size_t i = r.pick(all);
        while (i < v.size() && v[i] != ";") v[i++] = "";
        break;
      }
    }
  }
  t->clear();
  for (auto& s : v) *t += s;
  Put(c, dir, d);
  int rc = Generate(dir, d.id, "Decd", {"d.proto"});
  string log = rc == -1 ? gen::Get(dir + "/gen.log").substr(0, 3000) : "";
  c.nontrivial();
  c.check(rc >= 0, "generator crashed", "%s", log.c_str());
  c.check((rc == 0) == Written(dir), "verdict and output differ", "verdict %d", rc);
  c.ev(rc == 0 ? "edited_accepted" : "edited_refused");
  gen::Drop(dir);
}
