// C36: instruction set descriptions that are wrong are refused, and no description makes the generator misbehave.
#include <signal.h>
#include <sys/wait.h>

#include <cctype>
#include <iostream>
#include <sstream>

#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "gen_rig.h"
#include "isa_desc.h"
#include "mpact/sim/decoder/instruction_set_visitor.h"

ABSL_DECLARE_FLAG(unsigned, generator);

using namespace isa;
using mpact::sim::machine_description::instruction_set::InstructionSetVisitor;

namespace {
// Runs the generator as its tool does, in a process of its own. Returns 0 (accepted), 1 (refused) or -1 (it crashed or hung).
int Generate(const string& dir, const vector<string>& files, const string& input, const string& prefix, const string& isa, unsigned version) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    freopen((dir + "/gen.log").c_str(), "w", stderr);
    setenv("VERIF_LOG", "1", 1);
    signal(SIGALRM, SIG_DFL);
    alarm(40);
    absl::SetFlag(&FLAGS_generator, version);
    int rc;
    {
      InstructionSetVisitor v;
      std::istringstream in(input);
      if (files.empty()) std::cin.rdbuf(in.rdbuf());
      try {
        rc = v.Process(files, prefix, isa, {}, dir).ok() ? 0 : 1;
      } catch (std::exception& e) {
        fprintf(stderr, "exception: %s\n", e.what());
        fflush(stderr);
        _exit(97);
      }
    }
    fflush(nullptr);
    _exit(rc);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) gen::Put(dir + "/gen.log", "no end within 40 s\n");
  return WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1) ? WEXITSTATUS(st) : -1;
}
struct Defect {
  string what;
  bool refuse = true;
  string isa, prefix;
};

// Adds one well-formed or broken slot to a well-formed description.
Defect Break(Rng& r, Desc& d) {
  Defect x;
  x.isa = d.name;
  x.prefix = d.id;
  string sem = "\"SEM(1)\"";
  string head = "slot zz_s", base, decls, def = "  default opcode = semfunc: " + sem + ";\n", extra, use = " zz_s;", more;
  string top, p, s = "zz_a, zz_b", t = "zz_x", attrs;  // zz_op {p : s : t}, attrs
  string size, name = "zz_op", operands, isa_text;
  bool widths_ok = d.widths.empty();
  // A base slot with an instruction and a template base slot.
  string zz_base = "slot zz_base {\n  opcodes {\n    zz_in{: zz_a : zz_x}, disasm: \"zz_in\", semfunc: " + sem + ";\n    zz_io{: zz_b : zz_y}, semfunc: " + sem + ";\n  }\n}\n";
  auto inherit = [&] {  // from a plain or a templated slot
    base = "zz_base";
    extra = zz_base;
    if (r.coin()) return;
    base = "zz_base<3>";
    extra = "template <int zz_n>\n" + zz_base;
  };
  string zz_tmpl = "template <int zz_n, int zz_m>\nslot zz_tmpl {\n  int zz_k = zz_n + 1;\n  opcodes {\n    zz_it{: zz_a : zz_x(zz_k)}, semfunc: " + sem + ";\n  }\n}\n";
  string huge = r.pick(vector<string>{"2147483648", "99999999999999999999", "0xffffffffffffffffff", "0x1'0000'0000", "0777777777777777777777", "0b100000000000000000000000000000000"});
  auto pick = [&](vector<string> v) { return r.pick(v); };
  auto undef = [&] { return pick({"zz_none", "zz_none + 1", "-zz_none", "(2 * zz_none)", "abs(zz_none)", "1 + abs(2 - zz_none)", "zz_none / 2", "3 / zz_none"}); };
  auto zero = [&] { return pick({"1/0", "5 / (2 - 2)", "abs(1/0)", "1 + 2/0", "-(3/0)"}); };
  auto arity = [&] { return pick({"abs()", "abs(1, 2)", "abs(1, 2, 3)", "1 + abs()", "abs(abs())"}); };
  auto nofun = [&] { return pick({"zz_f(1)", "1 + zz_f(2)", "zz_f()", "abs(zz_f(1))", "max(1, 2)"}); };
  auto wrong = [&] { return r.pick(vector<string>{undef(), zero(), arity(), nofun(), huge}); };
  auto set = [&](const char* what) { x.what = what; };
  auto ok = [&](const char* what) {
    x.what = what;
    x.refuse = false;
  };
  auto dis = [&](const string& f) {
    string l = pick({"", "zz ", "%zz_a, ", "\", \"", "%zz_b\", \"zz"}), e = pick({"", " zz", ", %zz_x", "\", \"zz"});
    attrs = ", disasm: \"" + l + f + e + "\"";
  };
  switch ((int)r.below(114)) {
    case 0: ok("nothing"); break;
    case 1: ok("derived slot"); base = "zz_base"; extra = zz_base; break;
    case 2: ok("templated base"); base = "zz_tmpl<" + pick({"1, 2", "1 + 2, abs(-3)", "(2), 2*3"}) + ">"; extra = zz_tmpl; break;
    case 3: ok("inherited opcode deleted"); base = "zz_base"; extra = zz_base; more = "    zz_in = delete;\n"; break;
    case 4: ok("inherited opcode overridden"); base = "zz_base"; extra = zz_base; more = "    zz_in = override, disasm: \"other %zz_a\", semfunc: " + sem + ";\n"; break;
    case 5: ok("named resources"); decls = "  resources zz_r = {zz_a : zz_x};\n"; attrs = ", resources: zz_r"; break;
    case 6: ok("bundles"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { bundles { zz_bv; } }\nbundle zz_bv { slots { zz_s; } }\n"; break;
    case 7: ok("instances"); head = "slot zz_s[3]"; use = " zz_s[" + pick({"0..2", "0, 1, 2", "2, 0..1", "1"}) + "];"; break;
    case 8: ok("generated"); more = "    GENERATE(zz_i = [1, 2, x], [zz_j, zz_k] = [{a, \"\"}, {b, \", %zz_a\"}]) {\n      zz_g$(zz_i)$(zz_j){: zz_a : zz_x}, disasm: \"g$(zz_i)$(zz_k)\", semfunc: " + sem + ";\n    };\n"; break;
    case 9: ok("formats"); dis(pick({"%(zz_a:d)", "%(zz_b:08x)", "%(@ + zz_a)", "%(@ - (zz_a << 2):08x)", "%zz_x", "\\%", "%(@ + (zz_a >> 63):x)"})); p = "zz_p"; break;
    case 10: ok("children"); operands = "(: zz_a : zz_x), (zz_p : zz_b : zz_y(2))"; attrs = ", semfunc: " + sem + ", " + sem; break;
    case 11: ok("attributes"); attrs = ", attributes: {zz_at, zz_au = 3}"; decls = "  default attributes = {zz_au = 2, zz_av};\n"; break;
    // Wrong references.
    case 12: set("slot undefined"); use = pick({" zz_s; zz_none;", " zz_none; zz_s;", " zz_s; zz_none[0];", " zz_s; zz_none[0..1];"}); break;
    case 13: set("bundle undefined"); isa_text = "bundles { zz_none; }"; break;
    case 14: set("bundle undefined in bundle"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { bundles { zz_none; } slots { zz_s; } }\n"; break;
    case 15: set("slot undefined in bundle"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { slots { zz_s; " + pick({"zz_none", "zz_none[1]"}) + "; } }\n"; break;
    case 16: set("base slot undefined"); base = pick({"zz_none", "zz_base, zz_none", "zz_none, zz_base", "zz_none<1>"}); extra = zz_base; break;
    case 17: set("slot twice"); extra = "slot zz_s {\n" + def + "  opcodes { }\n}\n"; break;
    case 18: set("bundle twice"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { slots { zz_s; } }\nbundle zz_bu { slots { zz_s; } }\n"; break;
    case 19: set("isa twice"); extra = "isa " + d.name + " { namespace q; slots { zz_s; } }\n"; break;
    case 20: set("slot inherits from itself"); base = pick({"zz_s", "zz_base, zz_s"}); extra = zz_base; break;
    case 21: set("slots inherit from each other"); base = "zz_t"; extra = "slot zz_t : " + pick({"zz_s", "zz_u"}) + " { opcodes { } }\nslot zz_u : zz_s { }\n"; break;
    case 22: set("bundle contains itself"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { bundles { zz_bu; } slots { zz_s; } }\n"; break;
    case 23: set("bundles contain each other"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { bundles { zz_bv; } slots { zz_s; } }\nbundle zz_bv { bundles { zz_bu; } }\n"; break;
    case 24: set("isa undefined"); x.isa = "zz_none"; break;
    case 25: set("isa name empty"); x.isa = ""; break;
    // Templates.
    case 26: set("template argument count"); base = "zz_tmpl<" + pick({"1", "1, 2, 3", "1, 2, 3, 4"}) + ">"; extra = zz_tmpl; break;
    case 27: set("template arguments missing"); base = "zz_tmpl"; extra = zz_tmpl; break;
    case 28: set("arguments for a plain slot"); base = "zz_base<1>"; extra = zz_base; break;
    case 29: set("template parameter twice"); base = "zz_t2<1, 2>"; extra = "template <int zz_n, int zz_n>\nslot zz_t2 { opcodes { zz_it{: zz_a : zz_x}, semfunc: " + sem + "; } }\n"; break;
    case 30: set("wrong template argument"); base = "zz_tmpl<1, " + r.pick(vector<string>{undef(), arity(), nofun(), huge}) + ">"; extra = zz_tmpl; break;
    case 31: set("constant named as parameter"); base = "zz_t2<1>"; extra = "template <int zz_n>\nslot zz_t2 { int zz_n = 2; opcodes { zz_it{: zz_a : zz_x}, semfunc: " + sem + "; } }\n"; break;
    case 32: set("templated slot in the isa"); head = "template <int zz_n>\nslot zz_s"; t = pick({"zz_x", "zz_x(zz_n)"}); break;
    case 33: set("argument divides by zero"); base = "zz_tmpl<" + pick({"1/0, 1", "1/(3-3), 2"}) + ">"; extra = zz_tmpl; break;
    case 34: set("parameter divides by zero"); base = "zz_t2<0>"; extra = "template <int zz_n>\nslot zz_t2 { opcodes { zz_it{: zz_a : zz_x(4 / zz_n)}, semfunc: " + sem + "; } }\n"; break;
    // Constants and defaults.
    case 35: set("constant twice"); decls = "  int zz_k = 1;\n  int zz_k = 2;\n"; break;
    case 36: set("global constant twice"); extra = "int zz_k = 1;\nint zz_k = " + pick({"1", "2"}) + ";\n"; break;
    case 37: set("wrong constant"); decls = "  int zz_k = " + r.pick(vector<string>{undef(), arity(), nofun(), huge}) + ";\n"; break;
    case 38: set("wrong global constant"); extra = "int zz_k = " + r.pick(vector<string>{undef(), arity(), nofun(), huge}) + ";\n"; break;
    case 39: set("wrong default latency"); decls = "  default latency = " + wrong() + ";\n"; break;
    case 40: set("negative default latency"); decls = "  default latency = " + pick({"-1", "2 - 5"}) + ";\n"; break;
    case 41: set("default size out of range"); decls = "  default size = " + huge + ";\n"; break;
    case 42: set("default opcode missing"); def = ""; break;
    case 43: set("default opcode without semfunc"); def = "  default opcode = disasm: \"zz\";\n"; break;
    case 44: set("default opcode twice"); def += def; break;
    case 45: set("two semfuncs for the default opcode"); def = pick({"  default opcode = semfunc: " + sem + ", " + sem + ";\n", "  default opcode = semfunc: " + sem + ", semfunc: " + sem + ";\n"}); break;
    case 46: set("two disasms for the default opcode"); def = "  default opcode = disasm: \"a\", semfunc: " + sem + ", disasm: \"b\";\n"; break;
    case 47: set("default opcode with resources or attributes"); def = "  default opcode = semfunc: " + sem + ", " + pick({"resources: {zz_a}", "attributes: {zz_at}", "resources: zz_r"}) + ";\n"; break;
    case 48: set("wrong disasm of the default opcode"); def = "  default opcode = semfunc: " + sem + ", disasm: \"" + pick({"%zz_a", "%(@", "%(zz_a:d)", "%", "a %?zz_a"}) + "\";\n"; break;
    case 49: set("wrong default attribute"); decls = "  default attributes = {zz_at = " + wrong() + "};\n"; break;
    case 50: set("default attribute twice"); decls = "  default attributes = {zz_at, zz_at};\n"; break;
    // Opcodes.
    case 51: set("opcode twice"); more = "    zz_op{: zz_a : zz_x}, semfunc: " + sem + ";\n"; break;
    case 52: set("inherited opcode declared again"); base = "zz_base"; extra = zz_base; more = "    zz_in{: zz_a : zz_x}, semfunc: " + sem + ";\n"; break;
    case 53: set("deleted opcode not inherited"); inherit(); more = pick({"    zz_none = delete;\n", "    zz_op = delete;\n"}); break;
    case 54: set("deleted opcode without base"); more = "    zz_none = delete;\n"; break;
    case 55: set("overridden opcode not inherited"); inherit(); more = "    zz_none = override, disasm: \"zz\";\n"; break;
    case 56: set("overridden opcode without base"); more = "    zz_none = override, disasm: \"zz\";\n"; break;
    case 57: set("opcode from two bases"); base = pick({"zz_base, zz_bas2", "zz_base, zz_bas3"}); extra = zz_base + "slot zz_bas2 { opcodes { zz_in{: zz_a : zz_x}, semfunc: " + sem + "; } }\nslot zz_bas3 : zz_bas2 { }\n"; break;
    case 58: set("base slot twice"); base = pick({"zz_base, zz_base", "zz_base, zz_bas2"}); extra = zz_base + "slot zz_bas2 : zz_base { }\n"; break;
    case 59: set("opcode overridden twice"); inherit(); more = "    zz_in = override, disasm: \"a\";\n    zz_in = override, disasm: \"b\";\n"; break;
    case 60: set("opcode deleted and overridden"); inherit(); more = r.coin() ? "    zz_in = override, disasm: \"a\";\n    zz_in = delete;\n" : "    zz_in = delete;\n    zz_in = override, disasm: \"a\";\n"; break;
    case 61: set("opcode size out of range"); size = "[" + huge + "]"; break;
    case 62: set("two disasms"); attrs = ", disasm: \"a\", disasm: \"b\""; break;
    case 63: set("two semfuncs"); attrs = ", semfunc: " + sem + ", semfunc: " + sem; break;
    case 64: set("two resources"); attrs = ", resources: {zz_a}, resources: {zz_b}"; break;
    case 65: set("two attribute lists"); attrs = ", attributes: {zz_at}, attributes: {zz_au}"; break;
    case 66: ok("superfluous semfunc"); attrs = ", semfunc: " + sem + ", " + sem; break;
    case 67: set("semfunc missing for a child"); operands = "(: zz_a : zz_x), (: zz_b : zz_y)" + pick({"", ", (: zz_a : )"}); attrs = ", semfunc: " + sem; break;
    case 68: ok("superfluous semfunc for children"); operands = "(: zz_a : zz_x), (: zz_b : zz_y)"; attrs = ", semfunc: " + sem + ", " + sem + ", " + sem; break;
    case 69: set("attribute twice"); attrs = ", attributes: {zz_at, zz_au, zz_at" + pick({"", " = 2"}) + "}"; break;
    case 70: set("wrong attribute"); attrs = ", attributes: {zz_at = " + wrong() + "}"; break;
    case 71: set("resources undefined"); attrs = ", resources: zz_none"; break;
    case 72: set("resources defined twice"); decls = "  resources zz_r = {zz_a};\n  resources zz_r = {zz_b};\n"; break;
    case 73: set("wrong begin cycle"); attrs = ", resources: {zz_a : zz_x[" + wrong() + "]}"; break;
    case 74: set("wrong end cycle"); attrs = ", resources: {zz_a : zz_x[" + pick({"", "0", "1"}) + ".." + wrong() + "]}"; break;
    case 75: set("wrong cycles of a used resource"); attrs = ", resources: {zz_a[" + r.pick(vector<string>{undef(), arity(), nofun(), huge}) + ".." + "] : zz_x}"; break;
    case 76: set("wrong latency"); t = "zz_x(" + wrong() + ")"; break;
    case 77: set("negative latency"); t = "zz_x(" + pick({"-1", "1 - 3", "-(2 * 2)"}) + ")"; break;
    case 78: set("negative latency of a child"); operands = "(: zz_a : zz_x(1)), (: zz_b : zz_y(" + pick({"-1", "1 - 3"}) + "))"; attrs = ", semfunc: " + sem + ", " + sem; break;
    case 79: set("negative cycle"); attrs = ", resources: {zz_a : zz_x[" + pick({"-1", "0..-2", "..1-2", "-3..-1", "-2.."}) + "]}"; break;
    case 80: set("cycle of a latency decided later"); t = "zz_x(*)"; attrs = ", resources: {zz_a : zz_x[0..zz_x]}"; break;
    case 81: set("named resources with wrong cycles"); decls = "  resources zz_r = {zz_a : zz_x[0.." + wrong() + "]};\n"; attrs = ", resources: zz_r"; break;
    // Disassembly.
    case 82: set("disasm operand unknown"); dis(pick({"%zz_none", "%(zz_none:d)", "%(@ + zz_none)", "%(@ - (zz_none << 2))", "%?zz_none", "%(zz_none << 1:x)"})); break;
    case 83: set("disasm parenthesis"); attrs = ", disasm: \"zz " + pick({"%(zz_a", "%(@ + zz_a", "%(@ + (zz_a", "%(@ + (zz_a << 2)", "%(", "%(zz_a:08x"}) + "\""; break;
    case 84: set("disasm empty expression"); dis(pick({"%()", "%( )", "%(:d)", "%(@ +)", "%(@ -:x)", "%(@ + ())"})); break;
    case 85: set("disasm number format"); dis(pick({"%(zz_a:0x)", "%(zz_a:0123x)", "%(zz_a:08Y)", "%(zz_a:08xY)", "%(zz_a:123d)", "%(@ + zz_a:q)", "%(zz_a:)", "%(zz_a:-8x)"})); break;
    case 86: set("disasm shift"); dis(pick({"%(@ + (zz_a << 64))", "%(@ + (zz_a << -1))", "%(@ + (zz_a << ))", "%(@ + (zz_a << 5 zz))", "%(@ + (zz_a << 1x))", "%(@ + (zz_a <> 1))", "%(@ + (zz_a << 99999999999999999999))", "%(@ + (zz_a >> 200))", "%(@ + (zz_a 2))"})); break;
    case 87: set("disasm expression"); dis(pick({"%(@ zz_a)", "%(@ * zz_a)", "%(@ + zz_a zz_b)", "%(zz_a + zz_b)", "%(@ + (zz_a << 5) zz)", "%(@@)", "%(5)", "%(@ + 5)", "%(zz_a + @)"})); break;
    case 88: set("disasm ends within an operand"); attrs = ", disasm: \"zz %\""; break;
    case 89: set("disasm of a number"); dis("%2zz"); break;
    // Instances.
    case 90: set("instance out of range"); head = pick({"slot zz_s[3]", "slot zz_s[2]"}); use = " zz_s[" + pick({"3", "0, 3", "0..3", "2, 4", "0..1000000000", "3..2147483647"}) + "];"; break;
    case 91: set("instance of a slot without instances"); use = " zz_s[" + pick({"1", "0, 1", "0..1"}) + "];"; break;
    case 92: set("instances reversed"); head = "slot zz_s[3]"; use = " zz_s[" + pick({"2..0", "2..1", "1..0", "0, 2..1"}) + "];"; break;
    case 93: set("instance index out of range"); head = "slot zz_s[3]"; use = " zz_s[" + pick({huge, "0.." + huge, huge + ".." + huge}) + "];"; break;
    case 94: set("number of instances"); head = "slot zz_s[" + huge + "]"; break;
    case 95: set("instance out of range in bundle"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { slots { zz_s[1]; } }\n"; break;
    // Generated opcodes.
    case 96: set("binding variable undefined"); more = "    GENERATE(zz_i = [1, 2]) {\n      zz_g$(zz_i){: zz_a : zz_x}, disasm: \"g$(zz_none)\", semfunc: " + sem + ";\n    };\n"; break;
    case 97: set("binding variable twice"); more = "    GENERATE(" + pick({"zz_i = [1, 2], zz_i = [3, 4]", "[zz_i, zz_i] = [{1, 2}]", "zz_i = [1], [zz_j, zz_i] = [{1, 2}]"}) + ") {\n      zz_g$(zz_i){: zz_a : zz_x}, semfunc: " + sem + ";\n    };\n"; break;
    case 98: set("tuple of another size"); more = "    GENERATE([zz_i, zz_j] = [" + pick({"{1, 2}, {3}", "{1}", "{1, 2, 3}", "{1, 2}, {3, 4, 5}"}) + "]) {\n      zz_g$(zz_i)$(zz_j){: zz_a : zz_x}, semfunc: " + sem + ";\n    };\n"; break;
    case 99: set("generated text wrong"); more = "    GENERATE(zz_i = [" + pick({"\"a b\"", "\"+\"", "\"x{:\"", "a, \"}}\"", "\"; %\"", "\"} zz\""}) + "]) {\n      zz_g$(zz_i){: zz_a : zz_x}, semfunc: " + sem + ";\n    };\n"; break;
    case 100: set("generated opcode twice"); more = "    GENERATE(zz_i = [1, 2, 1]) {\n      zz_g$(zz_i){: zz_a : zz_x}, semfunc: " + sem + ";\n    };\n"; break;
    case 101: set("generated opcode wrong"); more = "    GENERATE(zz_i = [1, 2]) {\n      zz_g$(zz_i){: zz_a : zz_x}, " + pick({"disasm: \"%zz_none\"", "resources: zz_none", "resources: {zz_a : zz_x[zz_none]}", "attributes: {zz_at = zz_none}", "disasm: \"%(@ + zz_a\""}) + ", semfunc: " + sem + ";\n    };\n"; break;
    // Files and the rest.
    case 102: set("include missing"); extra = "#include \"zz_none.inc\"\n"; break;
    case 103: set("two disasm widths"); top = "disasm widths = {1, 2};\ndisasm widths = {3};\n"; break;
    case 104: set("wrong width"); if (widths_ok) top = "disasm widths = {1, " + r.pick(vector<string>{undef(), arity(), nofun(), huge, zero()}) + "};\n"; else decls = "  int zz_k = zz_none;\n"; break;
    case 105: set("isa with an empty list"); isa_text = pick({"", "zz_s;", "slots { zz_s; } bundles { }"}); if (isa_text.empty()) isa_text = " "; break;
    case 106: set("missing semicolon"); more = "    zz_oq{: zz_a : zz_x}, semfunc: " + sem + "\n    zz_or{: zz_a : zz_x}, semfunc: " + sem + ";\n"; break;
    case 107: set("unterminated string"); attrs = ", disasm: \"zz"; break;
    case 108: set("two slot lists in a bundle"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { slots { zz_s; } slots { zz_s; } }\n"; break;
    case 109: set("two bundle lists in a bundle"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { bundles { zz_bv; } bundles { zz_bw; } }\nbundle zz_bv { slots { zz_s; } }\nbundle zz_bw { slots { zz_s; } }\n"; break;
    case 110: set("two semfuncs in a bundle"); isa_text = "bundles { zz_bu; }"; extra = "bundle zz_bu { slots { zz_s; } semfunc: " + sem + "; semfunc: " + sem + "; }\n"; break;
    case 111: set("recursive include"); extra = "#include \"zz_inc.isa\"\n"; break;
    case 112: set("two operands in a cycle"); t = "zz_x(1), zz_y(2)"; attrs = ", resources: {zz_a : zz_z[0..zz_x + zz_y]}"; break;
    case 113: set("unsupported character"); decls = pick({"  default latency = 1 ^ 2;\n", "  int zz_k = 1 % 2;\n", "  default latency = 0b2;\n", "  int zz_k = 09;\n"}); break;
  }
  string ops = operands.empty() ? p + " : " + s + " : " + t : operands;
  string op = "    " + name + size + "{" + ops + "}" + attrs + (attrs.find("semfunc") == string::npos ? ", semfunc: " + sem : "") + ";\n";
  vector<string> inner{decls, def};
  if (r.coin()) std::swap(inner[0], inner[1]);
  string text = head + (base.empty() ? "" : " : " + base) + " {\n" + inner[0] + inner[1] + "  opcodes {\n" + (r.coin() ? op + more : more + op) + "  }\n}\n";
  string* where = &d.text;
  if (!d.include_text.empty() && r.coin()) where = &d.include_text;
  else if (!d.second_text.empty() && r.coin()) where = &d.second_text;
  *where += r.coin() ? text + extra : extra + text;
  d.text += top;
  string key = "isa " + d.name + " {";
  size_t at = d.text.find(key);
  if (at != string::npos) {
    size_t b = d.text.find("slots {", at), e = d.text.find("}", b);
    if (b != string::npos && e != string::npos) {
      if (isa_text.empty()) d.text.insert(b + 7, use);
      else d.text.replace(b, e + 1 - b, isa_text);
    }
  }
  return x;
}

vector<string> Tokens(const string& t) {
  vector<string> v;
  for (size_t i = 0; i < t.size();) {
    size_t j = i + 1;
    auto word = [](char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '\''; };
    if (isspace((unsigned char)t[i])) {
      while (j < t.size() && isspace((unsigned char)t[j])) ++j;
    } else if (word(t[i])) {
      while (j < t.size() && word(t[j])) ++j;
    } else if (t.compare(i, 2, "//") == 0) {
      while (j < t.size() && t[j] != '\n') ++j;
    } else if (t.compare(i, 2, "/*") == 0) {
      j = t.find("*/", i);
      j = j == string::npos ? t.size() : j + 2;
    } else if (t.compare(i, 2, "$(") == 0 || t.compare(i, 2, "%(") == 0 || t.compare(i, 2, "..") == 0 || t.compare(i, 2, "<<") == 0 || t.compare(i, 2, ">>") == 0 || t.compare(i, 2, "::") == 0) {
      j = i + 2;
    }
    v.push_back(t.substr(i, j - i));
    i = j;
  }
  return v;
}
bool Blank(const string& s) { return isspace((unsigned char)s[0]) || s.compare(0, 2, "//") == 0 || s.compare(0, 2, "/*") == 0; }

vector<string> PutFiles(vh::Case& c, const string& dir, const Desc& d) {
  vector<string> files{dir + "/" + d.id + ".isa"};
  gen::Put(files[0], d.text);
  c.text(d.text);
  if (!d.include_name.empty()) {
    gen::Put(dir + "/" + d.include_name, d.include_text);
    c.text("-- included:\n" + d.include_text);
  }
  if (!d.second_text.empty()) {
    files.push_back(dir + "/" + d.id + "_second.isa");
    gen::Put(files[1], d.second_text);
    c.text("-- second file:\n" + d.second_text);
  }
  return files;
}
}  // namespace

VH_SCENARIO(C36, refuse, 2600, 80000) {
  auto& r = c.rng;
  string dir = gen::Dir(c);
  Desc d;
  d.id = "d";
  Gen g{r, d};
  g.Make();
  Defect x = Break(r, d);
  bool by_stdin = d.include_name.empty() && d.second_text.empty() && x.what.find("include") == string::npos && r.chance(1, 6);
  c.op("defect: %s%s, isa '%s', generator %u", x.what.c_str(), by_stdin ? " (standard input)" : "", x.isa.c_str(), d.version);
  gen::Put(dir + "/zz_inc.isa", "#include \"zz_inc2.isa\"\n");
  gen::Put(dir + "/zz_inc2.isa", r.coin() ? "#include \"zz_inc.isa\"\n" : "#include \"zz_inc2.isa\"\n");
  auto files = PutFiles(c, dir, d);
  if (by_stdin) {
    files.clear();
    c.ev("standard_input");
  }
  int rc = Generate(dir, files, d.text, x.prefix, x.isa, d.version);
  string log = rc == -1 || (rc != 0) != x.refuse ? gen::Get(dir + "/gen.log").substr(0, 3000) : "";
  c.nontrivial();
  c.seen(std::hash<string>()(x.what));
  c.check(rc >= 0, ("generator crashed: " + x.what).c_str(), "%s", log.c_str());
  bool out = !gen::Get(dir + "/d_decoder.cc").empty();
  if (x.refuse) {
    c.check(rc == 1, ("wrong description accepted: " + x.what).c_str(), "it was not refused");
    c.check(!out, "code written for a refused description", "%s", x.what.c_str());
    c.ev("refused");
  } else {
    c.check(rc == 0, ("valid description refused: " + x.what).c_str(), "%s", log.c_str());
    c.check(out, "no code written", "%s", x.what.c_str());
    c.ev("accepted");
  }
  gen::Drop(dir);
}

// Random edits: whatever the verdict, the generator stays well-behaved.
VH_SCENARIO(C36, edited, 3600, 120000) {
  auto& r = c.rng;
  string dir = gen::Dir(c);
  Desc d;
  d.id = "d";
  Gen g{r, d};
  g.Make();
  for (int k = (int)r.below(3); k > 0; --k) Break(r, d);
  string* t = !d.include_text.empty() && r.chance(1, 3) ? &d.include_text : &d.text;
  auto v = Tokens(*t);
  vector<size_t> idents, nums, all;
  for (size_t i = 0; i < v.size(); ++i) {
    if (Blank(v[i])) continue;
    all.push_back(i);
    if (isdigit((unsigned char)v[i][0])) nums.push_back(i);
    else if (isalpha((unsigned char)v[i][0])) idents.push_back(i);
  }
  static const vector<string> nasty = {"0", "1", "2", "7", "63", "64", "255", "256", "0b0", "0x7fffffff", "2147483647", "2147483648", "1000", "0x10000"};
  int n = r.coin() ? 1 : (int)r.range(1, 4);
  for (int k = 0; k < n && !idents.empty() && !nums.empty(); ++k) {
    switch (r.below(16)) {
      case 0: case 1: case 2: case 3: v[r.pick(idents)] = v[r.pick(idents)]; break;
      case 4: case 5: v[r.pick(nums)] = v[r.pick(idents)]; break;
      default: v[r.pick(nums)] = r.coin() ? v[r.pick(nums)] : r.pick(nasty); break;
      case 10: case 11: v[r.pick(all)] = ""; break;
      case 12: {
        size_t i = r.pick(all);
        v[i] = v[i] + " " + v[i];
        break;
      }
      case 13: std::swap(v[r.pick(all)], v[r.pick(all)]); break;
      case 14: v[r.pick(all)] = v[r.pick(all)]; break;
      case 15: {  // leave out a stretch up to the next semicolon
        size_t i = r.pick(all);
        while (i < v.size() && v[i] != ";") v[i++] = "";
        break;
      }
    }
  }
  t->clear();
  for (auto& s : v) *t += s;
  auto files = PutFiles(c, dir, d);
  int rc = Generate(dir, files, "", d.id, d.name, d.version);
  string log = rc == -1 ? gen::Get(dir + "/gen.log").substr(0, 3000) : "";
  c.nontrivial();
  c.check(rc >= 0, "generator crashed", "%s", log.c_str());
  c.check((rc == 0) == !gen::Get(dir + "/d_decoder.cc").empty(), "verdict and output differ", "verdict %d", rc);
  c.ev(rc == 0 ? "edited_accepted" : "edited_refused");
  gen::Drop(dir);
}
