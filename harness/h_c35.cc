// C35: decoders generated from instruction set descriptions build the described instructions.
#include <sys/wait.h>

#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include <list>

#include "gen_rig.h"
#include "isa_desc.h"
#include "isa_glue.h"
#include "mpact/sim/decoder/instruction_set_visitor.h"

ABSL_DECLARE_FLAG(unsigned, generator);

using namespace isa;
using mpact::sim::machine_description::instruction_set::InstructionSetVisitor;

namespace {
// Runs the generator as its tool does, in a process of its own. Returns 0 (accepted), 1 (refused) or -1 (it crashed).
int Generate(const string& dir, const vector<string>& files, const string& prefix, const string& isa, unsigned version) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    freopen((dir + "/gen.log").c_str(), "w", stderr);
    setenv("VERIF_LOG", "1", 1);
    absl::SetFlag(&FLAGS_generator, version);
    int rc;
    {
      InstructionSetVisitor v;
      try {
        rc = v.Process(files, prefix, isa, {}, dir).ok() ? 0 : 1;
      } catch (std::exception& e) {
        fprintf(stderr, "exception: %s\n", e.what());
        fflush(stderr);
        _exit(97);
      }
    }
    fflush(nullptr);
    _exit(rc);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1) ? WEXITSTATUS(st) : -1;
}
string PchFlags(vh::Case& c) {
  static string flags;
  if (!flags.empty()) return flags;
  string dir = string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/pch";
  mkdir(dir.c_str(), 0700);
  gen::Put(dir + "/glue.h", kGlue);
  string cxx = getenv("VH_GENCXX");
  size_t p = cxx.find("-shared");
  if (p != string::npos) cxx.erase(p, 7);
  if (system(("cd '" + dir + "' && " + cxx + " -fno-sanitize=shift-base -x c++-header glue.h -o glue.pch > log 2>&1").c_str()) != 0) {
    string log = gen::Get(dir + "/log");
    if (log.find("error:") == string::npos) {
      fprintf(stderr, "compiler failed: %s\n", log.c_str());
      _exit(64);
    }
    c.fail("the headers generated code needs do not compile", log.substr(0, 4000));
  }
  // Shifts of negative numbers to the left count for what they give.
  return flags = "-fno-sanitize=shift-base -I" + dir + " -include-pch " + dir + "/glue.pch";
}
void Fill(string& t, const string& key, const string& v) {
  for (size_t p; (p = t.find("@" + key + "@")) != string::npos;) t.replace(p, key.size() + 2, v);
}
string Driver(const Desc& d) {
  string t = kDriver, ns, open, close, cases, index, fac, attrs, dec, uses;
  for (auto& n : d.ns) {
    ns += (ns.empty() ? "" : "::") + n;
    open += "namespace " + n + " {\n";
    close += "}\n";
  }
  for (int i : d.finals) {
    auto& s = d.slots[i];
    string p = Pascal(s.name), n = to_string(i);
    cases += "    case SlotEnum::k" + p + ": return \"" + p + "\";\n";
    index += "    case SlotEnum::k" + p + ": return " + n + ";\n";
    fac += "  std::unique_ptr<" + p + "Slot> Create" + p + "Slot(ArchState *s) override { return std::make_unique<" + p + "Slot>(s); }\n";
    if (!s.attr_names.empty()) {
      attrs += "    case " + n + ":\n";
      for (auto& a : s.attr_names) attrs += "      one(\"" + Pascal(a) + "\", (int)" + Snake(p) + "::AttributeEnum::k" + Pascal(a) + ");\n";
      attrs += "      break;\n";
    }
    dec += "    case " + n + ": { auto s = f.Create" + p + "Slot(nullptr); return drv::Show(s->Decode(address, &enc, SlotEnum::k" + p + ", entry), {" + n + "}); }\n";
  }
  for (auto& u : d.uses) uses += (uses.empty() ? "" : ", ") + to_string(u.slot);
  Fill(t, "NSOPEN", open);
  Fill(t, "NSCLOSE", close);
  Fill(t, "SLOTCASES", cases);
  Fill(t, "SLOTINDEX", index);
  Fill(t, "FACTORY", fac);
  Fill(t, "ATTRS", attrs);
  Fill(t, "SLOTDECODE", dec);
  Fill(t, "USES", uses);
  Fill(t, "INST", d.version == 2 ? "Instruction *," : "");
  Fill(t, "ISA", Pascal(d.name));
  Fill(t, "ID", d.id);
  Fill(t, "NS", ns);
  return t;
}

// The text of a disassembly.
// What x << n gives without overflow; also for negative numbers.
template <typename T>
auto Left(T x, int n) -> decltype(x << n) {
  return (decltype(x << n))((uint64_t)(int64_t)x << n);
}
string PieceText(const Piece& p, const FGrp* top, const vector<FGrp>& g, uint64_t address) {
  if (!p.lit.empty()) return p.lit;
  string shown = Pascal(p.op);
  if (!p.formatted) {
    for (auto& x : g) {
      if (x.pred == p.op) return "[" + shown + "]";
      for (auto& o : x.s)
        if (o.n == p.op) return "<" + shown + ">";
      for (auto& o : x.d)
        if (o.n == p.op) return "{" + shown + "}";
    }
    return "?";
  }
  string f = "%" + (p.num.empty() ? string("d") : p.num);
  string pre = f.back() == 'x' ? "0x" : "";
  auto fmt = [&](auto v) {
    string out;
    switch (f.back()) {
#define F(ch) case ch[0]: { auto spec = absl::ParsedFormat<ch[0]>::New(f); out = absl::StrFormat(*spec, v); break; }
      F("d") F("x") F("X") F("o")
#undef F
    }
    return pre + out;
  };
  if (p.op.empty()) return fmt(address);
  int64_t v = ValueOf(shown);
  auto typed = [&](auto x) {
    if (!p.at) {
      if (p.shift <= 0) return fmt(x);
      return p.left ? fmt(Left(x, p.shift)) : fmt(x >> p.shift);
    }
    uint64_t y = p.shift <= 0 ? (uint64_t)(int64_t)x : (uint64_t)(int64_t)(p.left ? Left(x, p.shift) : x >> p.shift);
    return fmt(p.sign == '-' ? address - y : address + y);
  };
  int w = Gen::Digits(p.num);
  if (w == 0) return typed(v);
  if (w <= 2) return typed((int8_t)v);
  if (w <= 4) return typed((int16_t)v);
  if (w <= 8) return typed((int32_t)v);
  return typed(v);
}
string DisasmText(const Desc& d, const Disasm& dis, const vector<FGrp>& g, uint64_t address) {
  string out;
  for (size_t i = 0; i < dis.size(); ++i) {
    string s;
    for (auto& p : dis[i]) s += PieceText(p, nullptr, g, address);
    int w = i < d.widths.size() ? d.widths[i] : 0;
    size_t n = (size_t)(w < 0 ? -w : w);
    if (s.size() < n) s = w < 0 ? s + string(n - s.size(), ' ') : string(n - s.size(), ' ') + s;
    out += s;
  }
  string esc;
  for (char ch : out) esc += ch;
  return esc;
}
struct Class {
  set<string> simple, complex, list;
};
string Operands(const Desc& d, const Slot& s, const FGrp& g, int sem, const string& at, const string& in) {
  string t = in + "sem " + to_string(sem < 0 ? s.defsem : sem) + "\n";
  if (!g.pred.empty()) t += in + "P " + at + Pascal(g.pred) + "\n";
  int no = 0;
  bool arr = false;
  for (auto& o : g.s) {
    string n = Pascal(o.n);
    if (o.arr) {
      for (int k = 0; k < ListLen(n); ++k) t += in + "S " + at + "[" + n + "]" + to_string(k) + " no=" + (arr ? "*" : to_string(no)) + "\n";
      arr = true;
    } else {
      t += in + "S " + at + n + " no=" + (arr ? "*" : to_string(no++)) + "\n";
    }
  }
  no = 0;
  arr = false;
  for (auto& o : g.d) {
    string n = Pascal(o.n);
    int l = o.wild ? WildLatency(at + n, 0) : o.lat;
    if (o.arr) {
      string lat = o.wild ? to_string(l) + "/" + to_string(l + 1) : to_string(l);
      for (int k = 0; k < ListLen(n); ++k) t += in + "D " + at + "[" + n + "]" + to_string(k) + " lat=" + lat + " no=" + (arr ? "*" : to_string(no)) + "\n";
      arr = true;
    } else {
      t += in + "D " + at + n + " lat=" + to_string(l) + " no=" + (arr ? "*" : to_string(no++)) + "\n";
    }
  }
  return t;
}
string Expect(vh::Case& c, const Desc& d, const Class& cl, int slot, int entry, const string& op, uint64_t address, const string& size) {
  const Slot& s = d.slots[slot];
  string sp = Pascal(s.name);
  string t;
  auto attrs = [&](const Flat* f) {
    for (auto& a : s.attr_names) {
      string v = "0";
      if (f && f->attrs.count(a)) v = to_string(f->attrs.at(a));
      if (f && f->vague.count(a)) v = "*";
      t += "T " + Pascal(a) + "=" + v + "\n";
    }
  };
  string at = sp + "/" + to_string(entry) + "/" + (op.empty() ? "none" : Pascal(op)) + " ";
  if (op.empty()) {
    t = "I none address " + to_string(address) + " size " + (size.empty() ? to_string(std::max(1, s.size)) : size) + "\n";
    t += "disasm " + DisasmText(d, s.defdis, {}, address) + "\n";
    t += "sem " + to_string(s.defsem) + "\n";
    attrs(nullptr);
    return t;
  }
  const Flat& f = d.flat.at(slot).at(op);
  t = "I " + Pascal(op) + " address " + to_string(address) + " size " + (size.empty() ? to_string(f.size) : size) + "\n";
  t += "disasm " + DisasmText(d, f.dis, f.g, address) + "\n";
  t += Operands(d, s, f.g[0], f.sem[0], at, "");
  auto res = [&](const vector<FRes>& v, bool acquire, const char* what) {
    vector<string> l;
    for (auto& q : v) {
      string n = Pascal(q.n);
      if (cl.complex.count(n)) {
        if (!NullResource(n)) l.push_back(what + at + n + " " + to_string(q.b) + ".." + to_string(q.e));
        c.ev("complex_resources");
      } else if (cl.list.count(n)) {
        for (int k = 0; k < ListLen(n); ++k) l.push_back(what + at + "[" + n + "]" + to_string(k) + " " + to_string(q.b) + ".." + to_string(q.e));
        c.ev("list_resources");
      } else {
        if (!NullResource(n)) l.push_back(what + at + n + " " + to_string(acquire ? q.e : -1));
        c.ev("simple_resources");
      }
    }
    std::sort(l.begin(), l.end());
    for (auto& x : l) t += x + "\n";
  };
  res(f.use, false, "use ");
  res(f.acq, true, "acquire ");
  attrs(&f);
  for (size_t k = 1; k < f.g.size(); ++k) {
    string in(k * 2, ' ');
    t += in + "child address " + to_string(address) + "\n" + Operands(d, s, f.g[k], f.sem[k], at, in);
    c.ev("children");
  }
  return t;
}
// Line by line; a '*' at the end of an expected line stands for anything.
bool Same(const string& want, const string& got, string* why) {
  std::istringstream a(want), b(got);
  string x, y;
  for (int n = 1;; ++n) {
    bool ha = (bool)std::getline(a, x), hb = (bool)std::getline(b, y);
    if (!ha && !hb) return true;
    bool ok = ha && hb && (x == y || (!x.empty() && x.back() == '*' && y.compare(0, x.size() - 1, x, 0, x.size() - 1) == 0 && x.substr(0, 6) != "disasm"));
    if (!ok) {
      *why = "line " + to_string(n) + ": expected '" + (ha ? x : "nothing") + "', got '" + (hb ? y : "nothing") + "'";
      return false;
    }
  }
}
}  // namespace

VH_SCENARIO(C35, decoders, 56, 1600) {
  auto& r = c.rng;
  string dir = gen::Dir(c);
  int nd = 3;
  std::list<Desc> ds;
  string src = "";
  string pch = PchFlags(c);
  for (int i = 0; i < nd; ++i) {
    ds.emplace_back();
    Desc& d = ds.back();
    d.id = "d" + to_string(i);
    Gen g{r, d};
    g.Make();
    vector<string> files{dir + "/" + d.id + ".isa"};
    gen::Put(files[0], d.text);
    c.text("== " + d.id + ", generator " + to_string(d.version) + "\n" + d.text);
    if (!d.include_name.empty()) {
      gen::Put(dir + "/" + d.include_name, d.include_text);
      c.text("-- included:\n" + d.include_text);
    }
    if (!d.second_text.empty()) {
      files.push_back(dir + "/" + d.id + "_second.isa");
      gen::Put(files[1], d.second_text);
      c.text("-- second file:\n" + d.second_text);
    }
    int rc = Generate(dir, files, d.id, d.name, d.version);
    if (rc != 0) {
      string log = gen::Get(dir + "/gen.log");
      c.fail(rc == 1 ? "valid description refused" : "generator crashed", d.id + ": " + log.substr(0, 3000));
    }
    c.ev("descriptions");
    if (d.version == 2) c.ev("version_2");
    src += "#include \"" + d.id + "_decoder.cc\"\n#include \"" + d.id + "_enums.cc\"\n" + Driver(d);
  }
  gen::Put(dir + "/all.cc", src);
  void* h = gen::Load(c, dir, "all.cc", pch);
  for (auto& d : ds) {
    auto slot_fn = gen::Sym<const char* (*)(int, int, uint64_t, const int*)>(c, h, (d.id + "_slot").c_str());
    auto isa_fn = gen::Sym<const char* (*)(uint64_t, const int*)>(c, h, (d.id + "_isa").c_str());
    auto names_fn = gen::Sym<int (*)(int, const char***)>(c, h, (d.id + "_names").c_str());
    // The enumerations list exactly the names in use.
    vector<set<string>> want(9);
    set<string> referenced;
    for (int i : d.finals)
      for (auto& [n, f] : d.flat[i]) {
        want[0].insert(Pascal(n));
        for (auto& g : f.g) {
          if (!g.pred.empty()) want[1].insert(Pascal(g.pred));
          for (auto& o : g.s) want[o.arr ? 3 : 2].insert(Pascal(o.n));
          for (auto& o : g.d) want[o.arr ? 5 : 4].insert(Pascal(o.n));
        }
        for (auto* v : {&f.use, &f.acq})
          for (auto& q : *v) referenced.insert(Pascal(q.n));
      }
    vector<map<string, int>> have(9);
    for (int k = 0; k < 9; ++k) {
      const char** names = nullptr;
      int n = names_fn(k, &names);
      for (int i = 0; i < n; ++i) {
        c.check(names[i] != nullptr, "unnamed enumerator", "%s kind %d value %d", d.id.c_str(), k, i);
        c.check(have[k].emplace(names[i], i).second, "name twice in an enumeration", "%s kind %d: %s", d.id.c_str(), k, names[i]);
      }
      c.check(n > 0 && string(names[0]) == "none", "value zero is not none", "%s kind %d", d.id.c_str(), k);
      if (k > 5) continue;
      for (auto& w : want[k]) c.check(have[k].count(w), "name missing from an enumeration", "%s kind %d: %s", d.id.c_str(), k, w.c_str());
      for (auto& [w, v] : have[k]) c.check(v == 0 || want[k].count(w) || (k == 0), "unknown name in an enumeration", "%s kind %d: %s", d.id.c_str(), k, w.c_str());
      c.ev("enumerations");
    }
    Class cl;
    Gen g{r, d};
    set<string> must, may, mustp, mayp;
    Complex(g, &must, &may);
    for (auto& x : must) mustp.insert(Pascal(x));
    for (auto& x : may) mayp.insert(Pascal(x));
    set<string> arrays;
    for (auto& [i, m] : d.flat)
      for (auto& [n, f] : m)
        for (auto* v : {&f.use, &f.acq})
          for (auto& q : *v)
            if (q.arr) arrays.insert(Pascal(q.n));
    for (auto& x : referenced) {
      int in = have[6].count(x) + have[7].count(x) + have[8].count(x);
      c.check(in == 1, "resource not in one enumeration", "%s: %s in %d", d.id.c_str(), x.c_str(), in);
      bool simple = have[6].count(x);
      c.check(!(simple && mustp.count(x)), "resource held later is simple", "%s: %s", d.id.c_str(), x.c_str());
      c.check(simple || mustp.count(x) || mayp.count(x), "resource held at once is complex", "%s: %s", d.id.c_str(), x.c_str());
      if (have[7].count(x)) cl.complex.insert(x);
      if (have[8].count(x)) cl.list.insert(x);
      if (!simple) c.check((have[8].count(x) > 0) == (arrays.count(x) > 0), "array resource in the wrong enumeration", "%s: %s", d.id.c_str(), x.c_str());
    }
    auto number = [&](const string& op) { return op.empty() ? 0 : have[0].at(Pascal(op)); };
    vector<uint64_t> addrs{0, 4, ~0ull, 0x80000000, r.next()};
    vector<vector<string>> choices(d.slots.size());
    for (int i : d.finals) {
      choices[i].push_back("");
      for (auto& [n, f] : d.flat[i]) choices[i].push_back(n);
      for (auto& op : choices[i]) {
        int entry = r.below(8);
        uint64_t a = r.pick(addrs);
        vector<int> ops(d.slots.size() * 8, 0);
        ops[i * 8 + entry] = number(op);
        string want = Expect(c, d, cl, i, entry, op, a, ""), why;
        string got = slot_fn(i, entry, a, ops.data());
        if (op.empty()) c.ev("defaults");
        else c.ev("instructions");
        c.check(Same(want, got, &why), "wrong instruction", "%s slot %s opcode '%s': %s\n-- expected\n%s-- got\n%s", d.id.c_str(), d.slots[i].name.c_str(), op.c_str(), why.c_str(), want.c_str(), got.c_str());
        c.nontrivial();
      }
    }
    for (int k = 0; k < 12; ++k) {
      vector<int> ops(d.slots.size() * 8, 0);
      uint64_t a = r.pick(addrs);
      vector<string> sel;
      int64_t total = 0;
      for (auto& u : d.uses) {
        sel.push_back(r.pick(choices[u.slot]));
        ops[u.slot * 8 + u.entry] = number(sel.back());
        total += sel.back().empty() ? std::max(1, d.slots[u.slot].size) : d.flat[u.slot][sel.back()].size;
      }
      string want, why;
      for (size_t j = 0; j < d.uses.size(); ++j) {
        want += Expect(c, d, cl, d.uses[j].slot, d.uses[j].entry, sel[j], a, j ? "" : to_string(total));
      }
      string got = isa_fn(a, ops.data());
      c.check(Same(want, got, &why), "wrong instruction word", "%s: %s\n-- expected\n%s-- got\n%s", d.id.c_str(), why.c_str(), want.c_str(), got.c_str());
      c.ev("words");
      if (d.uses.size() > 1) c.ev("several_slots");
    }
  }
  gen::Drop(dir);
}
