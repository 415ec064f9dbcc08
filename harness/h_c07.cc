// C07: bit gathering recipes - direct, stored and emitted as source text - all agree
// with a bit-by-bit reference.
#include <cctype>

#include "mpact/sim/decoder/extract.h"
#include "vh.h"

using namespace mpact::sim::decoder::bin_format;

namespace {
uint64_t Ref(uint64_t value, uint64_t mask) {
  uint64_t out = 0;
  int o = 0;
  for (int i = 0; i < 64; ++i)
    if ((mask >> i) & 1) {
      out |= ((value >> i) & 1) << o;
      ++o;
    }
  return out;
}
// Interprets the emitted C statements:  <var> (=||=) <expr> ;   with | & << >> ( ) ~ numbers, identifiers.
struct Interp {
  const std::string& t;
  size_t p = 0;
  std::map<std::string, uint64_t>& env;
  std::string err;
  Interp(const std::string& t, std::map<std::string, uint64_t>& e) : t(t), env(e) {}
  void ws() { while (p < t.size() && isspace((unsigned char)t[p])) ++p; }
  bool eat(const char* s) {
    ws();
    size_t n = strlen(s);
    if (t.compare(p, n, s) == 0) { p += n; return true; }
    return false;
  }
  std::string id() {
    ws();
    size_t b = p;
    while (p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_')) ++p;
    return t.substr(b, p - b);
  }
  uint64_t prim() {
    ws();
    if (eat("(")) { uint64_t v = orx(); if (!eat(")")) err = "expected )"; return v; }
    if (eat("~")) return ~prim();
    if (p < t.size() && isdigit((unsigned char)t[p])) {
      char* e;
      uint64_t v = strtoull(t.c_str() + p, &e, 0);
      p = e - t.c_str();
      while (p < t.size() && strchr("uUlL", t[p])) ++p;
      return v;
    }
    auto n = id();
    if (n.empty()) { err = "expected operand"; ++p; return 0; }
    if (!env.count(n)) err = "unknown variable " + n;
    return env[n];
  }
  uint64_t sh() {
    uint64_t v = prim();
    for (;;) {
      ws();
      bool r;
      if (t.compare(p, 2, ">>") == 0) r = true;
      else if (t.compare(p, 2, "<<") == 0) r = false;
      else return v;
      p += 2;
      uint64_t n = prim();
      if (n >= 64) { err = "shift out of range"; n = 0; }
      v = r ? v >> n : v << n;
    }
  }
  uint64_t andx() { uint64_t v = sh(); while (ws(), p < t.size() && t[p] == '&') { ++p; v &= sh(); } return v; }
  uint64_t orx() { uint64_t v = andx(); while (ws(), p < t.size() && t[p] == '|' && t[p + 1] != '=') { ++p; v |= andx(); } return v; }
  void run() {
    for (;;) {
      ws();
      if (p >= t.size() || !err.empty()) return;
      auto n = id();
      if (n.empty()) { err = "expected assignment at '" + t.substr(p, 20) + "'"; return; }
      bool o = eat("|=");
      if (!o && !eat("=")) { err = "expected = or |="; return; }
      uint64_t v = orx();
      if (o && !env.count(n)) { err = "|= to a variable that was not set"; return; }
      env[n] = o ? env[n] | v : v;
      if (!eat(";")) { err = "expected ;"; return; }
    }
  }
};
void One(vh::Case& c, uint64_t mask) {
  auto recipe = GetExtractionRecipe(mask);
  for (auto& st : recipe)
    c.check(st.shift >= 0 && st.shift < 64, "shift", "mask %lx: shift %d", mask, st.shift);
  // text
  std::string text = WriteExtraction(recipe, "val_in", "res_out", "    ");
  size_t pos = 0;
  while (pos < text.size()) {
    c.check(text.compare(pos, 4, "    ") == 0, "indent", "mask %lx: line not indented: %s", mask, text.c_str());
    auto nl = text.find('\n', pos);
    c.check(nl != std::string::npos, "newline", "mask %lx: unterminated line", mask);
    pos = nl + 1;
  }
  for (int k = 0; k < 4; ++k) {
    uint64_t v = k == 0 ? ~0ull : k == 1 ? mask : k == 2 ? ~mask : c.rng.next();
    uint64_t want = Ref(v, mask), got = ExtractValue(v, recipe);
    c.check(got == want, "extract", "mask %lx value %lx: extracted %lx, expected %lx", mask, v, got, want);
    c.ev("extractions");
    if (mask) {
      std::map<std::string, uint64_t> env{{"val_in", v}};
      Interp in(text, env);
      in.run();
      c.check(in.err.empty(), "text", "mask %lx: emitted code '%s': %s", mask, text.c_str(), in.err.c_str());
      c.check(env.count("res_out") && env["res_out"] == want, "text", "mask %lx value %lx: emitted code gives %lx, expected %lx: %s", mask, v, env["res_out"], want, text.c_str());
      c.ev("emitted_code_runs");
    } else {
      c.check(recipe.empty() && text.empty(), "empty", "zero mask gives a recipe");
    }
  }
  int runs = (int)recipe.size();
  c.ev(runs > 1 ? "multi_step_recipes" : "single_step_recipes");
  c.seen(vh::Comb(mask, 0));
}
}  // namespace

VH_SCENARIO(C07, small_exhaustive, 256, 4096) {
  // every mask of 16 bits (thorough: 20 bits), at some offset
  uint64_t per = c.thorough ? 256 : 256;
  int off = (int)c.rng.below(45);
  c.op("masks %lu.. shifted by %d", c.index * per, off);
  for (uint64_t i = 0; i < per; ++i) One(c, (c.index * per + i) << off);
  c.nontrivial();
}
VH_SCENARIO(C07, random_masks, 3000, 100000) {
  for (int k = 0; k < 10; ++k) {
    uint64_t m;
    switch (c.rng.below(6)) {
      case 0: m = c.rng.next(); break;
      case 1: m = c.rng.next() & c.rng.next() & c.rng.next(); break;
      case 2: m = c.rng.next() | c.rng.next(); break;
      case 3: m = c.rng.val(); break;
      case 4: m = c.rng.coin() ? 0xaaaaaaaaaaaaaaaaull : 0x5555555555555555ull; break;
      default: {
        m = 0;
        int n = (int)c.rng.range(1, 6);
        for (int i = 0; i < n; ++i) {
          int lo = (int)c.rng.below(64), w = (int)c.rng.range(1, 64 - lo);
          m ^= (w == 64 ? ~0ull : ((1ull << w) - 1)) << lo;
        }
      }
    }
    c.op("mask %lx", m);
    One(c, m);
  }
  c.nontrivial();
}
// Hand-made recipes (the direct evaluator and the emitted text agree on any recipe).
VH_SCENARIO(C07, arbitrary_recipes, 1500, 40000) {
  ExtractionRecipe rec;
  int n = (int)c.rng.range(1, 6);
  for (int i = 0; i < n; ++i) rec.push_back({c.rng.val(), (int)c.rng.below(64)});
  uint64_t v = c.rng.next(), want = 0;
  for (auto& s : rec) want |= (v >> s.shift) & s.mask;
  for (auto& s : rec) c.op("step >> %d & %lx", s.shift, s.mask);
  c.check(ExtractValue(v, rec) == want, "extract", "recipe evaluates to %lx, expected %lx", ExtractValue(v, rec), want);
  auto text = WriteExtraction(rec, "v", "r", "");
  std::map<std::string, uint64_t> env{{"v", v}};
  Interp in(text, env);
  in.run();
  c.check(in.err.empty() && env["r"] == want, "text", "emitted code %s gives %lx, expected %lx (%s)", text.c_str(), env["r"], want, in.err.c_str());
  c.ev("emitted_code_runs");
  c.nontrivial();
}
