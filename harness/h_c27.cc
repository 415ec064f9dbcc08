// C27: the assembler turns a source into exactly the image it describes.
#include <sstream>

#include "mpact/sim/util/asm/opcode_assembler_interface.h"
#include "mpact/sim/util/asm/resolver_interface.h"
#include "mpact/sim/util/asm/simple_assembler.h"
#include "vh.h"

using namespace mpact::sim::util::assembler;
using Bytes = std::vector<uint8_t>;

namespace {
// A toy target: "put N" (the low 4 bytes of N), "wide N" (8 bytes), "ref S" (address of S, 8 bytes, relocation of type 7
// with addend 3), "here" (the address, 8 bytes), "none", "odd" is unknown, "low S" needs an address below 0x10000000.
struct Target : OpcodeAssemblerInterface {
  absl::StatusOr<size_t> Encode(uint64_t address, absl::string_view text, AddSymbolCallback add, ResolverInterface* res, Bytes& bytes, std::vector<RelocationInfo>& rel) override {
    std::string t(text);
    size_t colon = t.find(':');
    if (colon != std::string::npos) {
      std::string l = t.substr(0, colon);
      while (!l.empty() && l.back() == ' ') l.pop_back();
      auto st = add(l, address, 0, 0, 0, 0);
      if (!st.ok()) return st;
      t = t.substr(colon + 1);
    }
    std::istringstream is(t);
    std::string op, arg, more;
    is >> op >> arg >> more;
    if (!more.empty()) return absl::InvalidArgumentError("too many operands");
    uint64_t v = 0;
    int n = 8;
    if (op == "put") {
      v = strtoull(arg.c_str(), nullptr, 0);
      n = 4;
    } else if (op == "wide") {
      v = strtoull(arg.c_str(), nullptr, 0);
    } else if (op == "ref" || op == "low") {
      auto r = res->Resolve(arg);
      if (!r.ok()) return r.status();
      v = *r;
      if (op == "low" && v >= 0x10000000) return absl::OutOfRangeError("not low");
      if (op == "ref") rel.emplace_back(0, arg, 7, 3, 0);
    } else if (op == "here") {
      v = address;
    } else if (op == "none") {
      n = 0;
    } else {
      return absl::InvalidArgumentError("unknown opcode");
    }
    for (int i = 0; i < n; ++i) bytes.push_back(v >> (8 * i));
    return n;
  }
};

struct Sym {
  int sect = 0;  // 0 undefined, 1 text, 2 data, 3 bss
  uint64_t value = 0;
  bool global = false;
};
struct Item {  // what the source says, independent of layout
  int sect;
  enum { kBytes, kAlign, kSpace, kRef, kHere, kLow } kind;
  Bytes b;
  uint64_t n = 0;
  std::string sym;
};

uint64_t Get(const std::string& s, size_t at, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; ++i) v |= (uint64_t)(uint8_t)s.at(at + i) << (8 * i);
  return v;
}
}  // namespace

VH_SCENARIO(C27, assemble, 8000, 250000) {
  auto& r = c.rng;
  bool b64 = r.coin();
  std::vector<Item> items;
  std::map<std::string, Sym> syms;
  std::set<std::string> globals;
  std::vector<std::string> names, lines;
  bool many = r.chance(1, 8);  // a long source
  for (int i = 0, n = many ? r.range(8, 120) : 8; i < n; ++i) names.push_back("l" + std::to_string(i) + r.ident(r.chance(1, 6) ? 60 : 4));
  std::set<std::string> used;
  int cur = 0;
  uint64_t size[4] = {};
  uint64_t align[4] = {0, 16, 16, 16};
  bool bad = false;      // refused by Parse
  std::string cm = r.pick(std::vector<std::string>{";", "#", "//"});
  auto sp = [&] { return std::string(r.range(1, 3), ' '); };
  auto osp = [&] { return std::string(r.below(3), ' '); };
  auto num = [&](uint64_t lo, uint64_t v, bool neg) -> std::string {  // a number in some notation
    char b[40];
    if (neg) snprintf(b, sizeof b, "%ld", (long)v);
    else snprintf(b, sizeof b, r.coin() ? "%lu" : r.coin() ? "0x%lx" : "0x%lX", v);
    (void)lo;
    return b;
  };
  unsigned unit = r.chance(1, 4) ? r.range(1, 4) : 1;  // bytes per address of data
  int often = many ? 10 : 1;
  bool refs = many && r.chance(1, 3);  // mostly references
  if (refs) often = 40;
  if (many) c.ev("long_sources");
  for (int i = 0, n = many ? r.range(40, 500) : r.range(2, 40); i < n && !bad; ++i) {
    std::string label, body;
    if (cur == 0 || r.chance(1, 7)) {
      cur = r.range(1, 3);
      lines.push_back(sp() + (cur == 1 ? ".text" : cur == 2 ? ".data" : ".bss") + osp());
      continue;
    }
    if (r.chance(1, 4)) label = r.pick(names);
    Item it;
    it.sect = cur;
    uint64_t at = size[cur], len = 0;
    int k = refs && cur != 3 && r.chance(7, 8) ? 15 : r.below(cur == 3 ? 4 : 16);
    bool dir = true;
    switch (k) {
      case 0: {
        it.kind = Item::kAlign;
        uint64_t a = 1ull << r.below(r.chance(1, 60) ? 17 : r.chance(1, 5) ? 9 : 6);
        if (r.chance(1, 30 * often)) a = r.coin() ? 0 : 3 * a, bad = true;
        body = ".align" + sp() + num(0, a, false);
        if (!bad) {
          len = (at + a - 1) / a * a - at;
          align[cur] = std::max(align[cur], a);
        }
        break;
      }
      case 1: case 2:
        it.kind = Item::kSpace;
        len = r.chance(1, 60) ? r.below(200000) : r.below(40);
        if (len > 65536) c.ev("large_spaces");
        body = ".space" + sp() + num(0, len, false);
        break;
      case 3:
        it.kind = Item::kSpace;
        body = "";
        break;
      case 4: case 5: case 6: case 7: {
        static const struct { const char* d; int n; bool sg; } kD[] = {{"bytes", 1, false}, {"uchar", 1, false}, {"short", 2, true}, {"ushort", 2, false}, {"word", 4, true}, {"uword", 4, false}, {"long", 8, true}, {"ulong", 8, false}};
        auto& d = kD[r.below(8)];
        body = std::string(".") + d.d + sp();
        it.kind = Item::kBytes;
        int q = r.chance(1, 20) ? r.range(5, 200) : r.range(1, 5), badat = r.chance(1, 60 * often) ? r.below(q) : -1;
        for (int j = 0; j < q; ++j) {
          uint64_t v = r.val();
          bool neg = false;
          if (d.sg) {
            int64_t s = (int64_t)(v << (64 - 8 * d.n)) >> (64 - 8 * d.n);
            v = s;
            neg = s < 0;
          } else if (d.n < 8) {
            v &= (1ull << (8 * d.n)) - 1;
          }
          if (j) body += osp() + "," + osp();
          if (j == badat) body += r.pick(std::vector<std::string>{"x", "1x", "0x", "1 2", "--1", "'", "\"", "1.5"}), bad = true;
          else body += num(0, v, neg);
          for (int b = 0; b < d.n; ++b) it.b.push_back(v >> (8 * b));
        }
        len = it.b.size();
        break;
      }
      case 8: {
        body = ".char" + sp();
        it.kind = Item::kBytes;
        for (int j = 0, q = r.range(1, 4); j < q; ++j) {
          if (j) body += osp() + "," + osp();
          static const std::vector<std::pair<std::string, char>> kC{{"a", 'a'}, {"\\n", '\n'}, {"\\t", '\t'}, {"\\\\", '\\'}, {"\\'", '\''}, {"0", '0'}, {"\"", '"'}, {"\\r", '\r'}, {"\\a", '\a'}, {"\\b", '\b'}, {"\\f", '\f'}, {"\\v", '\v'}, {"\\?", '?'}, {" ", ' '}, {",", ','}, {"\\\"", '"'}};
          auto& [t, v] = r.pick(kC);
          body += "'" + t + "'";
          it.b.push_back(v);
        }
        if (r.chance(1, 60 * often)) body += ", 'ab'", bad = true;
        len = it.b.size();
        break;
      }
      case 9: case 10: {
        bool z = k == 9;
        body = (z ? ".cstring" : ".string") + sp();
        it.kind = Item::kBytes;
        for (int j = 0, q = r.range(1, 3); j < q; ++j) {
          if (j) body += osp() + "," + osp();
          body += '"';
          for (int b = r.chance(1, 20) ? r.below(600) : r.below(8); b > 0; --b) {
            static const std::vector<std::pair<std::string, std::string>> kS{{"a", "a"}, {" ", " "}, {"\\n", "\n"}, {"\\\\", "\\"}, {"\\\"", "\""}, {"'", "'"}, {",", ","}, {"\\z", "\\z"}, {":", ":"}, {"\\t", "\t"}, {".", "."}};
            auto& [t, v] = r.pick(kS);
            body += t;
            for (char ch : v) it.b.push_back(ch);
          }
          body += '"';
          if (z) it.b.push_back(0);
        }
        if (r.chance(1, 60 * often)) body += r.pick(std::vector<std::string>{", x", "y", ", \"open"}), bad = true;
        len = it.b.size();
        break;
      }
      case 11: {
        it.kind = Item::kBytes;
        body = ".global" + sp();
        for (int j = 0, q = r.chance(1, 10) ? r.range(3, 30) : r.range(1, 3); j < q; ++j) {
          auto& s = r.pick(names);
          body += (j ? "," + osp() : std::string()) + s;
          globals.insert(s);
        }
        if (r.chance(1, 60 * often)) body += ", 9x", bad = true;
        break;
      }
      default: {
        dir = false;
        int o = refs && r.chance(7, 8) ? 2 : r.below(6);
        if (o == 0) it.kind = Item::kHere, body = "here", len = 8;
        else if (o == 1) it.kind = Item::kLow, it.sym = r.pick(names), body = "low " + it.sym, len = 8, used.insert(it.sym);
        else if (o <= 3) it.kind = Item::kRef, it.sym = r.pick(names), body = "ref " + it.sym, len = 8, used.insert(it.sym);
        else {
          it.kind = Item::kBytes;
          uint64_t v = r.val();
          int w = o == 4 ? 4 : 8;
          body = (o == 4 ? "put " : "wide ") + std::to_string(v);
          for (int b = 0; b < w; ++b) it.b.push_back(v >> (8 * b));
          len = w;
        }
        if (r.chance(1, 60 * often)) body = "odd 1", bad = true;
      }
    }
    if (!label.empty()) {
      if (syms.count(label)) {
        if (!r.chance(1, at == 0 && !many ? 3 : 25 * often)) label.clear();
        else bad = true;
      } else if (!bad) {
        syms[label] = {cur, cur > 1 && dir ? at / unit : at, false};
      }
    }
    if (r.chance(1, 150 * often) && !bad) {
      body = r.pick(std::vector<std::string>{".foo 1", ".sect x", ".", ".type f"});
      label.clear();
      bad = true;
    }
    it.n = len;
    std::string line = label.empty() ? sp() + body : label + osp() + ":" + osp() + body;
    if (r.chance(1, 6)) line += osp() + cm + " note 'n\" :x";
    if (r.chance(1, 8) && !body.empty() && line.find(cm) == std::string::npos && line.find(", ") != std::string::npos) {
      bool all = r.chance(1, 4);
      for (size_t p = 0; (p = line.find(", ", p)) != std::string::npos;) {
        line.insert(p += 2, "\\\n");
        c.ev("continued");
        if (!all) break;
      }
    }
    lines.push_back(line);
    if (r.chance(1, 8)) lines.push_back(r.coin() ? "" : cm + " only a comment");
    items.push_back(it);
    size[cur] += len;
    c.ev("statements");
  }
  bool nowhere = r.chance(1, 25);  // bytes before any section: there is no place for them
  if (nowhere) lines.insert(lines.begin(), r.pick(std::vector<std::string>{" .bytes 1", " put 5", " .cstring \"a\"", " .word 1,2"}));
  std::string src;
  for (size_t i = 0; i < lines.size(); ++i) src += lines[i] + (i + 1 < lines.size() || r.coin() ? "\n" : "");
  c.text(src);
  c.mix(std::hash<std::string>()(src));
  Target target;
  SimpleAssembler as(cm, b64 ? 2 : 1, &target);
  as.set_data_address_unit(unit);
  std::istringstream is(src);
  auto st = as.Parse(is);
  c.check(st.ok() == !bad, "parse", "parsing returned %s", st.ok() ? "ok" : st.ToString().c_str());
  if (bad) {
    c.ev("refused");
    return;
  }
  // Layout.
  // What an executable's data addresses are counted in is not settled for other units.
  bool exec = r.coin() && unit == 1;
  uint64_t base = exec ? (r.coin() ? 0x1000 * r.below(100) : r.val() & (b64 && r.coin() ? ~0ull >> 2 : 0x7fffffff)) & ~0xfffull : 0;
  uint64_t start[4] = {0, base, 0, 0};
  if (exec) {
    start[2] = (base + size[1] + 4095) / 4096 * 4096;
    if (r.chance(1, 3)) {
      start[2] = 0x80000000ull + 0x1000 * r.below(1000);
      if (b64 && r.coin()) start[2] = (r.val() >> 1 | 0x1000) & ~0xfffull;
      as.set_data_segment_start(start[2]);
    }
    start[3] = (start[2] + size[2] + align[3] - 1) / align[3] * align[3];
  }
  bool undefined = false;
  for (auto& s : used) if (!syms.count(s)) undefined = true, syms[s] = {};
  for (auto& [n, s] : syms) s.value += start[s.sect], s.global = globals.count(n);
  bool fails = (exec && undefined) || nowhere;
  std::string entry;
  uint64_t want_entry = r.below(1 << 30);
  if (r.coin()) {
    entry = std::to_string(want_entry);
    if (r.coin()) {
      char b[40];
      snprintf(b, sizeof b, "0x%lx", want_entry);
      entry = b;
    }
  } else {
    entry = r.pick(names);
    if (syms.count(entry)) want_entry = syms[entry].value;
    else fails |= exec;
  }
  for (auto& it : items) if (it.kind == Item::kLow && syms[it.sym].value >= 0x10000000) fails = true;
  std::string body[4];
  struct Rel {
    uint64_t off;
    std::string sym;
    bool operator==(const Rel& o) const { return off == o.off && sym == o.sym; }
  };
  std::vector<Rel> rels[4];
  for (auto& it : items) {
    auto& s = body[it.sect];
    uint64_t at = start[it.sect] + s.size();
    auto w = [&](uint64_t v) { for (int i = 0; i < 8; ++i) s += (char)(v >> (8 * i)); };
    switch (it.kind) {
      case Item::kBytes: s.append(it.b.begin(), it.b.end()); break;
      case Item::kAlign: case Item::kSpace: s.append(it.n, '\0'); break;
      case Item::kHere: w(at); break;
      case Item::kRef: rels[it.sect].push_back({at, it.sym}); [[fallthrough]];
      case Item::kLow: w(syms[it.sym].value); break;
    }
  }
  bool by_number = exec && isdigit(entry[0]) && r.coin();
  st = exec ? by_number ? as.CreateExecutable(base + r.below(4096), want_entry) : as.CreateExecutable(base + r.below(4096), entry) : as.CreateRelocatable();
  c.check(st.ok() == !fails, "create", "creating the %s returned %s", exec ? "executable" : "relocatable file", st.ok() ? "ok" : st.ToString().c_str());
  if (fails) {
    c.ev(nowhere ? "outside_refused" : undefined ? "undefined_refused" : "second_pass_refused");
    return;
  }
  std::ostringstream os;
  c.check(as.Write(os).ok(), "write", "writing failed");
  std::string f = os.str();
  // Read it back.
  int W = b64 ? 8 : 4;
  c.check(f.compare(0, 4, "\177ELF") == 0 && f[4] == (b64 ? 2 : 1) && f[5] == 1, "header", "wrong identification");
  c.check(Get(f, 16, 2) == (exec ? 2u : 1u), "header", "wrong file type");
  if (exec) c.check(Get(f, 24, W) == want_entry, "entry", "entry is %lx, expected %lx", Get(f, 24, W), want_entry);
  uint64_t phoff = Get(f, 24 + W, W), shoff = Get(f, 24 + 2 * W, W);
  int o = 24 + 3 * W + 4 + 2;
  int phn = Get(f, o + 2, 2), she = Get(f, o + 4, 2), shn = Get(f, o + 6, 2), shstr = Get(f, o + 8, 2);
  struct Sec {
    std::string name, data;
    uint64_t type, flags, addr, off, size, link, info, align, ent;
  };
  std::vector<Sec> secs;
  auto sec = [&](int i) {
    size_t p = shoff + i * she;
    Sec s;
    s.type = Get(f, p + 4, 4);
    s.flags = Get(f, p + 8, W);
    s.addr = Get(f, p + 8 + W, W);
    s.off = Get(f, p + 8 + 2 * W, W);
    s.size = Get(f, p + 8 + 3 * W, W);
    s.link = Get(f, p + 8 + 4 * W, 4);
    s.info = Get(f, p + 12 + 4 * W, 4);
    s.align = Get(f, p + 16 + 4 * W, W);
    s.ent = Get(f, p + 16 + 5 * W, W);
    if (s.type != 8 && s.type != 0) s.data = f.substr(s.off, s.size);
    return s;
  };
  Sec ss = sec(shstr);
  std::map<std::string, int> idx;
  for (int i = 0; i < shn; ++i) {
    Sec s = sec(i);
    s.name = ss.data.c_str() + Get(f, shoff + i * she, 4);
    idx[s.name] = i;
    secs.push_back(s);
  }
  const char* sn[] = {"", ".text", ".data", ".bss"};
  for (int i = 1; i <= 3; ++i) {
    c.check(idx.count(sn[i]), "sections", "no %s section", sn[i]);
    Sec& s = secs[idx[sn[i]]];
    c.check(s.type == (i == 3 ? 8u : 1u), "sections", "%s has type %lu", sn[i], s.type);
    c.check(s.size == size[i], "size", "%s has %lu bytes, expected %lu", sn[i], s.size, size[i]);
    if (i != 3) {
      for (size_t j = 0; j < s.data.size(); ++j) c.check(s.data[j] == body[i][j], "content", "byte %zu of %s is %02x, expected %02x", j, sn[i], (uint8_t)s.data[j], (uint8_t)body[i][j]);
    }
    if (exec && size[i]) c.check(s.addr == start[i], "address", "%s is at %lx, expected %lx", sn[i], s.addr, start[i]);
    c.check(s.align >= align[i] || (exec && align[i] <= 4096), "align", "%s is aligned to %lu, expected %lu", sn[i], s.align, align[i]);
    c.ev("bytes", s.size);
  }
  // Segments: the loaded image.
  if (exec) {
    bool text = false, data = false;
    for (int i = 0; i < phn; ++i) {
      size_t p = phoff + i * (b64 ? 56 : 32);
      c.check(Get(f, p, 4) == 1, "segments", "segment of another type");
      uint64_t fl = Get(f, p + (b64 ? 4 : 24), 4);
      size_t q = p + (b64 ? 8 : 4);
      uint64_t off = Get(f, q, W), va = Get(f, q + W, W), pa = Get(f, q + 2 * W, W), fs = Get(f, q + 3 * W, W), ms = Get(f, q + 4 * W, W);
      c.check(va == pa, "segments", "addresses of a segment differ");
      bool t = fl & 1;
      (t ? text : data) = true;
      c.check(va == start[t ? 1 : 2], "segments", "%s segment at %lx", t ? "text" : "data", va);
      c.check(f.substr(off, fs).compare(0, size[t ? 1 : 2], body[t ? 1 : 2]) == 0, "segments", "contents of the %s segment differ", t ? "text" : "data");
      if (!t) c.check(size[3] == 0 || va + ms == start[3] + size[3], "segments", "the data segment does not end with bss");
    }
    c.check(text && data, "segments", "a segment is missing");
    c.ev("executables");
  } else {
    c.ev("relocatables");
  }
  // Symbols.
  Sec& tab = secs[idx[".symtab"]];
  Sec& str = secs[tab.link];
  int es = b64 ? 24 : 16;
  c.check((int)tab.ent == es && tab.data.size() % es == 0 && str.type == 3, "symtab_layout", "symbol table of %zu bytes with entries of %lu", tab.data.size(), tab.ent);
  std::vector<std::string> by;
  std::map<std::string, int> seen;
  bool global_seen = false;
  for (size_t i = 0; i * es < tab.data.size(); ++i) {
    size_t p = i * es;
    std::string n = str.data.c_str() + Get(tab.data, p, 4);
    uint8_t info = Get(tab.data, p + (b64 ? 4 : 12), 1);
    uint64_t sh = Get(tab.data, p + (b64 ? 6 : 14), 2), v = Get(tab.data, p + (b64 ? 8 : 4), W);
    by.push_back(n);
    bool g = info >> 4 == 1;
    c.check(!(global_seen && !g), "symbol_order", "local symbol %s after a global one", n.c_str());
    if (g && !global_seen) c.check(tab.info == i, "symbol_order", "first global symbol is %zu, the header says %lu", i, tab.info);
    global_seen |= g;
    if (i == 0 || n.empty() || n[0] == '.') continue;
    ++seen[n];
    c.check(syms.count(n), "symbols", "unexpected symbol %s", n.c_str());
    auto& s = syms[n];
    c.check(sh == (s.sect ? idx[sn[s.sect]] : 0u), "symbols", "%s is in section %lu", n.c_str(), sh);
    uint64_t want = b64 ? s.value : (uint32_t)s.value;
    c.check(v == want, "symbols", "%s has value %lx, expected %lx", n.c_str(), v, want);
    c.check(g == s.global, "symbols", "%s is %s", n.c_str(), g ? "global" : "local");
    c.ev("symbols");
  }
  for (auto& [n, s] : syms) c.check(seen[n] == 1, "symbols", "%s is %d times in the table", n.c_str(), seen[n]);
  // Relocations.
  for (int i = 1; i <= 3; ++i) {
    std::vector<Rel> got;
    auto it = idx.find(std::string(".rela") + sn[i]);
    if (it != idx.end()) {
      Sec& s = secs[it->second];
      c.check((int)s.info == idx[sn[i]] && secs[s.link].name == ".symtab", "relocations", "relocations of %s apply to section %lu", sn[i], s.info);
      int rs = 3 * W;
      c.check((int)s.ent == rs && s.data.size() % rs == 0 && s.type == 4, "relocations", "relocation section of %zu bytes with entries of %lu", s.data.size(), s.ent);
      for (size_t p = 0; p + rs <= s.data.size(); p += rs) {
        uint64_t info = Get(s.data, p + W, W), add = Get(s.data, p + 2 * W, W);
        uint64_t symi = b64 ? info >> 32 : info >> 8, type = b64 ? info & 0xffffffff : info & 0xff;
        c.check(type == 7 && add == 3 && symi < by.size(), "relocations", "type %lu addend %lu symbol %lu", type, add, symi);
        got.push_back({Get(s.data, p, W), by[symi]});
        c.ev("relocations");
      }
    }
    c.check(got == (exec ? std::vector<Rel>() : rels[i]), "relocations", "%zu relocations of %s, expected %zu or others", got.size(), sn[i], rels[i].size());
  }
  c.seen(vh::Comb(vh::Comb(size[1], size[2]), size[3]));
  c.nontrivial();
}
