// C25: the observation tools (instruction profiler, uart, log sink) record exactly what happened.
#include <sstream>

#include "absl/log/log.h"
#include "absl/log/log_sink_registry.h"
#include "elf_make.h"
#include "mem_rig.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/other/instruction_profiler.h"
#include "mpact/sim/util/other/log_sink.h"
#include "mpact/sim/util/other/simple_uart.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"

using namespace mem;
using namespace mpact::sim::util;
using mpact::sim::generic::SimpleCounter;

VH_SCENARIO(C25, profiler, 4000, 100000) {
  auto& r = c.rng;
  elf::Elf e;
  e.bits64 = r.coin();
  int shift = r.chance(1, 6) ? r.below(e.bits64 ? 17 : 10) : r.below(4);
  uint64_t g = 1ull << shift;
  struct Seg {
    uint64_t at, size;
    bool exec;
  };
  std::vector<Seg> segs;
  uint64_t at = r.coin() ? 0 : r.below(1 << 20) * g;
  for (int i = 0, n = r.range(0, 5); i < n; ++i) {
    uint64_t gap = r.coin() ? r.below(8) : r.coin() ? 0xff0 + r.below(32) : r.below(0x4000);
    if (e.bits64 && r.chance(1, 6)) gap = ((uint64_t)r.range(1, 9) << r.range(20, 36)) + r.below(0x2000) - (r.coin() ? 0x1000 : 0);
    at += gap * g;
    uint64_t size = r.range(1, 64) * g;
    if (shift < 5 && r.chance(1, 10)) size = r.range(64, 0x9000) * g, c.ev("large_segments");
    bool exec = !r.chance(1, 4);
    uint32_t type = r.chance(1, 8) ? 4 : 1;
    elf::Seg s;
    s.type = type;
    s.flags = 4 | (exec ? 1 : 2);
    s.vaddr = s.paddr = at;
    s.memsz = size;
    s.data.assign(r.coin() ? size : r.below(size), 'x');
    e.segs.push_back(s);
    if (type == 1 && exec) segs.push_back({at, size, exec});
    at += size;
  }
  std::string path = e.file();
  FlatDemandMemory mem;
  ElfProgramLoader loader(&mem);
  c.check(loader.LoadProgram(path).ok(), "load", "elf file not loaded");
  std::unique_ptr<InstructionProfiler> p;
  SimpleCounter<uint64_t> pc("pc", 0);
  if (r.coin()) {
    p.reset(new InstructionProfiler(loader, (unsigned)g));
  } else {
    p.reset(new InstructionProfiler((unsigned)g));
    // Samples before there are ranges are dropped.
    for (int i = r.below(4); i > 0; --i) p->SetValue(r.coin() ? ~0ull : r.val());
    p->SetElfLoader(&loader);
  }
  bool counter = r.coin();
  if (counter) pc.AddListener(p.get());
  auto zone = [&](uint64_t a) {  // 1 in a segment, 0 outside, 2 in a gap that may be profiled too
    for (auto& s : segs) if (a >= s.at && a - s.at < s.size) return 1;
    if (!segs.empty() && a > segs.front().at && a < segs.back().at) return 2;
    return 0;
  };
  std::map<uint64_t, uint64_t> want;
  uint64_t again = 0;
  for (int i = 0, n = r.range(1, 200); i < n; ++i) {
    uint64_t a;
    if (!segs.empty() && !r.chance(1, 8)) {
      auto& s = r.pick(segs);
      a = r.chance(1, 3) ? s.at + r.below(s.size) : r.coin() ? s.at : s.at + s.size - 1 - r.below(2);
      if (r.chance(1, 10)) a = s.at + s.size + r.below(3 * g);
      if (r.chance(1, 10)) a = s.at - 1 - r.below(3 * g);
    } else {
      a = r.chance(1, 4) ? ~0ull : r.val();
    }
    if (i && r.chance(1, 12)) a = again ^ (1ull << r.below(64));  // far apart, but alike
    again = a;
    int times = r.chance(1, 400) ? r.range(60000, 140000) : r.chance(1, 20) ? r.range(2, 600) : 1;
    if (zone(a) != 1) times = 1;
    c.op("sample %lx, %d times", a, times);
    for (int t = 0; t < times; ++t) {
      if (counter) pc.SetValue(a);
      else p->SetValue(a);
    }
    want[a >> shift << shift] += times;
    if (times > 60000) c.ev("hot_spots");
    c.ev(zone(a) == 1 ? "samples" : "outside_samples");
  }
  std::ostringstream os;
  p->WriteProfile(os);
  std::map<uint64_t, uint64_t> got;
  std::istringstream is(os.str());
  std::string line;
  c.check(!!std::getline(is, line) && line == "Address,Count", "header", "profile starts with '%s'", line.c_str());
  uint64_t last = 0;
  bool first = true;
  while (std::getline(is, line)) {
    unsigned long a, n;
    int end = 0;
    c.check(sscanf(line.c_str(), "0x%lx,%lu%n", &a, &n, &end) == 2 && end == (int)line.size(), "line", "profile line '%s'", line.c_str());
    c.check(first || a > last, "order", "profile not in order at %lx", a);
    first = false;
    last = a;
    got[a] = n;
  }
  for (auto& [a, n] : want) {
    int z = zone(a);
    uint64_t x = got.count(a) ? got[a] : 0;
    c.check(z == 1 ? x == n : z == 0 ? x == 0 : (x == n || x == 0), "count", "%lx sampled %lu times (zone %d), profile says %lu", a, n, z, x);
    c.seen(vh::Comb(z, n));
  }
  for (auto& [a, n] : got) c.check(want.count(a), "invented", "%lx in the profile was never sampled", a);
  c.ev("profiles");
  c.ev("ranges", segs.size());
  if (segs.size() > 1) c.nontrivial();
}

VH_SCENARIO(C25, uart, 6000, 200000) {
  auto& r = c.rng;
  Rig g(c);
  Client k(g);
  std::ostringstream os;
  alignas(SimpleUart) unsigned char room[sizeof(SimpleUart)];
  memset(room, r.below(256), sizeof room);
  auto* u = new (room) SimpleUart(g.st.get(), os);
  std::string sent;
  std::map<uint32_t, uint32_t> reg;  // 0x100000: divisor low, 0x100004: high
  uint64_t base = r.coin() ? 0 : r.next() & ~0xffffull;
  auto where = [&](uint32_t off) { return off < 8 && (reg[0xc] & 0x80) ? off + 0x100000 : off; };
  auto rd = [&](uint32_t off) -> uint32_t {
    uint32_t w = where(off);
    return w == 4 || w == 0xc || w == 0x1c || w == 0x100000 || w == 0x100004 ? reg[w] : 0;
  };
  for (int s = 0, n = r.range(5, 80); s < n; ++s) {
    uint32_t off = r.chance(1, 8) ? r.below(0x10000) & ~3u : r.below(9) * 4;
    int words = r.chance(1, 4) ? r.range(1, 4) : r.chance(1, 12) ? r.range(4, 24) : 1;
    int len = words * 4;
    bool bad = r.chance(1, 6);
    if (bad) {
      if (r.coin()) off += r.range(1, 3);
      else len += r.range(-3, 3) | 1;
    }
    if (off + len > 0x10000) continue;
    if (r.coin()) {
      Bytes want(len, 0);
      if (!bad) for (int i = 0; i < words; ++i) {
        uint32_t v = rd(off + 4 * i);
        memcpy(&want[4 * i], &v, 4);
      }
      c.ev(bad ? "bad_loads" : "reg_reads");
      k.load(u, base + off, want);
    } else {
      Bytes b = g.rnd(len);
      for (int i = 0; i < words && len; ++i) if (r.chance(1, 5)) b[4 * i] = '\n';
      if (off == 0xc && len >= 4 && r.coin()) b[0] ^= 0x80;
      if (!bad) for (int i = 0; i < words; ++i) {
        uint32_t v;
        memcpy(&v, &b[4 * i], 4);
        uint32_t w = where(off + 4 * i);
        if (w == 0) sent += (char)v, c.ev("sent");
        else reg[w] = v;
      }
      c.ev(bad ? "bad_stores" : "reg_writes");
      k.store(u, base + off, b);
      c.check(os.str() == sent, "output", "the uart has put out %zu characters, expected %zu", os.str().size(), sent.size());
    }
    if (r.coin()) g.advance();
    g.settle();
  }
  g.finish();
  u->~SimpleUart();
  c.seen(vh::Comb(sent.size(), reg[0xc]));
  if (!sent.empty()) c.nontrivial();
}

VH_SCENARIO(C25, log_sink, 1500, 20000) {
  auto& r = c.rng;
  LogSink s;
  int n[4] = {};
  std::vector<std::string> oops;
  bool on = false;
  struct Off {  // a failed check leaves no sink behind
    LogSink& s;
    bool& on;
    ~Off() { if (on) absl::RemoveLogSink(&s); }
  } off{s, on};
  for (int i = 0, m = r.chance(1, 10) ? r.range(40, 700) : r.range(1, 40); i < m; ++i) {
    int k = r.below(8);
    std::string t = r.ident();
    if (r.chance(1, 10)) t = r.coin() ? "" : std::string(r.range(1, 5000), (char)r.range(32, 126)) + t;
    if (r.chance(1, 20)) t += "\nmore";
    if (k == 0) {
      if (on) absl::RemoveLogSink(&s);
      else absl::AddLogSink(&s);
      on = !on;
    } else if (k == 1 && r.chance(1, 3)) {
      s.Reset();
      n[0] = n[1] = n[2] = n[3] = 0;
      c.ev("resets");
    } else {
      switch (k % 3) {
        case 0: LOG(INFO) << t; break;
        case 1: LOG(WARNING) << t; break;
        default: LOG(ERROR) << t;
      }
      if (on) {
        ++n[k % 3];
        if (k % 3) oops.push_back(t);
        c.ev("messages");
      }
    }
    c.check(s.num_info() == n[0] && s.num_warning() == n[1] && s.num_error() == n[2] && s.num_fatal() == 0, "counts", "counts are %d %d %d %d", s.num_info(), s.num_warning(), s.num_error(), s.num_fatal());
    c.check(s.NumOops() == n[1] + n[2], "oops", "%d oops, expected %d", s.NumOops(), n[1] + n[2]);
    c.check(std::vector<std::string>(s.oops_entries().begin(), s.oops_entries().end()) == oops, "entries", "the recorded entries differ");
    c.seen(vh::Comb(n[0], vh::Comb(n[1], n[2])));
  }
  c.nontrivial();
}
