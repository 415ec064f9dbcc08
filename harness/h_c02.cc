// C02: delay lines - everything scheduled happens exactly once, in its cycle, in order.
#include <deque>
#include <memory>

#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"
#include "vh.h"

using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferDelayLine;
using mpact::sim::generic::DataBufferDestination;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::DelayLine;
using mpact::sim::generic::DelayLineInterface;
using mpact::sim::generic::FunctionDelayLine;

namespace {
struct Rec {
  std::vector<int>* log;
  int id;
  Rec(std::vector<int>* l, int i) : log(l), id(i) {}
  void Apply() { log->push_back(id); }
};

// Latencies around powers of two, sizes, and long ones.
int PickLatency(vh::Rng& r, int size_hint) {
  switch (r.below(8)) {
    case 0: return 1;
    case 1: return (int)r.range(1, 4);
    case 2: return 1 << r.below(9);
    case 3: return std::max<int>(1, (1 << r.below(9)) - 1);
    case 4: return (1 << r.below(9)) + 1;
    case 5: return std::max<int>(1, size_hint + (int)r.range(-1, 1));
    case 6: return (int)r.range(1, 64);
    default: return (int)r.range(1, r.chance(1, 20) ? 5000 : 200);
  }
}

// The reference: a calendar from absolute cycle to the ids due then, in schedule order.
struct Calendar {
  std::map<long, std::vector<int>> due;
  long now = 0;
  int pending = 0;
  void add(int lat, int id) {
    due[now + lat].push_back(id);
    ++pending;
  }
  std::vector<int> tick() {
    ++now;
    auto it = due.find(now);
    if (it == due.end()) return {};
    auto v = it->second;
    pending -= v.size();
    due.erase(it);
    return v;
  }
};
std::string Str(const std::vector<int>& v) {
  std::string s;
  for (int x : v) s += std::to_string(x) + " ";
  return s;
}
}  // namespace

VH_SCENARIO(C02, records, 4000, 150000) {
  auto& r = c.rng;
  int min_size = (int)(r.chance(1, 4) ? 0 : r.below(r.chance(1, 3) ? 70 : 9));
  bool dflt = min_size == 0;
  std::unique_ptr<DelayLine<Rec>> dl(dflt ? new DelayLine<Rec>() : new DelayLine<Rec>(min_size));
  c.op("delay line min size %d%s", dflt ? 16 : min_size, dflt ? " (default)" : "");
  Calendar cal;
  std::vector<int> log;
  int id = 0;
  int steps = (int)r.range(5, 150);
  int density = (int)r.range(1, 6);
  int maxlat = 0;
  for (int s = 0; s < steps; ++s) {
    int adds = r.chance(density, 8) ? (int)r.range(1, 4) : 0;
    for (int k = 0; k < adds; ++k) {
      int lat = PickLatency(r, dflt ? 16 : min_size);
      c.op("cycle %ld: add #%d latency %d", cal.now, id, lat);
      int n = dl->Add(lat, &log, id);
      cal.add(lat, id++);
      maxlat = std::max(maxlat, lat);
      c.ev("scheduled");
      c.check(n == cal.pending, "count", "Add returned %d pending, expected %d", n, cal.pending);
      c.check(log.empty(), "early", "an action ran during Add");
    }
    c.check(dl->IsEmpty() == (cal.pending == 0), "isempty", "IsEmpty()=%d with %d pending", dl->IsEmpty(), cal.pending);
    int ticks = r.chance(1, 10) ? (int)r.range(1, 40) : 1;
    for (int t = 0; t < ticks; ++t) {
      log.clear();
      auto want = cal.tick();
      int left = dl->Advance();
      c.check(log == want, "delivery", "cycle %ld: performed [%s] expected [%s]", cal.now, Str(log).c_str(), Str(want).c_str());
      c.check(left == cal.pending, "count", "Advance returned %d pending, expected %d", left, cal.pending);
      c.ev("cycles");
      c.ev("delivered", want.size());
      if (want.size() > 1) c.ev("multi_delivery_cycles");
      log.clear();
    }
  }
  if (id > 1) c.nontrivial();
  c.seen(vh::Comb(vh::Comb(min_size, maxlat), cal.pending));
  // drain
  long guard = 0;
  while (cal.pending && ++guard < 20000) {
    log.clear();
    auto want = cal.tick();
    int left = dl->Advance();
    c.check(log == want, "delivery", "drain cycle %ld: performed [%s] expected [%s]", cal.now, Str(log).c_str(), Str(want).c_str());
    c.check(left == cal.pending, "count", "Advance returned %d pending, expected %d", left, cal.pending);
    c.ev("delivered", want.size());
  }
  c.check(dl->IsEmpty(), "isempty", "not empty after the drain");
}

// Function delay lines, including functions that schedule further functions while running.
VH_SCENARIO(C02, functions, 2500, 80000) {
  auto& r = c.rng;
  FunctionDelayLine dl((uint32_t)r.range(1, 20));
  Calendar cal;
  std::vector<int> log;
  int id = 0;
  bool nested = r.coin();
  c.op("function delay line, nested=%d", nested);
  vh::Rng nest(r.next());
  std::function<void(int)> sched = [&](int lat) {
    int me = id++;
    cal.add(lat, me);
    c.op("cycle %ld: schedule #%d latency %d", cal.now, me, lat);
    c.ev("scheduled");
    dl.Add(lat, std::function<void()>([&, me] {
      log.push_back(me);
      if (nested && id < 400 && nest.chance(1, 3)) {
        c.ev("nested_schedule");
        sched(PickLatency(nest, 16));
      }
    }));
  };
  int steps = (int)r.range(5, 120);
  for (int s = 0; s < steps; ++s) {
    if (r.chance(1, 2)) sched(PickLatency(r, 16));
    log.clear();
    auto want = cal.tick();
    int left = dl.Advance();
    c.check(log == want, "delivery", "cycle %ld: ran [%s] expected [%s]", cal.now, Str(log).c_str(), Str(want).c_str());
    c.check(left == cal.pending, "count", "Advance returned %d pending, expected %d", left, cal.pending);
    c.check(dl.IsEmpty() == (cal.pending == 0), "isempty", "IsEmpty()=%d with %d pending", dl.IsEmpty(), cal.pending);
    c.ev("cycles");
    c.ev("delivered", want.size());
  }
  if (id > 2) c.nontrivial();
  c.seen(vh::Comb(id, cal.pending));
}

// Data buffers written back with latency: destination, contents and references.
VH_SCENARIO(C02, writeback, 2500, 80000) {
  auto& r = c.rng;
  struct Dest : DataBufferDestination {
    DataBuffer* cur = nullptr;
    std::vector<std::pair<int, DataBuffer*>>* log;
    int id;
    void SetDataBuffer(DataBuffer* db) override {
      db->IncRef();
      if (cur) cur->DecRef();
      cur = db;
      log->push_back({id, db});
    }
    ~Dest() override {
      if (cur) cur->DecRef();
    }
  };
  DataBufferFactory f;
  std::vector<std::pair<int, DataBuffer*>> log;
  {
    std::vector<std::unique_ptr<Dest>> dests;
    int nd = (int)r.range(1, 4);
    for (int i = 0; i < nd; ++i) {
      dests.emplace_back(new Dest);
      dests.back()->log = &log;
      dests.back()->id = i;
    }
    std::unique_ptr<DataBufferDelayLine> dl(new DataBufferDelayLine((uint32_t)r.range(1, 20)));
    struct Pend {
      int dest;
      DataBuffer* db;
      uint64_t val;
    };
    std::map<long, std::vector<Pend>> due;
    std::vector<DataBuffer*> extra;  // additional references we hold
    long now = 0;
    int pending = 0, total = 0;
    std::vector<uint64_t> expect(nd, 0);
    std::vector<bool> has(nd, false);
    int steps = (int)r.range(5, 120);
    for (int s = 0; s < steps; ++s) {
      int adds = (int)r.below(4);
      for (int k = 0; k < adds; ++k) {
        int d = (int)r.below(nd);
        int lat = r.chance(1, 4) ? 0 : PickLatency(r, 16);
        DataBuffer* db = f.Allocate<uint64_t>(1);
        uint64_t v = r.next();
        db->Set<uint64_t>(0, v);
        db->set_destination(dests[d].get());
        db->set_delay_line(dl.get());
        db->set_latency(lat);
        c.check(db->latency() == lat, "latency", "latency() %d expected %d", db->latency(), lat);
        bool hold = r.chance(1, 3);
        if (hold) {
          db->IncRef();
          extra.push_back(db);
        }
        c.op("cycle %ld: submit value %lx to %d latency %d%s", now, v, d, lat, hold ? " (held)" : "");
        log.clear();
        if (r.coin()) db->Submit();
        else db->Submit(lat);
        c.ev("submitted");
        ++total;
        if (lat == 0) {
          c.check(log.size() == 1 && log[0].first == d && log[0].second == db, "immediate",
                  "latency 0 submit updated %zu destinations", log.size());
          expect[d] = v;
          has[d] = true;
          c.ev("immediate_writebacks");
        } else {
          c.check(log.empty(), "early", "a latency %d submit updated a destination at once", lat);
          due[now + lat].push_back({d, db, v});
          ++pending;
        }
      }
      log.clear();
      int left = dl->Advance();
      ++now;
      std::vector<Pend> want;
      auto it = due.find(now);
      if (it != due.end()) {
        want = it->second;
        due.erase(it);
      }
      pending -= want.size();
      c.check(log.size() == want.size(), "delivery", "cycle %ld: %zu write-backs, expected %zu", now, log.size(), want.size());
      for (size_t i = 0; i < want.size(); ++i) {
        c.check(log[i].first == want[i].dest && log[i].second == want[i].db, "delivery",
                "cycle %ld: write-back %zu went to destination %d, expected %d", now, i, log[i].first, want[i].dest);
        expect[want[i].dest] = want[i].val;
        has[want[i].dest] = true;
        c.ev("delayed_writebacks");
      }
      c.check(left == pending, "count", "Advance returned %d, expected %d", left, pending);
      for (int d = 0; d < nd; ++d)
        if (has[d])
          c.check(dests[d]->cur->Get<uint64_t>(0) == expect[d], "value", "destination %d holds %lx, expected %lx", d,
                  dests[d]->cur->Get<uint64_t>(0), expect[d]);
      // reference accounting: every pending buffer is referenced by the line (plus our hold)
      for (auto& [cy, v] : due)
        for (auto& p : v) {
          int held = 0;
          for (auto* e : extra) held += e == p.db;
          c.check(p.db->ref_count() == 1 + held, "refcount", "pending buffer has %d references, expected %d",
                  p.db->ref_count(), 1 + held);
          c.check(p.db->Get<uint64_t>(0) == p.val, "value", "a pending buffer changed value");
        }
      while (!extra.empty() && r.chance(1, 3)) {
        size_t i = r.below(extra.size());
        extra[i]->DecRef();
        extra.erase(extra.begin() + i);
      }
      c.ev("cycles");
    }
    if (total > 2) c.nontrivial();
    c.seen(vh::Comb(vh::Comb(total, pending), nd));
    // A line destroyed with work pending releases its references.
    std::vector<std::pair<DataBuffer*, uint64_t>> pend;
    for (auto& [cy, v] : due)
      for (auto& p : v) pend.push_back({p.db, 0});
    for (auto& p : pend) p.first->IncRef();
    dl.reset();
    for (auto& p : pend) {
      int held = 0;
      for (auto* e : extra) held += e == p.first;
      c.check(p.first->ref_count() == 1 + held, "refcount-destroy",
              "after the line was destroyed the buffer has %d references, expected %d", p.first->ref_count(), 1 + held);
      p.first->DecRef();
    }
    for (auto* e : extra) e->DecRef();
  }
}

// One buffer written back several times, held by several owners, destinations that
// submit more while they are updated, and many write-backs in one cycle.
VH_SCENARIO(C02, writeback_shared, 2500, 80000) {
  auto& r = c.rng;
  struct Ev {
    int dest, tag;
    bool operator==(const Ev& o) const { return dest == o.dest && tag == o.tag; }
  };
  struct Dest : DataBufferDestination {
    int id;
    std::function<void(int, DataBuffer*)> on;
    void SetDataBuffer(DataBuffer* db) override { on(id, db); }
  };
  struct World {
    vh::Case& c;
    vh::Rng nest;
    DataBufferFactory f;
    std::unique_ptr<DataBufferDelayLine> dl;
    std::vector<Dest> dests;
    std::map<long, std::vector<Ev>> due;
    std::map<int, DataBuffer*> of;
    std::map<int, int> refs;  // by tag: ours and the line's
    std::vector<Ev> log;
    long now = 0;
    int pending = 0, tags = 0, left = 400;
    bool nested;
    World(vh::Case& c, uint64_t s) : c(c), nest(s) {}
    // Takes over one of our references.
    void Submit(int tag, int d, int lat) {
      auto* db = of[tag];
      db->set_destination(&dests[d]);
      db->set_delay_line(dl.get());
      due[now + lat].push_back({d, tag});
      ++pending;
      db->Submit(lat);
      c.ev("submitted");
    }
    int New() {
      int t = tags++;
      auto* db = f.Allocate<uint32_t>(2);
      for (auto& [k, v] : refs)
        if (v > 0) c.check(of[k] != db, "alias", "a referenced buffer was handed out again");
      db->Set<uint32_t>(0, 0xabc00000u + t);
      db->Set<uint32_t>(1, t);
      of[t] = db;
      refs[t] = 1;
      return t;
    }
  } w(c, r.next());
  w.nested = r.coin();
  w.dl.reset(new DataBufferDelayLine((uint32_t)r.range(1, 20)));
  w.dests.resize(r.range(1, 4));
  for (size_t i = 0; i < w.dests.size(); ++i) {
    w.dests[i].id = (int)i;
    w.dests[i].on = [&w](int d, DataBuffer* db) {
      int t = (int)db->Get<uint32_t>(1);
      w.log.push_back({d, t});
      if (w.nested && w.left > 0 && w.nest.chance(1, 4)) {
        --w.left;
        w.c.ev("nested_submit");
        int nt = w.New();
        w.Submit(nt, (int)w.nest.below(w.dests.size()), PickLatency(w.nest, 16));
      }
    };
  }
  int steps = (int)r.range(5, 60);
  int burst = r.chance(1, 4) ? (int)r.range(10, 60) : 3;
  auto verify = [&](const char* where) {
    for (auto& [t, n] : w.refs)
      if (n > 0) {
        c.check(w.of[t]->ref_count() == n, "refcount", "%s: buffer %d has %d references, expected %d", where, t, w.of[t]->ref_count(), n);
        c.check(w.of[t]->Get<uint32_t>(0) == 0xabc00000u + t && w.of[t]->Get<uint32_t>(1) == (uint32_t)t, "value", "%s: contents of buffer %d changed", where, t);
      }
  };
  for (int s = 0; s < steps; ++s) {
    int n = (int)r.below(burst);
    int same = PickLatency(r, 16);
    for (int k = 0; k < n; ++k) {
      int t = w.New();
      int extra = r.chance(1, 3) ? (int)r.range(1, 5) : 0;
      int twice = r.chance(1, 4) ? (int)r.range(1, 3) : 0;
      w.refs[t] += extra + twice;
      for (int i = 0; i < extra + twice; ++i) w.of[t]->IncRef();
      for (int i = 0; i <= twice; ++i) {
        int lat = r.coin() ? same : PickLatency(r, 16), d = (int)r.below(w.dests.size());
        c.op("cycle %ld: submit %d to %d latency %d (%d extra)", w.now, t, d, lat, extra);
        w.Submit(t, d, lat);
      }
      if (extra) c.ev("held");
      if (twice) c.ev("submitted_twice");
    }
    verify("after submitting");
    int ticks = r.chance(1, 8) ? (int)r.range(2, 40) : 1;
    for (int k = 0; k < ticks; ++k) {
      ++w.now;
      w.log.clear();
      std::vector<Ev> want = w.due[w.now];
      w.due.erase(w.now);
      w.pending -= want.size();
      // The line's references go when the advance is over; SetDataBuffer may submit more.
      int left = w.dl->Advance();
      for (auto& e : want) --w.refs[e.tag];
      c.check(w.log == want, "delivery", "cycle %ld: %zu write-backs (in some order), expected %zu in the order of submission", w.now, w.log.size(), want.size());
      c.check(left == w.pending && w.dl->IsEmpty() == (left == 0), "count", "Advance returned %d, expected %d", left, w.pending);
      c.ev("delayed_writebacks", want.size());
      c.ev("cycles");
      verify("after advancing");
    }
    for (auto& [t, nn] : w.refs) {
      int lines = 0;
      if (nn > 1 && r.chance(1, 4)) {
        for (auto& [cy, v] : w.due)
          for (auto& e : v) lines += e.tag == t;
        if (nn > lines) {
          --nn;
          w.of[t]->DecRef();
        }
      }
    }
  }
  w.dl.reset();
  for (auto& [cy, v] : w.due)
    for (auto& e : v) --w.refs[e.tag];
  verify("after the line was destroyed");
  for (auto& [t, n] : w.refs)
    while (n-- > 0) w.of[t]->DecRef();
  if (w.tags > 2) c.nontrivial();
  c.seen(vh::Comb(w.tags, w.pending));
}

// Volume: very many pending at once, very long latencies.
VH_SCENARIO(C02, volume, 24, 800) {
  auto& r = c.rng;
  DelayLine<Rec> dl((uint32_t)r.range(1, 300));
  Calendar cal;
  std::vector<int> log;
  int id = 0;
  int kind = (int)r.below(3);
  int n = kind == 0 ? (int)r.range(60000, 150000) : (int)r.range(200, 3000);
  int maxlat = kind == 1 ? (int)r.range(30000, 300000) : (int)r.range(1, 400);
  c.op("%d actions, latencies up to %d", n, maxlat);
  int one = (int)r.range(1, maxlat);
  bool crowd = r.coin();
  for (int i = 0; i < n; ++i) {
    int lat = crowd && r.chance(3, 4) ? one : (int)r.range(1, maxlat);
    int got = dl.Add(lat, &log, id);
    cal.add(lat, id++);
    c.check(got == cal.pending, "count", "Add returned %d pending, expected %d", got, cal.pending);
    if (kind == 2 && r.chance(1, 20)) {
      int ticks = (int)r.range(1, 5);
      while (ticks--) {
        log.clear();
        auto want = cal.tick();
        int left = dl.Advance();
        c.check(log == want && left == cal.pending, "delivery", "cycle %ld: %zu actions, expected %zu (or another order); %d left, expected %d", cal.now, log.size(), want.size(), left, cal.pending);
      }
    }
    if (kind == 1 && r.chance(1, 50)) maxlat += 1000;
  }
  c.ev("scheduled", n);
  while (cal.pending) {
    log.clear();
    auto want = cal.tick();
    int left = dl.Advance();
    c.check(log == want && left == cal.pending, "delivery", "cycle %ld: %zu actions, expected %zu (or another order); %d left, expected %d", cal.now, log.size(), want.size(), left, cal.pending);
    c.check(dl.IsEmpty() == (left == 0), "isempty", "IsEmpty with %d left", left);
    c.ev("delivered", want.size());
  }
  c.nontrivial();
}

// Several independent lines advanced through the common interface stay independent.
VH_SCENARIO(C02, independent_lines, 600, 20000) {
  auto& r = c.rng;
  int n = (int)r.range(2, 5);
  std::vector<std::vector<int>> logs(n);
  std::vector<std::unique_ptr<DelayLine<Rec>>> lines;
  std::vector<Calendar> cals(n);
  for (int i = 0; i < n; ++i) lines.emplace_back(new DelayLine<Rec>((uint32_t)r.range(1, 33)));
  int id = 0;
  for (int s = 0; s < 80; ++s) {
    for (int i = 0; i < n; ++i)
      if (r.chance(1, 2)) {
        int lat = PickLatency(r, 16);
        c.op("line %d add #%d latency %d", i, id, lat);
        lines[i]->Add(lat, &logs[i], id);
        cals[i].add(lat, id++);
        c.ev("scheduled");
      }
    for (int i = 0; i < n; ++i) {
      if (r.chance(1, 5)) continue;  // lines need not be advanced together
      DelayLineInterface* li = lines[i].get();
      logs[i].clear();
      auto want = cals[i].tick();
      int left = li->Advance();
      c.check(logs[i] == want, "delivery", "line %d cycle %ld: [%s] expected [%s]", i, cals[i].now, Str(logs[i]).c_str(), Str(want).c_str());
      c.check(left == cals[i].pending && li->IsEmpty() == (left == 0), "count", "line %d: %d left, expected %d", i, left, cals[i].pending);
      c.ev("delivered", want.size());
      c.ev("cycles");
    }
  }
  c.nontrivial();
}
