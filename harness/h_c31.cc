// C31: the gdb server serves a debugger's session faithfully and survives any
// client.  The real server runs in a thread on one end of a socket pair (the
// calls that would open a TCP port are stand-ins); the client side, a model of
// the core it debugs, and an independent reading of the remote protocol decide.
#include <poll.h>
#include <sys/socket.h>

#include <dirent.h>

#include <atomic>
#include <mutex>
#include <memory>
#include <thread>

#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/debug_info.h"
#include "mpact/sim/util/gdbserver/gdbserver.h"
#include "vh.h"

using mpact::sim::generic::AccessType;
using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::DebugInfo;
using mpact::sim::util::gdbserver::GdbServer;
using HR = CoreDebugInterface::HaltReason;

// ---- stand-ins for the calls that would open a port ----
static int g_accept_fd = -1;
static int g_fault = 0;  // 1 socket, 2 bind, 3 listen, 4 accept
static int g_port = 0;
extern "C" {
int __wrap_socket(int, int, int) {
  if (g_fault == 1) { errno = EMFILE; return -1; }
  int p[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, p) != 0) return -1;
  close(p[1]);
  return p[0];
}
int __wrap_bind(int, const struct sockaddr* a, socklen_t) {
  if (g_fault == 2) { errno = EADDRINUSE; return -1; }
  const unsigned char* b = (const unsigned char*)a;
  g_port = b[2] << 8 | b[3];
  return 0;
}
int __wrap_listen(int, int) {
  if (g_fault == 3) { errno = EADDRINUSE; return -1; }
  return 0;
}
int __wrap_accept(int, struct sockaddr*, socklen_t*) {
  if (g_fault == 4) { errno = ECONNABORTED; return -1; }
  int r = g_accept_fd;
  g_accept_fd = -1;
  return r;
}
}

namespace {
std::set<int> OpenFds() {
  std::set<int> s;
  DIR* d = opendir("/proc/self/fd");
  int me = dirfd(d);
  while (auto* e = readdir(d)) {
    int f = atoi(e->d_name);
    if (e->d_name[0] != '.' && f != me) s.insert(f);
  }
  closedir(d);
  return s;
}
std::string Hex2(unsigned v) { char b[8]; snprintf(b, 8, "%02x", v & 0xff); return b; }
std::string HexN(uint64_t v) { char b[24]; snprintf(b, 24, "%lx", v); return b; }
std::string HexBytes(const std::string& s) { std::string r; for (unsigned char ch : s) r += Hex2(ch); return r; }

struct Core : CoreDebugInterface {
  DataBufferFactory f;
  std::map<std::string, DataBuffer*> regs;
  std::set<std::string> broken;          // registers that cannot be accessed
  uint64_t base = 0;
  std::string mem;
  std::set<uint64_t> bps;
  int bp_mode = 0;                       // 0 works, 1 fails, 2 unimplemented
  bool running = false;
  uint32_t last = (uint32_t)HR::kNone;
  // What the next halt looks like.
  uint32_t next_halt = 0;
  uint64_t next_pc = 0;
  AccessType watch = AccessType::kNone;
  bool fail_run = false, fail_wait = false, fail_step = false, fail_reason = false, fail_status = false;
  std::string msg = "failed";
  int runs = 0, waits = 0, steps = 0, others = 0;
  std::string file;
  bool bad_access = false;
  ~Core() { for (auto& [n, d] : regs) d->DecRef(); }
  absl::Status Err() { return absl::InternalError(msg); }
  std::string Raw(const std::string& n) { auto* d = regs[n]; return std::string((char*)d->raw_ptr(), d->size<uint8_t>()); }
  void SetRaw(const std::string& n, const std::string& v) { memcpy(regs[n]->raw_ptr(), v.data(), v.size()); }
  uint64_t Val(const std::string& n) { uint64_t v = 0; auto r = Raw(n); memcpy(&v, r.data(), std::min<size_t>(8, r.size())); return v; }
  void SetVal(const std::string& n, uint64_t v) { auto* d = regs[n]; memcpy(d->raw_ptr(), &v, std::min<size_t>(8, d->size<uint8_t>())); }
  absl::Status Halt() override { ++others; return absl::OkStatus(); }
  absl::Status Halt(HaltReason) override { ++others; return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType) override { ++others; return absl::OkStatus(); }
  absl::StatusOr<int> Step(int n) override {
    ++steps;
    if (n != 1) ++others;
    if (fail_step) return Err();
    SetVal("pc", next_pc);
    last = next_halt;
    return 1;
  }
  absl::Status Run() override {
    ++runs;
    if (fail_run) return Err();
    running = true;
    return absl::OkStatus();
  }
  absl::Status Wait() override {
    ++waits;
    if (fail_wait) return Err();
    if (running) {
      running = false;
      last = next_halt;
      SetVal("pc", next_pc);
    }
    return absl::OkStatus();
  }
  absl::StatusOr<RunStatus> GetRunStatus() override {
    if (fail_status) return Err();
    return running ? RunStatus::kRunning : RunStatus::kHalted;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    if (fail_reason) return Err();
    return last;
  }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override {
    if (!regs.count(n) || broken.count(n)) return Err();
    return Val(n);
  }
  absl::Status WriteRegister(const std::string& n, uint64_t v) override {
    if (!regs.count(n) || broken.count(n)) return Err();
    SetVal(n, v);
    return absl::OkStatus();
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& n) override {
    if (!regs.count(n) || broken.count(n)) return Err();
    return regs[n];
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    if (a < base || a - base > mem.size()) return Err();
    n = std::min(n, (size_t)(mem.size() - (a - base)));
    memcpy(b, mem.data() + (a - base), n);
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    if (a < base || a - base > mem.size()) return Err();
    n = std::min(n, (size_t)(mem.size() - (a - base)));
    memcpy(&mem[a - base], b, n);
    return n;
  }
  bool HasBreakpoint(uint64_t a) override { return bps.count(a); }
  absl::Status SetSwBreakpoint(uint64_t a) override {
    if (bp_mode) return bp_mode == 2 ? absl::UnimplementedError(msg) : Err();
    bps.insert(a);
    return absl::OkStatus();
  }
  absl::Status ClearSwBreakpoint(uint64_t a) override {
    if (bp_mode) return bp_mode == 2 ? absl::UnimplementedError(msg) : Err();
    if (!bps.erase(a)) return absl::NotFoundError(msg);
    return absl::OkStatus();
  }
  absl::Status ClearAllSwBreakpoints() override { ++others; bps.clear(); return absl::OkStatus(); }
  void GetWatchpointInfo(uint64_t& a, AccessType& t) override { if (watch != AccessType::kNone) { a = 0x1230; t = watch; } }
  absl::StatusOr<mpact::sim::generic::Instruction*> GetInstruction(uint64_t) override { ++others; return Err(); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { ++others; return Err(); }
  std::string GetExecutableFileName() override { return file; }
  uint64_t hash() {
    uint64_t h = vh::HashBytes(mem.data(), mem.size());
    for (auto& [n, d] : regs) h = vh::HashBytes(d->raw_ptr(), d->size<uint8_t>(), h);
    for (auto b : bps) h = vh::Comb(h, b);
    return vh::Comb(h, runs * 1000 + steps * 7 + others * 77777);
  }
};

struct Info : DebugInfo {
  DebugRegisterMap map;
  int first = 0, last = 0, pc = 0, width = 64;
  std::string xml, host;
  const DebugRegisterMap& debug_register_map() const override { return map; }
  int GetFirstGpr() const override { return first; }
  int GetLastGpr() const override { return last; }
  int GetPcRegister() const override { return pc; }
  int GetGprWidth() const override { return 64; }
  int GetPcWidth() const override { return width; }
  int GetRegisterByteWidth(int) const override { return 8; }
  std::string_view GetGdbTargetXml() const override { return xml; }
  std::string_view GetLLDBHostInfo() const override { return host; }
};

struct World {
  vh::Case& c;
  vh::Rng& r;
  Core core, second;
  Info info;
  std::vector<CoreDebugInterface*> cores;
  std::unique_ptr<GdbServer> server;
  std::map<int, int> bits;  // register number -> bit size in the xml
  std::map<std::string, std::string> host;
  std::vector<int> nums;
  bool hr_unknown = false;
  uint32_t hr = (uint32_t)HR::kNone;  // what the server knows of the last halt

  // The connection.
  int fd = -1;
  std::thread th;
  std::atomic<bool> ended{false};
  bool result = false;
  bool noack = false, suffix = false;

  World(vh::Case& cc) : c(cc), r(cc.rng) {
    int n = r.range(1, 12);
    info.first = r.below(3);
    info.last = info.first + n - 1;
    info.width = r.pick(std::vector<int>{32, 64});
    bool gaps = r.chance(1, 3);
    info.xml = "<?xml version=\"1.0\"?>\n<!DOCTYPE target SYSTEM \"gdb-target.dtd\">\n<target version=\"1.0\">\n";
    if (r.coin()) info.xml += "<!-- #1 {a}* $x -->\n", c.ev("xml_with_special_characters");
    auto add = [&](int num, const std::string& name, int size) {
      auto* d = core.f.Allocate<uint8_t>(size);
      for (int i = 0; i < size; ++i) ((uint8_t*)d->raw_ptr())[i] = r.next();
      core.regs[name] = d;
      info.map[num] = name;
      nums.push_back(num);
      int b = size * 8;
      if (r.chance(1, 5)) b = size > 8 ? b + 64 : r.pick(std::vector<int>{8, 16, 32, 64});
      if (r.chance(5, 6)) {
        bits[num] = b;
        info.xml += "  <reg name=\"" + name + "\" bitsize=\"" + std::to_string(b) + "\" regnum=\"" + std::to_string(num) + "\"/>\n";
      }
    };
    for (int i = info.first; i <= info.last; ++i) {
      if (gaps && r.chance(1, 4)) { c.ev("register_gaps"); continue; }
      add(i, "x" + std::to_string(i), r.pick(std::vector<int>{4, 8, 8, 16}));
    }
    info.pc = r.range(info.last + 1, info.last + 20);
    add(info.pc, "pc", 8);
    if (info.width == 32) core.SetVal("pc", core.Val("pc") & 0xffffffff);
    int ex = r.below(4);
    for (int i = 0; i < ex; ++i) add(info.pc + 1 + i * 3, "v" + std::to_string(i), r.pick(std::vector<int>{1, 2, 16, 32, 64}));
    if (r.chance(1, 4)) {  // a long description with any characters
      info.xml += "<!-- ";
      for (int i = r.range(1, 5000); i > 0; --i) info.xml += r.chance(1, 6) ? r.pick(std::vector<char>{'#', '$', '}', '*'}) : r.chance(1, 6) ? (char)r.range(0xa0, 0xff) : (char)r.range('A', 'Z');
      info.xml += " -->\n";
      c.ev("xml_long");
    }
    info.xml += "</target>\n";
    core.base = r.chance(1, 4) ? 0xffffffffffff0000ull : r.below(1 << 20);
    if (r.chance(1, 3)) core.base = r.next() >> r.below(40) & ~(1ull << 63);
    core.mem.resize(r.chance(1, 5) ? r.range(400, 20000) : r.range(1, 400));
    for (auto& b : core.mem) b = r.next();
    core.file = r.coin() ? "/a/prog.elf" : "prog#1.elf";
    static const char* keys[] = {"triple", "distribution_id", "os_build", "hostname", "os_kernel", "endian", "ptrsize", "cputype"};
    for (int i = 0; i < 8; ++i)
      if (r.coin()) {
        std::string v = i < 5 ? r.ident() + (r.coin() ? "-none" : "") : i == 5 ? "little" : std::to_string(r.below(100));
        info.host += std::string(keys[i]) + ":" + v + ";";
        host[keys[i]] = i < 5 ? HexBytes(v) : v;
      }
    if (r.chance(1, 8)) info.host += "novalue;", host["novalue"] = "";
    core.next_halt = (uint32_t)HR::kUserRequest;
    cores.push_back(&core);
    if (r.chance(1, 3)) cores.push_back(&second), c.ev("extra_cores");
    server = std::make_unique<GdbServer>(absl::MakeSpan(cores), info);
  }
  ~World() { Hang(); }

  void Hang() {
    if (fd >= 0) close(fd);
    fd = -1;
    if (th.joinable()) th.join();
  }

  void Start() {
    int p[2];
    socketpair(AF_UNIX, SOCK_STREAM, 0, p);
    fd = p[0];
    g_accept_fd = p[1];
    ended = false;
    noack = false;
    suffix_known = suffix;
    int port = r.range(1, 65535);
    th = std::thread([this, port]() {
      result = server->Connect(port);
      ended = true;
    });
    port_ = port;
  }
  int port_ = 0;
  bool suffix_known = false;

  void Send(const std::string& s) {
    size_t o = 0;
    while (o < s.size()) {
      ssize_t n = send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
      if (n <= 0) return;
      o += n;
    }
  }
  std::string pend;
  // Next byte; -1 at the end of the connection.
  int Byte() {
    if (pend.empty()) {
      char b[4096];
      pollfd q{fd, POLLIN, 0};
      int rc = poll(&q, 1, 20000);
      c.check(rc > 0, "no_answer", "the server did not answer");
      ssize_t n = read(fd, b, sizeof b);
      if (n <= 0) return -1;
      pend.assign(b, n);
    }
    unsigned char ch = pend[0];
    pend.erase(0, 1);
    return ch;
  }
  // One packet; returns its payload, unescaped.
  std::string Packet() {
    int ch = Byte();
    c.check(ch == '$', "framing", "a response starts with %d instead of $", ch);
    std::string raw, out;
    unsigned sum = 0;
    while (true) {
      ch = Byte();
      c.check(ch >= 0, "framing", "the connection ended inside a response");
      if (ch == '#') break;
      raw += (char)ch;
      sum += ch;
    }
    int a = Byte(), b = Byte();
    std::string cs{(char)a, (char)b};
    c.check(cs == Hex2(sum), "checksum", "a response carries checksum %s instead of %s", cs.c_str(), Hex2(sum).c_str());
    for (size_t i = 0; i < raw.size(); ++i) {
      c.check(raw[i] != '$' && raw[i] != '*', "framing", "unescaped special character in a response");
      if (raw[i] == '}') {
        c.check(i + 1 < raw.size(), "framing", "escape at the end of a response");
        out += raw[++i] ^ 0x20;
      } else {
        out += raw[i];
      }
    }
    c.ev("packets_received");
    return out;
  }
  std::string Wire(const std::string& payload, bool good = true) {
    std::string w;
    bool room = payload.size() < 4000;  // the announced packet size holds it even when escaped
    for (char ch : payload)
      if (ch == '#' || ch == '$' || ch == '}' || (room && esc && r.chance(1, 12))) {
        w += '}';
        w += ch ^ 0x20;
        if ((ch ^ 0x20) == '#' || (ch ^ 0x20) == '$') { w.pop_back(); w.pop_back(); w += ch; } else c.ev("escaped");
      } else {
        w += ch;
      }
    unsigned s = 0;
    for (unsigned char ch : w) s += ch;
    if (!good) s += r.range(1, 255);
    std::string cs = Hex2(s);
    if (r.chance(1, 4)) for (auto& ch : cs) ch = toupper(ch);
    return "$" + w + "#" + cs;
  }
  bool esc = false;
  std::string cmd_;

  // Sends a command and returns the response.
  std::string Do(const std::string& payload) {
    cmd_ = payload;
    c.op("%s", payload.c_str());
    bool ack = !noack;
    if (r.chance(1, 10)) {  // first a damaged copy
      uint64_t h = core.hash();
      Send(Wire(payload, false));
      if (ack) {
        int b = Byte();
        c.check(b == '-', "nak", "a packet with a wrong checksum was answered with %d", b);
      } else {
        std::string e = Packet();
        c.check(!e.empty() && e[0] == 'E', "nak", "a packet with a wrong checksum was answered with %s", e.c_str());
      }
      c.check(core.hash() == h, "nak_effect", "a packet with a wrong checksum had an effect");
      c.ev("damaged");
    }
    Send(Wire(payload));
    if (ack) {
      int b = Byte();
      c.check(b == '+', "ack", "%s was acknowledged with %d", payload.c_str(), b);
    }
    std::string rsp = Packet();
    if (ack) {
      int k = r.chance(1, 12) ? r.range(1, 4) : 0;
      for (int i = 0; i < k; ++i) {
        Send("-");
        std::string again = Packet();
        c.check(again == rsp, "resend", "a response was sent again as %s instead of %s", again.c_str(), rsp.c_str());
        c.ev("resent");
      }
      Send("+");
    }
    c.ev("commands");
    return rsp;
  }
  void Want(const std::string& got, const std::string& want) {
    c.check(got == want, "response", "%s was answered with '%s', expected '%s'", cmd_.c_str(), got.c_str(), want.c_str());
  }
  void WantError(const std::string& got) {
    c.check(!got.empty() && got[0] == 'E', "error_response", "%s was answered with '%s', expected an error", cmd_.c_str(), got.c_str());
    c.ev("errors");
  }
  // Waits for the server to finish with the connection.
  void Finish(bool want) {
    shutdown(fd, SHUT_WR);
    // Everything the server sent has been read.
    int b = Byte();
    c.check(b == -1, "extra", "the server sent an extra byte %d", b);
    th.join();
    c.check(result == want, "connect_result", "Connect returned %d", result);
    close(fd);
    fd = -1;
    pend.clear();
  }
  std::string Pc() {
    uint64_t v = core.Val("pc");
    std::string s = HexN(info.pc) + ":";
    for (int i = 0; i < info.width / 8; ++i) s += Hex2(v >> (8 * i));
    return s + ";";
  }
  // The stop reply of ? and c.
  std::string Stop() {
    if (core.broken.count("pc") || core.fail_reason) return "E";
    hr = core.last;
    std::string s;
    switch ((HR)core.last) {
      case HR::kSoftwareBreakpoint: case HR::kHardwareBreakpoint: case HR::kDataWatchPoint: case HR::kActionPoint: s = "T02thread:1;"; break;
      case HR::kSimulatorError: s = "T06thread:1;"; break;
      case HR::kUserRequest: s = "T03thread:1;"; break;
      case HR::kProgramDone: case HR::kSemihostHaltRequest: s = "W00thread:1;"; break;
      default: s = "T05thread:1;";
    }
    return s + Pc();
  }
  void WantStop(const std::string& got, const std::string& want) {
    if (want == "E") return WantError(got);
    if (want[0] == 'W') {
      c.check(got.compare(0, 3, "W00") == 0, "response", "%s was answered with '%s', expected an exit", cmd_.c_str(), got.c_str());
      return;
    }
    Want(got, want);
  }
};

void Sessions(vh::Case& c) {
  signal(SIGPIPE, SIG_DFL);
  auto before = OpenFds();
  {
    World w(c);
    auto& r = c.rng;
    auto& core = w.core;
    w.esc = r.chance(1, 3);
    int sessions = r.chance(1, 4) ? r.range(2, 3) : 1;
    static const uint32_t reasons[] = {0, 1, 2, 3, 4, 5, 6, 0x7ffffffe, 0x7fffffff, 0x80000005};
    for (int ses = 0; ses < sessions; ++ses) {
      if (ses) c.ev("reconnects");
      c.op("session %d", ses);
      if (r.chance(1, 12)) {
        g_fault = r.range(1, 4);
        bool ok = w.server->Connect(r.range(1, 65535));
        g_fault = 0;
        c.check(!ok, "connect_fault", "Connect succeeded without a connection");
        c.ev("connect_faults");
      }
      if (r.chance(1, 20)) {
        g_port = 0;
        c.check(!w.server->Connect(r.pick(std::vector<int>{0, -1, 65536, 70000})), "connect_port", "Connect accepted an impossible port");
        c.check(g_port == 0, "connect_port", "the server listened on port %d", g_port);
        c.ev("bad_ports");
      }
      w.Start();
      w.suffix = false;
      w.Send("+");
      int steps = r.range(1, 25);
      for (int s = 0; s < steps; ++s) {
        // Faults for this step.
        core.next_halt = reasons[r.below(10)];
        if (core.next_halt == (uint32_t)HR::kProgramDone && r.chance(2, 3)) core.next_halt = 0;
        core.next_pc = r.val();
        if (w.info.width == 32) core.next_pc &= 0xffffffff;
        core.watch = (AccessType)r.below(4);
        core.msg = r.chance(1, 4) ? "bad #1 }$*" : "failed";
        core.fail_run = r.chance(1, 12);
        core.fail_wait = r.chance(1, 12);
        core.fail_step = r.chance(1, 8);
        core.fail_reason = r.chance(1, 15);
        core.fail_status = r.chance(1, 15);
        core.broken.clear();
        if (r.chance(1, 10)) core.broken.insert(w.info.map[r.pick(w.nums)]);
        core.bp_mode = r.chance(1, 6) ? r.range(1, 2) : 0;
        int runs = core.runs, stp = core.steps;
        auto counts = [&](int a, int b) {
          c.check(core.runs - runs == a && core.steps - stp == b && core.others == 0, "core_calls", "%s ran the core %d times and stepped it %d times, expected %d and %d", w.cmd_.c_str(), core.runs - runs, core.steps - stp, a, b);
        };
        // Thread suffix.
        bool other = false;
        auto thr = [&]() -> std::string {
          if (!w.suffix) return "";
          if (r.chance(1, 8)) { other = true; c.ev("other_threads"); return ";thread:" + std::to_string(r.range(2, 40)) + ";"; }
          return r.coin() ? ";thread:1;" : "";
        };
        auto regbytes = [&](int num) {
          std::string raw = core.Raw(w.info.map[num]);
          auto it = w.bits.find(num);
          int bs = it == w.bits.end() ? 0 : it->second / 8;
          if (bs && bs <= 8) { uint64_t v = core.Val(w.info.map[num]); raw.assign((char*)&v, bs); }
          else while ((int)raw.size() < bs) raw += '\0';
          return raw;
        };
        uint64_t h = core.hash();
        auto unchanged = [&]() { c.check(core.hash() == h, "effect", "%s had an effect", w.cmd_.c_str()); };
        switch (r.below(18)) {
          case 0: w.WantStop(w.Do("?"), w.Stop()); unchanged(); break;
          case 1: {  // continue
            std::string at;
            int kind = r.below(4);
            uint64_t a = w.info.width == 32 ? (uint32_t)r.next() : r.val();
            if (kind == 1) at = HexN(a);
            if (kind == 2) at = r.pick(std::vector<std::string>{"zz", "1x", "12345678123456789", "g0"});
            std::string t = thr();
            bool was = core.running;
            std::string got = w.Do("c" + at + t);
            if (other) { w.WantError(got); unchanged(); break; }
            if (w.hr == (uint32_t)HR::kProgramDone) { w.Want(got, "W00"); unchanged(); c.ev("continued_after_done"); break; }
            if (core.fail_status) { w.WantError(got); unchanged(); break; }
            if (was) {
              // The core is still running (an earlier wait failed).
              c.ev("continued_while_running");
              if (!at.empty()) { w.WantError(got); counts(0, 0); break; }
              counts(0, 0);
            } else {
              if (kind == 2) { w.WantError(got); unchanged(); break; }
              if (kind == 1 && core.broken.count("pc")) { w.WantError(got); unchanged(); break; }
              counts(1, 0);
              if (core.fail_run) {
                w.WantError(got);
                if (kind == 1) c.check(core.Val("pc") == a, "continue_at", "pc is %lx", core.Val("pc"));
                break;
              }
            }
            if (core.fail_wait) { w.WantError(got); break; }
            w.WantStop(got, w.Stop());
            c.ev("continued");
            break;
          }
          case 2: {  // vCont
            int kind = r.below(10);
            static const char* cmds[] = {";c", ";c:1", ";c:-1", ";s", ";s:1", ";s:-1", ";s:1;c", ";c:1;s", ";s:1;c:-1", ";c:1;c"};
            if (r.chance(1, 4)) {
              w.Want(w.Do("vCont?"), "vCont;c;s;");
              unchanged();
              break;
            }
            if (r.chance(1, 4)) {
              std::string bad = r.pick(std::vector<std::string>{";c:2", ";s:7f", "", "x", ";c:zz", ";s:1x", ";x:1", ";c:2;c:1"});
              w.WantError(w.Do("vCont" + bad));
              unchanged();
              c.ev("bad_vcont");
              break;
            }
            bool step = kind >= 3 && kind != 7 && kind != 9;
            bool was = core.running;
            std::string got = w.Do(std::string("vCont") + cmds[kind]);
            c.ev("vcont");
            bool act = w.hr != (uint32_t)HR::kProgramDone && !core.fail_status && !was;
            counts(act && !step, act && step);
            if (w.hr == (uint32_t)HR::kProgramDone) { w.Want(got, "W00"); break; }
            // A failure to run, step or wait is either reported or shows as the last stop.
            bool failed = core.fail_status || (act && !step && core.fail_run) || (act && step && core.fail_step) || core.fail_wait;
            if (failed && !got.empty() && got[0] == 'E') {
              if (!core.fail_reason) w.hr = core.last;
              // Whether the server asked for the reason is not visible here.
              w.hr_unknown = true;
              break;
            }
            if (core.fail_reason) {
              c.check(got.compare(0, 3, "T05") == 0 || got == "W00" || got[0] == 'E', "response", "%s was answered with %s", w.cmd_.c_str(), got.c_str());
              break;
            }
            w.hr = core.last;
            HR q = (HR)core.last;
            if (q == HR::kProgramDone || q == HR::kSemihostHaltRequest) { w.Want(got, "W00"); break; }
            if (core.broken.count("pc")) { w.WantError(got); break; }
            std::string pc = w.Pc();
            switch (q) {
              case HR::kSoftwareBreakpoint: w.Want(got, "T05thread:1;swbreak:;" + pc); break;
              case HR::kHardwareBreakpoint: c.check(got.compare(0, 20, "T05thread:1;hwbreak:") == 0, "response", "%s was answered with %s", w.cmd_.c_str(), got.c_str()); break;
              case HR::kDataWatchPoint: {
                static const char* ws[] = {"", "rwatch:", "watch:", "awatch:"};
                std::string pre = std::string("T05thread:1;") + ws[(int)core.watch];
                c.check(got.compare(0, pre.size(), pre) == 0 && got.size() >= pc.size() && got.substr(got.size() - pc.size()) == pc, "response", "%s was answered with %s", w.cmd_.c_str(), got.c_str());
                break;
              }
              case HR::kActionPoint: case HR::kSimulatorError: w.Want(got, "T06thread:1;" + pc); break;
              case HR::kUserRequest: w.Want(got, "T03thread:1;" + pc); break;
              default: w.Want(got, "T05thread:1;" + pc);
            }
            break;
          }
          case 3: {  // step
            std::string got = w.Do("s" + thr());
            if (other) { w.WantError(got); unchanged(); break; }
            counts(0, 1);
            if (core.fail_step) w.WantError(got);
            else w.Want(got, "T05");
            c.ev("stepped");
            break;
          }
          case 4: {  // all registers
            std::string want;
            bool bad = false;
            for (int i = w.info.first; i <= w.info.last; ++i) {
              if (!w.info.map.contains(i)) continue;
              bad |= core.broken.count(w.info.map[i]);
              want += HexBytes(core.Raw(w.info.map[i]));
            }
            std::string got = w.Do("g" + thr());
            if (other || bad) w.WantError(got);
            else w.Want(got, want), c.ev("registers_read");
            unchanged();
            break;
          }
          case 5: {  // write all registers
            std::map<std::string, std::string> val;
            std::string data;
            bool bad = false;
            for (int i = w.info.first; i <= w.info.last; ++i) {
              if (!w.info.map.contains(i)) continue;
              auto& n = w.info.map[i];
              bad |= core.broken.count(n);
              std::string v = core.Raw(n);
              for (auto& b : v) b = r.next();
              val[n] = v;
              data += HexBytes(v);
            }
            int kind = r.below(8);
            if (data.empty()) kind = 9;
            if (kind == 0) data.pop_back(), bad = true;
            if (kind == 1) data[r.below(data.size())] = r.pick(std::vector<char>{'x', ' ', '-', 'g', '+'}), bad = true;
            if (kind == 2) data.resize(data.size() / 2), bad = true;
            std::string got = w.Do("G" + data + thr());
            if (other || bad) { w.WantError(got); unchanged(); c.ev("bad_register_writes"); break; }
            w.Want(got, "OK");
            for (auto& [n, v] : val) c.check(core.Raw(n) == v, "written", "%s is %s, written %s", n.c_str(), HexBytes(core.Raw(n)).c_str(), HexBytes(v).c_str());
            c.ev("registers_written");
            break;
          }
          case 6: case 7: {  // one register
            int num = r.pick(w.nums);
            std::string got = w.Do("p" + HexN(num) + thr());
            if (other || core.broken.count(w.info.map[num])) w.WantError(got);
            else w.Want(got, HexBytes(regbytes(num))), c.ev("register_reads");
            unchanged();
            break;
          }
          case 8: case 9: {  // write one register
            int num = r.pick(w.nums);
            auto n = w.info.map[num];
            std::string v = core.Raw(n), old = v;
            for (auto& b : v) b = r.next();
            if (n == "pc" && w.info.width == 32) v[4] = v[5] = v[6] = v[7] = 0;
            std::string data = HexBytes(v);
            if (r.chance(1, 4)) for (auto& ch : data) ch = toupper(ch);
            int kind = r.below(8);
            bool bad = core.broken.count(n);
            if (kind == 0) data.erase(r.below(data.size()), 1), bad = true;
            if (kind == 1) data[r.below(data.size())] = r.pick(std::vector<char>{'x', ' ', '-', 'g', '+', '='}), bad = true;
            std::string to = HexN(num);
            if (kind == 2) to = r.pick(std::vector<std::string>{"fff", "zz", "", "ffffffffffffffffff", "12345"}), bad = true;
            std::string got = w.Do(kind == 3 ? "P" + to + thr() : "P" + to + "=" + data + thr());
            if (kind == 3) bad = true;
            if (other || bad) { w.WantError(got); unchanged(); c.ev("bad_register_writes"); break; }
            w.Want(got, "OK");
            c.check(core.Raw(n) == v, "written", "%s is %s, written %s", n.c_str(), HexBytes(core.Raw(n)).c_str(), HexBytes(v).c_str());
            core.SetRaw(n, old);
            c.check(core.hash() == h, "effect", "%s had another effect", w.cmd_.c_str());
            core.SetRaw(n, v);
            c.ev("register_writes");
            break;
          }
          case 10: {  // read memory
            uint64_t n = r.chance(1, 20) ? r.range(1, 20000) : r.below(core.mem.size() + 10);
            uint64_t off = r.below(core.mem.size() + 5), a = core.base + off;
            if (r.chance(1, 10)) {
              w.WantError(w.Do("m" + r.pick(std::vector<std::string>{"", "1", "1,", ",1", "zz,1", "1,zz", "1,ffffffffffffffff", "1,8000000000000000", "11111111111111111,1"})));
              unchanged();
              break;
            }
            std::string got = w.Do("m" + HexN(a) + "," + HexN(n));
            unchanged();
            if (off > core.mem.size() || n > 16384) { w.WantError(got); break; }
            w.Want(got, HexBytes(core.mem.substr(off, n)));
            c.ev("memory_reads");
            break;
          }
          case 11: {  // write memory
            uint64_t n = r.below(std::min<size_t>(core.mem.size() + 10, 4070));
            uint64_t off = r.below(core.mem.size() + 5), a = core.base + off;
            std::string v(n, 0);
            for (auto& b : v) b = r.next();
            std::string data = HexBytes(v), len = HexN(n), adr = HexN(a);
            bool bad = off > core.mem.size();
            switch (r.below(9)) {
              case 0: if (n) data.erase(r.below(data.size()), 1), bad = true; break;
              case 1: if (n) data[r.below(data.size())] = r.pick(std::vector<char>{'x', ' ', '-', 'g', '+', '#'}), bad = true; break;
              case 2: data += "00", bad = true; break;
              case 3: len = r.pick(std::vector<std::string>{"", "zz", "ffffffffffffffff", HexN(n + 1)}), bad = true; break;
              case 4: adr = r.pick(std::vector<std::string>{"", "zz", "111111111111111111"}), bad = true; break;
              default: break;
            }
            std::string full = "M" + adr + "," + len + ":" + data;
            if (r.chance(1, 15)) full = r.pick(std::vector<std::string>{"M", "M1", "M1,", "M1,1", "M1:00", "M1:1,00", "M:,", "M,:"}), bad = true;
            std::string got = w.Do(full);
            if (bad) { w.WantError(got); unchanged(); c.ev("bad_memory_writes"); break; }
            std::string img = core.mem;
            if (n > core.mem.size() - off) { w.WantError(got); break; }
            w.Want(got, "OK");
            c.check(core.mem.substr(off, n) == v, "written", "memory at %lx differs from what was written", a);
            c.ev("memory_writes");
            break;
          }
          case 12: {  // threads
            static const char* good[] = {"Hg0", "Hg1", "Hc-1", "Hc0", "Hc1", "Hg-1"};
            static const char* bad[] = {"Hg2", "Hc3", "Hgff", "Hgzz", "Hg", "H", "Hc7fffffff", "Hg-5", "Hc-2"};
            if (r.coin()) {
              w.Want(w.Do(good[r.below(6)]), "OK");
            } else {
              w.WantError(w.Do(bad[r.below(9)]));
              c.ev("bad_threads");
            }
            unchanged();
            break;
          }
          case 13: {  // queries
            switch (r.below(9)) {
              case 0: w.Want(w.Do("qAttached"), "0"); break;
              case 1: w.Want(w.Do("qC"), "QC1"); break;
              case 2: w.Want(w.Do("qfThreadInfo"), "m1"); w.Want(w.Do("qsThreadInfo"), "l"); break;
              case 3: w.Want(w.Do("qExecAndArgs"), core.file); break;
              case 4: {
                std::string got = w.Do("qHostInfo");
                std::map<std::string, std::string> m;
                size_t p = 0;
                while (p < got.size()) {
                  size_t e = got.find(';', p);
                  c.check(e != std::string::npos, "host_info", "host info %s", got.c_str());
                  std::string kv = got.substr(p, e - p);
                  size_t q = kv.find(':');
                  m[kv.substr(0, q)] = q == std::string::npos ? "" : kv.substr(q + 1);
                  p = e + 1;
                }
                m.erase("novalue");
                auto want = w.host;
                want.erase("novalue");
                c.check(m == want, "host_info", "host info is %s for %s", got.c_str(), w.info.host.c_str());
                break;
              }
              case 5: {
                std::string got = w.Do(r.pick(std::vector<std::string>{"qSupported", "qSupported:multiprocess+;swbreak+", "qSupported:error-message+"}));
                c.check(got.find("PacketSize=") != std::string::npos && got.find("QStartNoAckMode+") != std::string::npos && got.find("qXfer:features:read+") != std::string::npos, "supported", "features %s", got.c_str());
                break;
              }
              case 6: w.Want(w.Do(r.pick(std::vector<std::string>{"q", "qX", "qSymbol::", "qSearch", "qUnknown", "qXfer:memory-map:read::0,10", "qCRC:1,2"})), ""); break;
              default: {  // target description in pieces
                std::string all;
                size_t off = 0;
                int piece = r.chance(1, 8) ? 7 : r.range(40, 4000);
                bool big = r.chance(1, 4);
                for (int guard = 0; guard < 5000; ++guard) {
                  std::string got = w.Do("qXfer:features:read:target.xml:" + HexN(off) + "," + (big ? std::string("ffffffffffffffff") : HexN(piece)));
                  c.check(!got.empty() && (got[0] == 'm' || got[0] == 'l'), "xfer", "piece %s", got.c_str());
                  std::string part = got.substr(1);
                  c.check(big || (int)part.size() <= piece, "xfer", "more was sent than asked for");
                  all += part;
                  off += part.size();
                  if (got[0] == 'l') break;
                  c.check(!part.empty() && off <= w.info.xml.size(), "xfer", "empty piece in the middle");
                }
                c.check(all == w.info.xml, "xfer", "the target description differs");
                c.ev("descriptions");
              }
            }
            unchanged();
            break;
          }
          case 14: {
            int k = r.below(4);
            if (k == 0) {
              w.Want(w.Do("QStartNoAckMode"), "OK");
              if (!w.noack) c.ev("no_ack_mode");
              w.noack = true;
            } else if (k == 1) {
              w.Want(w.Do("QThreadSuffixSupported"), "OK");
              w.suffix = true;
            } else if (k == 2) {
              w.Want(w.Do(r.pick(std::vector<std::string>{"QEnableErrorStrings", "QListThreadsInStopReply"})), "OK");
            } else {
              w.Want(w.Do(r.pick(std::vector<std::string>{"Q", "QUnknown", "QStartNoAckModes"})), "");
            }
            unchanged();
            break;
          }
          case 15: case 16: {  // breakpoints
            uint64_t a = r.coin() && !core.bps.empty() ? *core.bps.begin() : r.below(8) * 4 + 0xfffffffc;
            bool set = r.coin();
            auto want = core.bps;
            if (r.chance(1, 6)) {
              std::string got = w.Do(std::string(set ? "Z" : "z") + r.pick(std::vector<std::string>{"1,100,4", "5,100,4", "9,1,1", "", "0", "0,", "0,zz,4"}));
              c.check(got.empty() || got[0] == 'E', "response", "%s was answered with %s", w.cmd_.c_str(), got.c_str());
              unchanged();
              break;
            }
            std::string got = w.Do(std::string(set ? "Z0," : "z0,") + HexN(a) + ",4");
            if (core.bp_mode == 2) w.Want(got, "");
            else if (core.bp_mode == 1 || (!set && !want.count(a))) w.WantError(got);
            else {
              w.Want(got, "OK");
              if (set) want.insert(a); else want.erase(a);
              c.ev(set ? "breakpoints_set" : "breakpoints_cleared");
            }
            c.check(core.bps == want, "breakpoints", "breakpoints differ after %s", w.cmd_.c_str());
            break;
          }
          default: {
            w.Want(w.Do(r.pick(std::vector<std::string>{"", "vMustReplyEmpty", "!", "R00", "x1,2", "_", "j", "T1", "b", "\x01"})), "");
            unchanged();
          }
        }
        if (w.hr_unknown) { w.hr_unknown = false; core.fail_reason = false; core.broken.clear(); w.WantStop(w.Do("?"), w.Stop()); }
      }
      core.broken.clear();
      c.seen(core.hash());
      c.check(w.second.runs + w.second.steps + w.second.others == 0, "other_core", "another core was touched");
      c.check(g_port == w.port_, "port", "the server listened on port %d instead of %d", g_port, w.port_);
      switch (r.below(5)) {
        case 0:
          w.Want(w.Do("D"), "OK");
          w.Finish(true);
          c.ev("detached");
          break;
        case 1:
          w.Send(w.Wire("k"));
          if (!w.noack) { int b = w.Byte(); c.check(b == '+', "ack", "kill was acknowledged with %d", b); }
          w.Finish(true);
          c.ev("killed");
          break;
        case 2: {  // never acknowledge
          if (w.noack) { w.Finish(false); break; }
          w.Send(w.Wire("qC"));
          int b = w.Byte();
          c.check(b == '+', "ack", "acknowledged with %d", b);
          int k = 0;
          for (; k < 5; ++k) {
            std::string p = w.Packet();
            c.check(p == "QC1", "resend", "sent %s", p.c_str());
            w.Send("-");
          }
          w.Finish(true);
          c.ev("never_acknowledged");
          break;
        }
        case 3: {  // leave in the middle
          std::string p = w.Wire(r.coin() ? "g" : "qHostInfo");
          int cut = r.below(p.size() + 1);
          w.Send(p.substr(0, cut));
          if (cut == (int)p.size()) {
            if (r.coin()) w.Byte();
          }
          if (r.coin()) { close(w.fd); w.fd = -1; w.pend.clear(); } else { shutdown(w.fd, SHUT_WR); while (w.Byte() >= 0) {} }
          w.th.join();
          if (w.fd >= 0) close(w.fd);
          w.fd = -1;
          w.pend.clear();
          c.ev("left_in_the_middle");
          break;
        }
        default:
          w.Finish(false);
          c.ev("disconnected");
      }
      // Files that others open now stay open.
      if (r.coin()) {
        std::vector<int> mine;
        for (int i = 0; i < 3; ++i) mine.push_back(open("/dev/null", O_RDONLY));
        if (ses + 1 == sessions) w.server.reset();
        else if (r.coin()) (void)w.server->Connect(0);
        for (int f : mine) c.check(fcntl(f, F_GETFD) >= 0, "foreign_close", "the server closed a file it does not own");
        for (int f : mine) close(f);
        c.ev("foreign_files");
      }
      c.nontrivial();
    }
  }
  auto after = OpenFds();
  c.check(before == after, "fd_leak", "%zu descriptors open before, %zu after", before.size(), after.size());
}

// Anything may arrive: the server answers or ends the connection, and the core
// is only touched through whole, correctly summed packets.
void Hostile(vh::Case& c) {
  signal(SIGPIPE, SIG_DFL);
  auto before = OpenFds();
  {
    World w(c);
    auto& r = c.rng;
    w.esc = r.coin();
    w.Start();
    if (!r.chance(1, 10)) w.Send("+");
    static const char* base[] = {"?", "c", "vCont;c", "vCont;s:1", "vCont", "s", "g", "G00", "p0", "P0=00", "m0,10", "M0,1:00", "Hg1", "qSupported", "qXfer:features:read:target.xml:0,100", "QStartNoAckMode",
                                 "QThreadSuffixSupported", "Z0,10,4", "z0,10,4", "qHostInfo", "vCont;c:0", "vCont;c:-2", "p0;thread:0;", "g;thread:9;", "G;thread:99999999999;", "qC", "Hc-3", "M0,4000:", "m0,ffffffff"};
    int n = r.range(1, 30);
    uint64_t sent = 0;
    for (int i = 0; i < n; ++i) {
      std::string p = base[r.below(sizeof base / sizeof *base)];
      int muts = r.below(4);
      for (int m = 0; m < muts && !p.empty(); ++m) {
        int at = r.below(p.size());
        switch (r.below(6)) {
          case 0: p.erase(at, 1); break;
          case 1: p[at] = (char)r.next(); break;
          case 2: p.insert(at, 1, r.pick(std::vector<char>{',', ':', ';', '=', '-', '}', '0', 'f', '\x7f', (char)0x80})); break;
          case 3: p.resize(at); break;
          case 4: p += p; break;
          default: p[at] = "0123456789abcdef"[r.below(16)];
        }
      }
      std::string out;
      switch (r.below(12)) {
        case 0: {  // raw bytes
          int k = r.range(1, 40);
          out = r.coin() ? "$" : "";
          for (int q = 0; q < k; ++q) out += (char)r.next();
          break;
        }
        case 1: {  // far too long
          int k = r.pick(std::vector<int>{8190, 16370, 16380, 16383, 16384, 16390, 20000, 40000});
          out = "$M0,10:" + std::string(k, '1') + "#00";
          c.ev("long_packets");
          break;
        }
        case 2: out = "+"; break;
        case 3: { unsigned s = 0; std::string q = p + "}"; for (unsigned char ch : q) s += ch; out = "$" + q + "#" + Hex2(s); c.ev("trailing_escapes"); break; }
        default: {
          unsigned s = 0;
          for (unsigned char ch : p) s += ch;
          out = "$" + p + "#" + (r.chance(1, 8) ? Hex2(r.next()) : Hex2(s));
        }
      }
      c.op("send %s", HexBytes(out.substr(0, 60)).c_str());
      w.Send(out + (r.chance(3, 4) ? "+" : ""));
      sent += out.size();
      // Read whatever is there without insisting on anything.
      char b[65536];
      int polls = r.below(3);
      for (int q = 0; q < polls; ++q) {
        pollfd pf{w.fd, POLLIN, 0};
        if (poll(&pf, 1, 1) > 0 && read(w.fd, b, sizeof b) > 0) c.ev("answers");
      }
      c.ev("hostile_packets");
      if (w.ended) break;
    }
    shutdown(w.fd, SHUT_WR);
    if (r.coin()) { close(w.fd); w.fd = -1; }
    else {
      char b[65536];
      while (true) {
        pollfd pf{w.fd, POLLIN, 0};
        int rc = poll(&pf, 1, 20000);
        c.check(rc > 0, "no_end", "the server neither answers nor ends the connection");
        if (read(w.fd, b, sizeof b) <= 0) break;
      }
    }
    w.th.join();
    c.ev("survived");
    c.check(w.second.runs + w.second.steps + w.second.others == 0, "other_core", "another core was touched");
    c.nontrivial();
  }
  auto after = OpenFds();
  c.check(before == after, "fd_leak", "%zu descriptors open before, %zu after", before.size(), after.size());
}
}  // namespace

VH_SCENARIO(C31, sessions, 3000, 150000) { Sessions(c); }
VH_SCENARIO(C31, hostile, 1500, 60000) { Hostile(c); }
