// C34: the command line on a socket. The real class runs with its own thread on a
// local stream socket (stand-ins replace only the address); a client talks, stays
// silent, leaves or arrives while the object is being destroyed. Monitors: the race
// detector, every descriptor opened and closed, the connection callbacks, the bytes.
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>

#include <atomic>
#include <memory>
#include <thread>

#include "mpact/sim/generic/debug_command_shell_interface.h"
#include "mpact/sim/util/renode/socket_cli.h"
#include "vh.h"

using mpact::sim::generic::DebugCommandShellInterface;
using mpact::sim::util::renode::SocketCLI;

namespace {
constexpr int kMaxFd = 4096;
std::atomic<uint8_t> g_open[kMaxFd];  // descriptors the code under test has opened
std::atomic<int> g_foreign_close{0}, g_opened{0};
int g_fault = 0;  // 1 socket, 2 setsockopt, 3 bind, 4 listen, 5 accept
int g_port = -1;
std::atomic<int> g_listening{-1};
std::atomic<int> g_accepted{0}, g_accept_calls{0};
thread_local vh::Rng* t_rng = nullptr;
struct sockaddr_un g_addr;
socklen_t g_addr_len = 0;
}  // namespace

void VhSchedulePoint() {
  if (!t_rng) {
    std::this_thread::yield();
    return;
  }
  if (t_rng->chance(1, 4)) usleep((useconds_t)t_rng->below(100));
}

extern "C" {
int __real_close(int);
int __real_dup(int);
int __real_socket(int, int, int);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_setsockopt(int, int, int, const void*, socklen_t);
static void Own(int fd) {
  if (fd < 0 || fd >= kMaxFd) return;
  g_open[fd].store(1, std::memory_order_relaxed);
  g_opened.fetch_add(1, std::memory_order_relaxed);
}
int __wrap_close(int fd) {
  if (fd < 0 || fd >= kMaxFd || !g_open[fd].exchange(0, std::memory_order_relaxed)) {
    g_foreign_close.fetch_add(1, std::memory_order_relaxed);
    errno = EBADF;
    return -1;
  }
  return __real_close(fd);
}
int __wrap_dup(int fd) {
  int n = __real_dup(fd);
  Own(n);
  return n;
}
int __wrap_socket(int, int type, int) {
  if (g_fault == 1) { errno = EMFILE; return -1; }
  int fd = __real_socket(AF_UNIX, type, 0);
  Own(fd);
  return fd;
}
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) {
  if (g_fault == 2 || fd < 0) { errno = fd < 0 ? EBADF : ENOPROTOOPT; return -1; }
  return 0;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t) {
  const unsigned char* b = (const unsigned char*)a;
  g_port = b[2] << 8 | b[3];
  if (g_fault == 3) { errno = EADDRINUSE; return -1; }
  struct sockaddr_un u;
  memset(&u, 0, sizeof u);
  u.sun_family = AF_UNIX;
  int res = __real_bind(fd, (struct sockaddr*)&u, sizeof(sa_family_t));  // a fresh abstract name
  g_addr_len = sizeof g_addr;
  getsockname(fd, (struct sockaddr*)&g_addr, &g_addr_len);
  return res;
}
int __wrap_listen(int fd, int n) {
  if (g_fault == 4) { errno = EADDRINUSE; return -1; }
  int res = __real_listen(fd, n);
  g_listening = fd;
  return res;
}
static int Accepted(int fd) {
  Own(fd);
  if (fd >= 0) g_accepted.fetch_add(1, std::memory_order_relaxed);
  VhSchedulePoint();
  return fd;
}
int __wrap_accept(int fd, struct sockaddr*, socklen_t*) {
  g_accept_calls.fetch_add(1, std::memory_order_relaxed);
  if (g_fault == 5) { errno = ECONNABORTED; return -1; }
  return Accepted(__real_accept(fd, nullptr, nullptr));
}
int __wrap_accept4(int fd, struct sockaddr*, socklen_t*, int) {
  g_accept_calls.fetch_add(1, std::memory_order_relaxed);
  if (g_fault == 5) { errno = ECONNABORTED; return -1; }
  return Accepted(__real_accept(fd, nullptr, nullptr));
}
}

namespace {
// Answers every line; leaves on "quit"; on "flood" writes more than a socket holds.
struct Shell : DebugCommandShellInterface {
  std::vector<std::string> lines;  // only looked at when the session is over
  int runs = 0;
  int flood_failed = 0;
  void AddCore(const CoreAccess&) override {}
  void AddCores(const std::vector<CoreAccess>&) override {}
  void AddCommand(absl::string_view, CommandFunction) override {}
  void Run(std::istream& is, std::ostream& os) override {
    ++runs;
    std::string l;
    while (is.good()) {
      std::getline(is, l);
      if (!is.good()) break;
      lines.push_back(l);
      if (l == "quit") return;
      if (l == "flood" || l == "pour") {
        for (int i = 0; i < 4000000 && os.good(); ++i) os << (l == "pour" ? '\n' : 'f');
        if (!os.good()) ++flood_failed;
        continue;
      }
      os << "[" << l << "]\n";
    }
  }
};

struct Client {
  int fd = -1;
  bool eof = false;
  bool Connect() {
    fd = __real_socket(AF_UNIX, SOCK_STREAM, 0);
    return ::connect(fd, (struct sockaddr*)&g_addr, g_addr_len) == 0;
  }
  bool Send(const std::string& s) { return ::send(fd, s.data(), s.size(), MSG_NOSIGNAL) == (ssize_t)s.size(); }
  // Reads until n bytes are there, the other side ends, or nothing comes for long.
  std::string Read(size_t n) {
    std::string out;
    char b[4096];
    while (out.size() < n && !eof) {
      struct pollfd p = {fd, POLLIN, 0};
      if (poll(&p, 1, 20000) <= 0) break;
      ssize_t k = ::recv(fd, b, std::min(sizeof b, n - out.size()), 0);
      if (k <= 0) { eof = true; break; }
      out.append(b, k);
    }
    return out;
  }
  void Close() {
    if (fd >= 0) __real_close(fd);
    fd = -1;
  }
  ~Client() { Close(); }
};
const char kHello[] = "CLI connected:\r\n";
std::string Show(const std::string& s) {
  std::string o;
  char t[8];
  for (unsigned char ch : s.substr(0, 200)) {
    if (ch < 32 || ch > 126) { snprintf(t, sizeof t, "\\x%02x", ch); o += t; } else o += (char)ch;
  }
  return o;
}
}  // namespace

VH_SCENARIO(C34, socket, 4000, 100000) {
  signal(SIGPIPE, SIG_DFL);
  auto& r = c.rng;
  vh::Rng mine(r.next());
  t_rng = &mine;
  for (auto& x : g_open) x.store(0, std::memory_order_relaxed);
  g_foreign_close = 0;
  g_opened = 0;
  g_accepted = 0;
  g_listening = -1;
  g_accept_calls = 0;
  g_port = -1;
  g_addr_len = 0;
  g_fault = r.chance(1, 10) ? (int)r.range(1, 5) : 0;
  int port = r.chance(1, 12) ? -1 : r.chance(1, 10) ? (r.coin() ? 65536 + (int)r.below(100000) : -2 - (int)r.below(70000)) : (int)r.range(1, 65535);
  bool port_ok = port >= 0 && port <= 65535;
  int mode = (int)r.below(8);
  c.op("port %d fault %d mode %d", port, g_fault, mode);
  std::vector<bool> calls;
  Shell shell;
  std::string sent_all;
  bool served = false, hello_seen = false;
  std::vector<std::string> sent;
  {
    auto cli = std::make_unique<SocketCLI>(port, shell, [&calls](bool b) { calls.push_back(b); VhSchedulePoint(); });
    bool can = port_ok && g_fault == 0;
    if (!port_ok) {
      c.check(!cli->good(), "bad_port", "port %d is said to be good", port);
      c.check(g_listening < 0, "bad_port", "port %d was asked for, %d is listened on", port, g_port);
      c.ev("bad_ports");
    } else if (g_fault && g_fault < 5) {
      c.check(!cli->good(), "fault", "fault %d and yet all is good", g_fault);
      c.ev("faults");
    } else if (g_fault == 5) {
      c.ev("accept_faults");
    } else {
      c.check(g_port == port, "port", "port %d was asked for, %d is used", port, g_port);
      c.check(g_listening >= 0, "port", "nobody listens");
      if (mode != 4) c.check(cli->good(), "good", "a listening command line is not good");
    }
    Client cl;
    if (can && mode == 0) {
      c.ev("never_connected");
    } else if (can && mode == 4) {
      // A client arrives while the command line goes away.
      uint64_t seed = r.next();
      std::thread t([&cl, seed] {
        vh::Rng rng(seed);
        usleep((useconds_t)rng.below(150));
        if (!cl.Connect()) return;
        if (rng.coin()) cl.Send("hello\n");
        cl.Read(1000000);
      });
      usleep((useconds_t)r.below(200));
      cli.reset();
      // Whoever still waits in the queue of a closed socket is told so.
      t.join();
      c.ev("connected_while_stopping");
    } else if (can) {
      c.check(cl.Connect(), "connect", "the client could not connect");
      if (mode != 1 || r.coin()) {
        std::string h = cl.Read(strlen(kHello));
        c.check(h == kHello, "hello", "the first words are '%s'", Show(h).c_str());
        hello_seen = true;
        served = true;
      }
      if (mode >= 2 && mode != 1) {
        int n = (int)r.range(0, 8);
        std::string burst, expect;
        for (int i = 0; i < n; ++i) {
          std::string l;
          for (int k = (int)r.below(20); k > 0; --k) {
            char ch = r.chance(1, 4) ? (char)r.below(256) : (char)r.range(32, 126);
            if (ch != '\n' && ch != '\r') l += ch;
          }
          if (l == "quit" || l == "flood" || l == "pour") l += ".";
          sent.push_back(l);
          burst += l + (r.coin() ? "\r\n" : "\n");
          expect += "[" + l + "]\r\n";
          if (r.coin()) {
            c.check(cl.Send(burst), "send", "the client could not send");
            burst.clear();
            std::string got = cl.Read(expect.size());
            c.check(got == expect, "answer", "answered '%s', expected '%s'", Show(got).c_str(), Show(expect).c_str());
            expect.clear();
          }
          c.ev("lines");
        }
        if (!burst.empty()) {
          // in pieces
          size_t at = 0;
          while (at < burst.size()) {
            size_t k = std::min(burst.size() - at, (size_t)r.range(1, 9));
            c.check(cl.Send(burst.substr(at, k)), "send", "the client could not send");
            at += k;
          }
          std::string got = cl.Read(expect.size());
          c.check(got == expect, "answer", "answered '%s', expected '%s'", Show(got).c_str(), Show(expect).c_str());
        }
      }
      if (mode == 3) {  // the shell ends the session
        cl.Send("quit\n");
        sent.push_back("quit");
        std::string rest = cl.Read(1000);
        c.check(rest.empty() && cl.eof, "session_end", "after the end of the session the client got '%s', end seen: %d", Show(rest).c_str(), cl.eof);
        c.ev("quits");
      } else if (mode == 5) {  // the client leaves in the middle of an answer
        sent.push_back(r.coin() ? "flood" : "pour");
        cl.Send(sent.back() + "\n");
        cl.Read(r.below(3000));
        cl.Close();
        c.ev("left_in_the_middle");
      } else if (mode == 7) {  // the client stops reading in the middle of an answer
        sent.push_back(r.coin() ? "flood" : "pour");
        cl.Send(sent.back() + "\n");
        cl.Read(1 + r.below(3000));
        if (r.coin()) usleep((useconds_t)r.below(2000));  // the socket fills up
        c.ev("stopped_reading");
      } else if (mode == 6) {
        cl.Close();
        c.ev("left");
      } else {
        if (r.coin()) c.check(cli->good(), "good", "a connected command line is not good");
        c.ev("stopped_while_connected");
      }
    }
    cli.reset();
    if (can && hello_seen && cl.fd >= 0 && mode != 4) {
      cl.Read(100000000);
      c.check(cl.eof, "client_end", "the client's connection is still open");
    }
  }
  t_rng = nullptr;
  int left = 0;
  for (auto& x : g_open) left += x.load(std::memory_order_relaxed);
  c.check(g_foreign_close == 0, "foreign_close", "%d times a descriptor was closed that was not open (any more); by then it may be someone else's", (int)g_foreign_close);
  c.check(left == 0, "left_open", "%d descriptors were left open", left);
  if (!port_ok || (g_fault && g_fault < 5)) c.check(g_accept_calls == 0, "waited", "a client was waited for although the port could not be opened");
  c.check(shell.runs <= 1, "runs", "the shell was run %d times", shell.runs);
  if (served) c.check(shell.runs == 1, "runs", "the shell was not run");
  // Not connected; then, if there was a session, connected and not connected again.
  std::string seq;
  for (bool b : calls) seq += b ? 'C' : '-';
  c.check(seq == (shell.runs ? "-C-" : "-"), "callbacks", "connection callbacks %s with %d sessions", seq.c_str(), shell.runs);
  if (served && mode != 1) c.check(shell.lines == sent, "lines", "the shell read %zu lines, %zu were sent", shell.lines.size(), sent.size());
  if (shell.runs) c.ev("sessions");
  c.ev("descriptors", g_opened);
  c.seen(vh::Comb(vh::Comb(mode, g_fault), vh::Comb(shell.runs, shell.flood_failed)));
  c.nontrivial();
}
