// C24: a socket stream carries every character, in order, with line end conversion, and owns its descriptor.
#include <fcntl.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>

#include <cerrno>
#include <istream>
#include <ostream>

#include "mpact/sim/util/renode/socket_streambuf.h"
#include "vh.h"

using mpact::sim::util::renode::SocketStreambuf;

namespace {
std::string Drain(int fd) {
  std::string s;
  char b[4096];
  for (;;) {
    ssize_t n = recv(fd, b, sizeof b, MSG_DONTWAIT);
    if (n <= 0) break;
    s.append(b, n);
  }
  return s;
}
bool Eof(int fd) {  // peer closed and nothing left
  char ch;
  ssize_t n = recv(fd, &ch, 1, MSG_DONTWAIT | MSG_PEEK);
  return n == 0 || (n < 0 && errno == ECONNRESET);
}
std::string Chars(vh::Rng& r, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) {
    switch (r.below(6)) {
      case 0: s += '\n'; break;
      case 1: s += "\r\n"; break;
      case 2: s += (char)r.below(256); break;
      case 3: s += r.pick(std::vector<char>{'\xff', '\0', '\r', '\x7f', '\x80'}); break;
      default: s += (char)('a' + r.below(26));
    }
  }
  return s;
}
std::string Show(const std::string& s) {
  std::string o;
  char b[8];
  for (unsigned char ch : s) snprintf(b, sizeof b, "%02x", ch), o += b;
  return o;
}
}  // namespace

VH_SCENARIO(C24, duplex, 8000, 400000) {
  signal(SIGPIPE, SIG_IGN);
  auto& r = c.rng;
  int fd[2];
  c.check(socketpair(AF_UNIX, SOCK_STREAM, 0, fd) == 0, "harness", "socketpair");
  int peer = fd[1];
  bool nonblock = r.coin();
  if (nonblock) fcntl(fd[0], F_SETFL, O_NONBLOCK);
  {
    SocketStreambuf sb(fd[0]);
    std::ostream os(&sb);
    std::istream is(&sb);
    std::string pending;  // raw characters sent by the peer and not yet read
    bool peer_open = true;
    for (int s = 0, n = r.range(2, 25); s < n; ++s) {
      switch (r.below(5)) {
        case 0: case 1: {
          if (!peer_open) break;
          std::string t = Chars(r, r.below(20)), want;
          for (char ch : t) {
            if (ch == '\n') want += '\r';
            want += ch;
          }
          c.op("write %s", Show(t).c_str());
          switch (r.below(3)) {
            case 0: os << t; break;
            case 1: os.write(t.data(), t.size()); break;
            default: for (char ch : t) os.put(ch);
          }
          if (r.coin()) os.flush();
          c.check(os.good(), "write_state", "stream failed while writing to an open socket");
          std::string got = Drain(peer);
          c.check(got == want, "written", "wrote %s, peer got %s, expected %s", Show(t).c_str(), Show(got).c_str(), Show(want).c_str());
          c.ev("written", t.size());
          c.seen(vh::Comb(t.size(), want.size()));
          break;
        }
        case 2: {
          if (!peer_open) break;
          std::string t = Chars(r, r.below(20));
          c.op("peer sends %s", Show(t).c_str());
          if (!t.empty()) c.check(send(peer, t.data(), t.size(), 0) == (ssize_t)t.size(), "harness", "send");
          pending += t;
          break;
        }
        case 3: {  // read as much as can be read without blocking
          std::string want, got, rest = pending;
          while (!rest.empty()) {
            if (rest[0] == '\r') {
              if (rest.size() == 1) break;
              rest.erase(0, 1);
            }
            want += rest[0];
            rest.erase(0, 1);
          }
          size_t n = r.below(want.size() + 1);
          want.resize(n);
          int how = r.below(3);
          if (how == 0) {
            for (size_t i = 0; i < n; ++i) {
              if (r.coin()) c.check(is.peek() == (unsigned char)want[i], "peek", "peeked another character");
              got += (char)is.get();
            }
          } else if (how == 1) {
            got.resize(n);
            is.read(&got[0], n);
          } else {
            for (size_t i = 0; i < n; ++i) got += (char)sb.sbumpc();
          }
          c.check(is.good() && got == want, "read", "read %s, expected %s", Show(got).c_str(), Show(want).c_str());
          while (n > 0) {  // consume from pending
            if (pending[0] == '\r') pending.erase(0, 1);
            pending.erase(0, 1);
            --n;
          }
          c.ev("read", got.size());
          if (nonblock && pending.empty() && r.chance(1, 4)) {  // nothing there: the read fails
            c.check(is.get() == EOF && is.eof(), "read_error", "a failing read did not end the stream");
            is.clear();
            c.ev("failed_reads");
          }
          break;
        }
        default:
          if (r.chance(1, 3) && peer_open) {
            if (r.coin()) {
              c.op("peer closes");
              // What was already sent can still be read.
              shutdown(peer, SHUT_WR);
              std::string got;
              for (int ch; (ch = is.get()) != EOF;) got += (char)ch;
              std::string want;
              for (size_t i = 0; i < pending.size(); ++i) {
                if (pending[i] == '\r') {
                  if (++i == pending.size()) break;
                }
                want += pending[i];
              }
              c.check(got == want, "read_to_end", "read %s to the end, expected %s", Show(got).c_str(), Show(want).c_str());
              pending.clear();
              is.clear();
              c.check(is.get() == EOF, "eof_stays", "characters after the end");
              is.clear();
              c.ev("read_to_end");
              Drain(peer);
              close(peer);
              peer_open = false;
              // Writing now fails.
              os.clear();
              os.put('x');
              c.check(!os.good(), "write_error", "writing to a closed connection succeeded");
              c.ev("failed_writes");
            } else {
              c.op("overflow(EOF)");
              sb.pubsync();
              struct Open : SocketStreambuf {
                static int over(SocketStreambuf& s) { return (s.*&Open::overflow)(EOF); }
              };
              Open::over(sb);
              // Nothing is to be written, and the descriptor is not the stream's to close.
              c.check(fcntl(fd[0], F_GETFD) != -1, "closed", "the descriptor was closed though its owner still uses it");
              c.check(Drain(peer).empty(), "eof_written", "the end of the stream was written as a character");
              c.ev("eof_overflows");
            }
          }
      }
    }
    if (peer_open) Drain(peer);
    sb.~SocketStreambuf();
    c.check(fcntl(fd[0], F_GETFD) != -1, "closed", "destroying the stream closed the descriptor of its owner");
    // The owner can still use the connection, also with another stream.
    if (peer_open) {
      SocketStreambuf again(fd[0]);
      std::ostream os2(&again);
      os2 << "more";
      c.check(os2.good() && Drain(peer) == "more", "closed", "the connection cannot be used any more");
    }
    close(fd[0]);
    if (peer_open) {
      c.check(Eof(peer), "not_closed", "the peer does not see the end");
      close(peer);
    }
    // Let the scope destroy a stream without descriptor.
    new (&sb) SocketStreambuf(-1);
  }
  c.ev("streams");
  c.nontrivial();
}
