// Sockets played by the harness: linked with --wrap for the calls below, so
// that code under test talks to a Peer in the same thread.  Real descriptors
// pass through.
#ifndef VERIF_FAKE_NET_H_
#define VERIF_FAKE_NET_H_
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <unistd.h>

#include <deque>
#include <map>
#include <string>

#include "pbt.h"

namespace fakenet {

constexpr int kFirst = 1000000;

// The other end of a connection.
struct Peer {
  virtual ~Peer() = default;
  // The code under test waits for input: append to `in`, or set one of the
  // flags.
  virtual void OnWait() = 0;
  std::string in;   // to the code under test
  std::string out;  // from the code under test
  bool eof = false;     // no more input will come
  bool closed = false;  // the peer is gone: writes fail as well
  bool reset = false;   // reads fail
  long idle_reads = 0;
};

enum class Use { kFree, kListen, kConn, kOther };
struct Fd {
  Use use = Use::kFree;
  Peer* peer = nullptr;
};

struct Net {
  std::map<int, Fd> fds;
  std::string failure;  // first misuse
  Peer* next_peer = nullptr;
  bool reuse = true;  // freed descriptors are taken by other files at once
  int fail_socket = 0, fail_setsockopt = 0, fail_bind = 0, fail_listen = 0, fail_accept = 0;
  int port = -1;
  bool nagle = false;

  void Fail(const std::string& s) {
    if (failure.empty()) failure = s;
  }
  int Open(Use u, Peer* p = nullptr) {
    int fd = kFirst;
    while (fds[fd].use != Use::kFree) fd++;
    fds[fd] = {u, p};
    return fd;
  }
  int OpenBy(Use u) const {
    int n = 0;
    for (auto& [fd, f] : fds) n += f.use == u;
    return n;
  }
  // Checks a use of a descriptor by the code under test.
  Fd* Get(int fd, const char* what) {
    auto it = fds.find(fd);
    if (it == fds.end() || it->second.use == Use::kFree) {
      Fail(std::string(what) + " of a descriptor that is not open");
      return nullptr;
    }
    if (it->second.use == Use::kOther) {
      Fail(std::string(what) + " of a descriptor that now belongs to another file");
      return nullptr;
    }
    return &it->second;
  }
};

inline Net* net = nullptr;
inline bool Mine(int fd) { return net != nullptr && fd >= kFirst; }

inline ssize_t Read(int fd, void* buf, size_t n) {
  Fd* f = net->Get(fd, "read");
  if (f == nullptr || f->peer == nullptr) {
    errno = EBADF;
    return f == nullptr ? 0 : -1;
  }
  Peer& p = *f->peer;
  if (p.in.empty() && !p.eof && !p.reset && !p.closed) p.OnWait();
  if (!p.in.empty()) {
    size_t k = std::min(n, p.in.size());
    memcpy(buf, p.in.data(), k);
    p.in.erase(0, k);
    return k;
  }
  if (++p.idle_reads > 100000) {
    net->Fail("the connection has ended, but is read for ever");
    fprintf(stderr, "the connection has ended, but is read for ever\n");
    abort();
  }
  if (p.reset) {
    errno = ECONNRESET;
    return -1;
  }
  return 0;
}

inline ssize_t Write(int fd, const void* buf, size_t n, bool nosignal) {
  Fd* f = net->Get(fd, "write");
  if (f == nullptr || f->peer == nullptr) {
    errno = EBADF;
    return -1;
  }
  Peer& p = *f->peer;
  if (p.closed || p.reset) {
    if (!nosignal) net->Fail("a write to a connection closed by the client would raise SIGPIPE");
    errno = EPIPE;
    return -1;
  }
  p.out.append(static_cast<const char*>(buf), n);
  return n;
}
}  // namespace fakenet

extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
int __real_close(int);
int __real_shutdown(int, int);
int __real_fcntl(int, int, ...);

ssize_t __wrap_read(int fd, void* b, size_t n) {
  return fakenet::Mine(fd) ? fakenet::Read(fd, b, n) : __real_read(fd, b, n);
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) {
  return fakenet::Mine(fd) ? fakenet::Read(fd, b, n) : __real_recv(fd, b, n, fl);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  return fakenet::Mine(fd) ? fakenet::Write(fd, b, n, false) : __real_write(fd, b, n);
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) {
  return fakenet::Mine(fd) ? fakenet::Write(fd, b, n, (fl & MSG_NOSIGNAL) != 0)
                           : __real_send(fd, b, n, fl);
}
int __wrap_close(int fd) {
  if (!fakenet::Mine(fd)) return __real_close(fd);
  if (fakenet::net->Get(fd, "close") == nullptr) {
    errno = EBADF;
    return -1;
  }
  fakenet::net->fds[fd] = {};
  if (fakenet::net->reuse) fakenet::net->Open(fakenet::Use::kOther);
  return 0;
}
int __wrap_shutdown(int fd, int how) {
  if (!fakenet::Mine(fd)) return __real_shutdown(fd, how);
  if (fakenet::net->Get(fd, "shutdown") == nullptr) {
    errno = EBADF;
    return -1;
  }
  return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!fakenet::Mine(fd)) return __real_fcntl(fd, cmd, arg);
  auto it = fakenet::net->fds.find(fd);
  if (it == fakenet::net->fds.end() || it->second.use == fakenet::Use::kFree) {
    errno = EBADF;
    return -1;
  }
  return 0;
}
int __wrap_socket(int, int, int) {
  auto* n = fakenet::net;
  if (n->fail_socket && --n->fail_socket == 0) {
    errno = EMFILE;
    return -1;
  }
  return n->Open(fakenet::Use::kListen);
}
int __wrap_setsockopt(int fd, int, int, const void*, socklen_t) {
  auto* n = fakenet::net;
  if (fd < 0 || (n->fail_setsockopt && --n->fail_setsockopt == 0)) {
    errno = EBADF;
    return -1;
  }
  return 0;
}
int __wrap_bind(int fd, const struct sockaddr*, socklen_t) {
  auto* n = fakenet::net;
  if (fd < 0 || (n->fail_bind && --n->fail_bind == 0)) {
    errno = EADDRINUSE;
    return -1;
  }
  return 0;
}
int __wrap_listen(int fd, int) {
  auto* n = fakenet::net;
  if (fd < 0 || (n->fail_listen && --n->fail_listen == 0)) {
    errno = EADDRINUSE;
    return -1;
  }
  return 0;
}
int __wrap_accept(int fd, struct sockaddr*, socklen_t*) {
  auto* n = fakenet::net;
  if (n->Get(fd, "accept") == nullptr || (n->fail_accept && --n->fail_accept == 0)) {
    errno = ECONNABORTED;
    return -1;
  }
  return n->Open(fakenet::Use::kConn, n->next_peer);
}
}  // extern "C"
#endif  // VERIF_FAKE_NET_H_
