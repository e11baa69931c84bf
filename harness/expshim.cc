// Linked into the experiments (with --wrap=bind,--wrap=connect): moves their
// ports by VERIF_PORT_OFFSET, so that several can run at the same time, and
// notes the use of the network in the file VERIF_NET_LOG.
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" {
int __real_bind(int, const sockaddr*, socklen_t);
int __real_connect(int, const sockaddr*, socklen_t);

static void note(const char* what) {
  const char* f = getenv("VERIF_NET_LOG");
  if (!f) return;
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) {
    (void)!write(fd, what, strlen(what));
    close(fd);
  }
}

static bool moved(const sockaddr* a, socklen_t n, sockaddr_in* out) {
  const char* o = getenv("VERIF_PORT_OFFSET");
  if (!o || n < sizeof *out || a->sa_family != AF_INET) return false;
  memcpy(out, a, sizeof *out);
  unsigned p = ntohs(out->sin_port);
  if (p) out->sin_port = htons((unsigned short)(p + (unsigned)atoi(o)));
  return true;
}

int __wrap_bind(int fd, const sockaddr* a, socklen_t n) {
  sockaddr_in m;
  note("bind\n");
  if (moved(a, n, &m)) return __real_bind(fd, (sockaddr*)&m, sizeof m);
  return __real_bind(fd, a, n);
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) {
  sockaddr_in m;
  if (moved(a, n, &m)) return __real_connect(fd, (sockaddr*)&m, sizeof m);
  return __real_connect(fd, a, n);
}
}
