// A range of TCP ports for this process: a slot of 1024 ports, reserved by
// binding an abstract unix socket, so that harnesses running at the same time
// do not meet.
#ifndef VERIF_PORTS_H
#define VERIF_PORTS_H

#include <netinet/in.h>
#include <cstddef>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#include "mon.h"

namespace ports {

constexpr unsigned kFirst = 9000, kSlot = 1024, kSlots = 22;  // up to 31528

// Nobody listens there, and a listener like the library's can be made (closed
// connections of an earlier run do not matter to it).
inline bool port_free(unsigned port) {
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons((unsigned short)port);
  int one = 1;
  for (int option : {SO_REUSEADDR, SO_REUSEPORT}) {
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    if (fd < 0) return false;
    setsockopt(fd, SOL_SOCKET, option, &one, sizeof one);
    a.sin_addr.s_addr = htonl(INADDR_ANY);
    bool ok = bind(fd, (sockaddr*)&a, sizeof a) == 0;
    close(fd);
    if (ok && option == SO_REUSEADDR) return true;
    if (!ok && option == SO_REUSEPORT) return false;
  }
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  if (fd < 0) return false;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  bool taken = connect(fd, (sockaddr*)&a, sizeof a) == 0;
  close(fd);
  return !taken;
}

inline unsigned base() {
  static unsigned b = [] {
    unsigned start = (unsigned)(mon::base_seed() % kSlots);
    for (int round = 0; round < 600; round++) {
      for (unsigned k = 0; k < kSlots; k++) {
        unsigned slot = (start + k) % kSlots;
        int fd = socket(AF_UNIX, SOCK_STREAM, 0);
        if (fd < 0) mon::broken("no unix socket");
        sockaddr_un u{};
        u.sun_family = AF_UNIX;
        int len = std::snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "verif-ports-%u", slot);
        if (bind(fd, (sockaddr*)&u, (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + len)) == 0) {
          bool ok = true;
          for (unsigned p = 0; p < kSlot && ok; p++) ok = port_free(kFirst + slot * kSlot + p);
          if (ok) return kFirst + slot * kSlot;  // the socket stays open
        }
        close(fd);
      }
      usleep(100000);
    }
    mon::broken("no free ports");
  }();
  return b;
}

}  // namespace ports

#endif
