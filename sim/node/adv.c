/* A process that is not part of the federation. It performs the socket operations that the simulator hands to it. */
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/time.h>
#include <unistd.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
extern int sim_adv_next(int64_t* a, unsigned char* buf, int* n);
extern void sim_adv_result(int op, int r, const void* data, int n);
int node_main(int argc, char** argv) {
  int fd = -1, srv = -1;
  int64_t a;
  int n, op;
  static unsigned char buf[4096];
  struct sockaddr_in in;
  while ((op = sim_adv_next(&a, buf, &n))) {
    int r = 0;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = htons((uint16_t)a);
    in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    switch (op) {
    case 1: {
      struct timespec t = {a / 1000000000, a % 1000000000};
      nanosleep(&t, NULL);
      break;
    }
    case 2:
      if (fd >= 0) close(fd);
      fd = socket(AF_INET, SOCK_STREAM, 0);
      r = connect(fd, (struct sockaddr*)&in, sizeof in);
      sim_adv_result(op, r, NULL, 0);
      break;
    case 3:
      for (int k = 0; k < n && fd >= 0;) {
        r = (int)write(fd, buf + k, (size_t)(n - k));
        if (r <= 0) break;
        k += r;
      }
      sim_adv_result(op, r, NULL, 0);
      break;
    case 4: {
      struct timeval tv = {a / 1000000000, (a % 1000000000) / 1000 + 1};
      if (fd < 0) break;
      setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
      int k = 0;
      while (k < n && (r = (int)read(fd, buf + k, (size_t)(n - k))) > 0) k += r;
      sim_adv_result(op, r, buf, k);
      break;
    }
    case 5:
      if (fd >= 0) close(fd);
      fd = -1;
      break;
    case 7: {
      srv = socket(AF_INET, SOCK_STREAM, 0);
      r = bind(srv, (struct sockaddr*)&in, sizeof in);
      if (r == 0) r = listen(srv, 128);
      break;
    }
    case 8: {
      struct timeval tv = {a / 1000000000, (a % 1000000000) / 1000 + 1};
      struct sockaddr c;
      socklen_t l = sizeof c;
      setsockopt(srv, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
      if (fd >= 0) close(fd);
      fd = accept(srv, &c, &l);
      sim_adv_result(op, fd, NULL, 0);
      break;
    }
    }
  }
  if (fd >= 0) close(fd);
  if (srv >= 0) close(srv);
  return 0;
}
