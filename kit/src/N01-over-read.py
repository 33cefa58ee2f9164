PROP = "N01"
NEEDS = "a message that arrives in pieces, directly followed by another one"
BREAKS = "each retry reads as many bytes as the whole message has, so that it takes bytes of the next message and writes past the buffer"
EDITS = [("core/federated/network/net_util.c", "ssize_t more = read(socket, buffer + bytes_read, num_bytes - (size_t)bytes_read);",
          "ssize_t more = read(socket, buffer + bytes_read, num_bytes);")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <pthread.h>
#include <sys/socket.h>
static int p[2];
static void setup(void) {}
static void* feed(void* x) {
  (void)!write(p[1], "abc", 3);
  usleep(200000);
  (void)!write(p[1], "defghXYZ", 8);
  return x;
}
int main() {
  alarm(20);
  unsigned char b[32] = {0}, c[4] = {0};
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  pthread_t t;
  pthread_create(&t, NULL, feed, NULL);
  CHECK(read_from_socket(p[0], 8, b) == 0, "read");
  CHECK(memcmp(b, "abcdefgh", 9) == 0, "got '%s'", b);
  pthread_join(t, NULL);
  shutdown(p[1], SHUT_WR);
  CHECK(read_from_socket(p[0], 3, c) == 0 && !memcmp(c, "XYZ", 3), "the next message is gone");
  return 0;
}
"""
